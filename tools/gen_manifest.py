"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
WHAT = {
    'C01': 'simulated processes and threads contending for the real Lock, '
           'seeded pre-emption at every statement, mutual-exclusion invariant',
    'C02': 'simulated disk with crash and power-loss semantics, old-or-new '
           'oracle at every recovery',
    'C03': 'concurrent histories over simulated processes checked for '
           'linearizability against a map',
    'C04': 'simulated process table, clock jumps and crashes around the lock; '
           'bounded progress once faults stop',
    'C05': 'fault injection at every simulated system call, differential '
           'against a fault-free model',
    'C06': 'simulated fragmenting and disconnecting byte stream against '
           'in-memory parsing and an independent packet framer',
    'C07': 'simulated sender, corrupting channel and receiver; exact-or-error '
           'oracle',
    'C08': 'simulated text channel with burst, line and truncation faults; '
           'exact-or-error oracle',
    'C09': 'simulated signer, clock, random source and corrupting channel; '
           'genuine-verifies / altered-fails oracle',
    'C10': 'simulated sender and recipients with adversarial random sources; '
           'delivery oracle',
    'C11': 'simulated random source with stuck, repeating and failing draws; '
           'wire-tap oracle over histories',
    'C12': 'histories of unlock/lock/use with damage and failures injected, '
           'state oracle after every step',
    'C13': 'simulated HKP server and faulty network behind the HTTP client; '
           'exact-or-error oracle',
    'C14': 'simulated gpg-agent over a fragmenting, failing socket with '
           'virtual time; exact-or-error and no-hang oracle',
    'C15': 'simulated user (typos, interrupts) and clock; reference-model '
           'oracle over histories',
    'C16': 'simulated clock, time zone database and jumps; invariance and '
           'expiry oracle',
    'C17': 'concurrent simulated processes over several keyrings; reference '
           'model of routing and search',
    'C18': 'seeded statement-level pre-emption of library threads; '
           'differential against a sequential run',
}
NA = {
    'C20': 'a pure function of its input bytes: no schedule, clock, I/O or '
           'fault for a simulator to vary (the stream side of it is C06)',
    'C21': 'a pure function of key, IV and data; nothing for a simulator to '
           'vary (its concurrent use is C18, its use over a channel C07/C10)',
    'C22': 'a pure function of passphrase and parameters; nothing for a '
           'simulator to vary',
    'C23': 'a pure string parser; nothing for a simulator to vary',
    'C24': 'a pure function of two keys; pgp.merge takes no I/O, time or '
           'concurrency (and raises NameError/AttributeError on every '
           'non-trivial input at this commit, see DESIGN.md)',
    'C25': 'a pure function of keys and signatures; pgp.'
           'signature_verification cannot run at this commit (see DESIGN.md) '
           'and depends on no schedule, I/O or fault',
}


def main():
    checks, na = [], []
    for n in range(1, 26):
        p = 'C%02d' % n
        if p in NA:
            na.append({'property': p, 'reason': NA[p]})
        elif os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': 'python3 check.py %s --tier quick' % p,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': TECH + WHAT[p],
                'level': 'exploration',
                'level_note': 'seeded sampling of schedules, faults and '
                              'inputs: evidence over the runs made, not '
                              'proof; bounds and stubs are listed in '
                              'DESIGN.md and in the evidence file'})
        elif p in WHAT:
            na.append({'property': p, 'reason': 'no check built yet'})
    m = {'version': 1,
         'setup_cmd': 'python3 tools/setup.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks were added to /repo: the seams are the standard '
                  'library and PyCrypto functions the library calls, replaced '
                  'inside the checking process (sim/seams.py).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
