"""Shows that a seed fixes a run: python3 tools/determinism.py [CHECK ...] [N]
Runs the same N seeds of each check in two differently started interpreters
(other hash seed, seeds in the opposite order, another process environment)
and compares the digests of everything that happened.  Development only."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def child(cid, n, backwards):
    sys.path.insert(0, HERE)
    import importlib
    from sim import core
    from sim import runner
    ex = runner.Executor(
        importlib.import_module('checks.' + cid.lower()).Check())
    order = range(n)
    for i in (reversed(order) if backwards else order):
        print('%d %s' % (i, ex.run(seed=core.mix('D', i)).hash), flush=True)


def main(argv):
    if argv and argv[0] == '--child':
        return child(argv[1], int(argv[2]), argv[3] == '1')
    n = 100
    if argv and argv[-1].isdigit():
        n = int(argv.pop())
    bad = 0
    for cid in argv or ['C%02d' % i for i in range(1, 20)]:
        if not os.path.exists(os.path.join(HERE, 'checks',
                                           cid.lower() + '.py')):
            continue
        procs = []
        for back, seed in (('0', '0'), ('1', '4711')):
            env = dict(os.environ, PYTHONHASHSEED=seed, LC_ALL='C.UTF-8',
                       TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
            if back == '1':
                env['SOMETHING_ELSE'] = 'x' * 1000
            procs.append(subprocess.Popen(
                [PY, '-W', 'ignore', os.path.abspath(__file__), '--child',
                 cid, str(n), back], env=env, stdout=subprocess.PIPE))
        a, b = [dict(line.split() for line in
                     p.communicate()[0].decode().splitlines())
                for p in procs]
        diff = [i for i in sorted(a, key=int) if a[i] != b.get(i)]
        bad += len(diff) + (len(a) != n) + (len(b) != n)
        print('%s: %d runs, %d differ %s' % (cid, len(a), len(diff),
                                             diff[:5]), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
