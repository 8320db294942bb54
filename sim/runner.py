"""Seeded search, shrinking, replay and evidence for one property."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from sim import core            # noqa: E402
from sim import load            # noqa: E402
from sim import seams           # noqa: E402

REPLAY_DIR = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.json')
CPU_LIMIT = 60                  # CPU seconds one run may take (normally ~ms)


def real(name, default):
    return seams.REAL.get(name, default)


def now():
    import time
    return real('time.monotonic', time.monotonic)()


class Run(object):
    """What one simulated execution produced."""

    def __init__(self):
        self.violation = None       # core.Violation
        self.values = []
        self.labels = []
        self.log = []
        self.hash = ''
        self.shape = ''
        self.sim_seconds = 0.0
        self.steps = 0
        self.faults = {}
        self.probes = {}
        self.nontrivial = True
        self.sample = ''

    @classmethod
    def of(cls, ch, sim=None, violation=None, nontrivial=True, sample=''):
        r = cls()
        r.values = list(ch.values)
        r.labels = list(ch.labels)
        r.nontrivial = nontrivial
        r.sample = sample
        r.violation = violation
        if sim is not None:
            if sim.harness_errors:
                raise core.HarnessError(sim.harness_errors[0])
            r.violation = r.violation or sim.violation
            r.log = sim.log
            r.hash = sim.hash.hexdigest()
            r.shape = sim.shape.hexdigest()
            r.sim_seconds = sim.now - 1000.0
            r.steps = sim.steps
            r.faults = dict(sim.fault_counts)
            r.probes = dict(sim.probes)
        return r


def add_counts(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def library_raised(error):
    """A violation if `error` came out of the library unexpectedly: the
    innermost code of this framework had called into the repository. None if
    the error is the framework's own."""
    if isinstance(error, core.HarnessError):
        text = str(error)
    else:
        text = ''.join(traceback.format_exception(
            type(error), error, error.__traceback__))
    inside = False
    for line in text.splitlines():
        if not line.startswith('  File "'):
            continue
        if line.startswith('  File "%s/' % HERE):
            inside = False
        elif line.startswith('  File "%s/pgp/' % load.REPO):
            inside = True
    if not inside:
        return None
    return core.Violation('library-raised',
                          'the library raised an error no caller has to '
                          'expect:\n' + text[-1500:])


def on_alarm(signum, frame):
    raise core.Hang('no progress within %d CPU seconds' % CPU_LIMIT)


class Executor(object):
    """Runs one check's executions inside this process."""

    def __init__(self, check):
        self.check = check
        check.setup()
        self.count = 0
        signal.signal(signal.SIGVTALRM, lambda *a: on_alarm(*a))

    def run(self, seed=None, recorded=None):
        ch = core.Choices(seed, recorded)
        core.LAST = None
        seams.reset_run()
        load.thaw()
        gc.disable()
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            try:
                r = self.check.run(ch)
            except core.Violation as v:
                if core.LAST is not None:
                    core.LAST.event('VIOLATION', v.kind, v.message)
                r = Run.of(ch, core.LAST, v)
            except core.Hang as h:
                r = Run.of(ch, None, core.Violation('hang', str(h)))
            except Exception as e:
                v = library_raised(e)
                if v is None:
                    raise
                r = Run.of(ch, core.LAST, v)
        finally:
            left = signal.setitimer(signal.ITIMER_VIRTUAL, 0)[0]
            self.cpu = round(CPU_LIMIT - left, 2) if left else CPU_LIMIT
            core.ACTIVE = None
            self.count += 1
            gc.enable()
            if self.count % getattr(self.check, 'gc_every', 20) == 0:
                gc.collect()
        if not r.hash:
            r.hash = hashlib.sha256(repr(r.values).encode()).hexdigest()
        if not r.shape:
            r.shape = r.hash
        return r


def shrink(ex, first, kind, seconds=60, log=None):
    """Minimise the recorded choice sequence while the same class of
    violation persists."""
    best = first
    start = now()
    tried = [0]
    key = ex.check.finding_key

    def attempt(values):
        tried[0] += 1
        r = ex.run(recorded=values)
        if r.violation is not None and r.violation.kind == kind and \
                key(r.violation) == key(first.violation):
            # only accept what is really smaller
            v = list(r.values)
            while v and v[-1] == 0:
                v.pop()
            b = list(best.values)
            while b and b[-1] == 0:
                b.pop()
            if (len(v), sum(1 for x in v if x), sum(v)) < \
                    (len(b), sum(1 for x in b if x), sum(b)):
                return r
        return None

    def left():
        return seconds - (now() - start)

    improved = True
    while improved and left() > 0:
        improved = False
        # cut the tail
        vals = list(best.values)
        size = len(vals) // 2
        while size and left() > 0:
            r = attempt(best.values[:len(best.values) - size])
            if r is not None:
                best = r
                improved = True
            else:
                size //= 2
        # delete blocks
        size = max(1, len(best.values) // 2)
        while size and left() > 0:
            i = 0
            while i < len(best.values) and left() > 0:
                v = list(best.values)
                r = attempt(v[:i] + v[i + size:])
                if r is not None:
                    best = r
                    improved = True
                else:
                    i += size
            size //= 2
        # zero blocks, then shrink single values
        size = max(1, len(best.values) // 2)
        while size and left() > 0:
            i = 0
            while i < len(best.values) and left() > 0:
                v = list(best.values)
                if any(v[i:i + size]):
                    r = attempt(v[:i] + [0] * len(v[i:i + size]) +
                                v[i + size:])
                    if r is not None:
                        best = r
                        improved = True
                i += size
            size //= 2
        i = 0
        while i < len(best.values) and left() > 0:
            v = list(best.values)
            if v[i] > 1:
                for smaller in (1, v[i] // 2, v[i] - 1):
                    if smaller < v[i]:
                        w = list(best.values)
                        if i >= len(w):
                            break
                        w[i] = smaller
                        r = attempt(w)
                        if r is not None:
                            best = r
                            improved = True
                            break
            i += 1
    return best, tried[0]


def known_findings(prop):
    try:
        with real('open', open)(KNOWN) as fh:
            data = json.load(fh)
    except (IOError, OSError):
        return []
    return [f for f in data.get('findings', ()) if f.get('property') == prop]


def load_check(prop):
    mod = importlib.import_module('checks.' + prop.lower())
    return mod.Check()


# -- worker ------------------------------------------------------------------


def worker(check, seed, indices, pipe, deadline, tier, max_viol=1):
    """Child process: runs its share, writes pickled results to the pipe."""
    def send(obj):
        data = pickle.dumps(obj)
        data = struct.pack('>I', len(data)) + data
        w = real('os.write', os.write)
        while data:
            n = w(pipe, data)
            data = data[n:]
    try:
        ex = Executor(check)
        known = [f['key'] for f in known_findings(check.id)]
        agg = {'runs': 0, 'faults': {}, 'probes': {}, 'sim': 0.0, 'steps': 0,
               'shapes': set(), 'nontrivial': 0, 'samples': [],
               'checked': 0, 'mismatch': 0, 'known': {}, 'cut': False,
               'harness': [], 'slowest': (0, 0)}
        for idx in indices:
            if now() > deadline:
                agg['cut'] = True
                break
            s = core.mix(check.id, seed, idx)
            try:
                r = ex.run(seed=s)
            except core.SimStop:
                raise RuntimeError('SimStop escaped')
            except Exception:
                agg['harness'].append('run %d seed %d\n%s' % (
                    idx, s, traceback.format_exc()))
                if len(agg['harness']) > 3:
                    break
                continue
            agg['runs'] += 1
            agg['slowest'] = max(agg['slowest'], (ex.cpu, idx))
            agg['sim'] += r.sim_seconds
            agg['steps'] += r.steps
            add_counts(agg['faults'], r.faults)
            add_counts(agg['probes'], r.probes)
            if r.nontrivial:
                agg['nontrivial'] += 1
                agg['shapes'].add(r.shape[:16])
            if len(agg['samples']) < 2 and r.nontrivial and idx % 7 == 0:
                agg['samples'].append({
                    'index': idx, 'seed': s, 'what': r.sample,
                    'log_tail': r.log[-12:], 'choices': len(r.values)})
            if r.violation is not None:
                key = check.finding_key(r.violation)
                if key in known:
                    agg['known'][key] = agg['known'].get(key, 0) + 1
                    continue
                send(('violation', {
                    'index': idx, 'seed': s, 'kind': r.violation.kind,
                    'key': key, 'message': r.violation.message,
                    'values': r.values}))
                if r.violation.kind != 'hang':
                    best, tried = shrink(ex, r, r.violation.kind,
                                         int(os.environ.get(
                                             'VERIF_SHRINK_S', 0)) or
                                         (60 if tier == 'quick' else 180))
                else:
                    best, tried = r, 0
                send(('minimised', {
                    'index': idx, 'seed': s, 'kind': best.violation.kind,
                    'key': key, 'message': best.violation.message,
                    'values': best.values, 'labels': best.labels,
                    'log': best.log, 'hash': best.hash, 'tried': tried,
                    'first_values': r.values, 'first_hash': r.hash}))
                break
            if idx % 40 == 3:
                # replay a sample of the runs: same choices, same log
                agg['checked'] += 1
                again = ex.run(recorded=r.values)
                if again.hash != r.hash:
                    agg['mismatch'] += 1
                    if len(agg['harness']) < 2 and os.environ.get(
                            'VERIF_DEBUG'):
                        diff = [(a, b) for a, b in zip(r.log, again.log)
                                if a != b][:3]
                        sys.stderr.write('mismatch %d: %r\n' % (idx, diff))
        send(('done', agg))
    except BaseException:
        send(('crashed', traceback.format_exc()))
    finally:
        os._exit(0)


def read_all(fds, deadline, on_msg):
    bufs = {fd: b'' for fd in fds}
    rd = real('os.read', os.read)
    while bufs:
        left = deadline - now()
        if left <= 0:
            return False
        ready, _, _ = select.select(list(bufs), [], [], min(left, 5))
        for fd in ready:
            data = rd(fd, 1 << 16)
            if not data:
                del bufs[fd]
                continue
            bufs[fd] += data
            while len(bufs[fd]) >= 4:
                n = struct.unpack('>I', bufs[fd][:4])[0]
                if len(bufs[fd]) < 4 + n:
                    break
                msg = pickle.loads(bufs[fd][4:4 + n])
                bufs[fd] = bufs[fd][4 + n:]
                if on_msg(fd, msg):
                    return True
    return True


def explore(check, tier, seed, workers=None, runs=None, quiet=False):
    start = now()
    n = runs if runs is not None else check.runs[tier]
    workers = workers or min(8, os.cpu_count() or 1, max(1, n))
    limit = check.wall[tier]
    kids = {}
    for w in range(workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(check, seed, range(w, n, workers), wr, now() + limit, tier)
        os.close(wr)
        kids[r] = pid
    total = {'runs': 0, 'faults': {}, 'probes': {}, 'sim': 0.0, 'steps': 0,
             'shapes': set(), 'nontrivial': 0, 'samples': [], 'checked': 0,
             'mismatch': 0, 'known': {}, 'cut': False, 'harness': [],
             'slowest': (0, 0)}
    found = {}
    crashed = []

    def on_msg(fd, msg):
        kind, body = msg
        if kind == 'violation':
            found.setdefault(body['index'], {}).update(first=body)
            # the others need not go on
        elif kind == 'minimised':
            found.setdefault(body['index'], {}).update(min=body)
            return True
        elif kind == 'done':
            for k in ('runs', 'sim', 'steps', 'nontrivial', 'checked',
                      'mismatch'):
                total[k] += body[k]
            add_counts(total['faults'], body['faults'])
            add_counts(total['probes'], body['probes'])
            add_counts(total['known'], body['known'])
            total['shapes'] |= body['shapes']
            total['samples'].extend(body['samples'])
            total['cut'] = total['cut'] or body['cut']
            total['slowest'] = max(total['slowest'], body['slowest'])
            total['harness'].extend(body['harness'])
        elif kind == 'crashed':
            crashed.append(body)
        return False

    read_all(list(kids), start + limit + 2 * CPU_LIMIT + 240, on_msg)
    kill = real('os.kill', os.kill)
    for pid in kids.values():
        try:
            kill(pid, signal.SIGKILL)
        except OSError:
            pass
    for r, pid in kids.items():
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    total['wall'] = now() - start
    total['found'] = found
    total['crashed'] = crashed
    total['workers'] = workers
    total['planned'] = n
    return total


# -- replay -----------------------------------------------------------------------


def write_replay(check, tier, seed, m):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    path = os.path.join(REPLAY_DIR, '%s-%d-%d.json' % (
        check.id, seed, m['index']))
    trace = [[l, v] for l, v in zip(m['labels'], m['values'])]
    with real('open', open)(path, 'w') as fh:
        json.dump({
            'property': check.id, 'verif_seed': seed, 'tier': tier,
            'run_index': m['index'], 'run_seed': m['seed'],
            'violation': {'kind': m['kind'], 'message': m['message'],
                          'key': m['key']},
            'choices': m['values'],
            'choice_trace': trace,
            'event_hash': m['hash'],
            'shrink_attempts': m['tried'],
            'original_choices': m['first_values'],
            'events': m['log'],
            'replay_with': 'python check.py %s --replay %s' % (
                check.id, path),
        }, fh, indent=1)
        fh.write('\n')
    return path


def replay(check, path, verbose=True):
    with real('open', open)(path) as fh:
        data = json.load(fh)
    ex = Executor(check)
    r = ex.run(recorded=data['choices'])
    if verbose:
        for line in r.log:
            print(line)
    same = r.violation is not None and \
        r.violation.kind == data['violation']['kind']
    exact = same and r.hash == data['event_hash']
    if r.violation is not None:
        print('replayed: %s' % r.violation)
    else:
        print('replayed: no violation')
    print('same violation: %s, identical events: %s' % (same, exact))
    return r, same, exact


def fresh_replay(check, path):
    """Replay in a fresh interpreter; True if the same violation returns."""
    import subprocess
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, 'check.py'), check.id,
             '--replay', path, '--brief'],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
            env=env)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    out = p.stdout.decode('utf8', 'replace')
    return p.returncode == 1, out


# -- command line -----------------------------------------------------------------------


def evidence(check, tier, seed, total, violations):
    hours = max(total['wall'], 1e-6) / 3600.0
    return {
        'property': check.id, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(total['shapes']),
            'rule': check.rule,
            'samples': total['samples'][:6],
            'runs_planned': total['planned'],
            'slowest_run_cpu_seconds_and_index': total['slowest'],
            'cut_short_by_wall_limit': total['cut'],
            'runs_per_hour': int(total['runs'] / hours),
            'seeds_per_hour': int(total['runs'] / hours),
            'simulated_seconds': round(total['sim'], 3),
            'scheduler_steps': total['steps'],
            'faults_injected': dict(sorted(total['faults'].items())),
            'probes': dict(sorted(total['probes'].items())),
            'distinct_measure': check.measure,
            'real_components': check.real_components,
            'stub_components': check.stub_components,
            'replayed_for_determinism': total['checked'],
            'replay_mismatches': total['mismatch'],
            'workers': total['workers'],
            'known_findings_hit': total['known'],
            'harness_errors': len(total['harness']) + len(total['crashed']),
        },
        'assumptions': check.assumptions,
        'wall_s': round(total['wall'], 2),
        'violations': violations,
    }


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--brief', action='store_true')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--index', type=int, help='execute one run, verbosely')
    ap.add_argument('--tier')
    args = ap.parse_args(argv)
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = core.mix(os.environ['VERIF_SEED']) >> 32
    prop = args.property.upper()
    check = load_check(prop)
    check.tier = tier

    if args.replay:
        r, same, exact = replay(check, args.replay, not args.brief)
        return 1 if same else 0

    if args.index is not None:
        ex = Executor(check)
        r = ex.run(seed=core.mix(check.id, seed, args.index))
        for line in r.log:
            print(line)
        print(r.sample)
        print('violation:', r.violation, r.probes, r.faults)
        return 0

    print('check %s tier=%s VERIF_SEED=%d' % (prop, tier, seed))
    sys.stdout.flush()
    total = explore(check, tier, seed, args.workers, args.runs)
    violations = []
    # those already minimised first
    for idx in sorted(total['found'],
                      key=lambda i: ('min' not in total['found'][i], i)):
        f = total['found'][idx]
        m = f.get('min')
        if m is None:
            b = f['first']
            m = dict(b, labels=[''] * len(b['values']), log=[], hash='',
                     tried=0, first_values=b['values'])
        violations.append(m)
    status = 0
    confirmed = 0
    unconfirmed = []
    for m in violations:
        path = write_replay(check, tier, seed, m)
        ok, out = fresh_replay(check, path)
        if not ok:
            # the minimised form did not come back: try the original
            m2 = dict(m, values=m['first_values'],
                      labels=[''] * len(m['first_values']),
                      hash=m.get('first_hash', ''))
            path = write_replay(check, tier, seed, m2)
            ok, out = fresh_replay(check, path)
        if ok:
            confirmed += 1
            print('violated: %s: %s' % (m['kind'], m['message']))
            print('run index %d, run seed %d, %d choices after %d shrinking '
                  'attempts' % (m['index'], m['seed'], len(m['values']),
                                m['tried']))
            for line in m['log'][-25:]:
                print('   ' + line)
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            status = 1
            break
        unconfirmed.append((m, out))
    ev = evidence(check, tier, seed, total, confirmed)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with real('open', open)(os.path.join(evdir, check.id + '.json'),
                            'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    for f in known_findings(check.id):
        if f['key'] in total['known'] or f.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (check.id, f['what']))
    print('%d runs, %d distinct, %.1f s simulated, %.1f s wall, faults %s' % (
        total['runs'], len(total['shapes']), total['sim'], total['wall'],
        json.dumps(dict(sorted(total['faults'].items())))))
    print('probes %s' % json.dumps(dict(sorted(total['probes'].items()))))
    if total['mismatch']:
        print('WARNING: %d of %d sampled runs did not replay identically' % (
            total['mismatch'], total['checked']))
    if status == 0:
        trouble = total['harness'] + total['crashed']
        if unconfirmed:
            print('HARNESS: a violation did not replay: %s\n%s' % (
                unconfirmed[0][0]['message'], unconfirmed[0][1]))
            return 2
        if trouble:
            print('HARNESS ERROR:\n' + '\n'.join(trouble[:3]))
            return 2
        if total['runs'] == 0:
            print('HARNESS ERROR: nothing ran')
            return 2
    return status
