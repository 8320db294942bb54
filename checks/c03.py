"""C03: a keyring behaves as one atomic map from key to key material."""
from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from checks import linear
from sim import core
from sim import keys


class Check(BaseCheck):

    id = 'C03'
    instrument = ('pgp.db',)
    runs = {'quick': 5000, 'thorough': 60000}
    rule = ('one run = a generated initial keyring (0-4 keys; old or new '
            'headers, trust packets, colliding short key ids, large keys), '
            '1-3 processes x 1-3 threads with shared or separate handles and '
            'at most 12 operations (add, update, delete, lookup by '
            'fingerprint / long / short id, membership, key list), pre-empted '
            'between any two statements of pgp.db and at every system call, '
            'some processes killed; the history plus the final file content '
            '(read by an independent parser) must be linearizable; '
            'non-trivial = at least two operations changed the keyring and '
            'two overlapped or two handles were used')
    real_components = ['pgp.db.gpg (Lock, Keyring)', 'pgp.packets',
                       'pgp.transferrable_keys']
    stub_components = ['file system (in memory)', 'process table, pids',
                       'clock and sleep', 'threads (greenlets) and locks',
                       'object addresses (id)']
    assumptions = ['keys have version 4 fingerprints',
                   'no other program writes the keyring without its lock']

    def load(self):
        import pgp.db.gpg                                 # noqa

    def run(self, ch):
        w = kc.World(ch, preempt=ch.pick([8, 20, 60, 300], 'preempt-mean'),
                     max_steps=60000,
                     step_cost=ch.pick([0.0005, 0.0005, 0.02, 0.5],
                                       'machine-speed'))
        sim = w.sim
        # in some runs keys replace each other without the file changing size
        steady = ch.chance(1, 4, 'steady')
        pool = [keys.spec(i, kind=0) for i in range(4)] if steady else \
            self.pool(ch)
        w.behind_link(ch)
        old = ch.chance(1, 2, 'old-headers')
        trust = ch.chance(1, 3, 'trust-packets')
        bulk = ch.pick([0, 0, 300, 3000, 0, 0, 300, 70000], 'bulk')
        n0 = ch.below(min(5, len(pool) + 1), 'initial-keys')
        first = 0
        absent = False
        if steady:
            old, trust, bulk, first = False, False, 0, 10
        initial = pool[:n0]
        if not initial and ch.chance(1, 2, 'no-file'):
            absent = True
            sim.probe('no-file-at-first')
        else:
            w.seed_file(initial, old=old, trust=trust, bulk=bulk,
                        version=first)
        state0 = frozenset((s.fp, tuple(s.content(first, bulk=bulk)))
                           for s in initial)
        if len(set(s.fp[-8:] for s in pool)) < len(pool):
            sim.probe('colliding-ids')
        ops = []
        version = [10]
        nproc = 1 + ch.below(3, 'processes')
        changed = [0]
        handles = [0]
        budget = [12]

        def perform(res, kind, spec, task):
            version[0] += 1
            v = version[0]
            uids, big = 1, 0
            if not steady:
                uids = 1 + ch.below(2, 'uids')
                big = ch.pick([0, 0, 0, 400], 'new-bulk')
            content = tuple(spec.content(v, uids, big))
            arg = {'add': (spec.fp, content), 'update': (spec.fp, content),
                   'delete': spec.fp, 'contains': spec.fp,
                   'keys': None}.get(kind)
            if kind == 'get':
                arg = ch.pick([spec.fp, spec.fp[-8:], spec.fp[-16:]],
                              'lookup-by') if spec.base[0] > 3 else spec.fp
                if ch.chance(1, 8, 'not-an-id'):
                    # other digits of the fingerprint identify nothing
                    n = ch.pick([8, 16], 'digits')
                    i = ch.below(len(spec.fp) - n, 'from')
                    arg = spec.fp[i:i + n]
            op = linear.Op(task.name, kind, arg, sim.steps)
            op.text = '%s %s v%d' % (kind, arg if kind == 'get'
                                     else spec.fp[-8:], v)
            ops.append(op)
            sim.event('call', op.text)
            try:
                if kind == 'add':
                    res.add_transferrable_key(w.key_object(spec, v, uids, big))
                    r = 'ok'
                elif kind == 'update':
                    res.update_transferrable_key(
                        w.key_object(spec, v, uids, big))
                    r = 'ok'
                elif kind == 'delete':
                    res.delete_transferrable_key(w.key_object(spec, v))
                    r = 'ok'
                elif kind == 'get':
                    k = res.get_transferrable_key(arg)
                    if k is None:
                        r = 'refused'
                    else:
                        c = w.content_of(k)
                        r = (keys.fingerprint(c[0][1]), c)
                elif kind == 'contains':
                    r = spec.fp in res
                else:
                    r = tuple(res.keys())
            except KeyError:
                r = 'refused'
                sim.probe('refused')
            except Exception as e:
                if isinstance(e, Violation) or core.is_harness_error(e):
                    raise
                raise Violation('operation-failed', '%s raised %s: %s' % (
                    op.text, type(e).__name__, e))
            op.result = r
            op.ret = sim.steps
            if r == 'ok':
                changed[0] += 1
            sim.event('return', op.text,
                      r if isinstance(r, (str, bool)) else
                      'found' if kind == 'get' else len(r))

        def open_handle(proc):
            try:
                handles[0] += 1
                return w.gpg(proc).get_resource(
                    w.spelling(proc), force=absent or
                    ch.chance(1, 4, 'force'))
            except Exception as e:
                if isinstance(e, Violation) or core.is_harness_error(e):
                    raise
                raise Violation('open-failed', 'opening raised %s: %s' % (
                    type(e).__name__, e))

        for p in range(nproc):
            proc = w.process('p%d' % p)
            shared = ch.chance(1, 2, 'shared-handle')
            cell = {}

            def get_handle(proc=proc, cell=cell, shared=shared):
                if not shared:
                    return open_handle(proc)
                if cell.get('opening'):
                    sim.block(lambda: 'res' in cell, None, 'opening')
                else:
                    cell['opening'] = True
                    cell['res'] = open_handle(proc)
                return cell['res']
            for t in range(1 + ch.below(3, 'threads')):
                script = []
                for _ in range(1 + ch.below(4, 'ops')):
                    if budget[0] <= 0:
                        break
                    budget[0] -= 1
                    kind = ch.pick(['get', 'add', 'delete'], 'op') \
                        if steady else ch.weighted([
                        ('get', 5), ('update', 5), ('add', 5), ('delete', 4),
                        ('contains', 2), ('keys', 2)], 'op')
                    likely = pool[n0:] if kind == 'add' else initial
                    if not likely or ch.chance(1, 3, 'any-key'):
                        likely = pool
                    script.append((kind, likely[ch.below(len(likely),
                                                         'which-key')]))
                if not script:
                    continue

                def body(script=script, get_handle=get_handle):
                    res = get_handle()
                    for kind, spec in script:
                        perform(res, kind, spec, sim.current)
                sim.spawn(proc, body, 'p%d.t%d' % (p, t))
        if nproc > 1 and ch.chance(1, 4, 'kill'):
            k = 1 + ch.below(150, 'kill-at')
            victim = sim.procs[ch.below(nproc, 'victim')]

            def kill(kind):
                if any(not t.done for t in victim.tasks):
                    sim.fault('process-kill')
                    sim.kill(victim)
            w.crash_countdown(k, kill)
        sim.run()
        v = sim.violation
        if v is None and (sim.deadlock or sim.out_of_steps):
            v = Violation('no-progress', 'operations never finished: %s' % (
                sim.deadlock or 'step limit'))
        if v is None and sim.failed_tasks:
            t, e, tb = sim.failed_tasks[0]
            v = Violation('task-failed', '%s: %r' % (t.name, e))
        if v is None:
            v = self.judge(w, ops, state0, absent)
        overlap = any(a.ret is not None and b.call < a.ret and
                      a.call <= b.call and a.task != b.task
                      for a in ops for b in ops if a is not b)
        if overlap:
            sim.probe('overlapping-operations')
        return Run.of(ch, sim, v, changed[0] > 1 and
                      (overlap or handles[0] > 1),
                      '; '.join(o.text for o in ops))

    def judge(self, w, ops, state0, absent=False):
        sim = w.sim
        final = None
        try:
            final = w.file_keys()
        except ValueError as e:
            return Violation('damaged-file', 'the keyring ends up damaged: %s'
                             % e)
        if final is None and absent and not any(
                o.result == 'ok' for o in ops):
            final = {}
        if final is None:
            return Violation('damaged-file', 'the keyring disappeared')
        last = linear.Op('end', 'whole', None, sim.steps + 1)
        last.ret = sim.steps + 2
        last.result = frozenset(final.items())
        last.text = 'final content: ' + kc.state_text(final)
        try:
            bad = linear.linearizable(state0, ops + [last])
        except OverflowError:
            sim.probe('search-budget-exceeded')
            return None
        if bad is None:
            return None
        for o in sorted(ops + [last], key=lambda o: o.call):
            sim.event('history', self.brief(o))
        explained = ', '.join(o.text for o in bad) or 'nothing'
        stuck = [self.brief(o) for o in ops + [last] if o not in bad]
        return Violation(
            'not-linearizable', 'no order explains the history; longest '
            'explained prefix: %s; unexplained: %s' % (
                explained, '; '.join(stuck[:4])))

    def brief(self, o):
        r = o.result
        if isinstance(r, tuple) and o.kind == 'get':
            r = 'found %s %s' % (r[0][-8:], kc.title(r[1]))
        elif o.kind == 'whole':
            r = ''
        return '[%s,%s] %s %s -> %s' % (o.call, o.ret, o.task, o.text, r)

    def pool(self, ch):
        n = 2 + ch.below(3, 'pool')
        secret = ch.chance(1, 4, 'secret')
        pool = [keys.spec(i, secret) for i in range(n)]
        if ch.chance(1, 3, 'colliding'):
            pair = keys.colliding(ch.below(len(keys.COLLIDING), 'pair'),
                                  secret)
            pool[ch.below(n, 'where'):0] = pair
        if ch.chance(1, 6, 'version-3'):
            pool[ch.below(n, 'where')] = keys.spec(7, secret, 3)
        return keys.dress(ch, pool)
