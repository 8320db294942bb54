"""C02: a crash at any point leaves the keyring whole: old or new state."""
from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from sim import core
from sim import keys


class Check(BaseCheck):

    id = 'C02'
    instrument = ()
    runs = {'quick': 6000, 'thorough': 120000}
    rule = ('one run = up to 4 generations; in each, a process opens the '
            'keyring (creating it if asked to) and performs 1-4 operations, '
            'and at a seeded system call the process is killed or the power '
            'fails (un-synced data lost, torn or mixed at 64-byte '
            'granularity; directory changes cut at any point of their order; '
            'writes torn); then a new process (sometimes with the old pid) '
            'reopens it and every key must be as before or after the '
            'interrupted operation; non-trivial = a crash hit while an '
            'operation was changing the keyring')
    real_components = ['pgp.db.gpg (Lock, Keyring)', 'pgp.packets',
                       'pgp.transferrable_keys']
    stub_components = ['file system (in memory, crash semantics: fsync makes '
                       'file data durable, directory changes reach the disk '
                       'in order)', 'process table, pids', 'clock and sleep',
                       'object addresses (id)']
    assumptions = [
        'rename is atomic and directory changes reach the disk in order '
        '(journalling file system); data is durable only after fsync',
        'the disk does not damage data that was synced']

    def load(self):
        import pgp.db.gpg                                 # noqa

    def run(self, ch):
        w = kc.World(ch, max_steps=60000, step_cost=0.0005)
        sim = w.sim
        secret = ch.chance(1, 4, 'secret')
        pool = keys.dress(ch, [keys.spec(i, secret)
                               for i in range(2 + ch.below(3, 'pool'))])
        w.behind_link(ch)
        bulk = ch.pick([0, 0, 200, 2000, 9000, 0, 0, 200, 2000, 70000], 'bulk')
        n0 = ch.below(len(pool) + 1, 'initial-keys')
        exists = n0 > 0 or ch.chance(1, 2, 'empty-file')
        if exists:
            w.seed_file(pool[:n0], old=ch.chance(1, 2, 'old-headers'),
                        trust=ch.chance(1, 3, 'trust'), bulk=bulk)
        # what must be there: {fp: content}; an operation that was cut off
        # leaves two possibilities
        state = dict((s.fp, tuple(s.content(0, bulk=bulk)))
                     for s in pool[:n0])
        options = [state]
        must_exist = [exists]
        version = [0]
        hits = [0]
        gens = 1 + ch.below(4, 'generations')
        pid = None
        trail = []

        for g in range(gens):
            proc = w.process('g%d' % g, pid=pid)
            pid = None
            mode = ch.pick(['kill', 'power'], 'crash-kind')
            at = None
            aim = 0
            if ch.chance(2, 3, 'aimed-crash'):
                aim = 1 + ch.below(4, 'crash-in-op')
            else:
                at = ch.gap(60, limit=400, label='crash-at')
            crashed = []
            inflight = {}

            def crash(kind, proc=proc, mode=mode, crashed=crashed,
                      inflight=inflight):
                if crashed or not proc.alive or proc.tasks[0].done:
                    return
                crashed.append(kind)
                if inflight.get('changing'):
                    hits[0] += 1
                sim.fault('process-kill' if mode == 'kill' else 'power-loss')
                sim.probe('crash-at-' + kind.replace('sys.', ''))
                if mode == 'power':
                    with sim.quietly():
                        w.vfs.power_loss(ch)
                sim.kill(proc, 'power loss' if mode == 'power' else 'crash')

            def torn(op, path, crash=crash, proc=proc, inflight=inflight):
                # the write itself may be cut
                if op == 'write' and ch.chance(1, 6, 'torn-write') and \
                        inflight.get('changing') and proc.alive:
                    return ('torn', ch.below(10000, 'torn-at'),
                            lambda: crash('sys.torn-write'))
                return None
            sim.on_step = []
            if at is not None:
                w.crash_countdown(at, crash)
            w.vfs.fault = torn if ch.chance(1, 3, 'torn-writes') else None

            def body(proc=proc, inflight=inflight, aim=aim, crash=crash):
                gpg = w.gpg(proc)
                # opening
                res = None
                try:
                    res = gpg.get_resource(w.spelling(proc),
                                           force=True)
                    if ch.chance(1, 4, 'chdir'):
                        w.chdir(proc)
                except Exception as e:
                    if core.is_harness_error(e):
                        raise
                    raise Violation('open-failed', 'reopening raised %s: %s'
                                    % (type(e).__name__, e))
                must_exist[0] = True
                got = self.read_all(w, res)
                self.expect(w, got, options, 'after reopening')
                options[:] = [got]
                for i in range(1 + ch.below(4, 'ops')):
                    if i + 1 == aim:
                        w.crash_countdown(1 + ch.below(48, 'crash-at'), crash)
                    self.operate(w, res, pool, options, version, inflight,
                                 trail)
            sim.spawn(proc, body, 'g%d' % g)
            sim.run()
            if sim.violation or sim.deadlock or sim.out_of_steps:
                break
            proc.alive = False
            sim.pids.pop((proc.node, proc.pid), None)
            w.vfs.process_died(proc)
            if ch.chance(1, 3, 'same-pid'):
                pid = proc.pid
        v = sim.violation
        if v is None and (sim.deadlock or sim.out_of_steps):
            v = Violation('no-progress', 'the keyring could not be opened: %s'
                          % (sim.deadlock or 'step limit'))
        if v is None and sim.failed_tasks:
            t, e, tb = sim.failed_tasks[0]
            raise core.HarnessError(tb)
        if v is None:
            # last look, by the independent parser and a fresh process
            sim.on_step = []
            w.vfs.fault = None
            v = self.last_look(w, options, must_exist[0])
        return Run.of(ch, sim, v, hits[0] > 0, '; '.join(trail))

    def last_look(self, w, options, must_exist):
        sim = w.sim
        raw = w.vfs.peek(kc.PATH)
        if raw is None:
            if must_exist:
                return Violation('keyring-lost', 'the keyring disappeared')
        else:
            try:
                got = w.file_keys()
            except ValueError as e:
                return Violation('damaged-file', 'the keyring is damaged: %s'
                                 % e)
            try:
                self.expect(w, got, options, 'in the file')
            except Violation as v:
                return v
        proc = w.process('last')

        def body():
            try:
                res = w.gpg(proc).get_resource(w.name, force=True)
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                raise Violation('open-failed', 'reopening raised %s: %s' % (
                    type(e).__name__, e))
            self.expect(w, self.read_all(w, res), options, 'at the end')
        sim.spawn(proc, body, 'last')
        sim.run()
        if sim.deadlock or sim.out_of_steps:
            return sim.violation or Violation(
                'no-progress', 'the keyring could not be opened: %s' % (
                    sim.deadlock or 'step limit'))
        return sim.violation

    def read_all(self, w, res):
        """Every key the library finds, by listing and looking up."""
        out = {}
        names = None
        try:
            names = list(res.keys())
            for k in names:
                key = res.get_transferrable_key(k)
                c = w.content_of(key)
                out[keys.fingerprint(c[0][1])] = c
        except Exception as e:
            if core.is_harness_error(e):
                raise
            raise Violation('unreadable', 'reading the reopened keyring '
                            'raised %s: %s' % (type(e).__name__, e))
        if len(out) != len(names):
            raise Violation('unreadable', '%d names but %d keys' % (
                len(names), len(out)))
        return out

    def expect(self, w, got, options, when):
        for o in options:
            if got == o:
                return
        w.sim.event('found', kc.state_text(got))
        for o in options:
            w.sim.event('allowed', kc.state_text(o))
        raise Violation('lost-or-mixed', '%s the keyring holds {%s}, allowed '
                        'is %s' % (when, kc.state_text(got), ' or '.join(
                            '{%s}' % kc.state_text(o) for o in options)))

    def operate(self, w, res, pool, options, version, inflight, trail):
        ch, sim = w.ch, w.sim
        cur = options[0]
        version[0] += 1
        v = version[0]
        kind = ch.weighted([('update', 4), ('add', 4), ('delete', 3),
                            ('get', 1)], 'op')
        present = [s for s in pool if s.fp in cur]
        absent = [s for s in pool if s.fp not in cur]
        cand = (absent if kind == 'add' else present) or pool
        spec = cand[ch.below(len(cand), 'which-key')]
        bulk = ch.pick([0, 0, 300, 5000], 'new-bulk')
        content = tuple(spec.content(v, bulk=bulk))
        new = dict(cur)
        if kind == 'add' and spec.fp not in cur:
            new[spec.fp] = content
        elif kind == 'update' and spec.fp in cur:
            new[spec.fp] = content
        elif kind == 'delete':
            new.pop(spec.fp, None)
        text = '%s %s v%d' % (kind, spec.fp[-8:], v)
        trail.append(text)
        sim.event('call', text)
        options[:] = [cur, new] if new != cur else [cur]
        inflight['changing'] = new != cur
        try:
            if kind == 'add':
                res.add_transferrable_key(w.key_object(spec, v, bulk=bulk))
            elif kind == 'update':
                res.update_transferrable_key(w.key_object(spec, v, bulk=bulk))
            elif kind == 'delete':
                res.delete_transferrable_key(w.key_object(spec, v))
            else:
                res.get_transferrable_key(spec.fp)
        except KeyError:
            pass
        except Exception as e:
            if isinstance(e, Violation) or core.is_harness_error(e):
                raise
            raise Violation('operation-failed', '%s raised %s: %s' % (
                text, type(e).__name__, e))
        else:
            options[:] = [new]
        inflight['changing'] = False
        sim.event('return', text)
