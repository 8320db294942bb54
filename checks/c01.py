"""C01: at most one holder of a keyring's lock at any instant."""
from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from sim import core
from sim import keys


class Holders(object):
    """Who holds the lock, as far as the lock's users can tell."""

    def __init__(self, world):
        self.world = world
        self.holder = None          # (proc, task)
        self.depth = 0
        self.max_wait = 0

    def acquired(self, task):
        sim = self.world.sim
        me = task
        if self.holder is not None and self.holder is not me and \
                self.holder.proc.alive and not self.holder.killed:
            raise Violation(
                'two-holders', '%s obtained the lock while %s holds it '
                '(depth %d)' % (me.name, self.holder.name, self.depth))
        if self.holder is not me:
            self.holder = me
            self.depth = 0
        self.depth += 1
        if self.depth > 1:
            sim.probe('nested-hold')

    def releasing(self, task):
        if self.holder is task:
            self.depth -= 1
            if self.depth == 0:
                self.holder = None

    def current(self):
        h = self.holder
        if h is None or h.killed or not h.proc.alive:
            return None
        return h


class Check(BaseCheck):

    id = 'C01'
    instrument = ('pgp.db',)
    runs = {'quick': 5000, 'thorough': 60000}
    rule = ('one run = 1-4 simulated processes x 1-3 threads, each a '
            'generated sequence of lock / nested lock / timed lock / '
            'try-without-holding unlock / keyring operations on one file, '
            'with shared or separate handles, pre-empted between any two '
            'statements of pgp.db and at every system call, and with '
            'processes killed at seeded points; non-trivial = at least two '
            'tasks obtained the lock')
    real_components = ['pgp.db.gpg (Lock, Keyring, resources)',
                       'pgp.packets', 'pgp.transferrable_keys']
    stub_components = ['file system (in memory, crash semantics)',
                       'process table, pids, signals', 'clock and sleep',
                       'threads (greenlets) and threading locks',
                       'object addresses (id)']
    assumptions = [
        'pids of dead holders are not reused by other live processes',
        'all processes share one local file system']

    def load(self):
        from pgp import db                                # noqa
        import pgp.db.gpg                                 # noqa

    def run(self, ch):
        w = kc.World(ch, preempt=ch.pick([6, 15, 40, 120], 'preempt-mean'),
                     max_steps=16000,
                     step_cost=ch.pick([0.0005, 0.0005, 0.02, 0.5],
                                       'machine-speed'))
        sim = w.sim
        specs = [keys.spec(i) for i in range(4)]
        w.seed_file(specs[:2])
        H = Holders(w)
        nproc = 1 + ch.below(4, 'processes')
        got = set()

        if ch.chance(1, 3, 'leftover-lock'):
            # a lock of a process that died earlier
            pid = 99 + ch.below(2, 'dead-pid')
            w.vfs.put(kc.PATH + '.lock',
                      ("%010d%s\n" % (pid, sim.default_node)).encode())
            sim.probe('leftover-lock')

        def watch(op, path, inode):
            # only the explicit holder may change the keyring file
            if path != kc.PATH or sim.current is None:
                return
            h = H.current()
            if h is not None and sim.current is not h:
                sim.violate(Violation(
                    'change-under-foreign-lock',
                    '%s: %s of the keyring while %s holds its lock' % (
                        sim.current.name, op, h.name)))
        w.vfs.watch.append(watch)

        def thread(proc, make, script, name):
            def body():
                try:
                    res = make()
                except Violation:
                    raise
                task = sim.current
                for op in script:
                    try:
                        self.step(w, H, res, op, task, got, specs)
                    except Exception as e:
                        # not a matter of exclusion: C03-C05 judge failures
                        if isinstance(e, Violation) or \
                                core.is_harness_error(e):
                            raise
                        sim.event('raised', type(e).__name__, e)
                        sim.probe('operation-raised')
            return sim.spawn(proc, body, name)

        handle_counter = [0]
        for p in range(nproc):
            proc = w.process('p%d' % p)
            nthr = 1 + ch.below(3, 'threads')
            shared = ch.chance(1, 2, 'shared-handle')
            cell = {}

            def opener(proc=proc, cell=cell, shared=shared):
                gpg = w.gpg(proc)
                if shared:
                    if 'res' not in cell:
                        if cell.get('opening'):
                            sim.block(lambda: 'res' in cell, None, 'opening')
                        else:
                            cell['opening'] = True
                            cell['res'] = gpg.get_resource(
                                w.spelling(proc))
                    return cell['res']
                return gpg.get_resource(w.spelling(proc))
            for t in range(nthr):
                script = [ch.weighted([
                    ('cycle', 6), ('nested', 4), ('timed', 3),
                    ('direct', 3), ('foreign-unlock', 2), ('delete', 1),
                    ('update', 3), ('get', 2), ('nested-update', 3),
                    ('two-handles', 2)], 'op')
                    for _ in range(1 + ch.below(4, 'ops'))]
                thread(proc, opener, script, 'p%d.t%d' % (p, t))
        # kill a process somewhere
        if nproc > 1:
            k = ch.gap(120, label='kill-at')
            if k is not None:
                victims = [p for p in sim.procs]

                def kill(kind, victims=victims):
                    v = victims[ch.below(len(victims), 'victim')]
                    if v.alive and any(not t.done for t in v.tasks):
                        sim.fault('process-kill')
                        if H.current() is not None and \
                                H.current().proc is v:
                            sim.probe('holder-killed')
                        sim.kill(v)
                w.crash_countdown(k, kill)
        sim.run()
        return Run.of(ch, sim, None, len(got) > 1,
                      '%d processes, %d tasks, %d obtained the lock' % (
                          nproc, len(sim.tasks), len(got)))

    def hold(self, w, ticks):
        for _ in range(ticks):
            w.sim.step('inside')

    def step(self, w, H, res, op, task, got, specs):
        sim, ch = w.sim, w.ch
        sim.event('op', op)
        if op == 'cycle':
            res.lock_db()
            H.acquired(task)
            got.add(task.name)
            self.hold(w, 1 + ch.below(4, 'hold'))
            H.releasing(task)
            res.unlock_db()
        elif op == 'nested':
            depth = 2 + ch.below(2, 'depth')
            for _ in range(depth):
                res.lock_db()
                H.acquired(task)
                self.hold(w, 1)
            got.add(task.name)
            for _ in range(depth):
                H.releasing(task)
                res.unlock_db()
                self.hold(w, 1 + ch.below(3, 'hold'))
        elif op == 'timed':
            lock = kc.lock_of(res)
            ok = lock.acquire(ch.pick([0, 0.003, 0.05], 'timeout'))
            if ok:
                H.acquired(task)
                got.add(task.name)
                self.hold(w, 1 + ch.below(4, 'hold'))
                H.releasing(task)
                lock.release()
            else:
                sim.probe('timed-out')
        elif op == 'direct':
            # a separate lock object on the same file, as another handle of
            # the same program would have
            lock = w.gpg(task.proc).Lock(kc.PATH)
            if not lock.acquire():
                return
            H.acquired(task)
            got.add(task.name)
            self.hold(w, 1 + ch.below(4, 'hold'))
            H.releasing(task)
            lock.release()
        elif op == 'two-handles':
            # one thread, two handles: giving up the inner one, whether or
            # not it was obtained, leaves the outer one holding the lock
            inner = w.gpg(task.proc).Lock(kc.PATH)
            res.lock_db()
            H.acquired(task)
            got.add(task.name)
            if inner.acquire(0.05):
                sim.probe('held-through-two-handles')
                self.hold(w, 1 + ch.below(2, 'hold'))
                inner.release()
            self.hold(w, 1 + ch.below(4, 'hold'))
            H.releasing(task)
            res.unlock_db()
        elif op == 'foreign-unlock':
            # unlocking what somebody else locked must change nothing
            if H.holder is not task:
                if H.current() is not None:
                    sim.probe('unlock-by-non-holder')
                try:
                    res.unlock_db()
                except Exception as e:
                    sim.event('refused', repr(e))
        elif op in ('delete', 'update', 'get', 'nested-update'):
            s = specs[ch.below(2, 'key')]
            key = w.key_object(s, 1 + ch.below(50, 'version'))
            if op == 'nested-update':
                res.lock_db()
                H.acquired(task)
                got.add(task.name)
            try:
                if op == 'delete':
                    res.delete_transferrable_key(key)
                elif op == 'get':
                    res.get_transferrable_key(s.fp)
                else:
                    res.update_transferrable_key(key)
            except KeyError:
                pass
            if op == 'nested-update':
                self.hold(w, 1 + ch.below(4, 'hold'))
                H.releasing(task)
                res.unlock_db()
