"""C04: keyring locks are always recoverable, bounded and cleaned up."""
from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from sim import core
from sim import keys

LOCK = kc.PATH + '.lock'
SLACK = 2.0         # simulated seconds past a timeout that still count as soon
LATENCY = 5.0       # simulated seconds after which a free lock was overlooked


class Check(BaseCheck):

    id = 'C04'
    instrument = ('pgp.db',)
    runs = {'quick': 6000, 'thorough': 100000}
    rule = ('one run = one of: recover (a lock file left by a dead process, '
            'whole, cut or damaged, or with a reused pid, then several '
            'acquirers, some killed while recovering), live (a holder on this '
            'or another node, perhaps of another user or stalled, and '
            'acquirers with time-outs while the wall clock jumps), failing '
            'operations followed by an acquirer, and exits (processes that '
            'end normally, holding or not); non-trivial = a lock was '
            'recovered, waited for, released by an error or cleaned up')
    real_components = ['pgp.db.gpg (Lock, Keyring, exit handler)',
                       'pgp.packets', 'pgp.transferrable_keys']
    stub_components = ['file system (in memory)', 'process table, pids, '
                       'signals', 'clocks (wall and monotonic) and sleep',
                       'threads (greenlets) and locks', 'interpreter exit']
    assumptions = [
        'a pid is not reused by another live process while its old lock '
        'remains, except by the acquirer itself',
        'lock files come into being complete (hard link), so an incomplete '
        'one has no living holder']

    def load(self):
        import pgp.db.gpg                                 # noqa

    def run(self, ch):
        w = kc.World(ch, preempt=ch.pick([8, 25, 100], 'preempt-mean'),
                     max_steps=80000, step_cost=0.0005)
        w.sim.signals_sent = []
        w.sim.on_signal = lambda target, sig: w.sim.signals_sent.append(
            (target.name, sig))
        self.specs = [keys.spec(i) for i in range(3)]
        w.seed_file(self.specs[:2])
        kind = ch.pick(['recover', 'live', 'error', 'exit'], 'scenario')
        v, nontrivial, text = getattr(self, 'run_' + kind)(w, ch)
        sim = w.sim
        v = sim.violation or v
        if v is None and sim.signals_sent:
            # sending signal 0 is only a question; the seam records others
            v = Violation('signal', 'a process was sent a signal: %s' % (
                sim.signals_sent,))
        if v is None:
            for t, e, tb in sim.failed_tasks:
                v = Violation('task-failed', '%s: %s: %s' % (
                    t.name, type(e).__name__, e))
        return Run.of(ch, sim, v, nontrivial, kind + ': ' + text)

    # -- a lock left by a dead process --------------------------------------

    def leftover(self, w, ch):
        """(bytes, description) of a lock file nobody alive made."""
        sim = w.sim
        pid = ch.pick([4002, 31, 99999, 4001], 'dead-pid')
        whole = ('%010d%s\n' % (pid, sim.default_node)).encode()
        kind = ch.weighted([('dead', 4), ('cut', 3), ('empty', 1),
                            ('noise', 2), ('zeros', 1), ('gnupg', 1),
                            ('extended', 1), ('flipped', 2),
                            ('odd-pid', 2)], 'leftover')
        if kind == 'cut':
            data = whole[:ch.below(len(whole), 'cut-at')]
        elif kind == 'empty':
            data = b''
        elif kind == 'noise':
            data = ch.data(1 + ch.below(40, 'noise-size')) + b'x'
        elif kind == 'zeros':
            data = b'\0' * len(whole)
        elif kind == 'gnupg':
            data = ('%10d\n%s\n' % (pid, sim.default_node)).encode()
        elif kind == 'extended':
            data = whole + b'\0' * 20
        elif kind == 'flipped':
            # damage in the pid or the line end, not a different valid name
            b = bytearray(whole)
            b[ch.below(10, 'where')] = 0x80 + ch.below(100, 'value')
            data = bytes(b)
        elif kind == 'odd-pid':
            # ten octets which are a number but cannot be a process
            odd = ch.pick([b'0000000000', b'-000004001', b'-000000001',
                           b'9999999999', b'2147483648', b'4294967297',
                           b'         0', b'+000000000', b'0000000_00',
                           b'8589934593'], 'number')
            data = odd + whole[10:]
        else:
            data = whole
        w.sim.probe('leftover-' + kind)
        return data, kind

    def run_recover(self, w, ch):
        sim = w.sim
        data, kind = self.leftover(w, ch)
        w.vfs.put(LOCK, data)
        sim.event('leftover lock', repr(data))
        # pids 4002 / 4001 may be those of acquirers (reused pids); make
        # sure no *other* live process has the dead holder's pid
        n = 1 + ch.below(4, 'acquirers')
        pid_in_file = None
        try:
            pid_in_file = int(data[:10])
        except ValueError:
            pass
        own = None
        sim.next_pid = 5001
        if pid_in_file in (4001, 4002) and ch.chance(1, 2, 'reused-pid'):
            own = pid_in_file
            n = 1           # every other live process would see its pid alive
            sim.probe('pid-reused-by-acquirer')
        done = []
        inside = []

        def go(name, proc):
            def body():
                res = w.gpg(proc).get_resource(w.spelling(proc))
                for _ in range(1 + ch.below(2, 'rounds')):
                    before = sim.current.steps
                    res.lock_db()
                    if inside:
                        raise Violation('two-holders', '%s and %s hold the '
                                        'lock' % (name, inside[0]))
                    inside.append(name)
                    for _ in range(1 + ch.below(4, 'hold')):
                        sim.step('inside')
                    inside.remove(name)
                    res.unlock_db()
                    del before
                done.append(name)
            return sim.spawn(proc, body, name)
        for i in range(n):
            proc = w.process('a%d' % i, pid=own)
            go('a%d' % i, proc)
        # crash some of them while they recover; faults stop after that
        kills = ch.below(n, 'kills')
        for _ in range(kills):
            at = 1 + ch.below(60, 'kill-at')

            def kill(kind):
                live = [p for p in sim.procs if p.alive and
                        any(not t.done for t in p.tasks)]
                if len(live) > 1:
                    p = live[ch.below(len(live), 'victim')]
                    for t in p.tasks:
                        if t.name in inside:
                            inside.remove(t.name)
                    sim.fault('process-kill')
                    sim.kill(p)
            w.crash_countdown(at, kill)
        sim.run()
        v = self.progress(w, 'the lock was not recovered')
        if v is None and w.vfs.peek(LOCK) is not None:
            v = Violation('lock-left', 'the lock file is still there although '
                          'nobody holds the lock')
        return v, bool(done), '%s, %d acquirers' % (kind, n)

    def progress(self, w, what):
        sim = w.sim
        if sim.violation:
            return None
        if sim.deadlock or sim.out_of_steps:
            where = ['%s after %d steps' % (t.name, t.steps)
                     for t in sim.tasks if not t.done and not t.killed]
            return Violation('no-progress', '%s: %s stuck (%s)' % (
                what, ', '.join(where), sim.deadlock or 'step limit'))
        return None

    # -- a lock held by a live process ----------------------------------------

    def run_live(self, w, ch):
        sim = w.sim
        how = ch.pick(['holder', 'other-user', 'other-node', 'stalled'],
                      'holder')
        holder = w.process('holder')
        holder.foreign_user = how == 'other-user'
        hold_for = 25.0 if ch.chance(1, 40, 'held-long') else \
            ch.pick([0.1, 0.6, 2.0, 4.0], 'hold-seconds')
        state = {'held': False, 'until': None}
        inode = [None]

        def hold():
            if how == 'other-node':
                w.vfs.put(LOCK, ('%010d%s\n' % (
                    ch.pick([4001, 77, 4002], 'remote-pid'),
                    ch.pick(['beta', sim.default_node + '2',
                             'x' + sim.default_node], 'remote-node'))
                    ).encode())
            else:
                res = w.gpg(holder).get_resource(kc.PATH)
                res.lock_db()
            inode[0] = w.vfs.tree.get(LOCK)
            state['held'] = True
            state['start'] = sim.now
            if how == 'stalled':
                sim.probe('stalled-holder')
            sim.sleep(hold_for)
            if inode[0] is None or w.vfs.tree.get(LOCK) is not inode[0] or \
                    w.vfs.peek(LOCK) is None:
                raise Violation('broken-lock', 'the lock of a live holder '
                                'was removed or replaced')
            state['held'] = False
            state['end'] = sim.now
            if how == 'other-node':
                with sim.quietly():
                    w.vfs.unlink(LOCK)
            else:
                res.unlock_db()
        sim.spawn(holder, hold, 'holder')
        n = 1 + ch.below(3, 'acquirers')
        if hold_for > 10:
            n = 1
        outcomes = []

        def acquirer(name, proc):
            def body():
                sim.block(lambda: 'start' in state, None, 'holder')
                lock = w.gpg(proc).Lock(kc.PATH)
                for _ in range(1 + ch.below(3, 'attempts')):
                    t = ch.pick([0, 0.05, 0.3, 1.0, 6.0, None], 'timeout')
                    start = sim.now
                    held_at_start = state['held']
                    ok = lock.acquire(t) if t is not None else lock.acquire()
                    took = sim.now - start
                    outcomes.append(ok)
                    sim.event('acquire', t, '->', ok, 'after %.4f' % took)
                    if ok:
                        if state['held']:
                            raise Violation(
                                'broken-lock', '%s got the lock while its '
                                'live holder keeps it' % name)
                        idle = sim.now - max(start, state['end'])
                        if idle > LATENCY:
                            raise Violation(
                                'late', 'the lock was free for %.3f s before '
                                'acquire(%s) obtained it' % (idle, t))
                        if t is not None and took > t + SLACK:
                            raise Violation(
                                'late', 'acquire(%s) took %.3f s' % (t, took))
                        sim.step('inside')
                        lock.release()
                    else:
                        sim.probe('gave-up')
                        if t is None:
                            raise Violation(
                                'gave-up', 'acquire() without a timeout '
                                'returned %r' % (ok,))
                        if took < t:
                            raise Violation(
                                'early', 'acquire(%s) gave up after %.4f s'
                                % (t, took))
                        if took > t + SLACK:
                            raise Violation(
                                'late', 'acquire(%s) gave up after %.4f s'
                                % (t, took))
                    del held_at_start
            return sim.spawn(proc, body, name)
        for i in range(n):
            acquirer('a%d' % i, w.process('a%d' % i))
        # the wall clock is set while they wait
        if ch.chance(2, 3, 'clock-jumps'):
            def jumper():
                for _ in range(1 + ch.below(4, 'jumps')):
                    sim.sleep(ch.pick([0.01, 0.3, 1.0, 4.0], 'jump-after'))
                    d = ch.pick([3600, -3600, 86400 * 400, -86400 * 400, 10,
                                 -10], 'jump')
                    sim.wall += d
                    sim.fault('clock-jump')
            sim.spawn(w.process('clock'), jumper, 'clock')
        sim.run()
        v = self.progress(w, 'acquirers of a held lock')
        return v, bool(outcomes), '%s for %s s, %d acquirers' % (
            how, hold_for, n)

    # -- operations that raise --------------------------------------------------

    def run_error(self, w, ch):
        sim = w.sim
        proc = w.process('p0')
        other = w.process('p1')
        how = ch.pick(['missing', 'present', 'read-only', 'damaged',
                       'vanished', 'nested'], 'error')
        cell = {}

        def body():
            res = w.gpg(proc).get_resource(kc.PATH, read_only=(
                how == 'read-only'))
            raised = None
            absent = self.specs[2]
            nest = how == 'nested'
            if how == 'damaged':
                data = w.vfs.peek(kc.PATH)
                cut = 1 + ch.below(len(data) - 2, 'cut-at')
                w.vfs.put(kc.PATH, data[:cut])
            elif how == 'vanished':
                with sim.quietly():
                    w.vfs.unlink(kc.PATH)
            op = ch.pick(['get', 'add', 'update', 'delete', 'keys'], 'op')
            spec = absent if how in ('missing', 'nested') else self.specs[0]
            if nest:
                res.lock_db()
            try:
                key = w.key_object(spec, 7)
                if op == 'get':
                    res.get_transferrable_key(spec.fp)
                elif op == 'add':
                    res.add_transferrable_key(
                        w.key_object(self.specs[0], 7)
                        if how in ('present', 'nested') else key)
                elif op == 'update':
                    res.update_transferrable_key(key)
                elif op == 'delete':
                    res.delete_transferrable_key(key)
                else:
                    list(res.keys())
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                raised = e
                sim.probe('raised-' + type(e).__name__)
            cell['raised'] = raised
            if nest:
                # the error inside must not have given up the outer hold
                if w.vfs.peek(LOCK) is None:
                    raise Violation('lost-hold', 'an operation that raised '
                                    'gave up the caller\'s lock')
                res.unlock_db()
            cell['done'] = True

        def after():
            sim.block(lambda: 'done' in cell, None, 'operation')
            lock = w.gpg(other).Lock(kc.PATH)
            if not lock.acquire(5.0):
                raise Violation('lock-kept', 'after %r the lock is not free'
                                % (cell['raised'],))
            lock.release()
        sim.spawn(proc, body, 'p0')
        sim.spawn(other, after, 'p1')
        # an idle thread of the same process must be able to lock, too
        third = ch.chance(1, 2, 'same-process')
        if third:
            def again():
                sim.block(lambda: 'done' in cell, None, 'operation')
                lock = w.gpg(proc).Lock(kc.PATH)
                if not lock.acquire(5.0):
                    raise Violation('lock-kept', 'after %r the lock is not '
                                    'free' % (cell['raised'],))
                lock.release()
            sim.spawn(proc, again, 'p0.again')
        sim.run()
        v = self.progress(w, 'after an error')
        return v, cell.get('raised') is not None, '%s' % how

    # -- normal exits --------------------------------------------------------------

    def run_exit(self, w, ch):
        sim = w.sim
        before = set(w.vfs.listing(kc.DIR))
        n = 1 + ch.below(3, 'processes')
        other = w.process('bystander')
        cells = {}
        keep_other = ch.chance(1, 2, 'bystander-holds')
        finish = {}
        notes = []

        def bystander():
            res = w.gpg(other).get_resource(kc.PATH)
            if keep_other:
                sim.block(lambda: len(finish) >= n or sim.now > 1300, None,
                          'others')
                res.lock_db()
                inode = w.vfs.tree.get(LOCK)
                finish['held'] = True
                sim.block(lambda: 'exited' in finish, None, 'exits')
                if w.vfs.tree.get(LOCK) is not inode or inode is None:
                    raise Violation('broken-lock', 'a process that exited '
                                    'removed the lock of another one')
                res.unlock_db()

        def program(name, proc):
            def body():
                handles = []
                for _ in range(1 + ch.below(3, 'handles')):
                    if ch.chance(1, 3, 'bare-lock'):
                        handles.append(w.gpg(proc).Lock(kc.PATH))
                    else:
                        handles.append(
                            w.gpg(proc).get_resource(w.spelling(proc)))
                for _ in range(ch.below(3, 'ops')):
                    h = handles[ch.below(len(handles), 'handle')]
                    if hasattr(h, 'update_transferrable_key'):
                        h.update_transferrable_key(
                            w.key_object(self.specs[0], 5))
                    elif h.acquire(10.0):
                        h.release()
                if not keep_other and ch.chance(1, 2, 'exit-holding'):
                    # the exit handler has to give it up
                    h = handles[ch.below(len(handles), 'handle')]
                    ok = (h.acquire(0.5) if hasattr(h, 'acquire')
                          else kc.lock_of(h).acquire(0.5))
                    if ok:
                        notes.append('%s exits holding' % name)
                        sim.probe('exit-while-holding')
                cells[name] = handles
                finish[name] = True
                if keep_other:
                    sim.block(lambda: 'held' in finish, None, 'bystander')
                for fn, args, kw in reversed(proc.atexit):
                    try:
                        fn(*args, **kw)
                    except Exception as e:
                        if core.is_harness_error(e):
                            raise
                        sim.event('atexit raised', repr(e))
                proc.exited = True
                proc.alive = False
                sim.pids.pop((proc.node, proc.pid), None)
                w.vfs.process_died(proc)
                if all(q.exited for q in sim.procs if q is not other):
                    finish['exited'] = True
            return sim.spawn(proc, body, name)
        progs = [('e%d' % i, w.process('e%d' % i)) for i in range(n)]
        for name, proc in progs:
            program(name, proc)
        sim.spawn(other, bystander, 'bystander')
        sim.run()
        v = self.progress(w, 'exiting processes')
        if v is None and not sim.violation and not sim.failed_tasks:
            # the bystander is still running: its files may stay; let it go
            def leave():
                for fn, args, kw in reversed(other.atexit):
                    fn(*args, **kw)
            sim.spawn(other, leave, 'bystander exit')
            sim.run()
            left = set(w.vfs.listing(kc.DIR)) - before
            if left:
                v = Violation('litter', 'after every process exited normally '
                              'these files are left: %s' % sorted(left))
        return v, True, '%d processes%s' % (n, ', ' + ', '.join(notes)
                                            if notes else '')
