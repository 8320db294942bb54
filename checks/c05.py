"""C05: failing disk I/O is reported and never damages stored keys."""
import errno

from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from sim import core
from sim import keys


class Check(BaseCheck):

    id = 'C05'
    instrument = ()
    runs = {'quick': 8000, 'thorough': 150000}
    rule = ('one run = 1-6 keyring operations (opening with creation, add, '
            'update, delete, lookup, listing, iteration, search), or reads and writes of key and '
            'message files, while system calls on the disk fail at seeded '
            'points (I/O error, disk full, quota, too many files, no '
            'permission; alone, in bursts or for good), transfer only part '
            'of the data, or the disk has a finite capacity; after every '
            'operation an independent parser checks the file; afterwards the '
            'faults stop and the keyring must work; non-trivial = a fault '
            'was hit')
    real_components = ['pgp.db.gpg', 'pgp.shortcuts', 'pgp.packets',
                       'pgp.armor', 'pgp.transferrable_keys',
                       "the interpreter's buffered and text I/O layers"]
    stub_components = ['file system (in memory)', 'process table, pids',
                       'clock and sleep']
    assumptions = ['an operation that raised after it replaced the file may '
                   'have taken effect, entirely']

    def load(self):
        import pgp.db.gpg                                 # noqa
        import pgp.shortcuts                              # noqa

    def run(self, ch):
        w = kc.World(ch, max_steps=30000, step_cost=0.001)
        if ch.chance(1, 4, 'key-files'):
            v, text, hits = self.files(w, ch)
        else:
            v, text, hits = self.keyring(w, ch)
        sim = w.sim
        v = sim.violation or v
        if v is None and sim.failed_tasks:
            raise core.HarnessError(sim.failed_tasks[0][2])
        return Run.of(ch, sim, v, hits > 0, text)

    def injector(self, w, ch):
        if ch.chance(1, 5, 'finite-disk'):
            used = sum(len(i.data) for i in set(w.vfs.tree.values()))
            w.vfs.capacity = used + ch.below(1500, 'room')
        ops = kc.Injector.OPS
        if w.name != kc.PATH:
            # whether a name is a link cannot be seen without stat
            ops = tuple(op for op in ops if op != 'stat')
        inj = kc.Injector(ch, ch.pick([15, 40, 100], 'fault-mean'), ops)
        w.vfs.fault = inj
        return inj

    def stop_faults(self, w, inj):
        inj.enabled = False
        w.vfs.capacity = None

    # -- the keyring --------------------------------------------------------------

    def keyring(self, w, ch):
        sim = w.sim
        secret = ch.chance(1, 4, 'secret')
        w.behind_link(ch)
        pool = keys.dress(ch, [keys.spec(i, secret) for i in range(3)])
        bulk = ch.pick([0, 0, 300, 9000, 0, 0, 300, 70000], 'bulk')
        n0 = ch.below(4, 'initial-keys')
        exists = n0 > 0 or ch.chance(1, 2, 'empty-file')
        if exists:
            w.seed_file(pool[:n0], old=ch.chance(1, 2, 'old'),
                        trust=ch.chance(1, 4, 'trust'), bulk=bulk)
        cur = [dict((s.fp, tuple(s.content(0, bulk=bulk)))
                    for s in pool[:n0])]
        trail = []
        inj = self.injector(w, ch)
        persistent = ch.chance(1, 10, 'disk-gone')
        if persistent:
            errno_ = ch.pick([errno.EIO, errno.ENOSPC, errno.EROFS], 'errno')
            count = [1 + ch.below(60, 'disk-gone-at')]
            kinds = ('open', 'write', 'fsync', 'rename', 'link', 'unlink',
                     'truncate') if errno_ != errno.EIO else inj.ops
            inner = inj

            def gone(op, path):
                if not inner.enabled:
                    return None
                count[0] -= 1
                if count[0] <= 0 and op in kinds and not (
                        op in ('open', 'read') and errno_ != errno.EIO and
                        path in (kc.PATH, w.name)):
                    inner.hits += 1
                    inner.failed.append((op, path))
                    return errno_
                return None
            w.vfs.fault = gone
        proc = w.process('p0')
        kept = {}

        def second(name):
            res = self.opening(w, sim.current.proc)
            self.healthy(w, ch, res, pool, cur)
            kept[name] = True

        def body():
            gpg = w.gpg(proc)
            res = None
            for attempt in range(4):
                try:
                    res = gpg.get_resource(w.spelling(proc),
                                           force=True)
                    if ch.chance(1, 4, 'chdir'):
                        w.chdir(proc)
                    break
                except Exception as e:
                    self.raised(sim, 'open', e)
                    self.check_file(w, [cur[0]], 'a failed open', exists)
            if res is not None:
                for _ in range(1 + ch.below(5, 'ops')):
                    self.operate(w, ch, res, pool, cur, trail)
            self.stop_faults(w, inj)
            if inj.hits:
                sim.probe('faults-hit')
            if res is not None and not any(
                    op == 'unlink' and path.endswith('.lock')
                    for op, path in inj.failed) and \
                    ch.chance(1, 2, 'other-first'):
                # usable by others, too, while this process lives on
                sim.probe('other-process-first')
                sim.spawn(w.process('p2'), lambda: second('p2'), 'p2')
                sim.block(lambda: 'p2' in kept, None, 'p2')
            # usable afterwards, through the same handle
            if res is not None:
                self.healthy(w, ch, res, pool, cur)
            for fn, args, kw in reversed(proc.atexit):
                fn(*args, **kw)
            proc.alive = False
            sim.pids.pop((proc.node, proc.pid), None)
            w.vfs.process_died(proc)
        sim.spawn(proc, body, 'p0')
        sim.run()
        v = self.progress(w, 'with faults')
        if v is None and not sim.violation and not sim.failed_tasks:
            # and by another process
            sim.spawn(w.process('p1'), lambda: second('p1'), 'p1')
            sim.run()
            v = self.progress(w, 'after the faults')
        return v, '; '.join(trail), inj.hits

    def progress(self, w, what):
        if w.sim.violation is None and (w.sim.deadlock or
                                        w.sim.out_of_steps):
            return Violation('no-progress', '%s an operation never ended: %s'
                             % (what, w.sim.deadlock or 'step limit'))
        return None

    def opening(self, w, proc):
        try:
            return w.gpg(proc).get_resource(w.name, force=True)
        except Exception as e:
            if core.is_harness_error(e):
                raise
            raise Violation('unusable', 'after the faults the keyring cannot '
                            'be opened: %s: %s' % (type(e).__name__, e))

    def raised(self, sim, what, e):
        if isinstance(e, Violation) or core.is_harness_error(e):
            raise e
        sim.event('raised', what, type(e).__name__, e)
        sim.probe('raised-' + type(e).__name__)

    def no_fault(self, sim, e):
        if not sim.fault_counts:
            raise Violation('failed-without-fault', 'raised %s: %s' % (
                type(e).__name__, e))

    def check_file(self, w, allowed, when, must_exist=True):
        sim = w.sim
        try:
            got = w.file_keys()
        except ValueError as e:
            raise Violation('damaged-file', 'after %s the keyring file is '
                            'damaged: %s' % (when, e))
        if got is None:
            if must_exist and any(allowed):
                raise Violation('keyring-lost', 'after %s the keyring file '
                                'is gone' % when)
            got = {}
        for a in allowed:
            if got == a:
                return got
        for a in allowed:
            sim.event('allowed', kc.state_text(a))
        raise Violation('wrong-content', 'after %s the keyring file holds '
                        '{%s}, allowed is %s' % (
                            when, kc.state_text(got), ' or '.join(
                                '{%s}' % kc.state_text(a) for a in allowed)))

    version = 0

    def operate(self, w, ch, res, pool, cur, trail):
        sim = w.sim
        self.version += 1
        v = 1 + len(trail)
        kind = ch.weighted([('update', 4), ('add', 4), ('delete', 3),
                            ('get', 3), ('keys', 2), ('contains', 1),
                            ('values', 1), ('search', 2)], 'op')
        state = cur[0]
        present = [s for s in pool if s.fp in state]
        absent = [s for s in pool if s.fp not in state]
        cand = (absent if kind == 'add' else present) or pool
        if ch.chance(1, 6, 'unlikely-key'):
            cand = pool
        spec = cand[ch.below(len(cand), 'which-key')]
        bulk = ch.pick([0, 0, 500, 9000], 'new-bulk')
        content = tuple(spec.content(v, bulk=bulk))
        new = dict(state)
        expect_refusal = False
        if kind == 'add':
            expect_refusal = spec.fp in state
            if not expect_refusal:
                new[spec.fp] = content
        elif kind == 'update':
            expect_refusal = spec.fp not in state
            if not expect_refusal:
                new[spec.fp] = content
        elif kind == 'delete':
            expect_refusal = spec.fp not in state
            new.pop(spec.fp, None)
        elif kind == 'get':
            expect_refusal = spec.fp not in state
        text = '%s %s v%d' % (kind, spec.fp[-8:], v)
        trail.append(text)
        sim.event('call', text)
        with sim.quietly():
            key = w.key_object(spec, v, bulk=bulk)
        try:
            if kind == 'add':
                res.add_transferrable_key(key)
            elif kind == 'update':
                res.update_transferrable_key(key)
            elif kind == 'delete':
                res.delete_transferrable_key(key)
            elif kind == 'get':
                got = res.get_transferrable_key(spec.fp)
            elif kind == 'keys':
                got = sorted(res.keys())
            elif kind == 'values':
                got = [w.content_of(k) for k in res.values()]
            elif kind == 'search':
                db = w.gpg(sim.current.proc).GPGDatabase()
                db.register_resource('ring', res, False)
                how = ch.pick(['all', 'one', 'id'], 'search-by')
                got = [w.content_of(k) for k in (
                    db.search(user_id='example.org') if how == 'all' else
                    db.search(fingerprint=spec.fp) if how == 'one' else
                    db.search(key_id=spec.fp[-16:], user_id='example'))]
            else:
                got = spec.fp in res
        except Exception as e:
            self.raised(sim, text, e)
            if not sim.fault_counts and not expect_refusal:
                raise Violation('failed-without-fault', '%s raised %s: %s' % (
                    text, type(e).__name__, e))
            # all old or all new, nothing else lost
            cur[0] = self.check_file(w, [state, new], 'a %s that raised' %
                                     kind, bool(state))
            return
        sim.event('return', text)
        if expect_refusal:
            raise Violation('wrong-result', '%s succeeded' % text)
        if kind == 'get':
            if got is None or w.content_of(got) != state[spec.fp]:
                raise Violation('wrong-result', '%s returned the wrong '
                                'content' % text)
        elif kind == 'keys':
            if len(got) != len(state) or not all(
                    any(fp.endswith(k) for fp in state) for k in got):
                raise Violation('wrong-result', 'keys() returned %s instead '
                                'of %s' % (got, sorted(state)))
        elif kind in ('values', 'search'):
            want = [c for fp, c in state.items()
                    if kind == 'values' or how == 'all' or fp == spec.fp]
            if sorted(got) != sorted(want):
                raise Violation('wrong-result', '%s returned %s keys instead '
                                'of %d' % (kind, [kc.title(c) for c in got],
                                           len(want)))
        elif kind == 'contains':
            if got != (spec.fp in state):
                raise Violation('wrong-result', '%s returned %s' % (text,
                                                                    got))
        cur[0] = self.check_file(w, [new], 'a %s that returned' % kind,
                                 bool(state))

    def healthy(self, w, ch, res, pool, cur):
        """Without faults every operation works and shows the state."""
        sim = w.sim
        sim.event('no more faults')
        state = cur[0]
        try:
            names = list(res.keys())
            found = {}
            for k in names:
                c = w.content_of(res.get_transferrable_key(k))
                found[keys.fingerprint(c[0][1])] = c
            if found != state:
                raise Violation('unusable', 'after the faults the handle '
                                'shows {%s} instead of {%s}' % (
                                    kc.state_text(found),
                                    kc.state_text(state)))
            spec = pool[ch.below(len(pool), 'after-key')]
            key = w.key_object(spec, 900)
            new = dict(state)
            new[spec.fp] = tuple(spec.content(900))
            if spec.fp in state:
                res.update_transferrable_key(key)
            else:
                res.add_transferrable_key(key)
        except Exception as e:
            if isinstance(e, Violation) or core.is_harness_error(e):
                raise
            raise Violation('unusable', 'after the faults an operation '
                            'raised %s: %s' % (type(e).__name__, e))
        cur[0] = self.check_file(w, [new], 'an operation without faults')

    # -- key and message files ---------------------------------------------------

    def files(self, w, ch):
        sim = w.sim
        from pgp import shortcuts
        from pgp import armor
        from pgp import message
        path = kc.DIR + '/key.file'
        inj = self.injector(w, ch)
        proc = w.process('p0')
        trail = []

        def body():
            spec = keys.spec(ch.below(6, 'key'), ch.chance(1, 3, 'secret'))
            keys.dress(ch, [spec])
            bulk = ch.pick([0, 300, 9000, 20000, 0, 300, 9000, 70000],
                           'bulk')
            with sim.quietly():
                key = w.key_object(spec, 1, 1, bulk)
            want = tuple(spec.content(1, 1, bulk))
            for _ in range(1 + ch.below(3, 'rounds')):
                armored = ch.chance(1, 2, 'armored')
                what = ch.pick(['write', 'read', 'message'], 'what')
                trail.append('%s%s' % (what, ' armored' if armored else ''))
                sim.event('call', trail[-1])
                if what == 'write':
                    try:
                        shortcuts.write_key_file(key, path, armored)
                    except Exception as e:
                        self.raised(sim, 'write', e)
                        self.no_fault(sim, e)
                        continue
                    data = w.vfs.peek(path)
                    try:
                        if armored:
                            data = self.dearmor(data, spec.secret)
                        got = tuple((t, b) for t, b, _ in
                                    keys.split_packets(data))
                    except ValueError as e:
                        raise Violation('bad-key-file', 'write_key_file '
                                        'returned but wrote damaged data: %s'
                                        % e)
                    if got != want:
                        raise Violation('bad-key-file', 'write_key_file '
                                        'returned but wrote something else')
                elif what == 'read':
                    raw = spec.raw(1, 1, bulk, old=ch.chance(1, 2, 'old'))
                    if armored:
                        raw = self.armor(raw, spec.secret)
                    w.vfs.put(path, raw)
                    try:
                        k = shortcuts.read_key_file(path, armored)
                    except Exception as e:
                        self.raised(sim, 'read', e)
                        self.no_fault(sim, e)
                        continue
                    if w.content_of(k) != want:
                        raise Violation('bad-key', 'read_key_file returned a '
                                        'different key')
                else:
                    body_ = ch.data(ch.pick([0, 10, 500, 9000], 'size'),
                                    'message')
                    raw = keys.packet(11, b'b\x00' + b'\0\0\0\0' + body_)
                    if armored:
                        raw = self.armor(raw, None)
                    w.vfs.put(path, raw)
                    try:
                        m = shortcuts.read_message_file(path, armored)
                        got = bytes(m.data)
                    except Exception as e:
                        self.raised(sim, 'message', e)
                        self.no_fault(sim, e)
                        continue
                    if got != body_:
                        raise Violation('bad-message', 'read_message_file '
                                        'returned different content')
            # without faults everything works
            self.stop_faults(w, inj)
            try:
                shortcuts.write_key_file(key, path, True)
                k = shortcuts.read_key_file(path, True)
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                raise Violation('unusable', 'without faults a key file could '
                                'not be written and read: %r' % (e,))
            if w.content_of(k) != want:
                raise Violation('bad-key', 'a key file came back different')
        sim.spawn(proc, body, 'p0')
        sim.run()
        return self.progress(w, 'with faults'), 'files: ' + '; '.join(
            trail), inj.hits

    @staticmethod
    def armor(raw, secret):
        import base64
        kind = {None: 'MESSAGE', True: 'PRIVATE KEY BLOCK',
                False: 'PUBLIC KEY BLOCK'}[secret]
        b = base64.b64encode(raw).decode()
        lines = [b[i:i + 64] for i in range(0, len(b), 64)]
        crc = base64.b64encode(crc24(raw).to_bytes(3, 'big')).decode()
        return ('-----BEGIN PGP %s-----\n\n%s\n=%s\n-----END PGP %s-----\n' % (
            kind, '\n'.join(lines), crc, kind)).encode()

    @staticmethod
    def dearmor(text, secret):
        import base64
        lines = text.decode('ascii').splitlines()
        kind = 'PRIVATE KEY BLOCK' if secret else 'PUBLIC KEY BLOCK'
        if lines[0] != '-----BEGIN PGP %s-----' % kind or \
                lines[-1] != '-----END PGP %s-----' % kind:
            raise ValueError('wrong armour lines %r %r' % (lines[0],
                                                           lines[-1]))
        i = lines.index('')
        data = base64.b64decode(''.join(lines[i + 1:-2]), validate=True)
        if lines[-2][:1] != '=' or int.from_bytes(base64.b64decode(
                lines[-2][1:]), 'big') != crc24(data):
            raise ValueError('wrong checksum')
        return data


def crc24(data):
    crc = 0xB704CE
    for b in data:
        crc ^= b << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864CFB
    return crc & 0xffffff
