"""C18: concurrent use of independent objects never interferes."""
import datetime
import io

from checks import keyring_common as kc
from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import armor as ref_armor
from sim import core
from sim import keys
from sim import load
from sim import pgpref

SIZES = [0, 1, 7, 16, 17, 33, 60, 200]
WORDS = ['alpha', 'beta', 'gamma', 'delta']


class StoppedClock(core.Sim):
    """Waiting takes simulated time, but the wall clock does not move: what
    is written must not depend on how long something took."""

    @property
    def wall(self):
        return 1400000000.0 - self.now

    @wall.setter
    def wall(self, value):
        pass


class RandomFailure(OSError):
    pass


class Job(object):
    """Something one thread does with the library: a pure function of the
    shared objects and its own random bytes."""

    def __init__(self, name, fn, number, fail_at=None):
        self.name = name
        self.fn = fn
        self.number = number
        self.fail_at = fail_at


class Stage(object):
    """One execution of the jobs: fresh shared objects, fresh machine."""


class Check(BaseCheck):

    id = 'C18'
    runs = {'quick': 2500, 'thorough': 40000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp',)
    rule = ('one run = two to five threads of one process, each with one to '
            'three generated jobs (encrypt, decrypt, sign, verify, armour, '
            'parse, compress, unlock, derive keys, run ciphers, look keys '
            'up in keyrings and databases; some meant to fail, some with a '
            'failing random source), pre-empted between any two statements '
            'of any module of the library, in some runs all repeating the '
            'same two jobs; the same jobs are then done one '
            'after the other by a process of their own and every result must '
            'be the same bytes or the same error; non-trivial = a thread '
            'was pre-empted in the library and at least two threads ran')
    real_components = ['all of pgp but pgp.commands, pgp.keyserver and '
                       'pgp.pinentry', 'PyCrypto']
    stub_components = ['threads (greenlets) and locks', 'clock', 'random '
                       'numbers (per thread)', 'file system (in memory)']
    measure = 'sha-256 of the jobs and the sequence of thread switches'
    assumptions = [
        'switches happen between statements of the library, not inside '
        'PyCrypto, zlib or the standard library',
        'shared keys and messages are not modified while they are shared']

    def load(self):
        import pgp.armor
        import pgp.db.gpg                                 # noqa
        import pgp.shortcuts
        import pgp.user_id
        import pgp.s2k
        import pgp.utils
        import pgp.cipher                                 # noqa
        import pgp.packets.parsers
        self.world = mc.World()
        self.armor = pgp.armor
        self.short = pgp.shortcuts
        self.uid = pgp.user_id
        self.s2k = pgp.s2k
        self.utils = pgp.utils
        self.parsers = pgp.packets.parsers
        self.cheap = {}
        for k in self.world.keys:
            prots = []
            for i in range(len(k.ref.parts)):
                p = pgpref.default_prot(k.ref, i)
                p['coded'] = 0
                prots.append(p)
            self.cheap[k.ref.name] = k.ref.raw(True, prots)

    # -- one run ---------------------------------------------------------------

    def run(self, ch):
        mean = ch.pick([30, 200, 8, 1000, 3], 'preempt-mean')
        plan = [[self.job(ch, i * 10 + j)
                 for j in range(1 + ch.below(3, 'jobs'))]
                for i in range(2 + ch.below(4, 'threads'))]
        if ch.chance(1, 3, 'alike'):
            # the same kind of thing everywhere, started together
            first = plan[0][0]
            for i, jobs in enumerate(plan[1:]):
                if ch.chance(2, 3, 'same'):
                    jobs[0] = self.job(ch, (i + 1) * 10, first.kind)
        elif ch.chance(1, 3, 'repeated'):
            # a few things that everybody does again and again, so that a
            # thread finds what another one is just leaving behind
            a = plan[0][0]
            few = [a, self.job(ch, 1, a.kind)]
            plan = [[few[ch.below(2, 'repeat')]
                     for j in range(2 + ch.below(3, 'jobs'))]
                    for i in range(2 + ch.below(3, 'threads'))]
        never = ch.pick([100, 1000, 12], 'never')
        which = [ch.below(len(self.world.keys), 'key') for _ in range(2)]
        shared_seed = ch.below(1 << 32, 'shared')
        what = '; '.join('+'.join(j.name for j in jobs) for jobs in plan)

        # together
        results = {}
        stage = self.stage(ch, which, shared_seed, mean)
        stage.sim.never = never
        stage.sim.hot = ch.pick([4, 12, None, 2], 'hot')
        before = self.fingerprint(stage)
        self.start(stage, [self.thread(stage, jobs, results, i)
                           for i, jobs in enumerate(plan)])
        core.run_sim(stage.sim)
        sim = stage.sim
        switches = sim.probes.get('preemption', 0)
        self.judge(sim, what)
        if sim.violation is None and self.fingerprint(stage) != before:
            raise Violation('shared-changed', '%s: a shared key or message '
                            'is not what it was' % what)
        # one after the other
        alone = {}
        if sim.violation is None:
            for i, jobs in enumerate(plan):
                for at, j in enumerate(jobs):
                    if j.number not in alone:
                        load.thaw()
                        st = self.stage(ch, which, shared_seed, None)
                        one = {}
                        self.start(st, [self.thread(st, [j], one, 0)])
                        core.run_sim(st.sim)
                        self.judge(st.sim, 'alone: ' + j.name)
                        if st.sim.violation is not None:
                            raise st.sim.violation
                        core.LAST = sim
                        alone[j.number] = one[0, 0]
                    if results[i, at] != alone[j.number]:
                        raise Violation(
                            'interference', '%s together with %s: %s; alone: '
                            '%s' % (j.name, what, self.text(
                                results[i, at]), self.text(
                                    alone[j.number])))
        sim.shape.update(what.encode())
        return Run.of(ch, sim, nontrivial=switches > 0, sample=what)

    def judge(self, sim, what):
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s: %s' % (what, tb[-900:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', '%s: %s' % (what, sim.deadlock))

    @staticmethod
    def text(r):
        s = repr(r)
        return s if len(s) < 500 else s[:400] + '...' + s[-80:]

    def stage(self, ch, which, shared_seed, mean):
        """The machine, the shared keys and the shared messages."""
        st = Stage()
        w = kc.World(core.Choices(recorded=[]), preempt=mean,
                     max_steps=6000000, step_cost=0.000001)
        st.machine = w
        st.sim = sim = w.sim
        sim.__class__ = StoppedClock
        sim.choices = ch
        sim.fairness = 20000
        st.random = {}
        own = core.Prng(shared_seed)

        def hook(n):
            t = sim.current
            if t is None or t not in st.random:
                return own.bytes(n)
            r = st.random[t]
            if r[1] is not None:
                if r[1] == 0:
                    sim.fault('random-failure')
                    raise RandomFailure('simulated')
                r[1] -= 1
            return r[0].bytes(n)
        sim.rng_hook = hook
        sim.rng_draws = None
        prev, core.ACTIVE = core.ACTIVE, sim
        try:
            st.keys = []
            for k in which:
                ref = self.world.keys[k].ref
                lk = self.world.library_key(ref, unlock=False,
                                            raw=self.cheap[ref.name])
                lk.secret.unlock(ref.passphrase)
                st.keys.append(lk)
            st.signers = [s for k in st.keys for s in k.signers]
            st.crypters = [s for k in st.keys for s in k.crypters]
            self.messages(st)
            # a keyring with some keys, public and secret
            st.specs = [keys.spec(i) for i in range(4)]
            st.secret_specs = [keys.spec(i, True) for i in range(2)]
            w.seed_file(st.specs)
            w.seed_file(st.secret_specs, '/sim/home/secring.gpg')
            st.proc = w.process('threads')
        finally:
            core.ACTIVE = prev
        return st

    def start(self, st, threads):
        """Open the shared database, then start the threads."""
        def body():
            with st.sim.quietly():
                st.ring = st.machine.gpg(st.proc).GPGDatabase()
                st.ring.add_resource(kc.PATH)
                st.ring.add_resource('/sim/home/secring.gpg', secret=True)
            st.sim.countdown = None
            for i, t in enumerate(threads):
                st.sim.spawn(st.proc, t, 't%d' % i)
        st.sim.spawn(st.proc, body, 'main')

    def messages(self, st):
        m = self.world.m
        when = datetime.datetime.fromtimestamp(1300000000)
        plain = m.BinaryMessage(b'shared plaintext %d' % len(st.keys), 's',
                                when)
        st.plain = plain
        st.plain_content = mc.content(plain)
        s = st.signers[0]
        h = [x for x in mc.HASHES if mc.hash_fits(x, s[2])][0]
        st.signed = self.world.parse(mc.wire(plain.sign(
            s[0], hash_algorithm=h)))
        st.compressed = self.world.parse(mc.wire(st.signed.compress(1, 6)))
        c = st.crypters[0]
        enc = st.compressed.public_key_encrypt(
            9, public_keys=[x[1] for x in st.crypters[:2]],
            session_key=b'k' * 32)
        pw = st.compressed.symmetric_encrypt(
            9, 'shared passphrase', session_key=b'k' * 32,
            s2k_count=1024)
        st.encrypted = self.world.parse(mc.wire(m.EncryptedMessageWrapper(
            enc.session_keys + pw.session_keys, pw.message_data_obj)))
        st.reader = c

    def fingerprint(self, st):
        prev, core.ACTIVE = core.ACTIVE, st.sim
        try:
            out = [mc.wire(x) for x in (st.plain, st.signed, st.compressed,
                                        st.encrypted)]
            for k in st.keys:
                out += [bytes(p) for p in k.secret.to_packets()]
                out += [bytes(p) for p in k.public.to_packets()]
                for s, p, r in k.parts:
                    out.append((s.is_locked(), s.exponent_d, s.exponent_x,
                                s.prime_p, len(s.signatures),
                                p.fingerprint))
            return out
        finally:
            core.ACTIVE = prev

    def thread(self, st, jobs, results, number):
        def body():
            t = st.sim.current
            for at, j in enumerate(jobs):
                st.random[t] = [core.Prng(core.mix('job', j.number)),
                                j.fail_at]
                st.sim.event('start', j.name)
                try:
                    r = ('ok', j.fn(st))
                except Violation:
                    raise
                except Exception as e:
                    if core.is_harness_error(e):
                        raise
                    r = ('error', type(e).__name__, str(e)[:200])
                    if not j.may_fail and j.fail_at is None:
                        raise
                st.sim.event('end', j.name, r[0])
                results[number, at] = r
        return body

    # -- jobs --------------------------------------------------------------------

    KINDS = ['encrypt', 'decrypt', 'sign', 'verify', 'armor', 'parse',
             'compress', 'unlock', 's2k', 'cipher', 'lookup', 'export',
             'userid', 'read']

    def job(self, ch, number, kind=None):
        if kind is None:
            kind = ch.pick(self.KINDS, 'kind')
        make = getattr(self, 'make_' + kind)
        name, fn = make(ch, number)
        j = Job('%s(%s)' % (kind, name), fn, number)
        j.kind = kind
        j.may_fail = 'wrong' in name or 'damaged' in name
        if kind in ('encrypt', 'sign') and ch.chance(1, 8, 'rng-fails'):
            j.fail_at = ch.below(5, 'fail-at')
            j.name += '!%d' % j.fail_at
        return j

    def payload(self, ch, number):
        n = ch.pick(SIZES, 'size')
        return (b'secret of job %d. ' % number * (n // 8 + 1))[:n]

    def check(self, ok, name, got, want):
        if not ok:
            raise Violation('wrong-result', '%s: %s instead of %s' % (
                name, self.text(got), self.text(want)))

    def make_encrypt(self, ch, number):
        data = self.payload(ch, number)
        cipher = ch.pick(mc.CIPHERS, 'cipher')
        to = ch.pick(['key', 'hidden', 'passphrase', 'both', 'two'], 'to')
        which = ch.below(4, 'which')
        protect = not ch.chance(1, 4, 'unprotected')
        alg = ch.pick([None, 1, 2, 3], 'compression')
        word = WORDS[ch.below(len(WORDS), 'word')] + str(number)
        signed = ch.chance(1, 4, 'signed')
        text = ch.chance(1, 3, 'text')
        s2k = ch.pick([3, 1, 0], 's2k')
        hash_ = ch.pick(mc.HASHES, 's2k-hash')

        def fn(st):
            m = self.world.m
            when = datetime.datetime.fromtimestamp(1300000000 + number)
            msg = m.TextMessage(data.decode(), 'n%d' % number, when) \
                if text else m.BinaryMessage(data, 'n%d' % number, when)
            if signed:
                s = st.signers[which % len(st.signers)]
                msg = msg.sign(s[0], hash_algorithm=self.hash_for(s, which))
            if alg is not None:
                msg = msg.compress(alg, 6)
            want = mc.content(msg)
            c = st.crypters[which % len(st.crypters)]
            d = st.crypters[-1 - which % len(st.crypters)]
            tokens = []
            session = None
            if to == 'both':
                session = bytes((number + i) & 255 for i in range(
                    pgpref.KEYLEN[cipher]))
            parts = []
            if to in ('key', 'both', 'two'):
                parts.append(msg.public_key_encrypt(
                    cipher, public_keys=[c[1]] + (
                        [d[1]] if to == 'two' and d is not c else []),
                    session_key=session, integrity_protect=protect))
                tokens.append(c[0])
                if to == 'two':
                    tokens.append(d[0])
            if to == 'hidden':
                parts.append(msg.public_key_encrypt(
                    cipher, hidden_public_keys=[c[1]],
                    integrity_protect=protect))
                tokens.append(c[0])
            if to in ('passphrase', 'both'):
                kw = {'s2k_count': 1024} if s2k == 3 else {}
                parts.append(msg.symmetric_encrypt(
                    cipher, word, session_key=session, s2k_type=s2k,
                    s2k_hash_algorithm=hash_, integrity_protect=protect,
                    **kw))
                tokens.append(word)
            enc = parts[0] if len(parts) == 1 else m.EncryptedMessageWrapper(
                [k for p in parts for k in p.session_keys],
                parts[-1].message_data_obj)
            raw = mc.wire(enc)
            out = [raw]
            for t in tokens:
                got = mc.content(self.world.parse(raw).get_message(t))
                self.check(got == want, 'decrypted', got, want)
            return out
        return 'cipher %d to %s' % (cipher, to), fn

    def hash_for(self, s, n):
        ok = [h for h in mc.HASHES if mc.hash_fits(h, s[2])]
        return ok[n % len(ok)]

    def make_decrypt(self, ch, number):
        how = ch.pick(['key', 'passphrase', 'wrong passphrase', 'copy',
                       'damaged copy'], 'how')
        at = ch.below(20, 'at')

        def fn(st):
            msg = st.encrypted
            if 'copy' in how:
                raw = mc.wire(msg)
                if 'damaged' in how:
                    raw = bytearray(raw)
                    raw[-1 - at] ^= 1
                msg = self.world.parse(raw)
            token = 'not it' if how.startswith('wrong') else \
                st.reader[0] if how == 'key' or number % 2 else \
                'shared passphrase'
            got = msg.get_message(token)
            if 'wrong' in how or 'damaged' in how:
                return mc.content(got)
            inner = got.get_message().get_message()
            got = mc.content(inner)
            self.check(got == st.plain_content, 'decrypted', got,
                       st.plain_content)
            return got
        return how, fn

    def make_sign(self, ch, number):
        data = self.payload(ch, number)
        which = ch.below(6, 'which')
        version = ch.pick([4, 3], 'version')
        text = ch.chance(1, 3, 'text')

        def fn(st):
            m = self.world.m
            when = datetime.datetime.fromtimestamp(1300000000 + number)
            msg = m.TextMessage(data.decode() + '\r\n', '', when) if text \
                else m.BinaryMessage(data, '', when)
            s = st.signers[which % len(st.signers)]
            typ = 1 if text else 0
            sig = s[0].sign(msg, version, typ, self.hash_for(s, which))
            s[1].verify(sig, msg)
            other = m.BinaryMessage(data + b'!', '', when)
            try:
                s[1].verify(sig, other)
            except Exception as e:
                if core.is_harness_error(e):
                    raise
            else:
                self.check(False, 'signature of another text', 'accepted',
                           'an error')
            return bytes(sig.to_packet())
        return 'v%d' % version, fn

    def make_verify(self, ch, number):
        how = ch.pick(['shared', 'copy', 'damaged copy'], 'how')
        at = ch.below(30, 'at')

        def fn(st):
            msg = st.signed
            if 'copy' in how:
                raw = bytearray(mc.wire(msg))
                if 'damaged' in how:
                    # in the literal data
                    k = raw.index(b'shared plaintext')
                    raw[k + at % 16] ^= 4
                msg = self.world.parse(raw)
            pub = st.signers[0][1]
            for sig in msg.signatures:
                pub.verify(sig, msg.message)
            self.check('damaged' not in how, 'a damaged message', 'verified',
                       'an error')
            return [bytes(x.to_packet()) for x in msg.signatures]
        return how, fn

    def make_armor(self, ch, number):
        data = self.payload(ch, number) * ch.pick([1, 3], 'times')
        damaged = ch.chance(1, 3, 'damaged')
        version = ch.pick(['', 'job %d' % number], 'version')

        def fn(st):
            a = self.armor.ASCIIArmor(self.armor.PGP_MESSAGE, data,
                                      version=version)
            text = str(a)
            kind, payload = ref_armor.decode(text)[:2]
            self.check(bytes(payload) == data, 'armour', payload, data)
            if damaged and len(data) > 5:
                lines = text.split('\n')
                k = [i for i, l in enumerate(lines) if not l.strip()][0] + 1
                c = lines[k][0]
                lines[k] = ('B' if c == 'A' else 'A') + lines[k][1:]
                text = '\n'.join(lines)
            back = self.armor.ASCIIArmor.from_ascii(text)
            self.check(bytes(back.data) == data, 'armour read', back.data,
                       data)
            return text
        return '%d bytes%s' % (len(data), ' damaged' if damaged else ''), fn

    def make_parse(self, ch, number):
        which = ch.below(2, 'which')
        secret = ch.chance(1, 2, 'secret')
        cut = ch.chance(1, 4, 'damaged')

        def fn(st):
            ref = st.keys[which].ref
            raw = self.cheap[ref.name] if secret else ref.raw(False)
            if cut:
                raw = raw[:-3]
            a = [bytes(p) for p in
                 self.parsers.parse_binary_packet_data(raw)]
            b = [bytes(p) for p in
                 self.parsers.parse_binary_packet_stream(io.BytesIO(raw))]
            self.check(a == b and b''.join(a) == raw, 'packets', (a, b), raw)
            cls = self.world.tk.TransferableSecretKey if secret else \
                self.world.tk.TransferablePublicKey
            k = cls.from_packets(list(
                self.parsers.parse_binary_packet_data(raw)))
            fp = ref.primary.fingerprint()
            self.check(k.fingerprint == fp, 'fingerprint', k.fingerprint, fp)
            return [k.fingerprint] + [u.user_id for u in k.user_ids] + \
                [s.key_id for s in k.subkeys]
        return ('damaged ' if cut else '') + 'secret' * secret, fn

    def make_compress(self, ch, number):
        data = self.payload(ch, number) * 4
        alg = ch.pick([1, 2, 3, 0], 'algorithm')
        level = ch.pick([6, 1, 9], 'level')

        def fn(st):
            m = self.world.m
            msg = m.BinaryMessage(data, '', datetime.datetime.fromtimestamp(
                1300000000))
            raw = mc.wire(msg.compress(alg, level))
            got = self.world.parse(raw).get_message().data
            self.check(bytes(got) == data, 'decompressed', got, data)
            got = mc.content(st.compressed.get_message().message)
            self.check(got == st.plain_content, 'shared message', got,
                       st.plain_content)
            return raw
        return str(alg), fn

    def make_unlock(self, ch, number):
        which = ch.below(2, 'which')
        wrong = ch.chance(1, 3, 'wrong')
        block = ch.chance(1, 2, 'block')

        def fn(st):
            from pgp.context_managers import unlocked
            ref = st.keys[which].ref
            k = self.world.library_key(ref, unlock=False,
                                       raw=self.cheap[ref.name])
            if wrong:
                try:
                    k.secret.unlock('wrong %d' % number)
                finally:
                    for s, p, r in k.parts:
                        self.check(s.is_locked(), 'after a failed unlock',
                                   'open', 'locked')
            if block:
                with unlocked(k.secret, ref.passphrase):
                    out = [self.numbers(s) for s, p, r in k.parts]
            else:
                k.secret.unlock(ref.passphrase)
                out = [self.numbers(s) for s, p, r in k.parts]
                k.secret.lock()
            for s, p, r in k.parts:
                self.check(s.is_locked() and s.exponent_d is None and
                           s.exponent_x is None, 'after locking', 'open',
                           'locked')
            want = [tuple(r.sec)[:1] for s, p, r in k.parts]
            self.check([o[:1] for o in out] == want, 'secret numbers', out,
                       want)
            return out
        return 'wrong' if wrong else 'right', fn

    @staticmethod
    def numbers(s):
        return tuple(int(x) for x in (s.exponent_d, s.exponent_x)
                     if x is not None)

    def make_s2k(self, ch, number):
        mode = ch.pick([3, 1, 0], 'mode')
        cipher = ch.pick([9, 2, 3, 7, 10], 'cipher')
        hash_ = ch.pick(mc.HASHES, 'hash')
        salt = ch.data(8)
        word = ('%s %d' % (WORDS[number % 4], number)).encode()
        coded = ch.pick([0, 1, 0x13], 'coded')

        def fn(st):
            if mode == 0:
                s = self.s2k.SimpleS2K(hash_, cipher)
            elif mode == 1:
                s = self.s2k.SaltedS2K(hash_, cipher, bytearray(salt))
            else:
                s = self.s2k.IteratedAndSaltedS2K(
                    hash_, cipher, bytearray(salt), pgpref.s2k_count(coded))
            got = bytes(s.to_key(word))
            want = pgpref.s2k(cipher, word, mode, hash_, salt, coded)
            self.check(got == want, 'derived key', got, want)
            return got
        return '%d %d %d' % (mode, hash_, cipher), fn

    def make_cipher(self, ch, number):
        algo = ch.pick(mc.CIPHERS, 'cipher')
        mode = ch.pick(['CFB', 'OPENPGP'], 'mode')
        n = ch.pick([1, 2, 3, 5], 'blocks')
        key = ch.data(pgpref.KEYLEN[algo])
        if algo == 2:
            key = key[:23] + bytes([key[23] ^ 1])
        iv = ch.data(pgpref.BLOCK[algo])
        pieces = ch.chance(1, 2, 'in-pieces')
        sync = ch.chance(1, 2, 'syncable')

        def fn(st):
            bs = pgpref.BLOCK[algo]
            data = bytes((number * 31 + i) & 255 for i in range(n * bs))
            md = getattr(self.utils, mode)

            def cipher():
                return self.utils.get_symmetric_cipher(
                    algo, key, md, iv, syncable=sync)
            c = cipher()
            if pieces and mode != 'OPENPGP':
                out = b''.join(bytes(c.encrypt(data[i:i + bs]))
                               for i in range(0, len(data), bs))
            else:
                out = bytes(c.encrypt(data))
            if mode == 'CFB':
                want = pgpref.cfb_encrypt(pgpref.block_cipher(algo, key), iv,
                                          data)
                self.check(out == want, 'ciphertext', out, want)
            if mode != 'OPENPGP':
                back = bytes(cipher().decrypt(out))
                self.check(back == data, 'deciphered', back, data)
            return out
        return '%d %s' % (algo, mode), fn

    def make_lookup(self, ch, number):
        own = ch.chance(1, 2, 'own-handle')
        secret = ch.chance(1, 3, 'secret')
        which = ch.below(5, 'which')
        how = ch.pick(['fingerprint', 'key_id', 'user_id'], 'how')

        def fn(st):
            db = st.ring
            if own:
                db = st.machine.gpg(st.proc).GPGDatabase()
                db.add_resource(kc.PATH)
                db.add_resource('/sim/home/secring.gpg', secret=True)
            specs = st.secret_specs if secret else st.specs
            absent = which >= len(specs)
            sp = keys.spec(9) if absent else specs[which]
            arg = {'fingerprint': sp.fp, 'key_id': sp.key_id,
                   'user_id': '<%s0@example.org>' % sp.name}[how]
            found = list(db.search(**{how: arg}))
            got = []
            for k in found:
                got.append(b''.join(bytes(p) for p in k.to_packets()))
            both = [] if absent else [
                s for s in st.specs + st.secret_specs if s.fp == sp.fp]
            want = sorted(self.plain(s.raw(0)) for s in both)
            self.check(sorted(map(self.plain, got)) == want, 'search by ' +
                       how, got, want)
            return sorted(got)
        return '%s%s' % ('own ' * own, how), fn

    @staticmethod
    def plain(raw):
        return [x[:2] for x in keys.split_packets(raw)]

    def make_export(self, ch, number):
        which = ch.below(2, 'which')
        armored = ch.chance(1, 2, 'armored')

        def fn(st):
            k = st.keys[which]
            pub = k.secret.to_public_key()
            out = [self.short.serialize_key(pub, armored),
                   self.short.serialize_key(k.public, armored),
                   self.short.serialize_key(k.secret, armored)]
            raw = out[0]
            if armored:
                raw = bytes(ref_armor.decode(raw)[1])
            self.check(self.plain(raw) == self.plain(k.ref.raw(False)),
                       'exported key', raw, k.ref.raw(False))
            back = self.short.read_key(out[2], armored)
            self.check(back.fingerprint == k.ref.primary.fingerprint(),
                       'exported secret key', back.fingerprint,
                       k.ref.primary.fingerprint())
            return out
        return 'armored' * armored, fn

    def make_userid(self, ch, number):
        n = ch.below(50, 'n')

        def fn(st):
            text = 'Job Number %d n%d <job%d@example.org>' % (
                number, n, number)
            got = self.uid.parse_user_id(text)
            want = ('Job Number %d n%d' % (number, n),
                    'job%d@example.org' % number, '')
            self.check(tuple(got) == want, 'user id', got, want)
            return got
        return '', fn

    def make_read(self, ch, number):
        armored = ch.chance(1, 2, 'armored')

        def fn(st):
            raw = mc.wire(st.encrypted)
            if armored:
                raw = str(self.armor.ASCIIArmor(self.armor.PGP_MESSAGE, raw))
            m = self.short.read_message(raw, armored)
            got = mc.content(m.get_message('shared passphrase')
                             .get_message().get_message())
            self.check(got == st.plain_content, 'read message', got,
                       st.plain_content)
            return got
        return 'armored' * armored, fn
