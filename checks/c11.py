"""C11: secrets on the wire depend on fresh, sufficient randomness."""
import datetime
import functools
import struct

from checks import c09
from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys
from sim import pgpmsg
from sim import pgpref

WINDOW = 8          # octets in common that are not a coincidence
SMALL = 2000        # exponents an observer tries


class Op(object):
    pass


class Check(BaseCheck):

    id = 'C11'
    runs = {'quick': 2500, 'thorough': 40000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.message', 'pgp.packets', 'pgp.utils', 'pgp.s2k',
                  'pgp.transferrable_keys', 'pgp.signature')
    rule = ('one run = one to three sender tasks, interleaved at every '
            'statement, encrypt and sign repeatedly with a simulated system '
            'random source that may fail at any draw; a tap takes everything '
            'apart with the test keys and compares all session keys, '
            'prefixes, salts, paddings, ephemeral values and nonces of the '
            'history with each other, with the wire and with the draws; '
            'non-trivial = at least three operations were compared')
    real_components = ['pgp.message', 'pgp.packets', 'pgp.s2k', 'pgp.utils',
                       'pgp.cipher', 'pgp.transferrable_keys', 'PyCrypto']
    stub_components = ['system random source', 'clock',
                       'the tap (sim/pgpmsg.py, sim/pgpref.py)']
    measure = ('sha-256 of all operations, their order and the failing draws')
    assumptions = [
        'the strength an ephemeral exponent needs is 160 bits, of a DSA '
        'nonce the length of q',
        'PyCrypto asks the system source for at least as many octets as it '
        'uses',
        'simple S2K (chosen by the caller) has no salt; session keys given '
        'by the caller are the caller\'s']

    def load(self):
        self.world = mc.World()
        self.dsa = [s for s in self.world.all_signers()
                    if s[2].kind == 'dsa']
        self.small = {}
        for c in self.world.all_crypters():
            if c[2].kind == 'elg':
                p, g, _y = c[2].pub
                seen = {1: 0}
                v = 1
                for k in range(1, SMALL):
                    v = v * g % p
                    seen.setdefault(v, k)
                self.small[c[2].key_id()] = seen

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 2000, 400, 100],
                                           'preempt-mean'),
                       max_steps=4000000)
        proc = sim.process('senders')
        drawn = {}
        failed = {}
        plan = ch.weighted([('sound', 5), ('fails', 3)], 'source')
        at = span = -1
        if plan == 'fails':
            at = ch.below(40, 'fail-at')
            span = ch.pick([1, 3, 10 ** 9], 'fail-for')
        count = [0]

        def hook(n):
            t = sim.current
            i = count[0]
            count[0] += 1
            if at <= i < at + span:
                failed[t] = failed.get(t, 0) + 1
                sim.fault('rng-error')
                raise OSError(5, 'the random source failed')
            drawn[t] = drawn.get(t, 0) + n
            return sim.prng.bytes(n)
        sim.rng_hook = hook
        ops = []
        what = []

        def sender(kind):
            t = sim.current
            job = self.plan(ch, kind)
            for _ in range(job.times):
                before, f0 = drawn.get(t, 0), failed.get(t, 0)
                if ch.chance(1, 8, 'pause'):
                    sim.sleep(ch.pick([1, 3600], 'seconds'))
                error = None
                out = None
                try:
                    out = self.perform(ch, job)
                except Exception as e:
                    if core.is_harness_error(e):
                        raise
                    error = e
                f = failed.get(t, 0) - f0
                if f and error is None:
                    raise Violation(
                        'survived', '%s: the random source failed during the '
                        'operation, which still gave a result' % job.what)
                if error is not None and not f:
                    raise Violation('refused', '%s: %r' % (job.what, error))
                sim.event('op', job.what, drawn.get(t, 0) - before,
                          type(error).__name__)
                if error is None:
                    o = Op()
                    o.job, o.out = job, out
                    o.drawn = drawn.get(t, 0) - before
                    o.index = len(ops)
                    ops.append(o)

        kinds = []
        for i in range(1 + ch.below(3, 'senders')):
            k = ch.pick(['keys', 'passphrase', 'sign'], 'sender-kind')
            kinds.append(k)
            sim.spawn(proc, functools.partial(sender, k), 's%d' % i)
        core.run_sim(sim)
        sample = '%s %s' % (plan, ', '.join(
            sorted(set(o.job.what for o in ops))))
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', tb[-700:])
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', sample)
            self.judge(sim, ops)
        sim.shape.update(sample.encode())
        return Run.of(ch, sim, nontrivial=len(ops) > 2, sample=sample)

    # -- operations ------------------------------------------------------------

    def plan(self, ch, kind):
        """What one sender repeats."""
        w = self.world
        j = Op()
        j.kind = kind
        j.times = ch.pick([3, 8, 14], 'times')
        j.same = ch.chance(1, 2, 'same-message')
        if kind == 'sign':
            j.signer = self.dsa[ch.below(len(self.dsa), 'signer')]
            j.hash = mc.pick_hash(ch, j.signer)
            j.what = 'sign hash %d' % j.hash
            if ch.chance(1, 6, 'many'):
                j.times = 44
        else:
            j.cipher = ch.pick(mc.CIPHERS, 'cipher')
            j.protect = not ch.chance(1, 3, 'unprotected')
            j.session_key = None
            if ch.chance(1, 8, 'own-session-key'):
                j.session_key = ch.data(pgpref.KEYLEN[j.cipher])
            j.what = '%s cipher %d%s' % (kind, j.cipher,
                                         '' if j.protect else ' unprotected')
        if kind == 'keys':
            c = w.all_crypters()
            j.rcpts = []
            for _ in range(1 + ch.below(3, 'recipients')):
                j.rcpts.append(c.pop(ch.below(len(c), 'recipient')))
            j.hidden = [ch.chance(1, 3, 'hidden') for _ in j.rcpts]
            j.what += ' to ' + ','.join(r[2].kind for r in j.rcpts)
        elif kind == 'passphrase':
            j.passphrase = ch.pick(mc.PASSPHRASES, 'passphrase')
            j.s2k = ch.pick([3, 1, 0], 's2k')
            j.what += ' s2k %d' % j.s2k
        j.text = ch.data(ch.pick([40, 0, 100, 300], 'size'))
        j.msg = self.message(j.text)
        return j

    def message(self, data):
        return self.world.m.BinaryMessage(
            data, 'a', datetime.datetime.fromtimestamp(1400000000))

    def perform(self, ch, j):
        msg = j.msg
        text = j.text
        if not j.same:
            text = ch.data(40)
            msg = self.message(text)
        if j.kind == 'sign':
            sig = j.signer[0].sign(msg, 4, 0, j.hash)
            return text, bytes(sig.to_packet().content)
        if j.kind == 'keys':
            enc = msg.public_key_encrypt(
                j.cipher,
                public_keys=[r[1] for r, h in zip(j.rcpts, j.hidden)
                             if not h],
                hidden_public_keys=[r[1] for r, h in zip(j.rcpts, j.hidden)
                                    if h],
                session_key=j.session_key, integrity_protect=j.protect)
        else:
            kw = {'s2k_count': 1024} if j.s2k == 3 else {}
            enc = msg.symmetric_encrypt(
                j.cipher, j.passphrase, session_key=j.session_key,
                integrity_protect=j.protect, s2k_type=j.s2k,
                s2k_hash_algorithm=8, **kw)
        return text, mc.wire(enc)

    # -- the tap ------------------------------------------------------------------

    def judge(self, sim, ops):
        secrets = []        # (name, group, octets, op)
        clear = []
        for o in ops:
            if o.job.kind == 'sign':
                self.take_signature(o, secrets)
            else:
                self.take_encrypted(o, secrets, clear)
        self.compare(secrets)
        self.statistics(secrets)
        self.leaks(ops, secrets, clear)

    def take_signature(self, o, secrets):
        ref = o.job.signer[2]
        text, body = o.out
        part = c09.signed_part(body)
        p, q, g, _y = ref.pub
        n = struct.unpack('>H', body[4:6])[0]
        head = body[:6 + n]
        d = pgpref.new_hash(part[3], text + head + b'\x04\xff' + struct.pack(
            '>I', len(head))).digest()
        r, s = part[6]
        if not (0 < r < q and 0 < s < q):
            raise Violation('broken', '%s: values out of range' % o.job.what)
        k = pow(s, -1, q) * (ref.z(d) + ref.sec[0] * r) % q
        if pow(g, k, p) % q != r:
            raise Violation('broken', '%s: not a DSA signature' % o.job.what)
        size = (q.bit_length() + 7) // 8
        secrets.append(('DSA nonce', ref.key_id(), k.to_bytes(size, 'big'),
                        o))
        need = q.bit_length() // 8 - 1
        if o.drawn < need:
            raise Violation('insufficient', '%s drew %d octets, its nonce '
                            'needs %d' % (o.job.what, o.drawn, need))

    def take_encrypted(self, o, secrets, clear):
        j = o.job
        text, raw = o.out
        need = 0
        try:
            e = pgpmsg.Encrypted(raw)
            sk = None
            if j.kind == 'keys':
                got = None
                for esk, r in self.pairs(j, e):
                    cipher, sk, pad = esk.open_with_key(r[2])
                    secrets.append(('padding', 'pad%d' % len(pad), pad, o))
                    need += len(pad)
                    if r[2].kind == 'elg':
                        need += 20
                        self.exponent(o, r[2], esk.values[0], secrets)
                prefix, plain = e.decrypt(cipher, sk)
            else:
                esk, cipher, sk, _, prefix, plain = e.read(
                    passphrase=j.passphrase.encode('utf8'))
                if j.s2k:
                    secrets.append(('salt', 'salt', esk.salt, o))
                    need += 8
        except pgpmsg.Unreadable as x:
            raise Violation('broken', '%s: cannot be read: %s' % (j.what, x))
        if j.session_key is None:
            secrets.append(('session key', 'key%d' % cipher, sk, o))
            need += pgpref.KEYLEN[j.cipher]
        elif sk != j.session_key:
            raise Violation('broken', '%s: not the session key given' %
                            j.what)
        bs = pgpref.BLOCK[j.cipher]
        secrets.append(('prefix', 'prefix%d' % bs, prefix[:bs], o))
        need += bs
        if o.drawn < need:
            raise Violation(
                'insufficient', '%s took %d octets from the random source '
                'and needs %d' % (j.what, o.drawn, need))
        clear.append((o, raw, text))

    def pairs(self, j, e):
        left = list(j.rcpts)
        out = []
        for esk in e.esks:
            for r in left:
                try:
                    if not esk.is_hidden() and esk.key_id != r[2].key_id():
                        continue
                    esk.open_with_key(r[2])
                except (pgpmsg.Unreadable, OverflowError):
                    continue
                out.append((esk, r))
                left.remove(r)
                break
        if left or len(out) != len(e.esks):
            raise Violation('broken', '%s: the session key packets do not '
                            'match the recipients' % j.what)
        return out

    def exponent(self, o, ref, a, secrets):
        k = self.small[ref.key_id()].get(a)
        if k is not None:
            raise Violation('guessable', '%s: the ephemeral exponent is %d' %
                            (o.job.what, k))
        size = (ref.pub[0].bit_length() + 7) // 8
        secrets.append(('ephemeral value', 'elg' + ref.key_id(),
                        a.to_bytes(size, 'big'), o))

    def compare(self, secrets):
        """Nothing is used twice, not even in part."""
        seen = {}
        for i, (name, group, data, o) in enumerate(secrets):
            for at in range(len(data) - WINDOW + 1):
                piece = data[at:at + WINDOW]
                first, there = seen.setdefault(piece, (i, at))
                if first == i and there != at:
                    raise Violation('repeats', '%s: the %s repeats itself: '
                                    '%s' % (o.job.what, name,
                                            data.hex()[:64]))
                if first != i:
                    n2, _, d2, o2 = secrets[first]
                    raise Violation(
                        'reused', 'the %s of operation %d (%s) and the %s of '
                        'operation %d (%s) have %s in common' % (
                            n2, o2.index, o2.job.what, name, o.index,
                            o.job.what, piece.hex()))

    def statistics(self, secrets):
        groups = {}
        for name, group, data, o in secrets:
            if name != 'ephemeral value':
                groups.setdefault((name, group, len(data)), []).append(data)
        for (name, group, size), values in sorted(groups.items()):
            n = len(values)
            if n >= 2:
                ints = sorted(int.from_bytes(v, 'big') for v in values)
                for a, b in zip(ints, ints[1:]):
                    if size >= 16 and b - a < 1 << (size * 8 - 72):
                        raise Violation(
                            'predictable', 'two values of the %s differ by '
                            '%d' % (name, b - a))
            if n >= 8:
                for at in range(size):
                    if len(set(v[at] for v in values)) == 1:
                        raise Violation(
                            'constant', 'octet %d of the %s is %02x in all '
                            'of %d operations' % (at, name, values[0][at],
                                                  n))
            if n >= 40:
                for at in range(1, size):
                    ones = zeros = 0
                    for v in values:
                        ones |= v[at]
                        zeros |= ~v[at] & 255
                    if ones != 255 or zeros != 255:
                        raise Violation(
                            'constant', 'a bit of octet %d of the %s never '
                            'changes in %d operations' % (at, name, n))

    def leaks(self, ops, secrets, clear):
        """The wire shows neither the plaintext nor a secret."""
        hidden = {}
        for name, group, data, o in secrets:
            if name not in ('salt', 'ephemeral value'):
                for at in range(len(data) - WINDOW + 1):
                    hidden[data[at:at + WINDOW]] = name
        for o, raw, text in clear:
            for at in range(0, len(text) - WINDOW + 1):
                hidden[text[at:at + WINDOW]] = 'plaintext'
        for o in ops:
            if o.job.session_key if o.job.kind != 'sign' else False:
                k = o.job.session_key
                for at in range(len(k) - WINDOW + 1):
                    hidden[k[at:at + WINDOW]] = 'session key'
        for o in ops:
            raw = o.out[1]
            for at in range(len(raw) - WINDOW + 1):
                name = hidden.get(raw[at:at + WINDOW])
                if name is not None:
                    raise Violation('leaked', '%s: the %s can be read on the '
                                    'wire at octet %d' % (o.job.what, name,
                                                          at))
