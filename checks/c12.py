"""C12: secret keys are usable only between unlock and lock."""
import copy
import datetime
import functools
import hashlib
import struct
import weakref

from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys
from sim import pgpref

HASH_MODULES = ['MD5', 'SHA', 'RIPEMD', 'SHA224', 'SHA256', 'SHA384',
                'SHA512']


def opens(body, public, passphrase):
    """Does a secret key packet body open with the passphrase? Decided from
    RFC 4880 alone; returns the secret numbers or None."""
    i = len(public)
    usage, cipher = body[i], body[i + 1]
    if usage in (254, 255):
        mode, hash_, salt, coded, i = pgpref.parse_s2k(body, i + 2)
    else:
        cipher, mode, hash_, salt, coded = usage, 0, 1, b'', 0
        i += 1
    bs = pgpref.BLOCK[cipher]
    iv, blob = body[i:i + bs], body[i + bs:]
    key = pgpref.s2k(cipher, passphrase.encode('utf8'), mode, hash_, salt,
                     coded)
    enc = pgpref.block_cipher(cipher, key)
    if body[0] == 3:
        plain = pgpref.v3_cfb(enc, iv, blob[:-2], False)
        if plain is None:
            return None
        plain += blob[-2:]
    else:
        plain = pgpref.cfb_decrypt(enc, iv, blob)
    if usage == 254:
        if hashlib.sha1(plain[:-20]).digest() != plain[-20:]:
            return None
        plain = plain[:-20]
    else:
        if sum(plain[:-2]) & 0xffff != int.from_bytes(plain[-2:], 'big'):
            return None
        plain = plain[:-2]
    return plain


class V3Key(object):
    """A test key as a version 3 key, with nothing but a user ID."""

    def __init__(self, ref):
        self.name = ref.name + ' v3'
        self.passphrase = ref.passphrase
        self.prot = dict(ref.prot, usage=255)
        self.uids = ref.uids[:1]
        self.parts = [copy.copy(ref.parts[0])]
        self.parts[0].__class__ = pgpref.V3Part

    def packets(self, secret, prots=None, passphrases=None):
        p = self.parts[0]
        if secret:
            body = p.secret_body(passphrases[0].encode('utf8'), prots[0])
        else:
            body = p.public_body()
        return [(5 if secret else 6, body),
                (13, self.uids[0].encode('utf8'))]

    def raw(self, secret, prots=None, passphrases=None):
        return b''.join(keys.packet(t, b) for t, b in self.packets(
            secret, prots, passphrases))


class Loaded(object):
    pass


def mpi(v):
    return struct.pack('>H', v.bit_length()) + v.to_bytes(
        (v.bit_length() + 7) // 8, 'big')


def numbers(plain):
    out = []
    i = 0
    while i < len(plain):
        if i + 2 > len(plain):
            raise ValueError
        n = (int.from_bytes(plain[i:i + 2], 'big') + 7) // 8
        if i + 2 + n > len(plain):
            raise ValueError
        out.append(int.from_bytes(plain[i + 2:i + 2 + n], 'big'))
        i += 2 + n
    return out


class Boom(Exception):
    pass


class Subject(object):
    """One secret key in the hands of one task."""


class Check(BaseCheck):

    id = 'C12'
    runs = {'quick': 5000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.transferrable_keys', 'pgp.packets', 'pgp.s2k',
                  'pgp.utils', 'pgp.message')
    rule = ('one run = one to three tasks, interleaved at every statement, '
            'each with its own copy of a generated secret key (protection '
            'per subkey, possibly damaged or under another passphrase), '
            'perform a history of unlock, lock, `unlocked` blocks with all '
            'kinds of endings, sign, decrypt and export, with memory '
            'failures inside unlocking; after every step the state of the '
            'key and everything reachable from it is compared with a model; '
            'non-trivial = at least one unlock failed and one succeeded')
    real_components = ['pgp.transferrable_keys', 'pgp.context_managers',
                       'pgp.packets', 'pgp.s2k', 'pgp.message', 'PyCrypto']
    stub_components = ['clock', 'random numbers', 'memory (allocation of '
                       'hash objects can fail)', 'reference key protection '
                       '(sim/pgpref.py)']
    measure = 'sha-256 of keys, damage and all operations with outcomes'
    assumptions = [
        'a checksum instead of a hash detects damage as far as its 16 bits '
        'go; a reference decides whether it does',
        'unlocking an unlocked key with a wrong passphrase may leave it '
        'locked or unlocked']

    def load(self):
        import pgp.context_managers
        import Crypto.Hash
        self.world = mc.World()
        self.unlocked = pgp.context_managers.unlocked
        self.failing = {}
        w = self.world
        self.v3 = []
        for lk in w.keys:
            if lk.ref.parts[0].kind == 'rsa':
                v3 = Loaded()
                v3.ref = V3Key(lk.ref)
                v3.parts = [(None, w.tk.TransferablePublicKey.from_packets(
                    list(w.parsers.parse_binary_packet_data(
                        v3.ref.raw(False)))))]
                self.v3.append(v3)
        for name in HASH_MODULES:
            m = __import__('Crypto.Hash.' + name, fromlist=['new'])
            m.new = functools.partial(self.allocate, m.new)

    def allocate(self, real, *a, **kw):
        s = core.ACTIVE
        if s is not None and self.failing:
            n = self.failing.get(s.current)
            if n is not None:
                if n == 0:
                    s.fault('memory-failure')
                    raise MemoryError('simulated')
                self.failing[s.current] = n - 1
        return real(*a, **kw)

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 500, 60, 15],
                                           'preempt-mean'),
                       max_steps=4000000)
        proc = sim.process('users')
        self.failing.clear()
        state = {'good': 0, 'bad': 0, 'what': []}
        for i in range(1 + ch.below(3, 'users')):
            sim.spawn(proc, functools.partial(self.user, sim, ch, state),
                      'u%d' % i)
        core.run_sim(sim)
        self.failing.clear()
        what = ' | '.join(state['what'])
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s: %s' % (what, tb[-900:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', what)
        sim.shape.update(what.encode())
        return Run.of(ch, sim, nontrivial=bool(state['good'] and
                                               state['bad']), sample=what)

    # -- keys ------------------------------------------------------------

    def prot(self, ch, key, i):
        p = pgpref.default_prot(key, i)
        if ch.chance(1, 3, 'other-protection'):
            p['cipher'] = ch.pick(mc.CIPHERS, 'cipher')
            p['usage'] = ch.pick([254, 255, 'old'], 'usage')
            p['mode'] = ch.pick([3, 1, 0], 'mode')
            p['hash'] = ch.pick(mc.HASHES, 'hash')
            p['coded'] = ch.pick([0, 1, 0x21], 'coded')
            p['iv'] = ch.data(pgpref.BLOCK[p['cipher']])
            if p['usage'] == 'old':
                p['mode'], p['hash'] = 0, 1
        elif ch.chance(1, 2, 'cheap'):
            p['coded'] = 0
        return p

    def spoil(self, ch, part):
        """Secret numbers that were damaged before they were protected."""
        plain = part.secret_plain()
        how = ch.pick(['numbers', 'cut', 'empty', 'length', 'more'], 'spoil')
        if how == 'numbers':
            values = part.sec[:ch.below(len(part.sec), 'left')]
            return b''.join(mpi(v) for v in values)
        if how == 'cut':
            return plain[:-1 - ch.below(len(plain) - 1, 'cut')]
        if how == 'empty':
            return b''
        if how == 'length':
            b = bytearray(plain)
            b[0] ^= 1 << ch.below(8, 'bit')
            return bytes(b)
        return plain + bytes([0] * (1 + ch.below(2, 'more')))

    def subject(self, sim, ch):
        w = self.world
        s = Subject()
        v3 = ch.chance(1, 6, 'version-3')
        lks = self.v3 if v3 else w.keys
        s.lk = lks[ch.below(len(lks), 'key')]
        ref = s.lk.ref
        n = len(ref.parts)
        s.words = [ref.passphrase] * n
        s.what = ref.name
        if ch.chance(1, 6, 'two-passphrases'):
            k = ch.below(n, 'which')
            s.words[k] = 'another one'
            s.what += ' part %d other passphrase' % k
        prots = [self.prot(ch, ref, i) for i in range(n)]
        for p in prots if v3 else ():
            p['usage'] = 'old' if p['usage'] == 'old' else 255
        if not v3 and ch.chance(1, 8, 'spoilt'):
            k = ch.below(n, 'which')
            prots[k]['plain'] = self.spoil(ch, ref.parts[k])
            sim.fault('spoilt-key')
            s.what += ' part %d spoilt to %d octets' % (
                k, len(prots[k]['plain']))
        pk = ref.packets(True, prots, s.words)
        s.publics = [p.public_body() for p in ref.parts]
        if ch.chance(1, 3, 'damage'):
            k = ch.below(n, 'which')
            j = [j for j, (t, b) in enumerate(pk)
                 if t in (5, 7) and b.startswith(s.publics[k])][0]
            b = bytearray(pk[j][1])
            # after usage, cipher, S2K head
            start = len(s.publics[k]) + (
                1 if prots[k]['usage'] == 'old' else 4)
            at = start + ch.below(len(b) - start, 'at')
            if ch.chance(1, 3, 'near-the-end'):
                at = max(len(b) - 1 - ch.below(24, 'from-end'), start + 9)
            if at >= start + 9 or prots[k]['mode'] == 0 or at < start + 8:
                b[at] ^= 1 << ch.below(8, 'bit')
            if ch.chance(1, 5, 'twice'):
                at2 = max(len(b) - 1 - ch.below(24, 'second'), start + 9)
                b[at2] ^= 1 << ch.below(8, 'bit')
            pk[j] = (pk[j][0], bytes(b))
            sim.fault('damaged-key')
            s.what += ' part %d damaged at %d' % (k, at - len(b))
        s.raw = b''.join(keys.packet(t, b) for t, b in pk)
        s.bodies = [b for t, b in pk if t in (5, 7)]
        s.key = w.tk.TransferableSecretKey.from_packets(
            list(w.parsers.parse_binary_packet_data(s.raw)))
        s.parts = [s.key] + list(s.key.subkeys)
        s.open = False
        # what an eavesdropper on any representation must not see
        s.numbers = set()
        s.pieces = {}
        for word, prot in zip(s.words, prots):
            k = pgpref.s2k(prot['cipher'], word.encode('utf8'), prot['mode'],
                           prot['hash'], prot['salt'], prot['coded'])
            s.pieces[k[:8]] = True
            if len(word) >= 8:
                s.pieces[word.encode('utf8')[:8]] = True
        for p in ref.parts:
            for v in p.sec:
                s.numbers.add(v)
                b = v.to_bytes((v.bit_length() + 7) // 8, 'big')
                for at in range(0, len(b) - 8):
                    s.pieces[b[at:at + 8]] = True
        return s

    def right(self, s, word):
        """Does the passphrase open all of the key, says the reference."""
        out = []
        for body, public, ref in zip(s.bodies, s.publics, s.lk.ref.parts):
            try:
                plain = opens(body, public, word)
            except Exception as e:
                raise core.HarnessError(repr(e))
            if plain is None:
                return False
            if plain != ref.secret_plain():
                try:
                    if len(numbers(plain)) < len(ref.sec):
                        return False
                except ValueError:
                    return False
                return None         # undetectable damage
        return True

    # -- one user ----------------------------------------------------------

    def user(self, sim, ch, state):
        s = self.subject(sim, ch)
        state['what'].append(s.what)
        sim.event('key', s.what)
        self.look(sim, s, 'as parsed')
        for _ in range(3 + ch.below(8, 'operations')):
            self.operation(sim, ch, state, s, 0)
        if ch.chance(1, 2, 'lock-at-last'):
            s.key.lock()
            s.open = False
            self.look(sim, s, 'after the last lock')

    def operation(self, sim, ch, state, s, depth):
        op = ch.weighted([('unlock', 5), ('lock', 3), ('block', 4),
                          ('sign', 3), ('decrypt', 3), ('export', 3)], 'op')
        if op == 'unlock':
            self.unlock(sim, ch, state, s)
        elif op == 'lock':
            s.key.lock()
            s.open = False
            sim.event('lock')
        elif op == 'block':
            if depth < 2:
                self.block(sim, ch, state, s, depth)
        elif op == 'sign':
            self.sign(sim, ch, s)
        elif op == 'decrypt':
            self.decrypt(sim, ch, s)
        else:
            self.export(sim, ch, s)
        self.look(sim, s, 'after ' + op)

    def word(self, ch, s):
        w = s.words[0]
        return ch.pick([w, w, w, s.words[-1], w + ' ', w[:-1], w.upper(),
                        '', w + w, w + '\0', 'wrong', '\u043f', w + '\n'],
                       'word')

    def attempt(self, sim, ch, s, word, fn):
        """Call fn, which unlocks; judge the outcome. True if unlocked."""
        want = self.right(s, word)
        task = sim.current
        limit = None
        if ch.chance(1, 6, 'no-memory'):
            limit = ch.below(8, 'allocations')
            self.failing[task] = limit
        was = s.open
        error = None
        try:
            fn()
        except BaseException as e:
            if core.is_harness_error(e):
                raise
            error = e
        finally:
            self.failing.pop(task, None)
        starved = isinstance(error, MemoryError) and limit is not None
        sim.event('unlock', repr(word), type(error).__name__)
        if error is None:
            if want is False:
                raise Violation('wrong-unlocked', '%s: unlocking with %r '
                                'succeeded' % (s.what, word))
            if want is None:
                # damage that no checksum can see: forget about this key
                s.key.lock()
                s.open = False
                sim.probe('undetectable')
                return False
            s.open = True
            return True
        if want and not starved:
            raise Violation('right-refused', '%s: unlocking with the right '
                            'passphrase %r: %r' % (s.what, word, error))
        if was:
            s.key.lock()
        s.open = False
        return False

    def unlock(self, sim, ch, state, s):
        word = self.word(ch, s)
        if self.attempt(sim, ch, s, word,
                        lambda: s.key.unlock(word)):
            state['good'] += 1
        else:
            state['bad'] += 1

    def block(self, sim, ch, state, s, depth):
        word = self.word(ch, s)
        ending = ch.pick(['end', 'error', 'return', 'interrupt', 'exit',
                          'generator'], 'ending')
        entered = [False]
        cm = self.unlocked(s.key, word)

        def body():
            entered[0] = True
            s.open = True
            self.look(sim, s, 'inside a block')
            for _ in range(ch.below(3, 'inside')):
                self.operation(sim, ch, state, s, depth + 1)

        exc = {'error': Boom, 'interrupt': KeyboardInterrupt,
               'exit': SystemExit, 'generator': GeneratorExit}.get(ending)
        ok = self.attempt(sim, ch, s, word, cm.__enter__)
        if not ok:
            state['bad'] += 1
            self.look(sim, s, 'after a refused block')
            return
        state['good'] += 1
        sim.event('block', ending)
        try:
            body()
        except BaseException:
            cm.__exit__(None, None, None)
            raise
        if ending in ('end', 'return'):
            swallowed = cm.__exit__(None, None, None)
        else:
            e = exc('the block ends')
            swallowed = cm.__exit__(exc, e, None)
            if swallowed:
                raise Violation('swallowed', '%s: the block swallowed %r' % (
                    s.what, e))
        s.open = False
        self.look(sim, s, 'after a block ended by ' + ending)

    # -- use ----------------------------------------------------------------

    def sign(self, sim, ch, s):
        i = ch.below(len(s.parts), 'part')
        part, public, ref = s.parts[i], s.lk.parts[i][1], s.lk.ref.parts[i]
        if ref.alg in (2, 16):
            return          # for encryption only
        h = mc.pick_hash(ch, (None, None, ref))
        m = self.world.m.BinaryMessage(
            ch.data(20), 'a', datetime.datetime.fromtimestamp(1400000000))
        try:
            sig = part.sign(m, 4, 0, h)
        except Exception as e:
            if core.is_harness_error(e):
                raise
            if s.open:
                raise Violation('unusable', '%s: unlocked, but signing with '
                                'part %d: %r' % (s.what, i, e))
            return
        if not s.open:
            raise Violation('used-locked', '%s: part %d signed although '
                            'locked' % (s.what, i))
        try:
            ok = public.verify(sig, m)
        except Exception as e:
            if core.is_harness_error(e):
                raise
            ok = repr(e)
        if ok is not True:
            raise Violation('unusable', '%s: unlocked, but part %d makes bad '
                            'signatures: %s' % (s.what, i, ok))
        self.scan_bytes(s, bytes(sig.to_packet()), 'a signature')

    def decrypt(self, sim, ch, s):
        choices = [i for i in range(len(s.parts))
                   if s.lk.ref.parts[i].alg not in (3, 17)]
        if not choices:
            return
        i = choices[ch.below(len(choices), 'part')]
        text = ch.data(20)
        m = self.world.m.BinaryMessage(
            text, 'a', datetime.datetime.fromtimestamp(1400000000))
        enc = m.public_key_encrypt(9, public_keys=[s.lk.parts[i][1]])
        try:
            got = enc.get_message(s.parts[i])
        except Exception as e:
            if core.is_harness_error(e):
                raise
            if s.open:
                raise Violation('unusable', '%s: unlocked, but decrypting '
                                'with part %d: %r' % (s.what, i, e))
            return
        if not s.open:
            raise Violation('used-locked', '%s: part %d decrypted although '
                            'locked' % (s.what, i))
        if bytes(got.data) != text:
            raise Violation('unusable', '%s: part %d decrypts wrongly' % (
                s.what, i))

    # -- inspection ------------------------------------------------------------

    def scan_bytes(self, s, data, where):
        for at in range(len(data) - 7):
            if data[at:at + 8] in s.pieces:
                raise Violation('exposed', '%s: %s contains secret numbers '
                                'at octet %d' % (s.what, where, at))

    def scan_text(self, s, text, where):
        low = text.lower()
        for v in s.numbers:
            if str(v) in text or '%x' % v in low:
                raise Violation('exposed', '%s: %s contains a secret number' %
                                (s.what, where))

    def scan_object(self, s, obj, where):
        """Everything reachable from an object."""
        seen = set()
        todo = [(obj, '')]
        while todo:
            o, path = todo.pop()
            if id(o) in seen or len(seen) > 20000:
                continue
            seen.add(id(o))
            if isinstance(o, bool) or o is None:
                continue
            if isinstance(o, int):
                if o in s.numbers:
                    raise Violation('exposed', '%s: %s holds a secret number '
                                    'in %s' % (s.what, where, path))
            elif isinstance(o, (bytes, bytearray)):
                self.scan_bytes(s, bytes(o), where + ' ' + path)
            elif isinstance(o, str):
                if o in s.words:
                    raise Violation('exposed', '%s: %s holds the passphrase '
                                    'in %s' % (s.what, where, path))
                if len(o) > 30:
                    self.scan_text(s, o, where + ' ' + path)
            elif isinstance(o, (list, tuple, set, frozenset)):
                todo += [(x, path + '[]') for x in o]
            elif isinstance(o, dict):
                todo += [(x, path + '{}') for x in o.values()]
            elif isinstance(o, weakref.ref):
                # reaches the key itself, which is looked at separately
                continue
            elif isinstance(o, type) or callable(o) and not hasattr(
                    o, '__dict__'):
                continue
            else:
                if type(o).__module__.split('.')[0] in (
                        'pgp', 'Crypto') and hasattr(o, '__dict__'):
                    todo += [(v, path + '.' + k)
                             for k, v in vars(o).items()]
                if not type(o).__module__.startswith('pgp'):
                    # the numbers of PyCrypto's keys, written in C or not
                    for k in 'dpqux':
                        v = getattr(o, k, None)
                        if isinstance(v, int):
                            todo.append((v, path + '.' + k))

    def look(self, sim, s, when):
        where = '%s, %s' % (s.what, when)
        for i, p in enumerate(s.parts):
            locked = p.is_locked()
            if bool(locked) == s.open:
                raise Violation(
                    'state', '%s: part %d says it is %s' % (
                        where, i, 'locked' if locked else 'unlocked'))
        if not s.open:
            for i, p in enumerate(s.parts):
                self.scan_object(s, p, when + ', locked part %d' % i)

    def export(self, sim, ch, s):
        how = ch.pick(['public', 'packets', 'repr', 'message'], 'export')
        when = 'unlocked' if s.open else 'locked'
        if how == 'public':
            pub = s.key.to_public_key()
            out = b''.join(bytes(p) for p in pub.to_packets())
            self.scan_bytes(s, out, 'the public key of a key ' + when)
            self.scan_object(s, pub, 'the public key of a key ' + when)
            tags = [t for t, b, _ in keys.split_packets(out)]
            if 5 in tags or 7 in tags:
                raise Violation('exposed', '%s: the public key has secret '
                                'key packets' % s.what)
            if out != s.lk.ref.raw(False):
                raise Violation('export', '%s: the public key of a key %s is '
                                'not the public key' % (s.what, when))
            for p in pub.subkeys:
                self.scan_text(s, repr(p), 'repr')
            self.scan_text(s, repr(pub) + str(pub), 'repr')
        elif how == 'packets':
            pk = s.key.to_packets()
            out = b''.join(bytes(p) for p in pk)
            self.scan_bytes(s, out, 'the secret key packets, %s,' % when)
            if out != s.raw:
                raise Violation('export', '%s: the secret key, %s, is '
                                'serialised differently' % (s.what, when))
            for p in pk:
                self.scan_text(s, repr(p), 'repr of a packet')
                self.scan_object(s, p, 'a packet of a key ' + when)
        else:
            for p in s.parts:
                self.scan_text(s, repr(p) + str(p), 'repr of a key ' + when)
            for u in s.key.user_ids:
                self.scan_text(s, repr(u), 'repr of a user ID')
