"""Keys, generated messages and their content, shared by C07, C09-C12, C18."""
import datetime

from sim import pgpref

CIPHERS = [9, 7, 8, 2, 3, 4, 1, 10, 11, 12, 13]
HASHES = [8, 2, 10, 1, 3, 9, 11]
SIZES = [0, 1, 5, 15, 16, 17, 40, 100, 180, 191, 192, 193, 255, 256, 257, 511,
         512, 513, 1000, 3000]
BIG = [70000, 8384, 65536, 140000, 20000, 65535, 8383, 8385, 270000]
NAMES = ['', 'a.txt', '_CONSOLE', 'd\xe9j\xe0 vu.txt', 'n' * 255, '\u6587.bin']
TEXTS = ['', 'one line', 'two\nlines\n', 'dos\r\nlines\r\n', 'mac\rlines\r',
         'trailing blanks  \n\t\n', 'na\xefve \u6587\u5b57 \U0001f511\n',
         '-----BEGIN PGP MESSAGE-----\n\nnot one\n', '\r', '\n', '\r\n\n\r',
         'x' * 300]


class World(object):
    """The test keys, parsed by the library and unlocked, once per worker."""

    def __init__(self):
        import pgp.message as message
        import pgp.transferrable_keys as tk
        from pgp.packets import parsers
        self.m = message
        self.tk = tk
        self.parsers = parsers
        self.keys = []
        for k in pgpref.load():
            self.keys.append(self.library_key(k))

    def library_key(self, k, unlock=True, raw=None):
        lk = LibraryKey()
        lk.ref = k
        lk.secret = self.tk.TransferableSecretKey.from_packets(
            list(self.parsers.parse_binary_packet_data(raw or k.raw(True))))
        lk.public = self.tk.TransferablePublicKey.from_packets(
            list(self.parsers.parse_binary_packet_data(k.raw(False))))
        if unlock:
            lk.secret.unlock(k.passphrase)
        sp = [lk.secret] + list(lk.secret.subkeys)
        pp = [lk.public] + list(lk.public.subkeys)
        lk.parts = list(zip(sp, pp, k.parts))
        lk.signers = [x for x, f in zip(lk.parts, k.flags)
                      if f & 2 and x[2].kind != 'elg']
        lk.crypters = [x for x, f in zip(lk.parts, k.flags)
                       if f & 12 and x[2].kind != 'dsa']
        return lk

    def all_signers(self):
        return [s for k in self.keys for s in k.signers]

    def all_crypters(self):
        return [s for k in self.keys for s in k.crypters]

    def parse(self, raw):
        return self.m.open_pgp_message_from_packets(
            list(self.parsers.parse_binary_packet_data(bytes(raw))))


class LibraryKey(object):
    pass


def wire(message):
    return b''.join(bytes(p) for p in message.to_packets())


def literal(ch, world, big=False):
    """A generated literal message."""
    when = datetime.datetime.fromtimestamp(
        ch.pick([1400000000, 0, 1, 2 ** 31 - 1, 2 ** 31, 4000000000],
                'timestamp'))
    name = ch.pick(NAMES, 'filename')
    if ch.chance(1, 3, 'text'):
        return world.m.TextMessage(ch.pick(TEXTS, 'text-data'), name, when)
    if ch.chance(1, 4, 'aimed'):
        n = aimed(ch, name, big)
    else:
        n = ch.pick(BIG if big and ch.chance(2, 3, 'big-size') else SIZES,
                    'size')
    kind = ch.below(4, 'data-kind')
    if kind == 0:
        data = (b'The quick brown fox. ' * (n // 21 + 1))[:n]
    elif kind == 1:
        data = ch.data(n)
    elif kind == 2:
        data = b'\xd3\x14' * (n // 2) + b'\0' * (n % 2)
    else:
        data = b'\0' * n
    return world.m.BinaryMessage(data, name, when)


def aimed(ch, name, big=False):
    """A data length which gives some packet of the message, if it is not
    compressed or signed, a length at which its encoding changes."""
    target = ch.pick([8384, 192, 8383, 191, 193, 256, 8385, 512] +
                     ([65535, 65536] if big else []), 'target')
    over = ch.pick(['seipd16', 'literal', 'seipd8', 'sed16', 'sed8'], 'over')
    body = target
    if over != 'literal':
        body -= int(over[-2:].lstrip('d')) + 2 + (
            1 + 22 if over.startswith('seipd') else 0)
        # the header of the literal packet
        body -= 2 if body < 194 else 3 if body < 8387 else 6
    return max(0, body - 6 - len(name.encode('utf8')))


def layered(ch, world, depth=2, big=False, sign=True):
    """A literal message under generated layers of signing and
    compression."""
    msg = literal(ch, world, big)
    what = [type(msg).__name__[:-7].lower() + str(len(msg.data))]
    if sign and ch.chance(1, 2, 'sign'):
        signers = world.all_signers()
        one_pass = not ch.chance(1, 3, 'old-style')
        sigs = []
        for _ in range(1 + ch.weighted([(0, 4), (1, 2), (2, 1)],
                                       'more-signatures')):
            s = signers[ch.below(len(signers), 'signer')]
            kw = {}
            if isinstance(msg, world.m.TextMessage) and \
                    ch.chance(1, 2, 'canonical'):
                kw['signature_type'] = 1
            m2 = msg.sign(s[0], hash_algorithm=pick_hash(ch, s),
                          one_pass=one_pass, **kw)
            sigs += m2.signatures
            what.append('signed')
        msg = m2
        if len(sigs) > 1:
            msg = world.m.SignedMessageWrapper(sigs, m2.message, one_pass)
    for _ in range(ch.below(depth + 1, 'layers')):
        alg = ch.pick([1, 2, 3, 0], 'compression')
        msg = msg.compress(alg, ch.pick([6, 1, 9], 'level'))
        what.append('compressed%d' % alg)
    return msg, '<'.join(reversed(what))


def pick_hash(ch, signer):
    ok = [h for h in HASHES if hash_fits(h, signer[2])]
    return ch.pick(ok, 'hash')


def hash_fits(h, part):
    """DSA wants a digest at least as long as q (FIPS 186); RSA one that
    fits its modulus."""
    size = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}[h]
    if part.kind == 'dsa':
        return size * 8 >= part.pub[1].bit_length()
    return True


def content(msg):
    """Everything a receiver can see, as plain data."""
    n = type(msg).__name__
    if n in ('TextMessage', 'BinaryMessage'):
        d = msg.data
        if not isinstance(d, str):
            d = bytes(d)
        return [n, d, msg.filename, msg.timestamp.timestamp()]
    if n == 'CompressedMessageWrapper':
        return [n, msg.compression_algorithm, content(msg.get_message())]
    if n == 'SignedMessageWrapper':
        return [n, bool(msg.one_pass),
                [bytes(s.to_packet()) for s in msg.signatures],
                content(msg.message)]
    if n == 'EncryptedMessageWrapper':
        return [n, wire(msg)]
    return [n, repr(msg)]


def brief(c, limit=160):
    s = repr(c)
    return s if len(s) <= limit else s[:limit] + '... (%d)' % len(s)


class Recipient(object):

    def __init__(self, kind, who, name, token):
        self.kind = kind          # key, hidden, passphrase
        self.who = who            # (secret, public, reference) or None
        self.name = name
        self.token = token        # what get_message() wants


PASSPHRASES = ['correct horse', '', 'p', '\u043f\u0430\u0440\u043e\u043b\u044c',
               'x' * 100, '  spaces  ', 'tab\tand\nnewline', 'caf\xe9',
               'cafe\u0301', 'x' * 3000, 'x' * 2999 + 'y', 'p\n', 'P',
               '\ufeffp', 'correct horse\0']


def as_given(ch, passphrase):
    """A passphrase as text or as octets."""
    if ch.chance(2, 3, 'as-text'):
        return passphrase
    raw = passphrase.encode('utf8')
    return bytearray(raw) if ch.chance(1, 3, 'as-bytearray') else raw


def recipients(ch, world, max_n=4, allow_empty_passphrase=False):
    out = []
    crypters = list(world.all_crypters())
    n = 1 + ch.below(max_n, 'recipients')
    for _ in range(n):
        kind = ch.weighted([('key', 4), ('passphrase', 3), ('hidden', 2)],
                           'recipient-kind')
        if kind == 'passphrase':
            pws = [p for p in PASSPHRASES if p not in [
                r.token for r in out] and (p or allow_empty_passphrase)]
            p = ch.pick(pws, 'passphrase')
            out.append(Recipient(kind, None, 'passphrase %r' % p[:12], p))
        else:
            if not crypters:
                continue
            c = crypters.pop(ch.below(len(crypters), 'recipient'))
            out.append(Recipient(kind, c, '%s %s' % (
                kind, c[2].kind), c[0]))
    return out


def encrypt(ch, world, msg, rcpts, cipher, protect=True, explicit=None,
            odd=[]):
    """Encrypt to all the recipients the way a user of the library does.
    `odd`: numbers of octets to hash which a specifier cannot state."""
    session_key = explicit
    keys = [r for r in rcpts if r.kind != 'passphrase']
    pws = [r for r in rcpts if r.kind == 'passphrase']
    if session_key is None and len(pws) + bool(keys) > 1:
        # several encryptions that share one session key
        from Crypto import Random
        session_key = Random.new().read(pgpref.KEYLEN[cipher])
    parts = []
    if keys:
        parts.append(msg.public_key_encrypt(
            cipher,
            public_keys=[r.who[1] for r in keys if r.kind == 'key'],
            hidden_public_keys=[r.who[1] for r in keys
                                if r.kind == 'hidden'],
            session_key=session_key, integrity_protect=protect))
    for r in pws:
        kw = {}
        counts = list(odd)
        if odd and len(r.token) > 1000:
            counts.append(65011713)     # more than a specifier can say
        if odd or ch.chance(1, 2, 's2k-options'):
            kw = dict(s2k_type=3 if odd else ch.pick([3, 1, 0], 's2k'),
                      s2k_hash_algorithm=ch.pick(HASHES, 's2k-hash'),
                      s2k_count=ch.pick(
                          counts or ([65536, 1024, 1088] + [3014656] *
                                  (len(r.token) > 12)), 's2k-count'))
            if kw['s2k_type'] != 3:
                del kw['s2k_count']
            if ch.chance(1, 4, 's2k-cipher'):
                kw['s2k_symmetric_algorithm'] = ch.pick(CIPHERS, 's2k-algo')
        parts.append(msg.symmetric_encrypt(
            cipher, as_given(ch, r.token), session_key=session_key,
            integrity_protect=protect, **kw))
    if len(parts) == 1:
        return parts[0]
    keys_ = [k for p in parts for k in p.session_keys]
    return world.m.EncryptedMessageWrapper(keys_, parts[-1].message_data_obj)


# -- the system random source under attack ---------------------------------------


def rng_plan(ch, sim, hostile=True):
    """Windows of extreme bytes in the system random source, then ordinary
    ones. Returns a description."""
    if not hostile or not ch.chance(1, 2, 'rng-window'):
        return 'ordinary'
    kind = ch.pick(['ones', 'zeros', 'low', 'high-bit', 'repeat', 'count'],
                   'rng-kind')
    start = ch.below(12, 'rng-start')
    length = 1 + ch.below(8, 'rng-length')
    state = {'draw': 0, 'n': 0}

    def hook(n):
        d = state['draw']
        state['draw'] += 1
        data = sim.prng.bytes(n)
        if not start <= d < start + length:
            return data
        sim.fault('rng-' + kind)
        if kind == 'ones':
            return b'\xff' * n
        if kind == 'zeros':
            return b'\0' * n
        if kind == 'low':
            return b'\0' * (n - 1) + data[-1:] if n else b''
        if kind == 'high-bit':
            return bytes(b | 0x80 for b in data)
        if kind == 'repeat':
            return data[:1] * n
        state['n'] += 1
        return state['n'].to_bytes(4, 'big')[-n:].rjust(n, b'\0')
    sim.rng_hook = hook
    return '%s from draw %d for %d' % (kind, start, length)
