"""Key material made by hand (independently of the library under test)."""
import hashlib
import struct


def mpi(n):
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return struct.pack('>H', n.bit_length()) + b


def packet(tag, body, old=False, partial=0):
    """One packet with a definite length header."""
    if old and tag < 16:
        if len(body) < 256:
            return bytes([0x80 | tag << 2, len(body)]) + body
        if len(body) < 65536:
            return bytes([0x81 | tag << 2]) + struct.pack(
                '>H', len(body)) + body
        return bytes([0x82 | tag << 2]) + struct.pack('>I', len(body)) + body
    return bytes([0xc0 | tag]) + newlen(len(body)) + body


def newlen(n):
    if n < 192:
        return bytes([n])
    if n < 8384:
        n -= 192
        return bytes([192 + (n >> 8), n & 255])
    return b'\xff' + struct.pack('>I', n)


def split_packets(data):
    """An independent reader: [(tag, body, raw)].  Raises ValueError on
    anything that is not a whole number of well-formed packets."""
    out = []
    i = 0
    while i < len(data):
        start = i
        t = data[i]
        if not t & 0x80:
            raise ValueError('no packet at offset %d' % i)
        i += 1
        body = b''
        if t & 0x40:
            tag = t & 0x3f
            while True:
                if i >= len(data):
                    raise ValueError('cut length')
                l = data[i]
                if l < 192:
                    n, i, more = l, i + 1, False
                elif l < 224:
                    n, i, more = ((l - 192) << 8) + data[i + 1] + 192, i + 2, \
                        False
                elif l == 255:
                    n = struct.unpack('>I', data[i + 1:i + 5])[0]
                    i, more = i + 5, False
                else:
                    n, i, more = 1 << (l & 0x1f), i + 1, True
                if i + n > len(data):
                    raise ValueError('cut body')
                body += data[i:i + n]
                i += n
                if not more:
                    break
        else:
            tag = (t >> 2) & 15
            lt = t & 3
            if lt == 3:
                n = len(data) - i
            else:
                w = 1 << lt
                if i + w > len(data):
                    raise ValueError('cut length')
                n = int.from_bytes(data[i:i + w], 'big')
                i += w
            if i + n > len(data):
                raise ValueError('cut body')
            body = data[i:i + n]
            i += n
        out.append((tag, bytes(body), bytes(data[start:i])))
    return out


def split_keys(data):
    """{fingerprint: [(tag, body)]} of a keyring file, in file order."""
    keys = []
    for tag, body, _raw in split_packets(data):
        if tag in (5, 6):
            keys.append((fingerprint(body), [(tag, body)]))
        elif not keys:
            raise ValueError('keyring does not start with a key')
        else:
            keys[-1][1].append((tag, body))
    return keys


COUNTS = {1: 2, 2: 2, 3: 2, 16: 3, 17: 4, 20: 3}


def public_part(body):
    """The public prefix of a key packet body of version 3 or 4."""
    i = 6 if body[0] >= 4 else 8
    n = COUNTS.get(body[i - 1])
    if n is None:
        return body         # unknown algorithm: assume a public key
    for _ in range(n):
        bits = struct.unpack('>H', body[i:i + 2])[0]
        i += 2 + (bits + 7) // 8
    return body[:i]


def fingerprint(body):
    pub = public_part(body)
    if body[0] < 4:
        numbers, i = b'', 8
        while i < len(pub):
            n = (struct.unpack('>H', pub[i:i + 2])[0] + 7) // 8
            numbers += pub[i + 2:i + 2 + n]
            i += 2 + n
        return hashlib.md5(numbers).hexdigest().upper()
    return hashlib.sha1(b'\x99' + struct.pack('>H', len(pub)) +
                        pub).hexdigest().upper()


def rsa_body(ctime, n, e=65537):
    return b'\x04' + struct.pack('>I', ctime) + b'\x01' + mpi(n) + mpi(e)


def dsa_body(ctime, p, q, g, y):
    return b'\x04' + struct.pack('>I', ctime) + b'\x11' + mpi(p) + mpi(q) + \
        mpi(g) + mpi(y)


def elg_body(ctime, p, g, y):
    return b'\x04' + struct.pack('>I', ctime) + b'\x10' + mpi(p) + mpi(g) + \
        mpi(y)


def secret_tail(salt, iv, blob):
    """S2K usage 254, AES-256, iterated and salted SHA-256."""
    return b'\xfe\x09\x03\x08' + salt + b'\x60' + iv + blob


TAILS = ('locked', 'locked', 'locked', 'checksum', 'old', 'plain', 'stub',
         'card')


def tail_of(style, body):
    """What follows the public numbers in a secret key packet."""
    h = hashlib.sha256(body).digest()
    numbers = 4 if body[5 if body[0] >= 4 else 7] in (1, 2, 3) else 1
    if style == 'checksum':             # usage 255, CAST5, salted SHA-1
        return b'\xff\x03\x01\x02' + h[:8] + h[8:16] + h + h[:17]
    if style == 'old':                  # IDEA or CAST5 with an MD5 key
        return b'\x03' + h[:8] + h + h
    if style == 'plain':
        clear = b''.join(mpi(int.from_bytes(h[:9 + i], 'big'))
                         for i in range(numbers))
        return b'\0' + clear + struct.pack('>H', sum(clear) & 0xffff)
    if style == 'stub':                 # GnuPG: the secret is elsewhere
        return b'\xff\x00\x65\x00GNU\x01'
    if style == 'card':
        return b'\xff\x00\x65\x00GNU\x02\x10' + h[:16]
    return secret_tail(h[:8], h[8:24], h * 2)


EXTRAS = ('revoked', 'direct', 'uid-revoked', 'photo', 'certified', 'old-sig',
          'private-subpacket', 'notation', 'subkey-revoked', 'cross-signed',
          'ending-0', 'ending-10', 'ending-32', 'ending-255')


def subpacket(t, data):
    body = bytes([t]) + data
    return newlen(len(body)) + body


def sig_body(sigtype, issuer, ctime, value, extra=b''):
    hashed = subpacket(2, struct.pack('>I', ctime)) + extra
    unhashed = subpacket(16, bytes.fromhex(issuer))
    return b'\x04' + bytes([sigtype, 1, 8]) + \
        struct.pack('>H', len(hashed)) + hashed + \
        struct.pack('>H', len(unhashed)) + unhashed + b'\xab\xcd' + mpi(value)


# Pairs of RSA keys whose fingerprints end in the same 32
# bits (found by a birthday search over the creation time; see
# tools/find_collisions.py): (creation time, modulus)
COLLIDING = [
    ((1100034300, (1 << 127) + 1001), (1100000093, (1 << 127) + 90001)),
    ((1100063269, (1 << 127) + 1003), (1100020991, (1 << 127) + 90003)),
    ((1100028462, (1 << 127) + 1005), (1100030388, (1 << 127) + 90005)),
    ((1100055703, (1 << 127) + 1007), (1100023909, (1 << 127) + 90007)),
]


def _n(i):
    return (1 << 127) + 0x1234567890abcdef * (2 * i + 1) | 1


def _modulus(v3_body):
    n = struct.unpack('>H', v3_body[8:10])[0]
    return int.from_bytes(v3_body[10:10 + (n + 7) // 8], 'big')


class KeySpec(object):
    """One identity: base packets and a version counter for its content."""

    def __init__(self, name, base, subkeys=(), secret=False):
        self.name = name
        self.base = base                  # primary key packet body (public)
        self.secret = secret
        self.subkeys = list(subkeys)      # public bodies
        self.fp = fingerprint(base)
        self.key_id = self.fp[-16:] if base[0] >= 4 else \
            '%016X' % (_modulus(base) & (1 << 64) - 1)

    # Variety that the operations never touch: how each secret part is
    # protected, and which further packets the key carries.
    tails = ()
    extras = ()

    def _key_packet(self, body, sub=False):
        if self.secret:
            style = 'locked'
            if self.tails:
                style = self.tails[sub % len(self.tails)]
            body = body + tail_of(style, body)
            return (7 if sub else 5), body
        return (14 if sub else 6), body

    def _sig(self, typ, value, extra=b''):
        return 2, sig_body(typ, self.key_id, 1300000000, value, extra)

    def content(self, version, uids=1, bulk=0):
        """[(tag, body)] of this key's content number `version`."""
        has = self.extras
        out = [self._key_packet(self.base)]
        if 'revoked' in has:
            out.append(self._sig(0x20, (1 << 90) + 1,
                                 subpacket(29, b'\x02superseded')))
        if 'direct' in has:
            out.append(self._sig(0x1f, (1 << 90) + 2, subpacket(
                12, b'\x80\x01' + bytes.fromhex((self.fp * 2)[:40]))))
        for u in range(uids):
            text = 'v%d u%d %s <%s%d@example.org>' % (
                version, u, self.name, self.name, u)
            if bulk and u == 0:
                text += ' ' + 'x' * bulk
            out.append((13, text.encode()))
            extra = b''
            if 'private-subpacket' in has:
                extra += subpacket(100, b'private')
            if 'notation' in has:
                extra += subpacket(20, b'\x80\0\0\0' + struct.pack(
                    '>HH', 9, 200) + b'a@example' + b'v' * 200)
            out.append((2, sig_body(0x13, self.key_id, 1300000000 + version,
                                    (1 << 100) + version * 7 + u, extra)))
            if 'certified' in has:
                out.append((2, sig_body(0x10, '0123456789ABCDEF', 1310000000,
                                        (1 << 90) + 11)))
            if 'old-sig' in has:
                out.append((2, b'\x03\x05\x11' + struct.pack(
                    '>I', 1310000001) + b'12345678' + b'\x01\x02\xab\xcd' +
                    mpi((1 << 90) + 13)))
            if 'uid-revoked' in has and u:
                out.append(self._sig(0x30, (1 << 90) + 3))
        if 'photo' in has:
            out.append((17, subpacket(
                1, b'\x10\x00\x01\x01' + b'\0' * 12 + b'\xff\xd8' +
                b'picture' * 30)))
            out.append(self._sig(0x13, (1 << 90) + 4))
        for i, s in enumerate(self.subkeys):
            out.append(self._key_packet(s, i + 1))
            extra = b''
            if 'cross-signed' in has:
                extra = subpacket(32, sig_body(0x19, self.key_id, 1300000000,
                                               (1 << 80) + 1))
            out.append(self._sig(0x18, (1 << 90) + 5, extra))
            if 'subkey-revoked' in has:
                out.append(self._sig(0x28, (1 << 90) + 6))
        for name in has:
            if name.startswith('ending-'):
                # the last octets of the key
                tag, body = out[-1]
                out[-1] = tag, body[:-2] + bytes([int(name[7:])]) * 2
        return out

    def raw(self, version, uids=1, bulk=0, old=False, trust=False):
        out = b''
        for tag, body in self.content(version, uids, bulk):
            out += packet(tag, body, old)
            if trust and tag == 2:
                out += packet(12, b'\x06\x00', old)
        return out


def dress(ch, specs):
    """Draws, for some of the keys, how their secrets are protected and which
    further packets they carry."""
    for s in specs:
        if not ch.chance(1, 2, 'dress'):
            continue
        if s.secret:
            s.tails = [ch.pick(TAILS, 'protection') for _ in range(2)]
        if ch.chance(1, 2, 'extras'):
            s.extras = [ch.pick(EXTRAS, 'extra') for _ in range(
                1 + ch.below(3, 'how-many'))]
    return specs


def spec(i, secret=False, kind=None):
    kind = kind if kind is not None else i % 3
    ctime = 1200000000 + i * 86400
    subs = []
    if kind == 0:
        base = rsa_body(ctime, _n(i))
    elif kind == 1:
        base = dsa_body(ctime, _n(i) | 1 << 140, (1 << 63) + i, 5 + i, 77 + i)
        subs = [elg_body(ctime + 1, _n(i + 50), 3, 1000 + i)]
    elif kind == 3:
        base = b'\x03' + struct.pack('>IHB', ctime, 0, 1) + mpi(_n(i)) + \
            mpi(17)
    else:
        base = rsa_body(ctime, _n(i), 17)
        subs = [rsa_body(ctime + 2, _n(i + 90))]
    return KeySpec('k%d' % i, base, subs, secret)


def colliding(which, secret=False):
    return [KeySpec('c%d%s' % (which, chr(97 + j)), rsa_body(t, n), (),
                    secret)
            for j, (t, n) in enumerate(COLLIDING[which])]
