"""Reference OpenPGP pieces, written from RFC 4880 and independent of the
library under test: block ciphers and hashes come from PyCrypto / hashlib,
everything above them is here."""
import hashlib
import math
import struct

from sim import keys

KEYLEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
          12: 24, 13: 32}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16, 12: 16,
         13: 16}
HASHES = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
          10: 'sha512', 11: 'sha224'}
# DER prefixes of DigestInfo
DER = {
    1: '3020300c06082a864886f70d020505000410',
    2: '3021300906052b0e03021a05000414',
    3: '3021300906052b2403020105000414',
    8: '3031300d060960864801650304020105000420',
    9: '3041300d060960864801650304020205000430',
    10: '3051300d060960864801650304020305000440',
    11: '302d300d06096086480165030402040500041c',
}


def new_hash(algo, data=b''):
    name = HASHES[algo]
    if name == 'ripemd160':
        from Crypto.Hash import RIPEMD
        h = RIPEMD.new()
        h.update(data)
        return h
    return hashlib.new(name, data)


def block_cipher(algo, key):
    """Encrypts one block."""
    key = bytes(key)
    if algo in (7, 8, 9):
        from Crypto.Cipher import AES as m
    elif algo == 2:
        from Crypto.Cipher import DES3 as m
    elif algo == 3:
        from Crypto.Cipher import CAST as m
    elif algo == 4:
        from Crypto.Cipher import Blowfish as m
    elif algo == 10:
        import twofish
        return twofish.Twofish(key).encrypt
    elif algo in (11, 12, 13):
        import camcrypt
        import glob
        import os
        so = glob.glob(os.path.join(camcrypt.__path__[0], 'camellia*.so'))
        c = camcrypt.CamCrypt(libraryPath=so[0]) if so \
            else camcrypt.CamCrypt()
        c.keygen(len(key) * 8, key)
        return c.encrypt_block if hasattr(c, 'encrypt_block') else c.encrypt
    elif algo == 1:
        return Idea(key).encrypt
    else:
        raise NotImplementedError(algo)
    return m.new(key, m.MODE_ECB).encrypt


class Idea(object):
    """IDEA, encryption only."""

    def __init__(self, key):
        k = int.from_bytes(key, 'big')
        self.z = []
        for i in range(52):
            if i and i % 8 == 0:
                k = ((k << 25) | (k >> 103)) & ((1 << 128) - 1)
            self.z.append((k >> (112 - 16 * (i % 8))) & 0xffff)

    @staticmethod
    def mul(a, b):
        return (a or 65536) * (b or 65536) % 65537 & 0xffff

    def encrypt(self, block):
        z, mul = self.z, self.mul
        a, b, c, d = struct.unpack('>4H', block)
        for r in range(8):
            k = z[6 * r:6 * r + 6]
            a, b = mul(a, k[0]), (b + k[1]) & 0xffff
            c, d = (c + k[2]) & 0xffff, mul(d, k[3])
            e = mul(a ^ c, k[4])
            f = mul((b ^ d) + e & 0xffff, k[5])
            e = (e + f) & 0xffff
            a, b, c, d = a ^ f, c ^ f, b ^ e, d ^ e
        k = z[48:]
        return struct.pack('>4H', mul(a, k[0]), (c + k[1]) & 0xffff,
                           (b + k[2]) & 0xffff, mul(d, k[3]))


def xor(a, b):
    n = len(a)
    return (int.from_bytes(a, 'big') ^ int.from_bytes(b[:n], 'big')) \
        .to_bytes(n, 'big') if n else b''


def cfb_encrypt(enc, iv, data):
    out = []
    prev = bytes(iv)
    bs = len(iv)
    for i in range(0, len(data), bs):
        c = xor(data[i:i + bs], enc(prev))
        out.append(c)
        prev = c
    return b''.join(out)


def cfb_decrypt(enc, iv, data):
    out = []
    prev = bytes(iv)
    bs = len(iv)
    for i in range(0, len(data), bs):
        c = data[i:i + bs]
        out.append(xor(c, enc(prev)))
        prev = c
    return b''.join(out)


def openpgp_decrypt(enc, bs, data, resync):
    """(prefix, plaintext) of OpenPGP CFB; resync for tag 9."""
    iv = b'\0' * bs
    if not resync:
        plain = cfb_decrypt(enc, iv, data)
        return plain[:bs + 2], plain[bs + 2:]
    prefix = cfb_decrypt(enc, iv, data[:bs + 2])
    return prefix, cfb_decrypt(enc, data[2:bs + 2], data[bs + 2:])


def s2k_count(c):
    return (16 + (c & 15)) << ((c >> 4) + 6)


def s2k(algo, passphrase, mode, hash_, salt=b'', coded=0):
    n = KEYLEN[algo]
    unit = (b'' if mode == 0 else salt) + passphrase
    if mode == 3:
        total = max(s2k_count(coded), len(unit))
    else:
        total = len(unit)
    out = b''
    i = 0
    while len(out) < n:
        h = new_hash(hash_, b'\0' * i)
        if unit:
            q, r = divmod(total, len(unit))
            h.update(unit * q + unit[:r])
        out += h.digest()
        i += 1
    return out[:n]


def s2k_bytes(mode, hash_, salt=b'', coded=0):
    if mode == 0:
        return bytes([0, hash_])
    if mode == 1:
        return bytes([1, hash_]) + salt
    return bytes([3, hash_]) + salt + bytes([coded])


def parse_s2k(data, i):
    """(mode, hash, salt, coded, next offset)"""
    mode, hash_ = data[i], data[i + 1]
    i += 2
    salt, coded = b'', 0
    if mode in (1, 3):
        salt = bytes(data[i:i + 8])
        i += 8
    if mode == 3:
        coded = data[i]
        i += 1
    return mode, hash_, salt, coded, i


def read_mpis(data, i=0, n=None):
    out = []
    while i < len(data) and (n is None or len(out) < n):
        bits = struct.unpack('>H', data[i:i + 2])[0]
        ln = (bits + 7) // 8
        if i + 2 + ln > len(data):
            raise ValueError('cut MPI')
        out.append(int.from_bytes(data[i + 2:i + 2 + ln], 'big'))
        i += 2 + ln
    return out, i


# -- keys -----------------------------------------------------------------------


class Part(object):
    """One primary key or subkey with its secret numbers."""

    def __init__(self, d):
        self.kind = d['kind']            # rsa, dsa, elg
        self.ctime = d['ctime']
        self.pub = [int(x, 16) for x in d['pub']]
        self.sec = [int(x, 16) for x in d['sec']]
        self.alg = d.get('alg') or {'rsa': 1, 'dsa': 17, 'elg': 16}[self.kind]

    def public_body(self):
        return b'\x04' + struct.pack('>I', self.ctime) + bytes([self.alg]) + \
            b''.join(keys.mpi(n) for n in self.pub)

    def fingerprint(self):
        return keys.fingerprint(self.public_body())

    def key_id(self):
        return self.fingerprint()[-16:]

    def secret_plain(self):
        return b''.join(keys.mpi(n) for n in self.sec)

    def secret_body(self, passphrase, prot):
        """prot: dict(usage, cipher, mode, hash, salt, coded, iv); usage may
        be 'old': the key is the MD5 of the passphrase."""
        plain = prot.get('plain')
        if plain is None:
            plain = self.secret_plain()
        key, head = self.protection(passphrase, prot)
        if prot['usage'] == 254:
            plain += hashlib.sha1(plain).digest()
        else:
            plain += struct.pack('>H', sum(plain) & 0xffff)
        enc = cfb_encrypt(block_cipher(prot['cipher'], key), prot['iv'],
                          plain)
        return self.public_body() + head + prot['iv'] + enc

    @staticmethod
    def protection(passphrase, prot):
        """The symmetric key, and the octets that tell how to derive it."""
        if prot['usage'] == 'old':
            return s2k(prot['cipher'], passphrase, 0, 1), bytes(
                [prot['cipher']])
        return s2k(prot['cipher'], passphrase, prot['mode'], prot['hash'],
                   prot['salt'], prot['coded']), \
            bytes([prot['usage'], prot['cipher']]) + s2k_bytes(
                prot['mode'], prot['hash'], prot['salt'], prot['coded'])

    def sign(self, hash_, digest, k):
        if self.kind == 'rsa':
            n, _e = self.pub
            d = self.sec[0]
            size = (n.bit_length() + 7) // 8
            t = bytes.fromhex(DER[hash_]) + digest
            em = b'\0\1' + b'\xff' * (size - len(t) - 3) + b'\0' + t
            return [pow(int.from_bytes(em, 'big'), d, n)]
        p, q, g, _y = self.pub
        x = self.sec[0]
        r = pow(g, k, p) % q
        s = pow(k, -1, q) * (self.z(digest) + x * r) % q
        return [r, s]

    def z(self, digest):
        qb = (self.pub[1].bit_length() + 7) // 8
        return int.from_bytes(digest[:qb], 'big')

    def verify(self, hash_, digest, values):
        if self.kind == 'rsa':
            n, e = self.pub
            size = (n.bit_length() + 7) // 8
            t = bytes.fromhex(DER[hash_]) + digest
            em = b'\0\1' + b'\xff' * (size - len(t) - 3) + b'\0' + t
            return len(values) == 1 and \
                pow(values[0], e, n) == int.from_bytes(em, 'big')
        p, q, g, y = self.pub
        if len(values) != 2:
            return False
        r, s = values
        if not (0 < r < q and 0 < s < q):
            return False
        w = pow(s, -1, q)
        u1 = self.z(digest) * w % q
        u2 = r * w % q
        return pow(g, u1, p) * pow(y, u2, p) % p % q == r

    def decrypt(self, values):
        """The padded block, full length."""
        if self.kind == 'rsa':
            n, _e = self.pub
            size = (n.bit_length() + 7) // 8
            return pow(values[0], self.sec[0], n).to_bytes(size, 'big')
        p, _g, _y = self.pub
        size = (p.bit_length() + 7) // 8
        a, b = values
        return (b * pow(pow(a, self.sec[0], p), -1, p) % p).to_bytes(
            size, 'big')


class V3Part(Part):
    """The same numbers as a version 3 key."""

    def public_body(self):
        return b'\x03' + struct.pack('>IH', self.ctime, 0) + \
            bytes([self.alg]) + b''.join(keys.mpi(n) for n in self.pub)

    def fingerprint(self):
        return hashlib.md5(b''.join(
            keys.mpi(n)[2:] for n in self.pub)).hexdigest().upper()

    def key_id(self):
        return '%016X' % (self.pub[0] & (1 << 64) - 1)

    def secret_body(self, passphrase, prot):
        key, head = self.protection(passphrase, prot)
        plain = prot.get('plain')
        if plain is None:
            plain = self.secret_plain()
        return self.public_body() + head + prot['iv'] + v3_cfb(
            block_cipher(prot['cipher'], key), prot['iv'], plain, True) + \
            struct.pack('>H', sum(plain) & 0xffff)


def v3_cfb(enc, iv, data, encrypting):
    """CFB over the contents of each number, their sizes left in clear and
    the mode started anew from the last block before each; None if the data
    ends inside a number."""
    out, i, bs = b'', 0, len(iv)
    while i < len(data):
        if i + 2 > len(data):
            return None
        n = (int.from_bytes(data[i:i + 2], 'big') + 7) // 8
        part = data[i + 2:i + 2 + n]
        if len(part) < n:
            return None
        new = (cfb_encrypt if encrypting else cfb_decrypt)(enc, iv, part)
        iv = (iv + (new if encrypting else part))[-bs:]
        out += data[i:i + 2] + new
        i += 2 + n
    return out


def sig_packet(part, typ, hash_, ctime, content, hashed=b'', unhashed=b'',
               k=12345678901234567, issuer=None):
    """A version 4 signature packet body over `content` bytes."""
    hashed = keys.subpacket(2, struct.pack('>I', ctime)) + hashed
    unhashed = keys.subpacket(16, bytes.fromhex(issuer or part.key_id())) + \
        unhashed
    head = b'\x04' + bytes([typ, part.alg, hash_]) + \
        struct.pack('>H', len(hashed)) + hashed
    trailer = b'\x04\xff' + struct.pack('>I', len(head))
    digest = new_hash(hash_, content + head + trailer).digest()
    values = part.sign(hash_, digest, k)
    return head + struct.pack('>H', len(unhashed)) + unhashed + digest[:2] + \
        b''.join(keys.mpi(v) for v in values)


def key_hash_bytes(part):
    b = part.public_body()
    return b'\x99' + struct.pack('>H', len(b)) + b


class TestKey(object):

    def __init__(self, d):
        self.name = d['name']
        self.uids = d['uids']
        self.parts = [Part(p) for p in d['parts']]
        self.flags = d['flags']
        self.passphrase = d['passphrase']
        self.prot = d['prot']
        self.primary = self.parts[0]

    def binding(self):
        """Self-signatures: [(after what, body)]"""
        prim = self.primary
        ck = prim.key_id()
        out = {}
        for i, u in enumerate(self.uids):
            ub = u.encode('utf8')
            content = key_hash_bytes(prim) + b'\xb4' + struct.pack(
                '>I', len(ub)) + ub
            hashed = keys.subpacket(27, bytes([self.flags[0]])) + \
                keys.subpacket(11, b'\x09\x08\x07') + \
                keys.subpacket(21, b'\x08\x02') + \
                keys.subpacket(22, b'\x02\x01')
            out['u', i] = sig_packet(prim, 0x13, 8, prim.ctime + 10, content,
                                     hashed, issuer=ck, k=77777777 + i)
        for i, p in enumerate(self.parts[1:]):
            content = key_hash_bytes(prim) + key_hash_bytes(p)
            out['s', i] = sig_packet(
                prim, 0x18, 8, prim.ctime + 10, content,
                keys.subpacket(27, bytes([self.flags[i + 1]])),
                issuer=ck, k=99999999 + i)
        return out

    _sigs = None

    def packets(self, secret, prots=None, passphrases=None):
        """[(tag, body)]; prots and passphrases per part."""
        if self._sigs is None:
            self._sigs = self.binding()
        n = len(self.parts)
        bodies = []
        for i, p in enumerate(self.parts):
            if secret:
                prot = (prots or [None] * n)[i] or default_prot(self, i)
                pw = (passphrases or [None] * n)[i]
                pw = self.passphrase if pw is None else pw
                bodies.append(p.secret_body(pw.encode('utf8'), prot))
            else:
                bodies.append(p.public_body())
        out = [(5 if secret else 6, bodies[0])]
        for i, u in enumerate(self.uids):
            out.append((13, u.encode('utf8')))
            out.append((2, self._sigs['u', i]))
        for i in range(n - 1):
            out.append((7 if secret else 14, bodies[i + 1]))
            out.append((2, self._sigs['s', i]))
        return out

    def raw(self, secret, prots=None, passphrases=None):
        return b''.join(keys.packet(t, b) for t, b in self.packets(
            secret, prots, passphrases))


def default_prot(key, i):
    d = dict(key.prot)
    h = hashlib.sha256(('%s %d' % (key.name, i)).encode()).digest()
    d['salt'] = h[:8]
    d['iv'] = h[8:8 + BLOCK[d['cipher']]]
    return d


_cache = []


def load():
    """The test keys of data/keys.json."""
    if not _cache:
        import json
        import os
        from sim import seams
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        op = seams.REAL.get('open', open)
        with op(os.path.join(here, 'data', 'keys.json')) as fh:
            _cache.extend(TestKey(d) for d in json.load(fh))
    return _cache
