"""Reference sender and receiver of encrypted messages (RFC 4880), built on
sim/pgpref.py and independent of the library."""
import hashlib

from sim import keys
from sim import pgpref


class Unreadable(Exception):
    pass


# -- sending --------------------------------------------------------------------


def encrypt_data(cipher, key, plain, protect, prefix):
    """The encrypted data packet (tag, body); prefix is one random block."""
    enc = pgpref.block_cipher(cipher, key)
    bs = pgpref.BLOCK[cipher]
    head = prefix[:bs] + prefix[bs - 2:bs]
    zero = b'\0' * bs
    if protect:
        data = head + plain + b'\xd3\x14'
        data += hashlib.sha1(data).digest()
        return 18, b'\x01' + pgpref.cfb_encrypt(enc, zero, data)
    h = pgpref.cfb_encrypt(enc, zero, head)
    return 9, h + pgpref.cfb_encrypt(enc, h[2:], plain)


def pkesk(part, cipher, key, draw, hidden=False):
    """draw(n) gives random octets."""
    m = bytes([cipher]) + key
    m += (sum(key) & 0xffff).to_bytes(2, 'big')
    n = part.pub[0]
    size = (n.bit_length() + 7) // 8
    pad = b''
    while len(pad) < size - 3 - len(m):
        pad += draw(1).replace(b'\0', b'')
    em = int.from_bytes(b'\0\2' + pad + b'\0' + m, 'big')
    if part.kind == 'rsa':
        values = [pow(em, part.pub[1], n)]
    else:
        p, g, y = part.pub
        k = int.from_bytes(draw(size), 'big') % (p - 3) + 1
        values = [pow(g, k, p), em * pow(y, k, p) % p]
    kid = b'\0' * 8 if hidden else bytes.fromhex(part.key_id())
    return 1, b'\x03' + kid + bytes([part.alg]) + \
        b''.join(keys.mpi(v) for v in values)


def skesk(cipher, passphrase, spec, key=None, inner=None):
    """spec = (mode, hash, salt, coded). Without a session key the passphrase
    gives it directly. Returns ((tag, body), session key)."""
    k = pgpref.s2k(cipher, passphrase, *spec)
    body = b'\x04' + bytes([cipher]) + pgpref.s2k_bytes(*spec)
    if key is None:
        return (3, body), k
    enc = pgpref.block_cipher(cipher, k)
    body += pgpref.cfb_encrypt(enc, b'\0' * pgpref.BLOCK[cipher],
                               bytes([inner or cipher]) + key)
    return (3, body), key


# -- receiving -----------------------------------------------------------------------


class Esk(object):
    """What a session key packet says; everything an observer can read."""

    def __init__(self, tag, body):
        self.tag = tag
        self.body = bytes(body)
        if tag == 1:
            if body[0] != 3:
                raise Unreadable('session key version %d' % body[0])
            self.key_id = body[1:9].hex().upper()
            self.alg = body[9]
            self.values, end = pgpref.read_mpis(
                self.body, 10, 2 if self.alg == 16 else 1)
            if end != len(body):
                raise Unreadable('octets after the session key')
        else:
            if body[0] != 4:
                raise Unreadable('session key version %d' % body[0])
            self.cipher = body[1]
            self.mode, self.hash, self.salt, self.coded, i = \
                pgpref.parse_s2k(self.body, 2)
            self.encrypted = self.body[i:]

    def is_hidden(self):
        return self.tag == 1 and self.key_id == '0' * 16

    def padded(self, part):
        return part.decrypt(self.values)

    def open_with_key(self, part):
        """(cipher, session key, padding) or Unreadable."""
        if (self.alg in (1, 2, 3)) != (part.kind == 'rsa') or \
                part.kind == 'dsa':
            raise Unreadable('another algorithm')
        em = self.padded(part)
        if em[:2] != b'\0\2' or b'\0' not in em[2:]:
            raise Unreadable('padding')
        end = em.index(b'\0', 2)
        pad, m = em[2:end], em[end + 1:]
        if len(pad) < 8 or not m or m[0] not in pgpref.KEYLEN:
            raise Unreadable('padding')
        key = m[1:-2]
        if len(key) != pgpref.KEYLEN[m[0]] or \
                sum(key) & 0xffff != int.from_bytes(m[-2:], 'big'):
            raise Unreadable('checksum')
        return m[0], key, pad

    def open_with_passphrase(self, passphrase):
        k = pgpref.s2k(self.cipher, passphrase, self.mode, self.hash,
                       self.salt, self.coded)
        if not self.encrypted:
            return self.cipher, k, b''
        enc = pgpref.block_cipher(self.cipher, k)
        m = pgpref.cfb_decrypt(enc, b'\0' * pgpref.BLOCK[self.cipher],
                               self.encrypted)
        if m[0] not in pgpref.KEYLEN or \
                len(m) - 1 != pgpref.KEYLEN[m[0]]:
            raise Unreadable('session key')
        return m[0], m[1:], b''


class Encrypted(object):
    """An encrypted message on the wire."""

    def __init__(self, raw):
        pk = [(t, b) for t, b, _ in keys.split_packets(raw)]
        if not pk or pk[-1][0] not in (9, 18):
            raise Unreadable('not an encrypted message: %r' % [
                t for t, _ in pk])
        self.esks = []
        for t, b in pk[:-1]:
            if t not in (1, 3):
                raise Unreadable('packet %d before the data' % t)
            self.esks.append(Esk(t, b))
        self.protected = pk[-1][0] == 18
        self.data = bytes(pk[-1][1])
        if self.protected:
            if self.data[:1] != b'\x01':
                raise Unreadable('version')
            self.data = self.data[1:]

    def decrypt(self, cipher, key):
        """(prefix, plaintext)"""
        enc = pgpref.block_cipher(cipher, key)
        bs = pgpref.BLOCK[cipher]
        prefix, plain = pgpref.openpgp_decrypt(enc, bs, self.data,
                                               not self.protected)
        if prefix[-2:] != prefix[-4:-2]:
            raise Unreadable('quick check')
        if self.protected:
            if len(plain) < 22 or plain[-22:-20] != b'\xd3\x14' or \
                    hashlib.sha1(prefix + plain[:-20]).digest() != \
                    plain[-20:]:
                raise Unreadable('modification detection')
            plain = plain[:-22]
        return prefix, plain

    def read(self, part=None, passphrase=None):
        """(esk, cipher, session key, padding, prefix, plaintext)"""
        why = 'no session key for this recipient'
        for e in self.esks:
            try:
                if part is not None:
                    if e.tag != 1 or not (e.is_hidden() or
                                          e.key_id == part.key_id()):
                        continue
                    cipher, key, pad = e.open_with_key(part)
                else:
                    if e.tag != 3:
                        continue
                    cipher, key, pad = e.open_with_passphrase(passphrase)
                prefix, plain = self.decrypt(cipher, key)
                return e, cipher, key, pad, prefix, plain
            except Unreadable as x:
                why = str(x)
        raise Unreadable(why)
