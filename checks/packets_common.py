"""Packets generated independently of the library, and a structural view of
the library's objects."""
import datetime
import struct
import zlib

from sim import keys


def view(obj, depth=0):
    """Everything an object of the library holds, as plain comparable data."""
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if isinstance(obj, (bytes, bytearray, memoryview)):
        return bytes(obj)
    if isinstance(obj, (list, tuple)):
        return [view(x, depth + 1) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((view(x, depth + 1) for x in obj), key=repr)
    if isinstance(obj, dict):
        return sorted(((repr(k), view(v, depth + 1))
                       for k, v in obj.items()), key=lambda p: p[0])
    if isinstance(obj, (datetime.datetime, datetime.date,
                        datetime.timedelta)):
        return repr(obj)
    if depth > 8:
        return type(obj).__name__
    if type(obj).__module__.startswith('pgp'):
        return [type(obj).__name__,
                sorted((k, view(v, depth + 1))
                       for k, v in vars(obj).items()
                       if not callable(v))]
    return type(obj).__name__


BOUNDARIES = [0, 1, 2, 20, 100, 189, 190, 191, 192, 193, 223, 224, 253, 254,
              255, 256, 257, 300, 511, 512, 1000, 4096, 8381, 8382, 8383,
              8384, 8385, 9000, 16384, 65533, 65534, 65535, 65536, 65537,
              70000]
SMALL = [0, 1, 2, 20, 100, 189, 190, 191, 192, 193, 254, 255, 256, 257, 300]

DATA_TAGS = (8, 9, 11, 18)


def size(ch, big=True, label='size'):
    if big and ch.chance(1, 2, 'big'):
        return ch.pick(BOUNDARIES, label)
    return ch.pick(SMALL, label)


def mpis(ch, n, bits=None):
    out = b''
    for _ in range(n):
        b = bits or ch.pick([16, 1, 7, 8, 9, 128, 521, 1024], 'mpi-bits')
        data = bytearray(ch.data((b + 7) // 8, 'mpi'))
        top = (b - 1) % 8
        data[0] = (data[0] & ((1 << top) - 1)) | (1 << top)
        out += struct.pack('>H', b) + bytes(data)
    return out


def signature_body(ch, embed=True):
    alg, n = ch.pick([(1, 1), (17, 2), (3, 1), (16, 2)], 'pk-alg')
    hash_ = ch.pick([8, 1, 2, 3, 9, 10, 11], 'hash')
    typ = ch.pick([0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x18, 0x1f, 0x20,
                   0x28, 0x30], 'sig-type')
    if ch.chance(1, 4, 'v3-sig'):
        return b'\x03\x05' + bytes([typ]) + ch.data(4, 'time') + \
            ch.data(8, 'issuer') + bytes([alg, hash_]) + ch.data(2) + \
            mpis(ch, n)
    hashed = keys.subpacket(2, ch.data(4, 'time'))
    for _ in range(ch.below(4, 'subpackets')):
        hashed += a_subpacket(ch, embed)
    unhashed = keys.subpacket(16, ch.data(8, 'issuer'))
    for _ in range(ch.below(3, 'unhashed')):
        unhashed += a_subpacket(ch, embed)
    return b'\x04' + bytes([typ, alg, hash_]) + \
        struct.pack('>H', len(hashed)) + hashed + \
        struct.pack('>H', len(unhashed)) + unhashed + ch.data(2) + \
        mpis(ch, n)


def a_subpacket(ch, embed=True):
    t = ch.pick([3, 9, 4, 5, 7, 11, 12, 20, 21, 22, 23, 24, 25, 26, 27, 28,
                 29, 30, 31, 6, 10, 110, 33] + ([32] if embed else []),
                'sub-type')
    crit = 0x80 if ch.chance(1, 4, 'critical') else 0
    if t in (3, 9):
        d = ch.data(4)
    elif t in (4, 7, 25):
        d = bytes([ch.below(2, 'flag')])
    elif t == 5:
        d = bytes([ch.pick([0, 1, 2, 255], 'level'),
                   ch.pick([60, 120, 0, 255], 'amount')])
    elif t == 6:
        d = ch.pick([b'<[^>]+[@.]example\\.org>$', b'', b'\xfc@'],
                    'pattern') + b'\0'
    elif t == 10:
        d = bytes([ch.pick([0, 0x80], 'class'), 1]) + ch.data(20)
    elif t in (33, 110):
        d = ch.data(ch.pick([21, 0, 1, 300], 'unknown-size'))
    elif t in (11, 21, 22):
        d = bytes([ch.pick([9, 8, 7, 2], 'pref')
                   for _ in range(1 + ch.below(4, 'prefs'))])
    elif t == 12:
        d = bytes([ch.pick([0x80, 0xc0], 'class'),
                   ch.pick([1, 17], 'alg')]) + ch.data(20)
    elif t == 20:
        name = b'note@example.org'
        human = ch.chance(1, 2, 'human')
        sizes = [3, 0, 200]
        if ch.chance(1, 8, 'large-note'):
            sizes = [8351 + ch.below(20, 'note-by'), 9000]
        val = b'some text' if human else ch.data(ch.pick(sizes, 'note-size'))
        d = (b'\x80\0\0\0' if human else b'\0\0\0\0') + struct.pack(
            '>HH', len(name), len(val)) + name + val
    elif t in (24, 26):
        d = b'http://example.org/' + b'x' * ch.pick([1, 170, 200], 'url')
    elif t == 28:
        d = ch.pick([b'Alice <alice@example.org>', b'J\xf6rg', b''], 'signer')
    elif t == 29:
        d = bytes([ch.pick([0, 1, 2, 3, 32], 'reason')]) + b'because'
    elif t == 31:
        d = bytes([1, 8]) + ch.data(32)
    elif t == 32:
        d = signature_body(ch, embed=False)
    elif t == 23:
        d = ch.pick([b'\x80', b'\0', b'\x80\0', b'\xff'], 'preferences')
    elif t == 27:
        d = bytes([ch.pick([3, 1, 2, 12, 32, 0, 0x90, 255], 'key-flags')]) + \
            ch.pick([b'', b'', b'\0', b'\4\0\0'], 'more-flags')
    else:
        d = ch.pick([b'\1', b'\0', b'\7', b'\1\0'], 'features')
    return keys.subpacket(crit | t, d)


def public_body(ch):
    ctime = ch.data(4, 'ctime')
    kind = ch.below(3, 'key-kind')
    alg, n = [(1, 2), (17, 4), (16, 3)][kind]
    return b'\x04' + ctime + bytes([alg]) + mpis(ch, n)


def secret_body(ch):
    usage = ch.pick([254, 255], 'usage')
    cipher, block = ch.pick([(9, 16), (2, 8), (3, 8), (7, 16)], 'cipher')
    s2k = ch.pick([b'\x03\x08' + ch.data(8, 'salt') + b'\x60',
                   b'\x00\x08', b'\x01\x02' + ch.data(8, 'salt')], 's2k')
    return public_body(ch) + bytes([usage, cipher]) + s2k + \
        ch.data(block, 'iv') + ch.data(ch.pick([22, 100, 700], 'blob'))


def literal_body(ch, big=True):
    fmt = ch.pick([b'b', b't', b'u', b'1', b'l'], 'format')
    name = ch.pick([b'', b'a.txt', b'_CONSOLE', 'd\xe9j\xe0.txt'.encode(),
                    b'n' * 255], 'name')
    n = size(ch, big)
    if fmt in (b'u', b't'):
        data = (b'line of text\r\n' * (n // 14 + 1))[:n]
    else:
        data = ch.data(n)
    return fmt + bytes([len(name)]) + name + ch.data(4, 'time') + data


def attribute_body(ch, big=True):
    out = b''
    for _ in range(1 + ch.below(2, 'attributes')):
        n = ch.pick(BOUNDARIES if big else SMALL, 'image-size')
        out += keys.subpacket(
            1, b'\x10\x00\x01\x01' + b'\0' * 12 + ch.data(n))
    return out


USER_IDS = ['Alice <alice@example.org>', '', 'B', 'Zo\xeb (\u5341) <z@e.org>',
            'x' * 185 + '\xe9' * 4, 'no address', '<only@example.org>']

TAGS = [11, 13, 6, 2, 1, 3, 4, 5, 7, 8, 9, 10, 12, 14, 16, 17, 18, 19, 20,
        59, 60, 61, 62, 63]


def body(ch, tag, big=True):
    if tag == 1:
        kid = ch.pick([None, b'\0' * 8], 'wild')
        if kid is None:
            kid = ch.data(8)
        alg, n = ch.pick([(1, 1), (16, 2)], 'alg')
        return b'\x03' + kid + bytes([alg]) + mpis(ch, n)
    if tag == 2:
        return signature_body(ch)
    if tag == 3:
        s2k = ch.pick([b'\x03\x08' + ch.data(8, 'salt') + b'\x60',
                       b'\x00\x08', b'\x01\x02' + ch.data(8, 'salt')], 's2k')
        esk = b'' if ch.chance(1, 2, 'no-esk') else ch.data(33)
        return b'\x04' + bytes([ch.pick([9, 2, 7], 'cipher')]) + s2k + esk
    if tag == 4:
        return b'\x03' + bytes([ch.below(2), 8, 1]) + ch.data(8) + \
            bytes([ch.below(2, 'nested')])
    if tag in (5, 7):
        return secret_body(ch)
    if tag in (6, 14):
        return public_body(ch)
    if tag == 8:
        data = b'\xcb' + keys.newlen(40) + b'b\0\0\0\0\0' + b'z' * 34
        alg = ch.pick([1, 2, 0], 'compression')
        if alg == 2:
            data = zlib.compress(data)
        elif alg == 1:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            data = c.compress(data) + c.flush()
        elif big:
            data = ch.data(ch.pick(BOUNDARIES, 'size'))
        return bytes([alg]) + data
    if tag == 9:
        return ch.data(size(ch, big))
    if tag == 10:
        return b'PGP'
    if tag == 11:
        return literal_body(ch, big)
    if tag == 12:
        return ch.pick([b'\x06', b'\x00\x06', b'\x00\x00', b'\x03'], 'trust')
    if tag == 13:
        return ch.pick(USER_IDS, 'uid').encode('utf8')
    if tag in (16, 61):
        return ('comment ' + 'c' * size(ch, big)).encode()
    if tag == 17:
        return attribute_body(ch, big)
    if tag == 18:
        return b'\x01' + ch.data(size(ch, big))
    if tag == 19:
        return ch.data(20)
    if tag == 63:
        return ch.data(8) + bytes([1 + ch.below(3, 'control')]) + \
            ch.data(ch.pick(SMALL, 'size'))
    return ch.data(size(ch, big))


# -- framing ------------------------------------------------------------------


def frame(ch, tag, data, last):
    """One packet in a generated length encoding: (bytes, description,
    offsets at which cutting leaves a whole packet)."""
    n = len(data)
    kinds = ['new']
    if tag < 16:
        kinds.append('old')
    kinds.append('new5')
    if 192 <= n < 8384:
        kinds.append('new2')
    if tag < 16:
        kinds.append('old4')
        if n < 65536:
            kinds.append('old2')
        if last:
            kinds.append('indeterminate')
    if tag in DATA_TAGS and n >= 512:
        kinds += ['partial', 'partial', 'partial']
    kind = ch.pick(kinds, 'encoding')
    if kind == 'new':
        return keys.packet(tag, data), kind
    if kind == 'old':
        return keys.packet(tag, data, True), kind
    if kind == 'new2':
        return keys.packet(tag, data), kind
    if kind == 'new5':
        return bytes([0xc0 | tag, 255]) + struct.pack('>I', n) + data, kind
    if kind == 'old4':
        return bytes([0x82 | tag << 2]) + struct.pack('>I', n) + data, kind
    if kind == 'old2':
        return bytes([0x81 | tag << 2]) + struct.pack('>H', n) + data, kind
    if kind == 'indeterminate':
        return bytes([0x83 | tag << 2]) + data, kind
    out = bytes([0xc0 | tag])
    i = 0
    first = True
    while True:
        left = n - i
        top = left.bit_length() - 1
        low = 9 if first else 0
        if top < low or (not first and ch.chance(1, 3, 'final')):
            break
        p = top - ch.below(min(top - low + 1, 8), 'chunk')
        if top == p and left == 1 << p and ch.chance(1, 2, 'no-empty-end'):
            break
        out += bytes([0xe0 | p]) + data[i:i + (1 << p)]
        i += 1 << p
        first = False
    rest = data[i:]
    if ch.chance(1, 4, 'long-final'):
        out += b'\xff' + struct.pack('>I', len(rest)) + rest
    else:
        out += keys.newlen(len(rest)) + rest
    return out, kind
