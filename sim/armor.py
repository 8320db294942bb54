"""Reference ASCII armor (RFC 4880, 6.2), independent of the library."""
import base64

from sim import pgpref  # noqa: F401  (kept beside the other references)


def _table():
    t = []
    for i in range(256):
        c = i << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864cfb
        t.append(c)
    return t


_T = _table()


def crc24(data):
    c = 0xb704ce
    for b in data:
        c = ((c << 8) & 0xffffff) ^ _T[(c >> 16) ^ b]
    return c


def encode(data, kind='PGP PUBLIC KEY BLOCK', headers=(), eol='\n',
           width=64):
    text = base64.b64encode(bytes(data)).decode()
    out = ['-----BEGIN %s-----' % kind]
    out += ['%s: %s' % h for h in headers]
    out.append('')
    out += [text[i:i + width] for i in range(0, len(text), width)]
    out.append('=' + base64.b64encode(
        crc24(data).to_bytes(3, 'big')).decode())
    out.append('-----END %s-----' % kind)
    return eol.join(out) + eol


def decode(text):
    """(kind, data) or ValueError."""
    lines = text.replace('\r\n', '\n').split('\n')
    while lines and not lines[0].strip():
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    if len(lines) < 4 or not lines[0].startswith('-----BEGIN ') or \
            not lines[0].rstrip().endswith('-----'):
        raise ValueError('no armor')
    kind = lines[0].rstrip()[11:-5]
    if lines[-1].rstrip() != '-----END %s-----' % kind:
        raise ValueError('no end')
    i = 1
    while lines[i].strip():
        if ': ' not in lines[i] and not lines[i].rstrip().endswith(':'):
            raise ValueError('bad header')
        i += 1
    body = lines[i + 1:-1]
    if not body or not body[-1].startswith('='):
        raise ValueError('no checksum')
    data = base64.b64decode(''.join(x.rstrip() for x in body[:-1]),
                            validate=True)
    crc = base64.b64decode(body[-1].rstrip()[1:], validate=True)
    if crc24(data).to_bytes(3, 'big') != crc:
        raise ValueError('checksum')
    return kind, data
