"""C08: corrupted ASCII armor is never accepted as different data."""
import base64

from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import pgpref
from sim import vfs as vfs_mod

TYPES = {1: 'PGP MESSAGE', 2: 'PGP PUBLIC KEY BLOCK',
         3: 'PGP PRIVATE KEY BLOCK', 4: 'PGP SIGNATURE'}
SIZES = [0, 1, 2, 3, 4, 5, 17, 53, 54, 55, 107, 108, 109, 162, 300, 540, 541,
         1000, 2000]
VALUES = ['text', '', 'a: b: c', '-----BEGIN PGP MESSAGE-----',
          'na\xefve \u6587', '=abcd', 'x' * 200, ' two  spaces ']


def crc24_table():
    t = []
    for i in range(256):
        c = i << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864cfb
        t.append(c)
    return t


_T = crc24_table()


def crc24(data):
    c = 0xb704ce
    for b in data:
        c = ((c << 8) & 0xffffff) ^ _T[(c >> 16) ^ b]
    return c


_INV = {t & 0xff: i for i, t in enumerate(_T)}


def unstep(c):
    """The register before it took in a zero byte."""
    i = _INV[c & 0xff]
    return i << 16 | (c ^ _T[i]) >> 8


def steer(data, target):
    """Three bytes that take the checksum of data to target."""
    c = target
    for _ in range(3):
        c = unstep(c)
    return (c ^ crc24(data)).to_bytes(3, 'big')


def hidden_pattern(n, offset, delta):
    """What to XOR into the three bytes at offset of n so that the checksum
    changes by exactly delta."""
    c = delta
    for _ in range(n - offset):
        c = unstep(c)
    return c.to_bytes(3, 'big')


ALPHABET = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
            '0123456789+/')
DELTAS = [1, 0x800000, 0x010000, 0xff0000, 0x0000ff, 0x00ff00, 0x800001,
          0xffffff]
CHECKSUMS = [0, 0xffffff, 1, 0xb704ce, 0x864cfb, 0x00ffff, 0x0a0a0a]


def checksum_in(text):
    """The last checksum line of an armoured text, or None."""
    for line in reversed(text.splitlines()):
        if line.startswith('=') and len(line.strip()) == 5:
            try:
                return int.from_bytes(base64.b64decode(
                    line.strip()[1:], validate=True), 'big')
            except ValueError:
                return None
    return None


class Check(BaseCheck):

    id = 'C08'
    runs = {'quick': 9000, 'thorough': 200000}
    rule = ('one run = tasks that armour generated payloads (binary, keys, '
            'messages; every data type and header) and pass the text through '
            'a faulty transport many times: bursts of 1-24 bits, lost and '
            'duplicated lines, truncation, changed line endings, blank lines; '
            'non-trivial = at least one delivery was damaged')
    real_components = ['pgp.armor', 'pgp.crc24', 'pgp.packets.parsers',
                       'pgp.shortcuts (read_key, read_message, files)']
    stub_components = ['the transport', 'the file system', 'clock']
    measure = 'sha-256 of payload sizes, types, headers and all damage'
    assumptions = ['damage beyond 24 bits that keeps the CRC-24 intact by '
                   'coincidence is outside the guarantee',
                   'armour header values are single-line text']

    def load(self):
        import pgp
        import pgp.armor
        import pgp.shortcuts
        from pgp.packets import parsers
        self.armor = pgp.armor
        self.short = pgp.shortcuts
        self.parsers = parsers
        self.refs = pgpref.load()

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 10, 3], 'preempt-mean'),
                       max_steps=100000)
        vfs_mod.VFS(sim).mkdir('/sim/box')
        proc = sim.process('mail')
        notes = []
        for i in range(1 + ch.below(3, 'tasks')):
            job = self.make_job(ch, i)
            notes.append(job['what'])

            def main(job=job):
                self.work(sim, ch, job)
            sim.spawn(proc, main, 't%d' % i)
        sim.shape.update(repr(notes).encode())
        core.run_sim(sim)
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', 'armouring %s failed: %s' % (
                    notes, tb[-500:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', 'decoding never ended: %s' % notes)
        return Run.of(ch, sim, nontrivial=bool(sim.fault_counts),
                      sample=' | '.join(notes))

    def make_job(self, ch, i):
        kind = ch.weighted([('raw', 5), ('key', 2), ('message', 2)],
                           'payload-kind')
        meta = {}
        job_cancel = None
        if kind == 'raw':
            typ = 1 + ch.below(4, 'data-type')
            n = ch.pick(SIZES, 'size')
            if ch.chance(1, 150, 'large'):
                n = ch.pick([70000, 9000, 33000, 140000], 'size')
            data = b'\0' * n if ch.chance(1, 4, 'zeros') else ch.data(n)
            if ch.chance(1, 4, 'steered'):
                # a checksum of a special form
                data += steer(data, ch.pick(CHECKSUMS, 'checksum'))
            elif ch.chance(1, 4, 'self-cancelling'):
                # three bytes the checksum would not miss
                at = ch.below(len(data) // 3 + 1, 'at') * 3
                data = data[:at] + steer(data[:at], crc24(data[:at])) + \
                    data[at:]
                job_cancel = at
            if typ == 1 and ch.chance(1, 2, 'part'):
                meta['part'] = 1 + ch.below(12, 'part-no')
                if ch.chance(1, 2, 'total'):
                    meta['total_parts'] = meta['part'] + ch.below(5, 'more')
            for name in ('version', 'comment', 'message_id',
                         'hash_algorithms', 'charset'):
                if ch.chance(1, 4, name):
                    meta[name] = ch.pick(VALUES, 'value')
            if ch.chance(1, 6, 'extra'):
                meta['extra_headers'] = {'X-Extra': ch.pick(VALUES, 'value')}
        elif kind == 'key':
            k = self.refs[ch.below(len(self.refs), 'key')]
            typ = 2 + ch.below(2, 'secret')
            data = k.raw(typ == 3)
        else:
            typ = 1
            when = 1400000000
            body = b'b\x05a.txt' + when.to_bytes(4, 'big') + ch.data(
                ch.pick(SIZES, 'size'))
            data = b'\xcb\xff' + len(body).to_bytes(4, 'big') + body
        return {'kind': kind, 'type': typ, 'data': data, 'meta': meta,
                'i': i, 'cancel': job_cancel, 'what': '%s %s %d bytes %s' % (
                    kind, TYPES[typ], len(data), sorted(meta))}

    def work(self, sim, ch, job):
        A = self.armor
        a = A.ASCIIArmor(job['type'], job['data'], **job['meta'])
        text = str(a)
        sim.event('armoured', job['what'], len(text))
        if checksum_in(text) != crc24(job['data']):
            raise Violation('checksum', '%s: the checksum line is not the '
                            'CRC-24 of the data: %r' % (
                                job['what'], text[-60:]))
        for d in range(6 + ch.below(10, 'deliveries')):
            lines = text[:-1].split('\n')
            damage = ch.weighted([(None, 2), ('burst', 6), ('data-burst', 4), ('lose', 3),
                                  ('repeat', 3), ('cut', 3)], 'damage')
            exact_guarantee = False
            sent = text
            if damage == 'burst':
                sent, exact_guarantee = self.burst(ch, text, job)
            elif damage == 'data-burst':
                sent, exact_guarantee = self.data_burst(ch, text, job), True
            elif damage in ('lose', 'repeat'):
                # one or several adjacent lines, or the same line again
                n = len(lines)
                at = ch.below(n, 'line')
                k = min(n - at, 1 + ch.weighted(
                    [(0, 4), (1, 1), (2, 1)], 'lines'))
                if damage == 'lose':
                    del lines[at:at + k]
                else:
                    lines[at + k:at + k] = lines[at:at + k]
                sent = '\n'.join(lines) + '\n'
            elif damage == 'cut':
                at = ch.below(len(text), 'cut')
                if ch.chance(1, 3, 'near-end'):
                    at = max(0, len(text) - 1 - ch.below(80, 'cut-off'))
                sent = text[:at]
            if damage:
                sim.fault(damage)
            eol = ch.pick(['\n', '\r\n', '\r', 'mixed'], 'line-ending')
            sent = self.endings(ch, sent, eol)
            pre = ch.pick(['', '\n', '\r\n\r\n', '  \n', '\r\r'], 'before')
            post = ch.pick(['', '\n', '\r\n\r\n', ' \n'], 'after')
            if not (damage == 'cut' and ch.chance(1, 2, 'dead-end')):
                sent = pre + sent + post
            else:
                sent = pre + sent
            if damage is None and not post and ch.chance(1, 4, 'no-newline'):
                sent = sent.rstrip('\r\n')
            sim.sleep(ch.pick([0, 1.0], 'delay'))
            self.receive(sim, ch, job, d, damage, sent, exact_guarantee)

    def endings(self, ch, text, eol):
        if eol == 'mixed':
            return ''.join(c if c != '\n' else ch.pick(
                ['\n', '\r\n'], 'eol') for c in text)
        return text.replace('\n', eol)

    def data_burst(self, ch, text, job):
        """Up to 24 adjacent bits of the payload itself, the checksum line
        untouched."""
        data = bytearray(job['data'])
        n = len(data)
        if not n:
            return text
        if n >= 3 and ch.chance(1, 2, 'aimed'):
            at = ch.below(n - 2, 'at')
            d = hidden_pattern(n, at, ch.pick(DELTAS, 'delta'))
            for i in range(3):
                data[at + i] ^= d[i]
        else:
            bits = 1 + ch.below(min(24, 8 * n), 'bits')
            at = ch.below(8 * n - bits + 1, 'bit')
            v = int.from_bytes(data, 'big') ^ ((
                ch.below(1 << bits, 'pattern') | 1 | 1 << (bits - 1)) <<
                (8 * n - bits - at))
            data = v.to_bytes(n, 'big')
        lines = text[:-1].split('\n')
        start = lines.index('') + 1
        enc = base64.b64encode(bytes(data)).decode()
        width = len(lines[start])
        k = -(-len(enc) // width)
        lines[start:start + k] = [enc[i:i + width]
                                  for i in range(0, len(enc), width)]
        return '\n'.join(lines) + '\n'

    def wipe(self, ch, text, job):
        """A burst of 24 bits that leaves none of four characters a base64
        one: the last half of the first to the first half of the last."""
        lines = text[:-1].split('\n')
        start = lines.index('') + 1
        at = job['cancel'] // 3 * 4
        width = len(lines[start])
        row, col = start + at // width, at % width
        four = lines[row][col:col + 4]
        junk = '.-_,:;!"#$'
        one = [c for c in range(0x21, 0x7f)
               if c >> 4 == ord(four[0]) >> 4 and chr(c) not in ALPHABET and
               c != 0x3d]
        last = [c for c in (ord(four[3]) & 15, ord(four[3]) & 15 | 16)
                if c and chr(c).strip()]
        if not one or not last:
            return None
        new = chr(ch.pick(one, 'junk')) + ch.pick(junk, 'junk') + \
            ch.pick(junk, 'junk') + chr(ch.pick(last, 'junk'))
        lines[row] = lines[row][:col] + new + lines[row][col + 4:]
        return '\n'.join(lines) + '\n'

    def burst(self, ch, text, job):
        if job['cancel'] is not None and ch.chance(1, 2, 'wipe'):
            wiped = self.wipe(ch, text, job)
            if wiped is not None:
                return wiped, True
        raw = bytearray(text.encode('utf8'))
        bits = 1 + ch.below(24, 'burst-bits')
        total = len(raw) * 8
        # most of the text is data; headers and the end matter as well
        start = ch.below(total - bits + 1, 'burst-at')
        if ch.chance(1, 3, 'near-end'):
            start = max(0, total - bits - ch.below(
                min(total - bits + 1, 800), 'burst-back'))
        pattern = ch.below(1 << bits, 'burst-pattern') | 1 | (
            1 << (bits - 1))
        before = bytes(raw)
        v = int.from_bytes(raw, 'big') ^ (
            pattern << (total - bits - start))
        raw = v.to_bytes(len(raw), 'big')
        alphabet = ALPHABET.encode()
        changed = [i for i in range(len(raw)) if raw[i] != before[i]]
        inside = all(raw[i] in alphabet and before[i] in alphabet
                     for i in changed)
        return raw.decode(ch.pick(['latin-1', 'utf8'], 'charset'),
                          'replace'), inside

    def receive(self, sim, ch, job, d, damage, text, guaranteed):
        want = (job['type'], job['data'])
        ways = ['armor', 'packets']
        if job['kind'] == 'key':
            ways = ['armor', 'key', 'file']
        elif job['kind'] == 'message':
            ways = ['armor', 'message', 'packets']
        elif job['kind'] == 'raw':
            ways = ['armor']
        way = ways[ch.below(len(ways), 'reader')]
        err = None
        got = None
        try:
            if way == 'armor':
                a = self.armor.ASCIIArmor.from_ascii(text)
                got = (a.data_type, bytes(a.data))
                data = got[1]
                if bytes(a) != data:
                    raise Violation('bytes', job['what'])
            elif way == 'packets':
                pk = list(self.parsers.parse_ascii_packet_data(text))
                data = b''.join(bytes(p) for p in pk)
                plain = list(self.parsers.parse_binary_packet_data(
                    job['data']))
                got = (job['type'], job['data'] if data == b''.join(
                    bytes(p) for p in plain) else data)
            elif way == 'message':
                m = self.short.read_message(text, armored=True)
                o = self.short.read_message(job['data'])
                got = (job['type'], job['data'] if mc.content(m) ==
                       mc.content(o) else mc.content(m))
            else:
                if way == 'key':
                    k = self.short.read_key(text, armored=True)
                else:
                    name = '/sim/box/%d-%d.asc' % (job['i'], d)
                    with open(name, 'w', newline='',
                              errors='surrogateescape') as fh:
                        fh.write(text)
                    k = self.short.read_key_file(name, armored=True)
                o = self.short.read_key(job['data'])
                data = self.short.serialize_key(k)
                got = (job['type'], job['data'] if (
                    type(k) is type(o) and
                    data == self.short.serialize_key(o)) else data)
        except Violation:
            raise
        except Exception as e:
            if core.is_harness_error(e):
                raise
            err = e
        sim.event('delivery', d, damage, way,
                  'raised %s' % type(err).__name__ if err else 'decoded')
        sim.shape.update(('%s %s %s' % (damage, way, err is None)).encode())
        if damage is None:
            if err is not None:
                raise Violation('undamaged-refused', '%s: undamaged armour '
                                '%r...%r raised %r from %s' % (
                                    job['what'], text[:60], text[-40:], err,
                                    way))
            if got != want:
                raise Violation('undamaged-altered', '%s: %r...%r decoded by '
                                '%s to %s' % (job['what'], text[:60],
                                              text[-40:], way,
                                              mc.brief(got)))
            if way == 'armor':
                for k in ('part', 'total_parts', 'version', 'comment',
                          'message_id', 'hash_algorithms', 'charset',
                          'extra_headers'):
                    if getattr(a, k) != job['meta'].get(k) and \
                            not (k == 'total_parts' and
                                 'part' not in job['meta']):
                        raise Violation(
                            'header', '%s: header %s is %r instead of %r' % (
                                job['what'], k, getattr(a, k),
                                job['meta'].get(k)))
            return
        if err is not None:
            sim.probe('damage-detected')
            return
        if got == want:
            sim.probe('damage-without-effect')
            return
        if not guaranteed and way == 'armor' and \
                checksum_in(text) == crc24(got[1]) and got[0] == want[0]:
            sim.probe('checksum-coincidence')
            return
        raise Violation('altered', '%s: after a %s in transit %s decoded it '
                        'without an error to %s instead of %s' % (
                            job['what'], damage, way, mc.brief(got),
                            mc.brief(want)))
