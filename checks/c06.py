"""C06: parsing from a stream equals parsing from memory; a cut is an error."""
import errno
import io
import struct

from checks import packets_common as pc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys


class SimStream(io.RawIOBase):
    """A seekable binary stream fed by a slow, short-reading, failing
    device."""

    def __init__(self, sim, ch, data, plan, name):
        io.RawIOBase.__init__(self)
        self.sim = sim
        self.ch = ch
        self._data = data
        self.plan = plan
        self.pos = 0
        self.reads = 0
        self.failed = False
        self.label = name

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 1:
            offset += self.pos
        elif whence == 2:
            offset += len(self._data)
        if offset < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.sim.step('seek', self.label)
        self.pos = offset
        return offset

    def _some(self, n):
        self.sim.step('read', '%s %d' % (self.label, n))
        self.reads += 1
        p = self.plan
        if p['fail_at'] is not None and self.reads == p['fail_at']:
            self.failed = True
            self.sim.fault('EIO')
            raise OSError(errno.EIO, 'Input/output error')
        if p['stall'] and self.ch.chance(1, p['stall'], 'stall'):
            self.sim.fault('stall')
            self.sim.sleep(self.ch.pick([0.01, 1.0, 3600.0], 'stall-for'))
        left = max(0, len(self._data) - self.pos)
        n = min(n, left)
        if n > 1 and p['short'] and self.ch.chance(1, p['short'], 'short'):
            n = 1 + self.ch.below(n - 1, 'short-by')
            self.sim.fault('short read')
        d = self._data[self.pos:self.pos + n]
        self.pos += n
        return d

    def readinto(self, b):
        d = self._some(len(b))
        b[:len(d)] = d
        return len(d)


class Check(BaseCheck):

    id = 'C06'
    runs = {'quick': 12000, 'thorough': 250000}
    rule = ('one run = 1-3 tasks, each parsing its own generated packet '
            'sequence (all packet types, all length encodings, sizes around '
            'every length boundary) from memory and from a simulated seekable '
            'stream with short reads, stalls and read errors, whole or cut at '
            'a generated byte, interleaved with the others; non-trivial = at '
            'least one packet was cut, partial, or read in pieces')
    real_components = ['pgp.packets.parsers', 'pgp.packets.packets',
                       'pgp.utils (packet lengths, read_exactly)']
    stub_components = ['the byte stream (short reads, stalls, EIO)', 'clock']
    measure = ('sha-256 of the packet types, length encodings, sizes and cut '
               'of every task and of the sequence of stream reads and task '
               'switches')
    assumptions = ['streams are seekable binary files, as parse_binary_packet'
                   '_stream requires',
                   'partial body lengths only on data packets (RFC 4880)']

    def load(self):
        import pgp.packets.parsers as p
        self.p = p

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 3, 20], 'preempt-mean'),
                       max_steps=60000)
        proc = sim.process('parser')
        notes = []
        flags = {'nt': False}
        for i in range(1 + ch.weighted([(0, 5), (1, 2), (2, 1)], 'tasks')):
            job = self.make_job(ch, i)
            notes.append(job['what'])
            flags['nt'] = flags['nt'] or job['nt']
            sim.shape.update(job['what'].encode())

            def main(job=job):
                self.work(sim, ch, job)
            sim.spawn(proc, main, 'p%d' % i)
        core.run_sim(sim)
        if sim.violation is None:
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', 'parsing never ended: %s' % notes)
            for t, e, tb in sim.failed_tasks:
                raise core.HarnessError(tb)
        return Run.of(ch, sim, nontrivial=flags['nt'] or
                      bool(sim.fault_counts), sample=' | '.join(notes)[:400])

    def make_job(self, ch, i):
        n = 1 + ch.below(5, 'packets')
        data = b''
        ends = [0]
        want = []
        encodings = []
        big = ch.chance(1, 3, 'big-job')
        giant = None
        if i == 0 and ch.chance(1, 250, 'giant-job'):
            n = min(n, 3)
            giant = ch.below(n, 'giant-one')
        for k in range(n):
            if k == giant:
                tag, body = self.giant(ch)
            else:
                tag = pc.TAGS[ch.below(len(pc.TAGS), 'tag')]
                body = pc.body(ch, tag, big)
            raw, kind = pc.frame(ch, tag, body, k == n - 1)
            data += raw
            ends.append(len(data))
            want.append((tag, body, 'old' if kind in (
                'old', 'old2', 'old4', 'indeterminate') else 'new'))
            encodings.append('%d:%s:%d' % (tag, kind, len(body)))
        indeterminate = encodings[-1].split(':')[1] == 'indeterminate'
        cut = None
        if ch.chance(1, 2, 'cut?'):
            # anywhere, or close to a header or an end
            if ch.chance(1, 2, 'near-edge'):
                e = ch.pick(ends, 'edge')
                cut = min(len(data), max(0, e - 4 + ch.below(12, 'by')))
            else:
                cut = ch.below(len(data) + 1, 'cut')
            if indeterminate and cut > ends[-2]:
                # such a packet goes on to the end of the data
                cut = ends[-2]
        nt = cut is not None or any('partial' in e for e in encodings)
        return {'data': data if cut is None else data[:cut], 'ends': ends,
                'want': want, 'cut': cut, 'i': i, 'nt': nt,
                'indeterminate': indeterminate,
                'what': '%s cut=%s' % (','.join(encodings), cut)}

    def giant(self, ch):
        """A packet whose length needs more than three octets."""
        tag = ch.pick([11, 9, 18, 13], 'giant-tag')
        size = (1 << 24) + ch.pick([0, -1, 1, -300, 70000], 'giant-size')
        start = {11: b'b\x01f\0\0\0\0', 18: b'\x01'}.get(tag, b'')
        step = b'0123456789abcdef '
        return tag, (start + step * (size // len(step) + 1))[:size]

    def collect(self, it):
        out = []
        error = None
        try:
            for p in it:
                out.append(p)
        except Exception as e:
            if core.is_harness_error(e):
                raise
            error = e
        return out, error

    def work(self, sim, ch, job):
        data = job['data']
        ends = job['ends']
        if job['cut'] is not None:
            sim.fault('cut')
        form = ch.pick([bytes, bytearray], 'buffer')
        mem, merr = self.collect(self.p.parse_binary_packet_data(form(data)))
        fh, plan = self.stream(sim, ch, data, job['i'])
        raw = fh if isinstance(fh, SimStream) else fh.raw
        got, serr = self.collect(self.p.parse_binary_packet_stream(fh))
        sim.event('parsed', len(mem), merr, len(got), serr)
        whole = len([e for e in ends[1:] if e <= len(data)])
        at_end = len(data) in ends
        what = job['what']
        # memory
        self.judge(sim, job, mem, merr, whole, at_end, 'memory')
        # stream
        if raw.failed:
            if serr is None:
                raise Violation('read-error-lost', '%s: a read failed and '
                                'the parser went on to return %d packets' % (
                                    what, len(got)))
            self.same(job, got, mem[:len(got)], 'before the read error')
            # what was parsed before the error is a prefix
            if len(got) > whole:
                raise Violation('invented', what)
            return
        self.judge(sim, job, got, serr, whole, at_end, 'stream')
        self.same(job, got, mem, 'stream and memory')
        self.written(job, got)

    def judge(self, sim, job, got, error, whole, at_end, where):
        what = job['what']
        if at_end:
            if error is not None:
                raise Violation('rejected', '%s: whole packets raised %r when '
                                'parsed from %s' % (what, error, where))
            if len(got) != whole:
                raise Violation('count', '%s: %d packets instead of %d from '
                                '%s' % (what, len(got), whole, where))
        else:
            if error is None:
                raise Violation('truncation', '%s: the data ends in the '
                                'middle of packet %d and %s parsing returned '
                                '%d packets without an error' % (
                                    what, whole + 1, where, len(got)))
            if len(got) > whole:
                raise Violation('truncation', '%s: %s parsing returned a '
                                'packet that was cut' % (what, where))
            # packets before the cut are judged as far as they were returned
        if not at_end and len(got) < whole:
            raise Violation('lost', '%s: %s parsing returned only %d of %d '
                            'whole packets before the cut' % (
                                what, where, len(got), whole))
        for k, p in enumerate(got):
            tag, body, fmt = job['want'][k]
            if p.type != tag:
                raise Violation('type', '%s: packet %d has type %r (%s)' % (
                    what, k, p.type, where))
            ref = self.reference(tag, body, fmt)
            a = pc.view(p)
            if a != ref:
                raise Violation('content', '%s: packet %d parsed from %s '
                                'differs from the same packet with a plain '
                                'length: %s' % (what, k, where, diff(a, ref)))
            if tag not in (8, 16, 61) and '_content' in vars(p) and \
                    bytes(p._content) != body and tag not in (16,):
                raise Violation('content', '%s: packet %d content from %s' % (
                    what, k, where))
            if tag in (9, 10, 11, 12, 13, 18, 19, 20, 59, 60, 62):
                c = bytes(p.content)
                if c != body:
                    raise Violation('content', '%s: packet %d from %s has '
                                    'content %d bytes %r.. instead of %d '
                                    'bytes %r..' % (
                                        what, k, where, len(c), c[:20],
                                        len(body), body[:20]))

    def written(self, job, got):
        """What is written back must read as the same packets, in a row."""
        raw = b''
        for k, p in enumerate(got):
            try:
                raw += bytes(p)
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                raise Violation('unwritable', '%s: writing packet %d back '
                                'raised %r' % (job['what'], k, e))
        try:
            # with something after them, as in a keyring
            read = keys.split_packets(raw + keys.packet(10, b'PGP'))
        except (ValueError, IndexError, struct.error) as e:
            raise Violation('rewritten', '%s: what is written back is not a '
                            'row of packets: %s' % (job['what'], e))
        if len(read) != len(got) + 1:
            raise Violation('rewritten', '%s: %d packets and a marker packet '
                            'after them read as %d packets' % (
                                job['what'], len(got), len(read)))
        read.pop()
        for k, (t, body, octets) in enumerate(read):
            tag, want, fmt = job['want'][k]
            if (t, body) != (tag, want):
                raise Violation('rewritten', '%s: packet %d was written back '
                                'as type %d: %s' % (job['what'], k, t,
                                                    diff(body, want)))
            if (octets[0] & 0x40 == 0) != (fmt == 'old'):
                raise Violation('rewritten', '%s: packet %d was written back '
                                'with the other kind of header' % (
                                    job['what'], k))

    def reference(self, tag, body, fmt):
        """The same packet behind the plainest header."""
        old = fmt == 'old'
        return pc.view(list(self.p.parse_binary_packet_data(
            keys.packet(tag, body, old)))[0])

    def same(self, job, a, b, where):
        if len(a) != len(b):
            raise Violation('stream-differs', '%s: %d against %d packets, '
                            '%s' % (job['what'], len(a), len(b), where))
        for k, (p, q) in enumerate(zip(a, b)):
            if pc.view(p) != pc.view(q) or bytes_of(p) != bytes_of(q):
                raise Violation('stream-differs', '%s: packet %d, %s: %s' % (
                    job['what'], k, where, diff(pc.view(p), pc.view(q))))

    def stream(self, sim, ch, data, i):
        plan = {'short': ch.pick([2, None, 1, 8], 'short-reads'),
                'stall': ch.pick([None, 10, 40], 'stalls'),
                'fail_at': ch.gap(60, 400, 'fail-at')
                if ch.chance(1, 4, 'failing') else None}
        if len(data) > 20000 and plan['short'] is not None:
            plan['short'] = 6
        raw = SimStream(sim, ch, data, plan, 's%d' % i)
        kind = ch.pick(['raw', 'bytesio'] if len(data) > 1 << 22 else
                       ['raw', 'buffered', 'bytesio'], 'stream-kind')
        if kind == 'raw':
            return raw, plan
        if kind == 'buffered':
            return io.BufferedReader(raw, ch.pick([8192, 1, 2, 64],
                                                  'buffer-size')), plan
        b = io.BytesIO(data)
        return Wrapped(b, sim, i), plan


class Wrapped(object):
    """A BytesIO whose every call is a scheduling point."""

    def __init__(self, b, sim, i):
        self.b = b
        self.sim = sim
        self.raw = self
        self.failed = False
        self.i = i

    def read(self, *a):
        self.sim.step('read', 'b%d' % self.i)
        return self.b.read(*a)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


def bytes_of(p):
    try:
        return bytes(p)
    except Exception as e:
        return type(e).__name__


def diff(a, b):
    a, b = repr(a), repr(b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return '...%s... / ...%s...' % (a[max(0, i - 40):i + 60],
                                            b[max(0, i - 40):i + 60])
    return 'lengths %d / %d' % (len(a), len(b))
