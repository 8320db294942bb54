"""C13: the keyserver client yields exact answers or errors."""
import errno
import functools
import gzip
import urllib.parse

from checks.base import BaseCheck, Run, Violation
from sim import armor
from sim import core
from sim import keys
from sim import net as net_mod
from sim import pgpref

HOST = 'keys.example.org'
UIDS = ['Ann Example <ann@example.org>', 'J\xf6rg M\xfcller <jm@example.org>',
        'a:b:c <colons@example.org>', '100% real <p@example.org>',
        '\u6587\u5b57 \U0001f511 <cjk@example.org>', 'plus+tag@example.org',
        'pub:not:a:key', '  spaces  ', 'tab\there', 'uid', '', 'no mail',
        'x' * 300, 'new\nline', 'semi;colon&amp=1']
TERMS = ['ann', 'j\xf6rg', 'a b', 'a+b@example.org', 'x&op=get', '100%',
         'a=b', '0xDEADBEEF', '\u6587', '%41', 'a#b?c/d', '"quoted"', "o'k",
         '', ' lead']
KEY_IDS = ['0123456789ABCDEF', 'DEADBEEF', '0123456789abcdef' * 2 +
           '01234567', 'F' * 40]


class Entry(object):
    pass


def plain_int(field):
    if field == '':
        return None
    if not field.isdigit() or not field.isascii():
        raise ValueError(field)
    return int(field)


def strict_index(text):
    """The entries of a machine-readable index as the HKP draft defines it,
    or None if it is not well-formed. Independent of the library."""
    out = []
    lines = text.replace('\r\n', '\n').split('\n')
    try:
        for c in text:
            if (ord(c) < 32 and c not in '\t\n\r') or ord(c) in (127, 133) \
                    or c in '\x1c\x1d\x1e\u2028\u2029':
                return None
        if '\r' in text.replace('\r\n', ''):
            return None
        count = None
        for i, line in enumerate(lines):
            f = line.split(':')
            if line.startswith('info'):
                if i or len(f) != 3 or f[0] != 'info' or f[1] != '1':
                    return None
                count = plain_int(f[2])
                if count is None:
                    return None
            elif line.startswith('pub'):
                if f[0] != 'pub' or len(f) > 7 or len(f) < 2:
                    return None
                f += [''] * (7 - len(f))
                if not f[1] or f[1].strip('0123456789abcdefABCDEF'):
                    return None
                if f[6].strip('rde'):
                    return None
                out.append((f[1], plain_int(f[2]), plain_int(f[3]),
                            plain_int(f[4]), plain_int(f[5]),
                            ''.join(sorted(set(f[6]))), []))
            elif line.startswith('uid'):
                if f[0] != 'uid' or len(f) > 5 or len(f) < 2 or not out:
                    return None
                f += [''] * (5 - len(f))
                if f[4].strip('rde'):
                    return None
                raw = f[1]
                if not raw.isascii():
                    return None
                k = 0
                while k < len(raw):
                    if raw[k] == '%':
                        int(raw[k + 1:k + 3], 16)
                        if len(raw[k + 1:k + 3].strip()) != 2 or \
                                not raw[k + 1:k + 3].isalnum():
                            return None
                        k += 2
                    k += 1
                uid = urllib.parse.unquote_to_bytes(raw).decode('utf8')
                out[-1][6].append((uid, plain_int(f[2]), plain_int(f[3]),
                                   ''.join(sorted(set(f[4])))))
            elif line.strip() == '' or line.startswith('uat:') or \
                    line.startswith('#'):
                pass
            else:
                return None
        if count is not None and count != len(out):
            return None
        for e in out:
            for t in (e[3], e[4]) + tuple(x for u in e[6] for x in u[1:3]):
                if t is not None and t >= 1 << 33:
                    return None
    except ValueError:
        return None
    return out


def dated(t):
    return None if t is None else int(t.timestamp())


def flags(o):
    return ''.join(c for c, v in (('d', o.disabled), ('e', o.expired),
                                  ('r', o.revoked)) if v)


def view(results):
    """What the client returned, in the form of strict_index."""
    out = []
    for r in results:
        out.append((r.key_id, r.public_key_algorithm, r.bit_length,
                    dated(r.created), dated(r.expires), flags(r),
                    [(u.user_id, dated(u.created), dated(u.expires),
                      flags(u)) for u in r.user_ids]))
    return out


class Exchange(object):
    """One request the server saw and what it answered."""

    def __init__(self):
        self.status = None
        self.body = b''             # content as delivered, decoded
        self.complete = True        # in the eyes of a strict HTTP client
        self.opaque = False         # nobody can tell
        self.faults = []
        self.stored = None


class Server(object):
    """An HKP server and the network in front of it."""

    def __init__(self, check, sim, ch):
        self.check = check
        self.sim = sim
        self.ch = ch
        self.store = {}             # fingerprint -> [(tag, body)]
        self.log = []
        self.trouble = ch.pick([0, 1, 2, 4], 'trouble')   # of 8
        self.calm = False

    def accept(self, tls, conn):
        conn.speaks_tls = tls
        conn.buf_done = 0
        ch = self.ch
        if tls and self.faulty('certificate', 12):
            conn.bad_certificate = True
            self.sim.fault('bad-certificate')
        if self.faulty('cut-request', 12):
            conn.send_limit = ch.below(900, 'sent')
            self.sim.fault('cut-request')
        conn.on_data = self.data

    def faulty(self, label, n):
        return not self.calm and self.trouble and \
            self.ch.chance(self.trouble, 8 * n // 4, label)

    # -- requests

    def data(self, conn):
        while True:
            raw = bytes(conn.received[conn.buf_done:])
            head, sep, rest = raw.partition(b'\r\n\r\n')
            if not sep:
                return
            lines = head.decode('latin-1').split('\r\n')
            fields = {}
            for line in lines[1:]:
                k, _, v = line.partition(':')
                fields[k.strip().lower()] = v.strip()
            n = int(fields.get('content-length', '0') or 0)
            if fields.get('transfer-encoding', '').lower() == 'chunked':
                body, used = self.dechunk(rest)
                if used is None:
                    return
                n = used
            else:
                if len(rest) < n:
                    return
                body = rest[:n]
            conn.buf_done += len(head) + 4 + n
            ex = Exchange()
            ex.tls = bool(conn.tls)
            method, ex.target, _ = lines[0].split(' ', 2)
            ex.method = method
            ex.fields = fields
            ex.sent = body
            ex.task = self.sim.current
            self.log.append(ex)
            self.sim.event('request', method, ex.target[:100], len(body))
            self.answer(conn, ex)

    @staticmethod
    def dechunk(data):
        out, i = b'', 0
        while True:
            j = data.find(b'\r\n', i)
            if j < 0:
                return None, None
            n = int(data[i:j].split(b';')[0], 16)
            if len(data) < j + 2 + n + 2:
                return None, None
            out += data[j + 2:j + 2 + n]
            i = j + 2 + n + 2
            if n == 0:
                return out, i

    # -- answers

    def answer(self, conn, ex):
        ch = self.ch
        url = urllib.parse.urlsplit(ex.target)
        q = dict(urllib.parse.parse_qsl(url.query, True))
        ex.query = q
        status, body, ctype, extra = 404, b'<html>No such page</html>', \
            'text/html', []
        if url.path == '/pks/lookup' and ex.method == 'GET':
            if q.get('op') == 'get':
                status, body = self.get(ex, q)
                ctype = ch.pick(['application/pgp-keys', 'text/plain',
                                 'text/plain; charset=UTF-8'], 'type')
            elif q.get('op') == 'index':
                status, body = self.index(ex, q)
                ctype = ch.pick(['text/plain', 'text/plain; charset=UTF-8',
                                 'text/plain;charset=us-ascii'], 'type')
        elif url.path == '/pks/add' and ex.method == 'POST':
            status, body = self.add(ex)
            ctype = 'text/html; charset=UTF-8'
        if self.faulty('status', 4):
            if ex.method == 'POST' and ch.chance(1, 3, 'moved'):
                status = ch.pick([301, 302, 303, 307], 'moved-how')
            else:
                status = ch.pick([500, 404, 503, 400, 403, 429, 301, 302,
                                  303, 307, 308, 300, 304, 501, 502, 410,
                                  413], 'bad-status')
            self.note(ex, 'status-%d' % status)
            if status in (301, 302, 303, 307, 308) and \
                    ch.chance(3, 4, 'location'):
                extra.append('Location: ' + ch.pick(
                    [ex.target, '/pks/lookup?op=get&search=0x12345678',
                     'http://%s%s' % (HOST, ex.target), '/moved',
                     '/pks/add', '/pks/lookup?op=index&search=ann',
                     'http://other.example.net' + ex.target,
                     'http://unknown.example.net/'], 'to'))
            if ex.stored is not None:
                self.store = ex.before
                ex.stored = None
            if ch.chance(1, 2, 'other-body'):
                body = ch.pick([b'', b'<h1>Error</h1>', b'info:1:0\n'],
                               'error-body')
        ex.status = status
        if status < 300 and ex.stored is None and self.faulty('flip', 5):
            body = self.spoil(ex, body)
        self.deliver(conn, ex, status, body, ctype, extra)

    def note(self, ex, what):
        ex.faults.append(what)
        self.sim.fault(what)

    def spoil(self, ex, body):
        ch = self.ch
        if not body:
            return body
        how = ch.pick(['bit', 'bit', 'lose-line', 'twice-line', 'cut',
                       'html', 'swap-lines'], 'spoil')
        b = bytearray(body)
        lines = body.split(b'\n')
        i = ch.below(len(lines), 'line')
        if how == 'bit':
            b[ch.below(len(b), 'at')] ^= 1 << ch.below(8, 'bit')
            out = bytes(b)
        elif how == 'lose-line':
            out = b'\n'.join(lines[:i] + lines[i + 1:])
        elif how == 'twice-line':
            out = b'\n'.join(lines[:i + 1] + lines[i:])
        elif how == 'swap-lines':
            j = ch.below(len(lines), 'other-line')
            lines[i], lines[j] = lines[j], lines[i]
            out = b'\n'.join(lines)
        elif how == 'cut':
            out = body[:ch.below(len(body), 'at')]
        else:
            out = b'<html><body>A proxy was here</body></html>'
        if out != body:
            self.note(ex, 'body-' + how)
        return out

    def find(self, search):
        want = search[2:].upper() if search[:2].lower() == '0x' else None
        for fp in sorted(self.store):
            ids = [keys.fingerprint(b) for t, b in self.store[fp]
                   if t in (6, 14)]
            if want and any(i.endswith(want) for i in ids):
                return fp
        return None

    def get(self, ex, q):
        ch = self.ch
        fp = self.find(q.get('search', ''))
        if self.faulty('wrong-key', 4) and self.store:
            fp = sorted(self.store)[ch.below(len(self.store), 'which')]
            self.note(ex, 'wrong-key')
        if fp is None:
            return 404, b'No results found'
        data = b''.join(keys.packet(t, b, bool(ch.chance(1, 2, 'old')))
                        for t, b in self.store[fp])
        if self.faulty('two-keys', 20) and len(self.store) > 1:
            other = sorted(self.store)[ch.below(len(self.store), 'second')]
            data += b''.join(keys.packet(t, b) for t, b in self.store[other])
            self.note(ex, 'two-keys')
        text = armor.encode(
            data, headers=ch.pick([(), (('Version', 'SKS 1.1.5'), (
                'Comment', 'Hostname: keys.example.org'))], 'headers'),
            eol=ch.pick(['\n', '\r\n'], 'eol'))
        return 200, (ch.pick(['', '\n', '\r\n\r\n'], 'lead') +
                     text).encode()

    def index(self, ex, q):
        ch = self.ch
        n = ch.pick([0, 1, 1, 2, 3, 12], 'entries')
        eol = ch.pick(['\n', '\r\n'], 'eol')
        lines = []
        if ch.chance(3, 4, 'info'):
            lines.append('info:1:%d' % n)
        for i in range(n):
            kid = ch.pick(KEY_IDS, 'index-id')
            f = [kid, ch.pick(['1', '17', '', '16'], 'alg'),
                 ch.pick(['2048', '', '1024'], 'bits'), self.time(),
                 self.time(), ch.pick(['', 'r', 'e', 'd', 'er', 'red'],
                                      'flags')]
            lines.append(self.fields('pub', f))
            for _ in range(ch.pick([1, 0, 2, 5], 'uids')):
                f = [self.escape(ch.pick(UIDS, 'uid')), self.time(),
                     self.time(), ch.pick(['', 'r', 'e', 'd', 'rd'],
                                          'flags')]
                lines.append(self.fields('uid', f))
                if ch.chance(1, 8, 'uat'):
                    lines.append('uat::::')
            if ch.chance(1, 12, 'blank'):
                lines.append('')
        text = ''.join(x + eol for x in lines)
        if text and ch.chance(1, 6, 'no-last-eol'):
            text = text[:-len(eol)]
        return 200, text.encode('ascii')

    def time(self):
        return self.ch.pick(['1300000000', '', '0', '1', '4000000000'],
                            'time')

    def fields(self, name, f):
        if self.ch.chance(1, 2, 'short'):
            while len(f) > 1 and f[-1] == '':
                f.pop()
        return ':'.join([name] + f)

    def escape(self, uid):
        how = self.ch.below(3, 'escape')
        if how == 0:
            return urllib.parse.quote(uid, safe='')
        if how == 1:
            return urllib.parse.quote(uid, safe=' <>@.,()+&=;/')
        return ''.join('%%%02x' % b for b in uid.encode('utf8'))

    def add(self, ex):
        try:
            form = dict(urllib.parse.parse_qsl(
                ex.sent.decode('ascii'), True, strict_parsing=True))
            kind, data = armor.decode(form['keytext'])
            if kind != 'PGP PUBLIC KEY BLOCK':
                return 400, b'Not a public key'
            pk = [(t, b) for t, b, _ in keys.split_packets(data)]
            if pk[0][0] != 6:
                raise ValueError
        except (ValueError, KeyError, IndexError):
            return 400, b'Key block missing or corrupted'
        ex.form = form
        ex.before = dict(self.store)
        ex.stored = pk
        self.store[keys.fingerprint(pk[0][1])] = pk
        return self.ch.pick([200, 200, 202, 201], 'ok-status'), \
            b'<html>Key block added</html>'

    def deliver(self, conn, ex, status, body, ctype, extra):
        ch = self.ch
        framing = ch.pick(['length', 'chunked', 'close'], 'framing')
        version = '1.1' if framing == 'chunked' else ch.pick(
            ['1.1', '1.0'], 'version')
        headers = ['Content-Type: ' + ctype, 'Server: sim'] + extra
        wire = body
        none = status in (304, 204)
        if none:
            wire, framing = b'', 'length'
        if framing != 'close' and not none and ch.chance(1, 4, 'gzip') and \
                'gzip' in ex.fields.get('accept-encoding', ''):
            wire = gzip.compress(wire, mtime=0)
            headers.append('Content-Encoding: gzip')
        if framing == 'length':
            headers.append('Content-Length: %d' % len(wire))
        elif framing == 'chunked':
            headers.append('Transfer-Encoding: chunked')
            chunks, rest = b'', wire
            while rest:
                n = min(len(rest), ch.pick([5000, 1, 7, 100], 'chunk'))
                chunks += b'%x\r\n%s\r\n' % (n, rest[:n])
                rest = rest[n:]
            wire = chunks + b'0\r\n\r\n'
        else:
            headers.append('Connection: close')
        ch_order = ch.below(len(headers), 'order')
        headers = headers[ch_order:] + headers[:ch_order]
        head = ('HTTP/%s %d Whatever\r\n' % (version, status) +
                ''.join(h + '\r\n' for h in headers) + '\r\n').encode()
        if version == '1.1' and ch.chance(1, 12, 'continue'):
            head = b'HTTP/1.1 100 Continue\r\n\r\n' + head
        data = head + wire
        ex.body = body
        end = None
        if self.faulty('cut', 3):
            at = ch.below(len(data), 'cut-at')
            if ch.chance(1, 2, 'in-body') and wire:
                at = len(head) + ch.below(len(wire), 'cut-at')
            end = ch.pick(['eof', 'reset'], 'cut-how')
            self.note(ex, 'cut-' + end)
            data = data[:at]
            if at < len(head):
                # an HTTP client may take the rest of the header as missing
                ex.opaque = True
                ex.complete = end != 'reset'
            elif framing == 'close' and end == 'eof':
                ex.body = data[len(head):]
            elif framing == 'chunked' and at >= len(head) + len(wire) - 4:
                # only the line end after the last, empty chunk is missing
                pass
            else:
                ex.complete = False
        elif self.faulty('again', 10) and framing != 'close':
            data += ch.pick([data, b'garbage', b'HTTP/1.1 200 OK\r\n'
                             b'Content-Length: 9\r\n\r\ninfo:1:0\n'],
                            'extra-data')
            self.note(ex, 'extra-data')
        # on its way
        slow = self.faulty('slow', 6)
        if slow:
            self.note(ex, 'delay')
        parts = ch.pick([1, 1, 2, 5, 20], 'fragments')
        while data and parts > 1:
            n = 1 + ch.below(max(1, min(len(data), 2 * len(data) // parts)),
                             'fragment')
            conn.feed(data[:n], ch.pick([0, 0.01, 90], 'pause') if slow
                      else 0.001)
            data = data[n:]
            parts -= 1
        conn.feed(data)
        if end == 'reset':
            conn.reset()
        elif end == 'eof' or framing == 'close' or \
                ch.chance(1, 2, 'closes'):
            conn.eof()


class Check(BaseCheck):

    id = 'C13'
    runs = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.keyserver', 'pgp.shortcuts')
    rule = ('one run = one client (http or https), used by one or two '
            'interleaved tasks for up to seven requests each, against a '
            'simulated HKP server over a simulated network that refuses, '
            'fragments, delays, truncates, resets, corrupts, duplicates and '
            'redirects; every outcome is judged from what the server saw and '
            'sent; non-trivial = at least one request succeeded and at least '
            'one fault was injected')
    real_components = ['pgp.keyserver.hkp', 'pgp.shortcuts', 'pgp.armor',
                       'pgp.transferrable_keys', 'requests', 'urllib3',
                       'http.client']
    stub_components = ['sockets, name resolution, poll/select', 'TLS (only '
                       'its outcome)', 'the keyserver', 'clock']
    measure = 'sha-256 of requests, answers and outcomes'
    assumptions = [
        'a response cut within its header, or cut where only the end of the '
        'connection marks its end, and without an entry count, cannot be '
        'told from a complete one',
        'an index damaged so that it is no longer well-formed may be '
        'refused or understood in any way that fits its entry count']

    def load(self):
        import pgp.keyserver
        import pgp.transferrable_keys as tk
        from pgp.packets import parsers
        net_mod.install()
        self.keyserver = pgp.keyserver
        self.tk = tk
        self.parsers = parsers
        self.pool = []
        for k in pgpref.load():
            self.pool.append([(t, b) for t, b in k.packets(False)])
        for i in range(3):
            self.pool.append(keys.spec(i).content(1, 2))
        for k in keys.colliding(0) + keys.colliding(1):
            self.pool.append(k.content(1))
        # warm up what requests and urllib3 set up once
        for i in range(12):
            try:
                self.run(core.Choices(i))
            except Violation:
                pass

    def library_key(self, pk):
        return self.tk.TransferablePublicKey.from_packets(
            list(self.parsers.parse_binary_packet_data(
                b''.join(keys.packet(t, b) for t, b in pk))))

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 200, 30], 'preempt-mean'),
                       max_steps=400000)
        proc = sim.process('client')
        net = net_mod.Network(sim)
        server = Server(self, sim, ch)
        for a in ('192.0.2.1', '192.0.2.2'):
            for port in (80, 8080, 11371):
                net.listeners[a, port] = functools.partial(server.accept,
                                                           False)
            net.listeners[a, 443] = functools.partial(server.accept, True)
        net.names[HOST] = functools.partial(self.resolve, sim, server)
        net.names['other.example.net'] = ['192.0.2.2']
        hook = functools.partial(self.connecting, server)
        for port in (80, 443, 8080, 11371):
            net.connect_faults['192.0.2.1', port] = hook
        for i in range(ch.below(6, 'stored')):
            pk = self.pool[ch.below(len(self.pool), 'key')]
            server.store[keys.fingerprint(pk[0][1])] = pk
        url = ch.pick(['hkp://%s', 'http://%s/', 'http://%s:8080',
                       'hkp://%s:11371/', 'hkps://%s', 'HKP://%s'],
                      'url') % HOST
        state = {'ok': 0, 'failed': 0}
        client = self.keyserver.get_keyserver(url)
        tls = url.startswith('hkps')
        for i in range(ch.pick([1, 1, 2], 'tasks')):
            sim.spawn(proc, functools.partial(
                self.user, sim, ch, server, client, state, tls), 'u%d' % i)
        core.run_sim(sim)
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', tb[-900:])
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', 'a request never ends: %r' % (
                    sim.deadlock,))
        return Run.of(ch, sim, nontrivial=bool(state['ok'] and
                                               sim.fault_counts),
                      sample=url)

    def resolve(self, sim, server):
        if server.faulty('dns', 20):
            sim.fault('dns')
            return []
        return ['192.0.2.1']

    def connecting(self, server):
        if server.faulty('connect', 12):
            return server.ch.pick([errno.ECONNREFUSED, errno.EHOSTUNREACH,
                                   errno.ENETUNREACH, 'timeout'], 'connect')
        return None

    # -- one user

    def user(self, sim, ch, server, client, state, tls):
        found = []
        for _ in range(1 + ch.below(7, 'requests')):
            if ch.chance(1, 5, 'calm'):
                # from here on the network and the server behave
                server.calm = True
                for c in sim.net.conns:
                    c.send_limit = None
            op = ch.pick(['get', 'get', 'search', 'search', 'submit'], 'op')
            call = self.__getattribute__('do_' + op)
            want, fn = call(sim, ch, server, client, found)
            mark = len(server.log)
            faults = sum(sim.fault_counts.values())
            calm = server.calm
            error = result = None
            try:
                result = fn()
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                error = e
            mine = [x for x in server.log[mark:] if x.task is sim.current]
            sim.event(op, want[0], type(error).__name__,
                      [x.status for x in mine])
            sim.shape.update(repr((op, type(error).__name__, [
                (x.status, x.faults) for x in mine])).encode())
            what = '%s %r, answers %r' % (op, want[0], [
                (x.status, x.faults) for x in mine])
            clean = calm or sum(sim.fault_counts.values()) == faults
            if error is None:
                state['ok'] += 1
                if not mine:
                    raise Violation('invented', '%s: no request reached the '
                                    'server' % what)
                if tls and not mine[0].tls:
                    raise Violation('plaintext', what)
                if mine[-1].status // 100 != 2:
                    raise Violation('status-ignored', '%s: returned although '
                                    'the status is %d' % (what,
                                                          mine[-1].status))
                getattr(self, 'judge_' + op)(sim, server, what, want, result,
                                             mine, found)
            else:
                state['failed'] += 1
                if clean:
                    self.refused(server, op, what, want, error, mine)

    def do_get(self, sim, ch, server, client, found):
        if found and ch.chance(1, 5, 'from-result'):
            r = found[ch.below(len(found), 'result')]
            return (r.key_id,), r.get
        pk = self.pool[ch.below(len(self.pool), 'key')]
        if server.store and ch.chance(3, 4, 'stored'):
            pk = server.store[sorted(server.store)[
                ch.below(len(server.store), 'which')]]
        ids = [keys.fingerprint(b) for t, b in pk if t in (6, 14)]
        fp = ids[ch.below(len(ids), 'part')]
        kid = fp[-ch.pick([40, 16, 8], 'digits'):]
        if ch.chance(1, 6, 'resembles'):
            kid = ch.pick(['0' * (40 - len(kid)), '89ABCDEF' * 3],
                          'other-start')[:40 - len(kid)] + kid
            if len(kid) == 40 and kid[:4] == fp[:4]:
                kid = 'FFFF' + kid[4:]
        if ch.chance(1, 3, 'lower'):
            kid = kid.lower()
        exact = bool(ch.below(2, 'exact'))
        return (kid,), functools.partial(client.get, kid, exact) \
            if exact else functools.partial(client.get, kid)

    def do_search(self, sim, ch, server, client, found):
        terms = ch.pick(TERMS, 'terms')
        exact = bool(ch.below(2, 'exact'))
        return (terms, exact), functools.partial(client.search, terms, exact)

    def do_submit(self, sim, ch, server, client, found):
        pk = self.pool[ch.below(len(self.pool), 'key')]
        nm = bool(ch.below(2, 'no-modify'))
        return (keys.fingerprint(pk[0][1]), pk, nm), functools.partial(
            client.submit, self.library_key(pk), nm)

    # -- judgement

    def content(self, key):
        raw = b''.join(bytes(p) for p in key.to_packets())
        return [(t, bytes(b)) for t, b, _ in keys.split_packets(raw)]

    def judge_get(self, sim, server, what, want, key, mine, found):
        kid = want[0].upper()
        got = self.content(key)
        ids = [keys.fingerprint(b) for t, b in got if t in (6, 14)]
        if not any(i.endswith(kid) for i in ids):
            raise Violation('wrong-key', '%s: got key %s' % (what, ids))
        if got not in self.pool:
            raise Violation('inexact', '%s: the key differs from the one '
                            'stored' % what)
        if not mine[-1].complete:
            sim.probe('complete-key-in-cut-response')

    def judge_search(self, sim, server, what, want, results, mine, found):
        ex = mine[-1]
        q = ex.query
        first = mine[0].query
        if first.get('search') != want[0] or first.get('op') != 'index' or \
                first.get('exact', 'no') != ('yes' if want[1] else 'no'):
            raise Violation('wrong-question', '%s: asked %r' % (what, first))
        if not ex.complete:
            raise Violation('truncated', '%s: a truncated index was returned '
                            'as %d entries' % (what, len(results)))
        try:
            got = view(results)
        except Exception as e:
            raise Violation('unusable', '%s: %r' % (what, e))
        found.extend(r for r in results)
        if ex.opaque or q.get('op') != 'index':
            return
        try:
            text = ex.body.decode('ascii')
        except UnicodeDecodeError:
            return
        want_entries = strict_index(text)
        if want_entries is not None:
            if got != want_entries:
                raise Violation('inexact', '%s: index %r understood as %r' % (
                    what, text[:300], got))
            return
        first = text.split('\n')[0].rstrip('\r').split(':')
        if len(first) == 3 and first[0] == 'info' and first[1] == '1' and \
                first[2].isdigit() and int(first[2]) != len(got):
            raise Violation('truncated', '%s: %d of %s entries returned' % (
                what, len(got), first[2]))

    def judge_submit(self, sim, server, what, want, result, mine, found):
        for x in mine:
            if x.stored is not None and x.status // 100 == 2:
                if x.stored != want[1]:
                    raise Violation('inexact', '%s: the server received '
                                    'something else' % what)
                opts = x.form.get('options', '').split(',')
                if ('nm' in opts) != want[2]:
                    raise Violation('wrong-question', '%s: options %r' % (
                        what, opts))
                return
        raise Violation('not-submitted', '%s: the server never stored the '
                        'key' % what)

    def refused(self, server, op, what, want, error, mine):
        """Nothing went wrong: there must be a good reason."""
        if mine and all(x.faults for x in mine):
            return
        if op == 'get' and mine and mine[-1].status == 404:
            kid = want[0].upper()
            if not any(i.endswith(kid) for i in [
                    keys.fingerprint(b) for pk in server.store.values()
                    for t, b in pk if t in (6, 14)]):
                return
            # another task may have stored it meanwhile
            if len(server.sim.tasks) > 1:
                return
        raise Violation('refused', '%s: although nothing went wrong: %r' % (
            what, error))
