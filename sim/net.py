"""Simulated sockets: what the library gets from socket.socket() while a
simulation runs. The other end is a Python object the check supplies; the
network between them fragments, delays, cuts and resets.

A listener is called with the new Conn once a client connects; it sets
conn.on_data, called after every arrival of client data with the connection,
and answers with conn.feed(), conn.eof() and conn.reset().
"""
import errno
import io
import select
import socket
import ssl

from sim import core
from sim import seams

REAL = seams.REAL
FD0 = 700000


class Conn(object):
    """One connection, seen from the far end."""

    def __init__(self, net, address):
        self.net = net
        self.sim = net.sim
        self.address = address
        self.received = bytearray()     # from the client
        self.segments = []              # [time, bytes] to the client
        self.end = None                 # (time, 'eof' or 'reset')
        self.on_data = None
        self.send_limit = None          # then sending fails
        self.accept_parts = None        # callable: how much send() takes
        self.client_closed = False
        self.shut_wr = False
        self.tls = None
        self.bad_certificate = False
        self.later = self.sim.now
        self.sent_after_close = 0

    def feed(self, data, delay=0.0):
        self.later = max(self.later, self.sim.now) + delay
        if data:
            self.segments.append([self.later, bytes(data)])

    def eof(self, delay=0.0):
        self.later = max(self.later, self.sim.now) + delay
        if self.end is None:
            self.end = (self.later, 'eof')

    def reset(self, delay=0.0):
        self.later = max(self.later, self.sim.now) + delay
        if self.end is None:
            self.end = (self.later, 'reset')

    # the client's side

    def ready_at(self):
        if self.segments:
            return self.segments[0][0]
        if self.end is not None:
            return self.end[0]
        return None

    def readable(self):
        t = self.ready_at()
        return t is not None and t <= self.sim.now


class Network(object):

    def __init__(self, sim):
        self.sim = sim
        sim.net = self
        self.listeners = {}         # address -> callable(conn)
        self.names = {}             # host name -> list of addresses
        self.connect_faults = {}    # address -> callable() -> errno or None
        self.interrupt = None       # callable(kind): may raise
        self.conns = []
        self.sockets = []

    def open_sockets(self):
        return [s for s in self.sockets if not s.really_closed]


def _net():
    s = core.ACTIVE
    if s is None or s.current is None:
        return None
    if s.current.killed:
        raise core.SimDead()
    return getattr(s, 'net', None)


class SimSocket(object):

    def __init__(self, net, family, type_, proto):
        self.net = net
        self.sim = net.sim
        self.family = family
        self.type = type_
        self.proto = proto
        self.timeout = socket.getdefaulttimeout()
        self.conn = None
        self.closed = False
        self.really_closed = False
        self.io_refs = 0
        self.owner = self.sim.current
        self.fd = FD0 + len(net.sockets)
        net.sockets.append(self)

    # -- plumbing

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __repr__(self):
        return '<SimSocket %d>' % self.fd

    def stale(self):
        return core.ACTIVE is not self.sim

    def check(self):
        if self.really_closed or self.stale():
            raise OSError(errno.EBADF, 'Bad file descriptor')
        t = self.sim.current
        if t is not None and t.killed:
            raise core.SimDead()

    def point(self, kind, detail=''):
        self.sim.step(kind, detail)
        if self.net.interrupt is not None:
            self.net.interrupt(kind)

    def fileno(self):
        return -1 if self.closed else self.fd

    def settimeout(self, value):
        if value is not None and value < 0:
            raise ValueError('Timeout value out of range')
        self.timeout = value

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def getblocking(self):
        return self.timeout != 0

    def setsockopt(self, *args):
        self.check()

    def getsockopt(self, level, name, size=0):
        self.check()
        return self.type if name == socket.SO_TYPE else 0

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, 'Not connected')
        return self.conn.address

    def getsockname(self):
        return ('127.0.0.1', 40000 + self.fd - FD0)

    def getpeercert(self, binary_form=False):
        return b'' if binary_form else {}

    def version(self):
        return 'TLSv1.3'

    def selected_alpn_protocol(self):
        return None

    def cipher(self):
        return None

    # -- connecting

    def connect(self, address):
        self.check()
        self.point('connect', address)
        if self.conn is not None:
            raise OSError(errno.EISCONN, 'Already connected')
        hook = self.net.connect_faults.get(address)
        fault = hook() if hook else None
        if fault == 'timeout':
            self.sim.fault('connect-timeout')
            self.sim.sleep(self.timeout if self.timeout else 127)
            if self.timeout:
                raise socket.timeout('timed out')
            raise OSError(errno.ETIMEDOUT, 'Connection timed out')
        if fault:
            self.sim.fault('connect-' + errno.errorcode[fault])
            raise OSError(fault, 'connect')
        listener = self.net.listeners.get(address)
        if listener is None:
            if isinstance(address, str):
                raise FileNotFoundError(errno.ENOENT, 'No such file',
                                        address)
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'refused')
        self.conn = Conn(self.net, address)
        self.net.conns.append(self.conn)
        listener(self.conn)

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno
        return 0

    # -- data

    def _connected(self):
        self.check()
        if self.conn is None:
            raise OSError(errno.ENOTCONN, 'Not connected')
        return self.conn

    def _wait(self):
        c = self._connected()
        s = self.sim
        while not c.readable():
            t = c.ready_at()
            if self.timeout == 0:
                raise BlockingIOError(errno.EAGAIN, 'would block')
            deadline = None if self.timeout is None else s.now + self.timeout
            if t is not None and (deadline is None or t <= deadline):
                s.sleep(t - s.now)
            elif not s.block(c.readable, deadline, 'data from the peer'):
                if not c.readable():
                    raise socket.timeout('timed out')
            self.check()
        return c

    def recv(self, n, flags=0):
        self._connected()
        self.point('recv', n)
        if n == 0:
            return b''
        c = self._wait()
        peek = bool(flags & getattr(socket, 'MSG_PEEK', 2))
        if c.segments:
            seg = c.segments[0]
            out = seg[1][:n]
            want_all = bool(flags & getattr(socket, 'MSG_WAITALL', 256))
            if not peek:
                seg[1] = seg[1][n:]
                if not seg[1]:
                    c.segments.pop(0)
            if want_all and not peek:
                while len(out) < n:
                    try:
                        more = self.recv(n - len(out))
                    except OSError:
                        break
                    if not more:
                        break
                    out += more
            return out
        if c.end[1] == 'reset':
            raise ConnectionResetError(errno.ECONNRESET,
                                       'Connection reset by peer')
        return b''

    def recv_into(self, buf, nbytes=0, flags=0):
        view = memoryview(buf)
        data = self.recv(nbytes or len(view), flags)
        view[:len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        c = self._connected()
        data = bytes(data)
        self.point('send', len(data))
        if self.conn.shut_wr:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        n = len(data)
        if c.accept_parts is not None and n > 1:
            n = max(1, min(n, c.accept_parts(n)))
        return self._deliver(c, data[:n])

    def _deliver(self, c, data):
        if c.end is not None and c.end[0] <= self.sim.now and \
                c.end[1] == 'reset':
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        n = len(data)
        if c.send_limit is not None:
            n = min(n, c.send_limit - len(c.received))
        c.received += data[:n]
        if n and c.on_data:
            c.on_data(c)
        if n < len(data):
            self.sim.fault('send-failed')
            c.end = c.end or (self.sim.now, 'reset')
            raise ConnectionResetError(errno.ECONNRESET,
                                       'Connection reset by peer')
        return n

    def sendall(self, data, flags=0):
        c = self._connected()
        data = bytes(data)
        self.point('sendall', len(data))
        if self.conn.shut_wr:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self._deliver(c, data)

    def makefile(self, mode='r', buffering=None, encoding=None, errors=None,
                 newline=None):
        raw = _SocketIO(self, mode)
        self.io_refs += 1
        binary = 'b' in mode
        reading = 'r' in mode
        writing = 'w' in mode
        if buffering is None:
            buffering = -1
        if buffering == 0:
            return raw
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if reading and writing:
            f = io.BufferedRWPair(raw, raw, buffering)
        elif reading:
            f = io.BufferedReader(raw, buffering)
        else:
            f = io.BufferedWriter(raw, buffering)
        if binary:
            return f
        return io.TextIOWrapper(f, encoding, errors, newline)

    def shutdown(self, how):
        c = self._connected()
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            c.shut_wr = True

    def close(self):
        self.closed = True
        if self.io_refs <= 0:
            self._real_close()

    def detach(self):
        self.close()
        return self.fd

    def unwrap(self):
        return self

    def _real_close(self):
        if not self.really_closed:
            self.really_closed = True
            if self.conn is not None:
                self.conn.client_closed = True

    def _drop_ref(self):
        self.io_refs -= 1
        if self.closed and self.io_refs <= 0:
            self._real_close()


class _SocketIO(io.RawIOBase):

    def __init__(self, sock, mode):
        io.RawIOBase.__init__(self)
        self.sock = sock
        self.mode = mode
        self.dropped = False

    def readable(self):
        return 'r' in self.mode

    def writable(self):
        return 'w' in self.mode

    def fileno(self):
        return self.sock.fileno()

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        return self.sock.send(b)

    def close(self):
        if not self.dropped:
            self.dropped = True
            self.sock._drop_ref()
        io.RawIOBase.close(self)


def _find(fd):
    net = _net()
    if net is None:
        return None
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    if isinstance(fd, int) and FD0 <= fd < FD0 + len(net.sockets):
        return net.sockets[fd - FD0]
    return None


class _Poll(object):

    def __init__(self):
        self.real = REAL['select.poll']()
        self.ours = {}

    def register(self, fd, mask=select.POLLIN | select.POLLOUT):
        s = _find(fd)
        if s is None:
            return self.real.register(fd, mask)
        self.ours[s.fd] = (s, mask)

    def unregister(self, fd):
        s = _find(fd)
        if s is None:
            return self.real.unregister(fd)
        del self.ours[s.fd]

    modify = register

    def poll(self, timeout=None):
        if not self.ours:
            return self.real.poll(timeout)
        sim = core.ACTIVE

        def ready():
            out = []
            for fd, (s, mask) in sorted(self.ours.items()):
                m = 0
                if mask & select.POLLIN and s.conn is not None and \
                        s.conn.readable():
                    m |= select.POLLIN
                if mask & select.POLLOUT and s.conn is not None:
                    m |= select.POLLOUT
                if m:
                    out.append((fd, m))
            return out
        return _wait_ready(sim, ready, [s for s, m in self.ours.values()],
                           None if timeout is None or timeout < 0
                           else timeout / 1000.0)


def _wait_ready(sim, ready, socks, timeout):
    sim.step('poll')
    end = None if timeout is None else sim.now + timeout
    while True:
        out = ready()
        if out or (end is not None and sim.now >= end):
            return out
        times = [s.conn.ready_at() for s in socks if s.conn is not None]
        times = [t for t in times if t is not None and t > sim.now]
        if end is not None:
            times.append(end)
        if times:
            sim.sleep(min(times) - sim.now)
        else:
            sim.block(lambda: bool(ready()), None, 'poll')


def sim_select(r, w, x, timeout=None):
    if not any(_find(f) is not None for f in list(r) + list(w) + list(x)):
        return REAL['select.select'](r, w, x, timeout)
    sim = core.ACTIVE

    def ready():
        a = [f for f in r if _find(f).conn is not None and
             _find(f).conn.readable()]
        b = [f for f in w if _find(f).conn is not None]
        return (a, b, []) if a or b else None
    return _wait_ready(sim, ready, [_find(f) for f in list(r) + list(w)],
                       timeout) or ([], [], [])


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    net = _net()
    if net is None:
        return REAL['socket.getaddrinfo'](host, port, family, type, proto,
                                          flags)
    net.sim.step('getaddrinfo', host)
    if isinstance(host, bytes):
        host = host.decode('ascii')
    addresses = net.names.get(host)
    if callable(addresses):
        addresses = addresses()
    if not addresses:
        raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    port = int(port or 0)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (a, port))
            for a in addresses]


def sim_create_connection(address, timeout=None, source_address=None, **kw):
    if _net() is None:
        return REAL['socket.create_connection'](
            address, *([] if timeout is None else [timeout]), **kw)
    host, port = address
    err = None
    for af, st, proto, _, sa in sim_getaddrinfo(host, port):
        s = socket.socket(af, st, proto)
        try:
            if timeout is None or isinstance(timeout, (int, float)):
                s.settimeout(timeout)
            s.connect(sa)
            return s
        except OSError as e:
            err = e
            s.close()
    raise err


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real = REAL['socket.socket'] = socket.socket

    class Socket(real):

        def __new__(cls, family=-1, type=-1, proto=-1, fileno=None):
            net = _net()
            if net is None or fileno is not None:
                return real(family, type, proto, fileno)
            return SimSocket(
                net, socket.AF_INET if family in (-1, None) else family,
                socket.SOCK_STREAM if type in (-1, None) else type, proto)

    Socket.__name__ = 'socket'
    socket.socket = Socket
    for mod, name, fn in (
            (socket, 'getaddrinfo', sim_getaddrinfo),
            (socket, 'create_connection', sim_create_connection),
            (select, 'select', sim_select), (select, 'poll', _Poll)):
        REAL[mod.__name__ + '.' + name] = getattr(mod, name)
        setattr(mod, name, fn)
    REAL['ssl.wrap'] = ssl.SSLContext.wrap_socket

    def wrap_socket(self, sock, *args, **kw):
        if not isinstance(sock, SimSocket):
            return REAL['ssl.wrap'](self, sock, *args, **kw)
        sock.check()
        c = sock._connected()
        c.sim.step('tls', kw.get('server_hostname'))
        c.tls = kw.get('server_hostname') or True
        if not getattr(c, 'speaks_tls', False):
            raise ssl.SSLError(1, 'wrong version number')
        if c.bad_certificate and self.verify_mode != ssl.CERT_NONE:
            raise ssl.SSLCertVerificationError(1, 'certificate verify failed')
        return sock

    ssl.SSLContext.wrap_socket = wrap_socket
