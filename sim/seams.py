"""Puts every source of nondeterminism the library can reach behind the
simulator.  Nothing in /repo is edited: the seams are the functions of the
standard library and of PyCrypto the library already calls.

The wrappers are installed once per worker process.  They act only when a
simulation is active *and* the call belongs to it (a path under /sim, a
simulated descriptor, a simulated task); otherwise they call the original.
"""
import _io
import _thread
import atexit
import builtins
import errno
import io
import os
import platform
import random as _random
import signal
import socket
import sys
import tempfile
import threading
import time

from sim import core
from sim import vfs as vfs_mod

REAL = {}
_installed = False


def _sim():
    return core.ACTIVE


def _in_task():
    s = core.ACTIVE
    return s if (s is not None and s.current is not None) else None


def _is_sim_path(p):
    if hasattr(p, '__fspath__'):
        p = p.__fspath__()
    if isinstance(p, bytes):
        try:
            p = os.fsdecode(p)
        except Exception:
            return False
    if not isinstance(p, str):
        return False
    if not p.startswith('/'):
        me = _me()
        return me is not None and me.proc is not None and \
            me.proc.cwd is not None
    return p == '/sim' or p.startswith('/sim/')


def _is_sim_fd(fd):
    return isinstance(fd, int) and not isinstance(fd, bool) and \
        fd >= vfs_mod.FD_BASE


def _vfs():
    s = core.ACTIVE
    if s is None or getattr(s, 'vfs', None) is None:
        raise OSError(errno.ENOENT, 'no simulated file system')
    t = s.current
    if t is not None and t.killed:
        raise core.SimDead()
    return s.vfs


# -- files ------------------------------------------------------------------


class SimRaw(io.RawIOBase):
    """Raw file over a simulated descriptor."""

    def __init__(self, fd, flags, name, closefd=True):
        io.RawIOBase.__init__(self)
        self._fd = fd
        self._flags = flags
        self.name = name
        self._closefd = closefd
        self._sim = core.ACTIVE
        self.mode = 'rb+' if flags & os.O_RDWR else (
            'wb' if flags & os.O_WRONLY else 'rb')

    def _live(self):
        if core.ACTIVE is not self._sim or self._sim is None:
            return None
        return self._sim.vfs

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return (self._flags & vfs_mod.ACCMODE) in (os.O_RDONLY, os.O_RDWR)

    def writable(self):
        return (self._flags & vfs_mod.ACCMODE) in (os.O_WRONLY, os.O_RDWR)

    def seekable(self):
        return True

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        v = self._live()
        if v is None:
            return 0
        data = v.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            v = self._live()
            if v is None:
                break
            d = v.read(self._fd, 8192)
            if not d:
                break
            out.append(d)
        return b''.join(out)

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation('not writable')
        v = self._live()
        if v is None:
            return len(b)
        return v.write(self._fd, bytes(b))

    def seek(self, pos, how=0):
        v = self._live()
        return v.lseek(self._fd, pos, how) if v else 0

    def tell(self):
        v = self._live()
        return v.lseek(self._fd, 0, 1) if v else 0

    def truncate(self, size=None):
        v = self._live()
        if v is None:
            return size
        if size is None:
            size = self.tell()
        v.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            v = self._live()
            if v is not None and self._closefd and self._fd in v.fds:
                t = self._sim.current
                if t is None or not t.killed:
                    v.close(self._fd)


def _mode_flags(mode):
    base = [c for c in mode if c in 'rwax']
    if len(base) != 1:
        raise ValueError('invalid mode: %r' % mode)
    plus = '+' in mode
    flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC,
             'a': os.O_CREAT | os.O_APPEND,
             'x': os.O_CREAT | os.O_EXCL}[base[0]]
    if plus:
        flags |= os.O_RDWR
    elif base[0] == 'r':
        flags |= os.O_RDONLY
    else:
        flags |= os.O_WRONLY
    return flags


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not (_is_sim_path(file) or _is_sim_fd(file)):
        s = _in_task()
        if s is not None and isinstance(file, str) and \
                file in ('/dev/urandom', '/dev/random'):
            return io.BufferedReader(_RandomRaw(s))
        return REAL['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    v = _vfs()
    flags = _mode_flags(mode)
    binary = 'b' in mode
    if binary and (encoding or errors or newline):
        raise ValueError('binary mode takes no text arguments')
    if _is_sim_fd(file):
        fd = file
        name = fd
    else:
        if opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
        else:
            fd = v.open(file, flags, 0o666)
        name = file
    raw = SimRaw(fd, flags, name, closefd)
    if 'a' in mode:
        v.lseek(fd, 0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                            buffering == 1)
    text.mode = mode
    return text


class _RandomRaw(io.RawIOBase):

    def __init__(self, sim):
        self._s = sim

    def readable(self):
        return True

    def readinto(self, b):
        data = _draw(len(b))
        b[:] = data
        return len(data)


def _path_fn(name, nargs=1):
    """os function taking path(s) first."""
    real = getattr(os, name)
    REAL['os.' + name] = real

    def fn(path, *args, **kw):
        if _is_sim_path(path) or _is_sim_fd(path) or (
                nargs == 2 and args and _is_sim_path(args[0])):
            v = _vfs()
            return getattr(v, name)(path, *args, **kw)
        return real(path, *args, **kw)
    fn.__name__ = name
    return fn


def _fd_fn(name):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def fn(fd, *args, **kw):
        if hasattr(fd, 'fileno') and not isinstance(fd, int):
            fd = fd.fileno()
        if _is_sim_fd(fd):
            return getattr(_vfs(), name)(fd, *args, **kw)
        return real(fd, *args, **kw)
    fn.__name__ = name
    return fn


class _ScanDir(object):

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


# -- processes, clock, randomness ------------------------------------------------


def sim_getpid():
    s = _in_task()
    if s is not None and s.current.proc is not None:
        s.step('sys.getpid', pure=True)
        return s.current.proc.pid
    return REAL['os.getpid']()


def sim_kill(pid, sig):
    s = _sim()
    if s is None:
        raise PermissionError(errno.EPERM, 'kill outside a simulation')
    sig = int(sig)
    s.step('sys.kill', '%d %d' % (pid, sig))
    t = s.current
    node = t.proc.node if t is not None and t.proc else s.default_node
    if not -1 << 31 <= pid < 1 << 31:
        raise OverflowError('signed integer is greater than maximum')
    if pid in (0, -1):
        # the process group, or everybody
        for other in list(s.pids.values()):
            if sig and other.alive and other.node == node:
                s.event('SIGNAL', other.name, sig)
                hook = getattr(s, 'on_signal', None)
                if hook is not None:
                    hook(other, sig)
        return
    target = s.pids.get((node, pid))
    if target is None or not target.alive:
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    if getattr(target, 'foreign_user', False):
        raise PermissionError(errno.EPERM, os.strerror(errno.EPERM))
    if sig == 0:
        return
    target.signals.append(sig)
    s.event('SIGNAL', target.name, sig)
    hook = getattr(s, 'on_signal', None)
    if hook is not None:
        hook(target, sig)
    if sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        s.kill(target, 'killed')


def sim_node():
    s = _in_task()
    if s is not None and s.current.proc is not None:
        return s.current.proc.node
    return REAL['platform.node']()


def sim_uname():
    s = _in_task()
    if s is not None and s.current.proc is not None:
        u = REAL['os.uname']()
        return os.uname_result((u.sysname, s.current.proc.node, u.release,
                                u.version, u.machine))
    return REAL['os.uname']()


def sim_time():
    s = _sim()
    if s is None:
        return REAL['time.time']()
    s.step('clock', pure=True)
    return s.wall + s.now


def sim_monotonic():
    s = _sim()
    if s is None:
        return REAL['time.monotonic']()
    s.step('clock', pure=True)
    return s.now


def sim_sleep(seconds):
    s = _sim()
    if s is None:
        return REAL['time.sleep'](seconds)
    s.step('sleep', '%.4f' % seconds)
    s.sleep(seconds)


def _draw(n):
    s = core.ACTIVE
    s.step('random', str(n))
    if s.rng_hook is not None:
        data = s.rng_hook(n)
    else:
        data = s.prng.bytes(n)
    if s.rng_draws is not None and len(s.rng_draws) < 4000:
        s.rng_draws.append(data)
    return data


def sim_urandom(n):
    if core.ACTIVE is None:
        return REAL['os.urandom'](n)
    return _draw(n)


class _TempNames(object):

    characters = 'abcdefghijklmnopqrstuvwxyz0123456789_'

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join(self.characters[b % 37] for b in os.urandom(8))


class SimRngFile(object):
    """What Crypto.Random.new() returns during a simulation."""

    closed = False

    def read(self, n):
        if core.ACTIVE is None:
            return REAL['crypto.new']().read(n)
        if not isinstance(n, int):
            raise TypeError('an integer is required')
        if n < 0:
            raise ValueError('cannot read to end of infinite stream')
        if n == 0:
            return b''
        return _draw(n)

    def flush(self):
        pass

    def close(self):
        pass


def sim_crypto_new(*a, **kw):
    # also what is made at import time: it must not bypass the simulation
    return SimRngFile()


def sim_getrandom(n, flags=0):
    if core.ACTIVE is None:
        return REAL['os.getrandom'](n, flags)
    return _draw(n)


def sim_random_bytes(n):
    if core.ACTIVE is None:
        return REAL['crypto.get_random_bytes'](n)
    return _draw(n)


def sim_atexit_register(fn, *args, **kw):
    s = _sim()
    loading = getattr(_state, 'loading', None)
    proc = loading
    if proc is None and s is not None and s.current is not None:
        proc = s.current.proc
    if proc is not None:
        proc.atexit.append((fn, args, kw))
        return fn
    return REAL['atexit.register'](fn, *args, **kw)


class _State(object):
    loading = None


_state = _State()


# -- threads -----------------------------------------------------------------------


def _me():
    """The simulated thread identity: (process, task)."""
    s = core.ACTIVE
    if s is None or s.current is None:
        return None
    return s.current


class SimLock(object):

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._sim = None

    def _fresh(self):
        # a lock held in an earlier simulation is not held in this one
        s = core.ACTIVE
        if self._sim is not s:
            self._sim = s
            self._owner = None
            self._count = 0
        return s

    def acquire(self, blocking=True, timeout=-1):
        s = self._fresh()
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        me = _me()
        if s is None or me is None:
            if self._count and not self._reentrant:
                if not blocking or timeout not in (-1, None):
                    return False
                raise RuntimeError('deadlock outside a simulation')
            self._owner = me
            self._count += 1
            return True
        s.step('thread-lock', pure=True)
        if self._reentrant and self._owner is me and self._count:
            self._count += 1
            return True
        if self._count:
            if not blocking:
                return False
            deadline = None
            if timeout is not None and timeout >= 0:
                deadline = s.now + timeout
            s.probe('thread-lock-wait')
            if not s.block(lambda: self._count == 0, deadline, 'thread lock'):
                return False
        self._owner = me
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        s = self._fresh()
        me = _me()
        if not self._count:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and self._owner is not me:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
        if s is not None and me is not None:
            s.step('thread-unlock', pure=True)

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        self._fresh()
        return bool(self._count)

    def _is_owned(self):
        self._fresh()
        return bool(self._count) and self._owner is _me()

    # Condition support
    def _release_save(self):
        n, self._count, self._owner = self._count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True


class SimLocal(object):

    def __init__(self, *a, **kw):
        object.__setattr__(self, '_d', {})

    def _mine(self):
        me = _me()
        if me is None:
            return object.__getattribute__(self, '_d')
        return me.locals.setdefault(id(self), {})

    def __getattribute__(self, name):
        if name in ('_mine', '__class__'):
            return object.__getattribute__(self, name)
        d = object.__getattribute__(self, '_mine')()
        if name == '__dict__':
            return d
        if name in d:
            return d[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        self._mine()[name] = value

    def __delattr__(self, name):
        d = self._mine()
        if name not in d:
            raise AttributeError(name)
        del d[name]


class _FakeThread(object):

    daemon = False

    def __init__(self, task):
        self.ident = 0x1000 + task.ident
        self.native_id = self.ident
        self.name = task.name

    def is_alive(self):
        return True

    def getName(self):
        return self.name


def sim_get_ident():
    me = _me()
    if me is None:
        return REAL['threading.get_ident']()
    return 0x1000 + me.ident


def sim_current_thread():
    me = _me()
    if me is None:
        return REAL['threading.current_thread']()
    if not hasattr(me, 'thread_object'):
        me.thread_object = _FakeThread(me)
    return me.thread_object


def _lock_factory(name, cls):
    def make(*a, **kw):
        if core.ACTIVE is None and _state.loading is None and \
                not _state_always:
            return REAL[name](*a, **kw)
        return cls()
    return make


_state_always = False


def install():
    """Patch the standard library (idempotent)."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True

    REAL['open'] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    tempfile._io.open = sim_open

    for name in ('stat', 'lstat', 'unlink', 'remove', 'chmod', 'mkdir',
                 'rmdir', 'listdir', 'access', 'utime', 'readlink',
                 'truncate', 'chown'):
        attr = _path_fn(name)
        if name == 'remove':
            real = os.remove
            REAL['os.remove'] = real

            def attr(path, _real=real, **kw):
                if _is_sim_path(path):
                    return _vfs().unlink(path)
                return _real(path, **kw)
        setattr(os, name, attr)
    for name in ('link', 'rename', 'replace', 'symlink'):
        setattr(os, name, _path_fn(name, 2))

    real_os_open = os.open
    REAL['os.open'] = real_os_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        if _is_sim_path(path):
            return _vfs().open(path, flags, mode)
        if dir_fd is None:
            return real_os_open(path, flags, mode)
        return real_os_open(path, flags, mode, dir_fd=dir_fd)
    os.open = os_open

    for name in ('close', 'read', 'write', 'lseek', 'fstat', 'ftruncate',
                 'fsync', 'fchmod', 'fchown', 'pread', 'pwrite', 'dup'):
        setattr(os, name, _fd_fn(name))
    REAL['os.fdatasync'] = getattr(os, 'fdatasync', os.fsync)

    def fdatasync(fd):
        if _is_sim_fd(fd):
            return _vfs().fsync(fd)
        return REAL['os.fdatasync'](fd)
    os.fdatasync = fdatasync

    if hasattr(os, 'sync'):
        REAL['os.sync'] = os.sync

        def sync():
            if core.ACTIVE is not None and hasattr(core.ACTIVE, 'vfs'):
                return _vfs().sync()
        os.sync = sync

    REAL['os.fdopen'] = os.fdopen

    def fdopen(fd, *args, **kw):
        if _is_sim_fd(fd):
            return sim_open(fd, *args, **kw)
        return REAL['os.fdopen'](fd, *args, **kw)
    os.fdopen = fdopen

    REAL['os.scandir'] = os.scandir

    def scandir(path='.'):
        if _is_sim_path(path):
            v = _vfs()
            p = v.norm(path)
            return _ScanDir([vfs_mod.DirEntry(v, p, n)
                             for n in v.listdir(p)])
        return REAL['os.scandir'](path)
    os.scandir = scandir

    import fcntl
    REAL['flock'] = fcntl.flock
    REAL['lockf'] = fcntl.lockf
    REAL['fcntl'] = fcntl.fcntl

    def _fd(f):
        return f if isinstance(f, int) else f.fileno()

    def flock(f, op):
        if _is_sim_fd(_fd(f)):
            return _vfs().flock(_fd(f), op)
        return REAL['flock'](f, op)

    def lockf(f, op, *a):
        if _is_sim_fd(_fd(f)):
            return _vfs().flock(_fd(f), op)
        return REAL['lockf'](f, op, *a)

    def fcntl_(f, cmd, arg=0):
        if _is_sim_fd(_fd(f)):
            return 0
        return REAL['fcntl'](f, cmd, arg)
    fcntl.flock, fcntl.lockf, fcntl.fcntl = flock, lockf, fcntl_

    # pathlib keeps references of its own
    import pathlib
    acc = getattr(pathlib, '_NormalAccessor', None)
    if acc is not None:
        for name in ('stat', 'lstat', 'open', 'listdir', 'scandir', 'chmod',
                     'mkdir', 'unlink', 'rmdir', 'rename', 'replace', 'utime',
                     'readlink', 'link'):
            for holder in (acc, getattr(pathlib, '_normal_accessor', None)):
                if holder is not None and name in vars(holder):
                    setattr(holder, name, staticmethod(getattr(os, name))
                            if holder is acc else getattr(os, name))
        for name in ('stat', 'lstat', 'open', 'listdir', 'scandir', 'chmod',
                     'mkdir', 'unlink', 'rmdir', 'rename', 'replace', 'utime',
                     'readlink'):
            setattr(acc, name, staticmethod(getattr(os, name)))
        acc.link_to = staticmethod(os.link)
    pathlib.io.open = sim_open
    import shutil
    if hasattr(shutil, '_USE_CP_SENDFILE'):
        shutil._USE_CP_SENDFILE = False

    REAL['os.getcwd'] = os.getcwd

    def getcwd():
        me = _me()
        if me is not None and me.proc is not None and me.proc.cwd is not None:
            return me.proc.cwd
        return REAL['os.getcwd']()
    os.getcwd = getcwd
    REAL['os.getpid'] = os.getpid
    os.getpid = sim_getpid
    REAL['os.kill'] = os.kill
    os.kill = sim_kill
    REAL['platform.node'] = platform.node
    platform.node = sim_node
    REAL['os.uname'] = os.uname
    os.uname = sim_uname
    REAL['socket.gethostname'] = socket.gethostname
    socket.gethostname = lambda: sim_node() if _in_task() else \
        REAL['socket.gethostname']()

    REAL['time.time'] = time.time
    REAL['time.monotonic'] = time.monotonic
    REAL['time.sleep'] = time.sleep
    REAL['time.perf_counter'] = time.perf_counter
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.sleep = sim_sleep
    time.perf_counter = lambda: (
        sim_monotonic() if _sim() else REAL['time.perf_counter']())
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_monotonic() * 1e9)

    REAL['os.urandom'] = os.urandom
    os.urandom = sim_urandom
    _random._urandom = sim_urandom
    real_seed = _random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and core.ACTIVE is not None:
            a = int.from_bytes(_draw(32), 'big')
        return real_seed(self, a, version)
    _random.Random.seed = seed
    tempfile._get_candidate_names = lambda: _TempNames()
    if hasattr(os, 'getrandom'):
        REAL['os.getrandom'] = os.getrandom
        os.getrandom = sim_getrandom
    import Crypto.Random
    import Crypto.Random._UserFriendlyRNG as ufr
    REAL['crypto.new'] = Crypto.Random.new
    REAL['crypto.get_random_bytes'] = Crypto.Random.get_random_bytes
    Crypto.Random.new = sim_crypto_new
    Crypto.Random.get_random_bytes = sim_random_bytes
    ufr.new = sim_crypto_new
    ufr.get_random_bytes = sim_random_bytes

    REAL['atexit.register'] = atexit.register
    atexit.register = sim_atexit_register

    REAL['threading.Lock'] = threading.Lock
    REAL['threading.RLock'] = threading.RLock
    REAL['threading.get_ident'] = threading.get_ident
    REAL['threading.current_thread'] = threading.current_thread
    REAL['threading.local'] = threading.local
    threading.Lock = _lock_factory('threading.Lock', SimLock)
    threading.RLock = _lock_factory('threading.RLock', SimRLock)
    threading._allocate_lock = threading.Lock
    threading.get_ident = sim_get_ident
    threading.current_thread = sim_current_thread
    threading.local = lambda *a, **kw: (
        SimLocal() if (core.ACTIVE or _state.loading or _state_always)
        else REAL['threading.local'](*a, **kw))
    REAL['_thread.get_ident'] = _thread.get_ident
    _thread.get_ident = sim_get_ident


    # loggers remember their levels, taking a lock the first time only
    import logging
    logging._lock = None


def reset_run():
    """Per-run state of the standard library."""
    tempfile._name_sequence = None
    _random.seed(12345)
