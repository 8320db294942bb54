"""An in-memory file system with crash semantics.

Every path under PREFIX lives here.  Each inode has volatile data (what a
running system sees) and durable data (what survives a power loss); directory
changes go through an ordered journal that a power loss may cut anywhere.
A process crash keeps all volatile data but loses what the process had not yet
written (Python's own buffers) and its descriptors and advisory locks.
"""
import errno
import os
import stat as stat_

from sim import core

PREFIX = '/sim'
FD_BASE = 1000000
ACCMODE = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
BLOCK = 64


def err(no, path=None):
    return OSError(no, os.strerror(no), path)


class Inode(object):

    def __init__(self, ino, kind, mode):
        self.ino = ino
        self.kind = kind            # 'f' or 'd'
        self.mode = mode
        self.data = bytearray()
        self.durable = None         # bytes, or None: never synced
        self.nlink = 0
        self.mtime = 0.0
        self.ctime = 0.0
        self.atime = 0.0
        self.flocks = {}            # open-file id -> 'sh'/'ex'
        self.opens = 0


class OpenFile(object):

    def __init__(self, inode, flags, path, proc):
        self.inode = inode
        self.flags = flags
        self.path = path
        self.pos = 0
        self.proc = proc
        self.refs = 1

    @property
    def readable(self):
        return (self.flags & ACCMODE) in (os.O_RDONLY, os.O_RDWR)

    @property
    def writable(self):
        return (self.flags & ACCMODE) in (os.O_WRONLY, os.O_RDWR)


class Stat(object):
    """Looks enough like os.stat_result."""

    def __init__(self, inode):
        kind = {'d': stat_.S_IFDIR, 'l': stat_.S_IFLNK}.get(
            inode.kind, stat_.S_IFREG)
        self.st_mode = kind | inode.mode
        self.st_ino = inode.ino
        self.st_dev = 77
        self.st_nlink = inode.nlink if inode.kind == 'f' else 2
        self.st_uid = 0
        self.st_gid = 0
        self.st_size = len(inode.data)
        self.st_mtime = inode.mtime
        self.st_ctime = inode.ctime
        self.st_atime = inode.atime
        self.st_mtime_ns = int(inode.mtime * 1e9)
        self.st_ctime_ns = int(inode.ctime * 1e9)
        self.st_atime_ns = int(inode.atime * 1e9)
        self.st_blksize = 4096
        self.st_blocks = (self.st_size + 511) // 512

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink,
                self.st_uid, self.st_gid, self.st_size, int(self.st_atime),
                int(self.st_mtime), int(self.st_ctime))[i]

    def __iter__(self):
        return iter([self[i] for i in range(10)])


class DirEntry(object):

    def __init__(self, vfs, dirpath, name):
        self._vfs = vfs
        self.name = name
        self.path = dirpath.rstrip('/') + '/' + name

    def is_dir(self, follow_symlinks=True):
        return self._vfs.tree[self.path].kind == 'd'

    def is_file(self, follow_symlinks=True):
        return self._vfs.tree[self.path].kind == 'f'

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self._vfs.stat(self.path)

    def inode(self):
        return self._vfs.tree[self.path].ino

    def __fspath__(self):
        return self.path


class VFS(object):

    def __init__(self, sim, seq_first_ino=100):
        self.sim = sim
        self.first_ino = self.next_ino = seq_first_ino
        self.tree = {}
        self.durable_tree = {}
        self.links = {}                 # symbolic links made by the harness
        self.journal = []
        self.fds = {}
        self.next_fd = FD_BASE
        self.umask = 0o022
        self.capacity = None            # bytes; None: unlimited
        self.tick = 0                   # granularity of the time stamps
        self.reuse = False              # give inode numbers out again
        self.fault = None               # callable(op, path) -> None | spec
        self.watch = []                 # callables(op, path, inode)
        self._mkroot(PREFIX)
        sim.vfs = self

    def _mkroot(self, path):
        ino = Inode(self._ino(), 'd', 0o755)
        ino.nlink = 1
        self.tree[path] = ino
        self.durable_tree[path] = ino

    def _ino(self):
        if self.reuse:
            used = {i.ino for i in self.tree.values()}
            used.update(of.inode.ino for of in self.fds.values())
            n = self.first_ino
            while n in used:
                n += 1
            return n
        self.next_ino += 1
        return self.next_ino

    # -- helpers for the harness (not system calls) --------------------------

    def put(self, path, data, durable=True, mode=0o600):
        inode = self.tree.get(path)
        if inode is None:
            inode = Inode(self._ino(), 'f', mode)
            inode.nlink = 1
            self.tree[path] = inode
            if durable:
                self.durable_tree[path] = inode
            else:
                self.journal.append(('link', path, inode))
        inode.data[:] = data
        self._stamp(inode)
        inode.mtime = inode.ctime
        if durable:
            inode.durable = bytes(data)

    def peek(self, path):
        inode = self.tree.get(path)
        if inode is None or inode.kind != 'f':
            return None
        return bytes(inode.data)

    def listing(self, path):
        path = path.rstrip('/') + '/'
        return sorted(p[len(path):] for p in self.tree
                      if p.startswith(path) and '/' not in p[len(path):])

    # -- path handling -------------------------------------------------------

    def norm(self, path, follow=True):
        """The real name of `path`; `follow` says whether a symbolic link
        in the last place is followed too."""
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith('/'):
            path = self._proc().cwd + '/' + path
        todo = path.split('/')[::-1]
        parts = []
        hops = 0
        while todo:
            p = todo.pop()
            if p in ('', '.'):
                continue
            if p == '..':
                if parts:
                    parts.pop()
                continue
            parts.append(p)
            if self.links and (follow or todo):
                here = '/' + '/'.join(parts)
                if here in self.links and here not in self.tree:
                    hops += 1
                    if hops > 40:
                        raise err(errno.ELOOP, path)
                    todo.extend(self.links[here].split('/')[::-1])
                    parts = []
        return '/' + '/'.join(parts)

    def is_link(self, path):
        return path in self.links and path not in self.tree

    def _parent(self, path):
        return path.rsplit('/', 1)[0] or '/'

    def _need_parent(self, path):
        parent = self.tree.get(self._parent(path))
        if parent is None:
            raise err(errno.ENOENT, path)
        if parent.kind != 'd':
            raise err(errno.ENOTDIR, path)

    def _lookup(self, path):
        inode = self.tree.get(path)
        if inode is None:
            raise err(errno.ENOENT, path)
        return inode

    # -- the system-call gate ---------------------------------------------------

    def _enter(self, op, path, nbytes=None):
        """Scheduling point, crash point and fault point of one call.
        Returns a fault spec for partial transfers, or None."""
        sim = self.sim
        task = sim.current
        sim.step('sys.' + op, self.show(path) + (
            '' if nbytes is None else ' %d' % nbytes))
        if task is not None and task.quiet:
            return None
        if self.fault is not None:
            spec = self.fault(op, path)
            if spec is not None:
                if isinstance(spec, int):
                    sim.fault('%s:%s' % (op, errno.errorcode[spec]))
                    raise err(spec, path)
                return spec
        return None

    def show(self, path):
        return str(path)

    def _proc(self):
        t = self.sim.current
        return t.proc if t is not None else None

    def _stamp(self, inode):
        inode.ctime = self.sim.wall + self.sim.now
        if self.tick:
            inode.ctime -= inode.ctime % self.tick

    def _changed(self, op, path, inode):
        self._stamp(inode)
        if op in ('write', 'truncate') or op == 'create' and \
                inode.nlink == 1:
            inode.mtime = inode.ctime
        for fn in self.watch:
            fn(op, path, inode)

    # -- system calls ---------------------------------------------------------------

    def open(self, path, flags, mode=0o777, dir_fd=None):
        path = self.norm(path)
        writing = (flags & ACCMODE) != os.O_RDONLY
        self._enter('open', path)
        inode = self.tree.get(path)
        if inode is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            self._need_parent(path)
            inode = Inode(self._ino(), 'f', mode & ~self.umask)
            inode.nlink = 1
            self.tree[path] = inode
            self.journal.append(('link', path, inode))
            self._changed('create', path, inode)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if inode.kind == 'd':
                if writing:
                    raise err(errno.EISDIR, path)
            elif flags & getattr(os, 'O_DIRECTORY', 0):
                raise err(errno.ENOTDIR, path)
            if flags & os.O_TRUNC and writing:
                inode.data[:] = b''
                self._changed('truncate', path, inode)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = OpenFile(inode, flags, path, self._proc())
        inode.opens += 1
        return fd

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise err(errno.EBADF)
        return of

    def path_of(self, fd):
        of = self.fds.get(fd)
        return of.path if of else '?'

    def close(self, fd):
        of = self._of(fd)
        spec = None
        try:
            spec = self._enter('close', of.path)
        finally:
            # the descriptor is gone whatever close reports
            if fd in self.fds:
                del self.fds[fd]
                self._drop(of)
        return spec

    def _drop(self, of):
        of.refs -= 1
        if of.refs == 0:
            of.inode.opens -= 1
            of.inode.flocks.pop(id(of), None)

    def dup(self, fd):
        of = self._of(fd)
        of.refs += 1
        new = self.next_fd
        self.next_fd += 1
        self.fds[new] = of
        return new

    def read(self, fd, n):
        of = self._of(fd)
        if not of.readable:
            raise err(errno.EBADF)
        if of.inode.kind == 'd':
            raise err(errno.EISDIR)
        spec = self._enter('read', of.path, n)
        data = bytes(of.inode.data[of.pos:of.pos + n])
        if spec is not None and len(data) > 1:
            keep = 1 + spec[1] % (len(data) - 1)
            data = data[:keep]
            self.sim.fault('short-read')
        of.pos += len(data)
        return data

    def write(self, fd, data):
        of = self._of(fd)
        if not of.writable:
            raise err(errno.EBADF)
        data = bytes(data)
        spec = self._enter('write', of.path, len(data))
        crash = None
        if spec is not None and len(data) > 1:
            if spec[0] == 'short':
                data = data[:1 + spec[1] % (len(data) - 1)]
                self.sim.fault('short-write')
            elif spec[0] == 'torn':
                # crash in the middle of the write
                data = data[:1 + spec[1] % (len(data) - 1)]
                crash = spec[2]
        elif spec is not None and spec[0] == 'torn':
            crash = spec[2]
        if self.capacity is not None:
            used = sum(len(i.data) for i in set(self.tree.values()))
            end = (len(of.inode.data) if of.flags & os.O_APPEND else of.pos)
            grow = max(0, end + len(data) - len(of.inode.data))
            room = self.capacity - used
            if grow > room:
                self.sim.fault('disk-full')
                fit = len(data) - (grow - max(0, room))
                if fit <= 0:
                    raise err(errno.ENOSPC, of.path)
                data = data[:fit]
        if of.flags & os.O_APPEND:
            of.pos = len(of.inode.data)
        buf = of.inode.data
        if of.pos > len(buf):
            buf.extend(b'\0' * (of.pos - len(buf)))
        buf[of.pos:of.pos + len(data)] = data
        of.pos += len(data)
        self._changed('write', of.path, of.inode)
        if crash is not None:
            crash()
        return len(data)

    def lseek(self, fd, pos, how):
        of = self._of(fd)
        if how == 0:
            new = pos
        elif how == 1:
            new = of.pos + pos
        else:
            new = len(of.inode.data) + pos
        if new < 0:
            raise err(errno.EINVAL)
        of.pos = new
        return new

    def pread(self, fd, n, off):
        of = self._of(fd)
        self._enter('read', of.path, n)
        return bytes(of.inode.data[off:off + n])

    def pwrite(self, fd, data, off):
        of = self._of(fd)
        keep = of.pos
        of.pos = off
        try:
            return self.write(fd, data)
        finally:
            of.pos = keep

    def fstat(self, fd):
        of = self._of(fd)
        self.sim.step('sys.fstat', self.show(of.path))
        return Stat(of.inode)

    def ftruncate(self, fd, length):
        of = self._of(fd)
        self._enter('truncate', of.path)
        self._truncate(of.inode, length)
        self._changed('truncate', of.path, of.inode)

    def truncate(self, path, length):
        if isinstance(path, int):
            return self.ftruncate(path, length)
        path = self.norm(path)
        self._enter('truncate', path)
        inode = self._lookup(path)
        self._truncate(inode, length)
        self._changed('truncate', path, inode)

    def _truncate(self, inode, length):
        if length < len(inode.data):
            del inode.data[length:]
        else:
            inode.data.extend(b'\0' * (length - len(inode.data)))

    def fsync(self, fd):
        of = self._of(fd)
        self._enter('fsync', of.path)
        inode = of.inode
        if inode.kind == 'd':
            self._commit(len(self.journal))
        else:
            inode.durable = bytes(inode.data)
            # like a journalling file system: the creation of the file (and
            # whatever came before it) reaches the disk with it
            last = 0
            for i, op in enumerate(self.journal):
                if op[0] == 'link' and op[2] is inode:
                    last = i + 1
            self._commit(last)

    def sync(self):
        self.sim.step('sys.sync')
        for inode in list(self.tree.values()):
            if inode.kind == 'f':
                inode.durable = bytes(inode.data)
        self._commit(len(self.journal))

    def _commit(self, n):
        for op in self.journal[:n]:
            self._apply(op)
        del self.journal[:n]

    def _apply(self, op):
        if op[0] == 'link':
            self.durable_tree[op[1]] = op[2]
        elif op[0] == 'unlink':
            self.durable_tree.pop(op[1], None)
        elif op[0] == 'rename':
            inode = self.durable_tree.pop(op[1], None)
            self.durable_tree[op[2]] = op[3] if inode is None else inode

    def link(self, src, dst, **kw):
        src, dst = self.norm(src, False), self.norm(dst, False)
        self._enter('link', dst)
        inode = self._lookup(src)
        if inode.kind == 'd':
            raise err(errno.EPERM, src)
        self._need_parent(dst)
        if dst in self.tree or self.is_link(dst):
            raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), src, None,
                          dst)
        self.tree[dst] = inode
        inode.nlink += 1
        self.journal.append(('link', dst, inode))
        self._changed('create', dst, inode)

    def unlink(self, path, **kw):
        path = self.norm(path, False)
        self._enter('unlink', path)
        if self.is_link(path):
            del self.links[path]
            return
        inode = self._lookup(path)
        if inode.kind == 'd':
            raise err(errno.EISDIR, path)
        del self.tree[path]
        inode.nlink -= 1
        self.journal.append(('unlink', path, inode))
        self._changed('unlink', path, inode)

    def rename(self, src, dst, **kw):
        src, dst = self.norm(src, False), self.norm(dst, False)
        self._enter('rename', src + ' -> ' + dst)
        inode = self._lookup(src)
        self._need_parent(dst)
        if inode.kind == 'd':
            raise err(errno.EPERM, src)
        old = self.tree.get(dst)
        if old is inode:
            return
        if old is not None:
            if old.kind == 'd':
                raise err(errno.EISDIR, dst)
            old.nlink -= 1
        del self.tree[src]
        self.tree[dst] = inode
        self.journal.append(('rename', src, dst, inode))
        self._changed('rename', src, inode)
        self._changed('replace', dst, inode)

    replace = rename

    def stat(self, path, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(path)
        path = self.norm(path)
        spec = self._enter('stat', path)
        del spec
        return Stat(self._lookup(path))

    def lstat(self, path, dir_fd=None):
        path = self.norm(path, False)
        if self.is_link(path):
            self._enter('stat', path)
            link = Inode(0, 'l', 0o777)
            link.nlink = 1
            return Stat(link)
        return self.stat(path)

    def access(self, path, mode, **kw):
        path = self.norm(path)
        self.sim.step('sys.access', self.show(path))
        return path in self.tree

    def chmod(self, path, mode, **kw):
        if isinstance(path, int):
            return self.fchmod(path, mode)
        path = self.norm(path)
        self._enter('chmod', path)
        self._lookup(path).mode = mode & 0o7777

    def fchmod(self, fd, mode):
        of = self._of(fd)
        self._enter('chmod', of.path)
        of.inode.mode = mode & 0o7777

    def chown(self, path, uid, gid, **kw):
        self._enter('chown', self.norm(path) if not isinstance(path, int)
                    else self.path_of(path))

    def fchown(self, fd, uid, gid):
        self._enter('chown', self.path_of(fd))

    def utime(self, path, *a, **kw):
        if not isinstance(path, int):
            self._lookup(self.norm(path))

    def mkdir(self, path, mode=0o777, dir_fd=None):
        path = self.norm(path)
        self._enter('mkdir', path)
        self._need_parent(path)
        if path in self.tree:
            raise err(errno.EEXIST, path)
        inode = Inode(self._ino(), 'd', mode & ~self.umask)
        inode.nlink = 1
        self.tree[path] = inode
        self.journal.append(('link', path, inode))

    def rmdir(self, path, dir_fd=None):
        path = self.norm(path)
        self._enter('rmdir', path)
        inode = self._lookup(path)
        if inode.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if self.listing(path):
            raise err(errno.ENOTEMPTY, path)
        del self.tree[path]
        self.journal.append(('unlink', path, inode))

    def listdir(self, path='.'):
        path = self.norm(path)
        self._enter('listdir', path)
        if self._lookup(path).kind != 'd':
            raise err(errno.ENOTDIR, path)
        return self.listing(path)

    def readlink(self, path, **kw):
        path = self.norm(path, False)
        if self.is_link(path):
            return self.links[path]
        self._lookup(path)
        raise err(errno.EINVAL, path)

    def symlink(self, *a, **kw):
        raise err(errno.EPERM)

    # -- advisory locks ----------------------------------------------------------------

    def flock(self, fd, op):
        import fcntl
        of = self._of(fd)
        inode = of.inode
        key = id(of)
        if op & fcntl.LOCK_UN:
            self.sim.step('sys.flock-un', self.show(of.path))
            inode.flocks.pop(key, None)
            return
        want = 'ex' if op & fcntl.LOCK_EX else 'sh'

        def free():
            for k, kind in inode.flocks.items():
                if k != key and (kind == 'ex' or want == 'ex'):
                    return False
            return True
        self._enter('flock', of.path)
        if not free():
            if op & fcntl.LOCK_NB:
                raise err(errno.EWOULDBLOCK, of.path)
            self.sim.block(free, None, 'flock ' + of.path)
        inode.flocks[key] = want

    # -- crashes -----------------------------------------------------------------------

    def process_died(self, proc):
        for fd, of in list(self.fds.items()):
            if of.proc is proc:
                del self.fds[fd]
                self._drop(of)

    def power_loss(self, choices):
        """Everything volatile is lost; only a prefix of the journal of
        directory changes and, per file, some legal content survives."""
        keep = choices.below(len(self.journal) + 1, 'journal-kept')
        # 0 keeps least; that is the harshest, but also the simplest to read
        self._commit(keep)
        self.journal = []
        for fd, of in list(self.fds.items()):
            del self.fds[fd]
            self._drop(of)
        self.tree = dict(self.durable_tree)
        seen = set()
        for path in sorted(self.tree):
            inode = self.tree[path]
            if inode.kind != 'f' or id(inode) in seen:
                continue
            seen.add(id(inode))
            inode.flocks = {}
            durable = inode.durable if inode.durable is not None else b''
            now = bytes(inode.data)
            if now == durable:
                continue
            how = choices.below(5, 'torn-file')
            if how == 0:
                data = durable
            elif how == 1:
                data = now
            elif how == 2:
                data = now[:choices.below(len(now) + 1, 'torn-at')]
                self.sim.probe('torn-file')
            elif how == 3:
                # size reached the disk, some data did not
                cut = choices.below(len(now) + 1, 'torn-at')
                data = now[:cut] + b'\0' * (len(now) - cut)
                self.sim.probe('torn-file')
            else:
                # some blocks old, some new
                out = bytearray(now)
                for i in range(0, len(now), BLOCK):
                    if choices.below(2, 'torn-block') == 0:
                        chunk = durable[i:i + BLOCK]
                        n = min(BLOCK, len(now) - i)
                        out[i:i + n] = (chunk + b'\0' * n)[:n]
                data = bytes(out)
                self.sim.probe('torn-file')
            inode.data[:] = data
            inode.durable = bytes(data)
        links = {}
        for path, inode in self.tree.items():
            links[id(inode)] = links.get(id(inode), 0) + 1
        for inode in self.tree.values():
            inode.nlink = links[id(inode)]
