"""A simulated machine with a keyring on its disk, for C01-C05 and C17."""
import errno
import os

from sim import core
from sim import keys
from sim import load
from sim import vfs
from sim.core import Violation

PATH = '/sim/home/pubring.gpg'
DIR = '/sim/home'

NODES = ['alpha', 'alpha', 'Alpha-2.Example.ORG', 'n']
FIRST_PIDS = [4001, 4001, 301, 65530, 4194200]

FAULT_ERRNOS = [errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EACCES,
                errno.EDQUOT, errno.ENFILE]


def canonical(packets):
    """Library packets -> [(tag, body)], through the independent reader."""
    raw = b''.join(bytes(p) for p in packets)
    return [(t, b) for t, b, _ in keys.split_packets(raw)
            if t != 12]


def strip_trust(content):
    return [(t, b) for t, b in content if t != 12]


class World(object):

    def __init__(self, ch, **kw):
        self.ch = ch
        self.sim = core.Sim(ch, **kw)
        self.sim.default_node = ch.pick(NODES, 'node-name')
        self.sim.next_pid = ch.pick(FIRST_PIDS, 'first-pid')
        self.vfs = vfs.VFS(self.sim)
        # file systems differ
        self.vfs.tick = ch.pick([0, 0.004, 1.0, 2.0], 'time-stamps')
        self.vfs.reuse = ch.chance(1, 2, 'inodes-again')
        core.ACTIVE = self.sim
        self.vfs.mkdir(DIR)
        self.vfs.mkdir('/sim/other')
        self.vfs._commit(len(self.vfs.journal))
        self.sim.on_death = [self.vfs.process_died]
        self.name = PATH        # what everybody calls the keyring
        from pgp.packets import parse_binary_packet_data
        from pgp.transferrable_keys import TransferablePublicKey
        from pgp.transferrable_keys import TransferableSecretKey
        self._parse = parse_binary_packet_data
        self._pub = TransferablePublicKey
        self._sec = TransferableSecretKey

    def process(self, name, users=(), **kw):
        p = self.sim.process(name, **kw)
        load.load_for(p, users=users)
        return p

    def gpg(self, proc):
        return proc.modules['pgp.db.gpg']

    def spelling(self, proc, path=PATH):
        """One of the names the file `path` goes by: directories may be
        symbolic links and names may be relative."""
        if path == PATH:
            path = self.name
        how = self.ch.weighted([('plain', 4), ('alias', 2), ('prefix', 1),
                                ('dots', 1), ('relative', 2)], 'spelling')
        d, base = path.rsplit('/', 1)
        if how == 'alias':
            self.vfs.links['/sim/alias'] = d
            return '/sim/alias/' + base
        if how == 'prefix':
            return 'gnupg-keyring:' + path
        if how == 'dots':
            return d + '/./../' + d.rsplit('/', 1)[1] + '//' + base
        if how == 'relative':
            if proc.cwd is None:
                self.chdir(proc)
            return os.path.relpath(path, proc.cwd)
        return path

    def behind_link(self, ch, p=(1, 8)):
        """In some runs the name everybody uses for the keyring is a
        symbolic link to the file."""
        if ch.chance(p[0], p[1], 'behind-link'):
            self.name = '/sim/other/linked.gpg'
            self.vfs.links[self.name] = PATH
            self.sim.probe('behind-symbolic-link')

    def chdir(self, proc):
        """Only for processes none of whose threads is opening a file."""
        proc.cwd = self.ch.pick([DIR, DIR.rsplit('/', 1)[0], '/sim/other'],
                                'cwd')

    def key_object(self, spec, version, uids=1, bulk=0):
        raw = spec.raw(version, uids, bulk)
        cls = self._sec if spec.secret else self._pub
        with self.sim.quietly():
            return cls.from_packets(list(self._parse(raw)))

    def content_of(self, key):
        """Canonical content of a key object the library returned."""
        with self.sim.quietly():
            return tuple(canonical(key.to_packets()))

    def file_keys(self, path=PATH):
        """{fingerprint: content} of the file right now, or an error text."""
        data = self.vfs.peek(path)
        if data is None:
            return None
        ks = keys.split_keys(data)
        out = {}
        for fp, content in ks:
            if fp in out:
                raise ValueError('key %s is in the file twice' % fp)
            out[fp] = tuple(strip_trust(content))
        return out

    def seed_file(self, specs, path=PATH, old=False, trust=False, bulk=0,
                  version=0):
        """Initial keyring contents: one version of each spec."""
        self.vfs.put(path, b''.join(
            s.raw(version, old=old, trust=trust, bulk=bulk) for s in specs))

    def exit_process(self, proc, task_name='exit'):
        """A normal interpreter exit: run the atexit handlers, newest
        first, then drop the process."""
        def body():
            for fn, args, kw in reversed(proc.atexit):
                try:
                    fn(*args, **kw)
                except Exception as e:
                    self.sim.event('atexit handler raised', repr(e))
            proc.exited = True
        return self.sim.spawn(proc, body, task_name)

    def crash_countdown(self, n, action):
        """Run action() right before the n-th system call from now."""
        left = [n]

        def on_step(sim, kind, detail):
            if not kind.startswith('sys.'):
                return
            left[0] -= 1
            if left[0] == 0:
                action(kind)
        self.sim.on_step.append(on_step)


def title(content):
    for tag, body in content:
        if tag == 13:
            return body[:8].decode('utf8', 'replace')
    return '-'


def state_text(state):
    if state is None:
        return 'no file'
    return ', '.join('%s=%s' % (fp[-8:], title(c))
                     for fp, c in sorted(state.items())) or 'empty'


class Injector(object):
    """Draws I/O faults: the k-th eligible system call fails."""

    OPS = ('open', 'read', 'write', 'close', 'fsync', 'link', 'rename',
           'unlink', 'stat', 'truncate', 'chmod', 'mkdir', 'listdir')

    def __init__(self, ch, mean, ops=OPS, errnos=FAULT_ERRNOS, partial=True,
                 burst=True, who=None):
        self.ch = ch
        self.mean = mean
        self.ops = ops
        self.errnos = errnos
        self.partial = partial
        self.burst = burst
        self.left = ch.gap(mean, label='fault-in')
        self.burst_left = 0
        self.enabled = True
        self.hits = 0
        self.failed = []        # (operation, path)
        self.who = who

    def __call__(self, op, path):
        if not self.enabled or op not in self.ops:
            return None
        if self.who is not None and not self.who():
            return None
        if self.burst_left:
            self.burst_left -= 1
            self.hits += 1
            self.failed.append((op, path))
            return self._errno(op)
        if self.left is None:
            return None
        self.left -= 1
        if self.left > 0:
            return None
        self.left = self.ch.gap(self.mean, label='fault-in')
        self.hits += 1
        self.failed.append((op, path))
        if self.partial and op in ('read', 'write'):
            if self.ch.chance(1, 2, 'partial'):
                return ('short', self.ch.below(1000, 'how-much'))
        if self.burst and self.ch.chance(1, 5, 'burst'):
            self.burst_left = 1 + self.ch.below(4, 'burst-length')
        return self._errno(op)

    def _errno(self, op):
        options = {
            'read': [errno.EIO], 'fsync': [errno.EIO, errno.ENOSPC],
            'close': [errno.EIO, errno.ENOSPC],
            'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT],
            'unlink': [errno.EACCES, errno.EIO, errno.EROFS],
            'stat': [errno.EACCES, errno.EIO],
        }.get(op, [errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EACCES])
        return self.ch.pick(options, 'errno')


def lock_of(handle):
    """The lock object of a keyring handle, whatever its name."""
    lock = getattr(handle, '_lock', None)
    if lock is None:
        for lock in vars(handle).values():
            if hasattr(lock, 'acquire') and hasattr(lock, 'release'):
                break
    return lock
