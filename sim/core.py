"""Deterministic simulator core: choice sequence, clock, scheduler, tasks.

One run is a pure function of a *choice sequence*.  A fresh run draws the
sequence from a PRNG seeded with one integer; a replay (and every shrinking
attempt) feeds a recorded sequence back.  Past the end of a recorded sequence
every choice is 0, and 0 always means the tamest alternative (no fault, no
pre-emption, first / smallest value), so that dropping or zeroing choices
simplifies a run.
"""
import hashlib

import greenlet

MASK = (1 << 64) - 1


def mix(*parts):
    """A 64-bit seed from any printable parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Prng(object):
    """splitmix64"""

    def __init__(self, seed):
        self.s = seed & MASK

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n

    def bytes(self, n):
        out = bytearray()
        while len(out) < n:
            out += self.next().to_bytes(8, 'big')
        return bytes(out[:n])


class Choices(object):

    MAX = 60000

    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.replaying = recorded is not None
        self.recorded = recorded or []
        self.pos = 0
        self.prng = Prng(seed if seed is not None else 0)
        self.values = []
        self.labels = []

    def _next(self, n, label, fresh):
        if len(self.values) >= self.MAX:
            return 0
        if self.replaying:
            v = 0
            if self.pos < len(self.recorded):
                v = self.recorded[self.pos]
                if v >= n:
                    v = v % n
            self.pos += 1
        else:
            v = fresh()
        self.values.append(v)
        self.labels.append(label)
        return v

    def below(self, n, label=''):
        """0 .. n-1, uniformly; no choice is spent when n < 2."""
        if n < 2:
            return 0
        return self._next(n, label, lambda: self.prng.below(n))

    def pick(self, seq, label=''):
        return seq[self.below(len(seq), label)]

    def weighted(self, pairs, label=''):
        """pairs: [(item, weight)]; item 0 is the tame one."""
        total = sum(w for _, w in pairs)

        def fresh():
            r = self.prng.below(total)
            for i, (_, w) in enumerate(pairs):
                if r < w:
                    return i
                r -= w
        return pairs[self._next(len(pairs), label, fresh)][0]

    def chance(self, num, den, label=''):
        """True with probability num/den; 0 (tame) is False."""
        if num <= 0:
            return False
        return bool(self._next(
            2, label, lambda: 1 if self.prng.below(den) < num else 0))

    def gap(self, mean, limit=4000, label='gap', never=12):
        """Steps until something disruptive; None (recorded 0) is never."""
        if mean is None:
            return None

        def fresh():
            # geometric with the given mean, and now and then never
            if self.prng.below(never) == 0:
                return 0
            k = 1
            while k < limit - 1 and self.prng.below(mean) != 0:
                k += 1
            return k
        v = self._next(limit, label, fresh)
        return v or None

    def data(self, n, label='data'):
        """n bytes from a single 32-bit choice (0: all zero bytes)."""
        v = self._next(1 << 32, label, lambda: self.prng.below(1 << 32))
        if v == 0:
            return b'\0' * n
        return Prng(mix('data', v)).bytes(n)


class Violation(Exception):
    """The property under check is broken."""

    def __init__(self, kind, message, **detail):
        Exception.__init__(self, '%s: %s' % (kind, message))
        self.kind = kind
        self.message = message
        self.detail = detail


class SimStop(BaseException):
    """Unwinds a task whose simulation is over."""


class Hang(BaseException):
    """Raised by the CPU-time watchdog."""


class SimDead(BaseException):
    """A system call made on behalf of a dead process."""


HARNESS_TYPES = (AttributeError, NameError, TypeError, IndexError,
                 AssertionError, NotImplementedError)


class HarnessError(Exception):
    """The simulator or a check is wrong, not the library."""


def is_harness_error(error):
    """An error of a kind a bug makes, raised by the simulator's own code."""
    if isinstance(error, HarnessError):
        return True
    tb = error.__traceback__
    if tb is None or not isinstance(error, HARNESS_TYPES):
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    name = tb.tb_frame.f_code.co_filename
    return '/verif/' in name or '/sim/' in name or '/checks/' in name


ACTIVE = None       # the running Sim, if any


LAST = None                     # the latest simulation of this process


def active():
    return ACTIVE


class Task(object):

    def __init__(self, sim, proc, fn, name, ident):
        self.sim = sim
        self.proc = proc
        self.fn = fn
        self.name = name
        self.ident = ident
        self.pred = None
        self.deadline = None
        self.why = None
        self.done = False
        self.killed = False
        self.result = None
        self.error = None
        self.timed_out = False
        self.locals = {}
        self.quiet = 0          # >0: no pre-emption, no faults (harness code)
        self.steps = 0
        self.glet = greenlet.greenlet(self._run)

    def _run(self):
        try:
            self.result = self.fn()
        except Violation as e:
            self.sim.violate(e)
        except SimStop:
            pass
        except Hang:
            raise
        except Exception as e:
            self.error = e
            self.sim.task_failed(self, e)
        finally:
            self.done = True
        return None

    def runnable(self, now):
        if self.done or self.killed:
            return False
        if self.pred is None and self.deadline is None:
            return True
        if self.pred is not None and self.pred():
            return True
        return self.deadline is not None and now >= self.deadline

    def __repr__(self):
        return '<%s>' % self.name


class Proc(object):
    """A simulated operating-system process."""

    def __init__(self, sim, pid, node, name):
        self.sim = sim
        self.pid = pid
        self.node = node
        self.name = name
        self.alive = True
        self.exited = False
        self.cwd = None             # set: relative names are simulated
        self.modules = {}
        self.atexit = []
        self.ids = {}
        self.id_keep = []
        self.signals = []
        self.tasks = []
        self.started_at = sim.steps

    def sim_id(self, obj):
        """Addresses are handed out per process in allocation order, so that
        two processes running the same program see the same addresses."""
        k = id(obj)
        if k not in self.ids:
            self.id_keep.append(obj)
            self.ids[k] = 0x7f0000001000 + 0x40 * len(self.ids)
        return self.ids[k]

    def __repr__(self):
        return '<%s pid %d@%s>' % (self.name, self.pid, self.node)


class Sim(object):

    def __init__(self, choices, preempt=None, max_steps=20000,
                 step_cost=0.0001, fairness=400, keep_log=True):
        self.choices = choices
        self.now = 1000.0            # monotonic simulated seconds
        self.wall = 1400000000.0     # wall clock = wall + now
        self.step_cost = step_cost
        self.preempt_mean = preempt
        self.never = 12         # one gap in so many never ends
        self.hot = None         # pre-empt at one in so many hot statements
        self.gap_mean = None    # of the next gap only
        self.max_steps = max_steps
        self.fairness = fairness
        self.steps = 0
        self.tasks = []
        self.procs = []
        self.pids = {}
        self.next_pid = 4001
        self.next_ident = 1
        self.current = None
        self.hub = None
        self.countdown = None
        self.slice = 0
        self.log = []
        self.hash = hashlib.sha256()
        self.shape = hashlib.sha256()
        self.violation = None
        self.fault_counts = {}
        self.probes = {}
        self.deadlock = None
        self.out_of_steps = False
        self.on_step = []            # callables(sim, kind, detail) pre-syscall
        self.crash_plan = None       # (countdown, callable)
        self.fault_hook = None       # callable(kind, detail) -> fault or None
        self.failed_tasks = []
        self.harness_errors = []
        self.stopping = False
        self.locks_made = 0
        self.prng = Prng(mix('os-random', choices.below(1 << 32, 'os-seed')))
        self.rng_hook = None         # callable(n) -> bytes
        self.rng_draws = []
        self.default_node = 'alpha'
        self.ended_now = 0.0

    # -- recording ---------------------------------------------------------

    def event(self, *what):
        text = ' '.join(str(w) for w in what)
        line = '%05d %s %s' % (
            self.steps, self.current.name if self.current else '-', text)
        self.hash.update(line.encode('utf8', 'replace') + b'\n')
        if len(self.log) < 6000:
            self.log.append(line)

    def fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n
        self.event('FAULT', kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def violate(self, e):
        if self.violation is None:
            self.violation = e
            self.event('VIOLATION', e.kind, e.message)

    def task_failed(self, task, error):
        import traceback
        tb = ''.join(traceback.format_exception(type(error), error,
                                                error.__traceback__))
        self.event('task failed', type(error).__name__, error)
        if is_harness_error(error):
            self.harness_errors.append(tb)
        self.failed_tasks.append((task, error, tb))

    # -- processes and tasks -----------------------------------------------

    def process(self, name, pid=None, node=None):
        if pid is None:
            pid = self.next_pid
            self.next_pid += 1
        p = Proc(self, pid, node or self.default_node, name)
        self.procs.append(p)
        self.pids[(p.node, pid)] = p
        return p

    def spawn(self, proc, fn, name):
        t = Task(self, proc, fn, name, self.next_ident)
        self.next_ident += 1
        self.tasks.append(t)
        if proc is not None:
            proc.tasks.append(t)
        return t

    def kill(self, proc, why='crash'):
        """The process is gone at once; none of its code runs again."""
        if not proc.alive:
            return
        proc.alive = False
        if self.pids.get((proc.node, proc.pid)) is proc:
            del self.pids[(proc.node, proc.pid)]
        for t in proc.tasks:
            t.killed = True
        self.event(why, proc.name)
        for fn in list(getattr(self, 'on_death', ())):
            fn(proc)
        if self.current is not None and self.current.killed:
            self._switch_to_hub()
            raise SimDead()

    # -- scheduling ----------------------------------------------------------

    def _switch_to_hub(self):
        self.hub.switch()

    def run(self):
        """Run until every task is done, or nothing can run any more."""
        global ACTIVE
        self.hub = greenlet.getcurrent()
        assert self.current is None
        while True:
            if self.violation is not None:
                break
            if self.steps > self.max_steps:
                self.out_of_steps = True
                break
            alive = [t for t in self.tasks if not t.done and not t.killed]
            if not alive:
                break
            ready = [t for t in alive if t.runnable(self.now)]
            if not ready:
                deadlines = [t.deadline for t in alive
                             if t.deadline is not None]
                if not deadlines:
                    self.deadlock = ['%s waits for %s' % (t.name, t.why)
                                     for t in alive]
                    self.event('deadlock', self.deadlock)
                    break
                self.now = max(self.now, min(deadlines))
                continue
            t = ready[self.choices.below(len(ready), 'run')]
            while t is not None:
                t = self.dispatch(t)
                if self.violation is not None:
                    break
        self.current = None

    def dispatch(self, t):
        if t.pred is not None or t.deadline is not None:
            t.timed_out = not (t.pred is not None and t.pred())
            t.pred = t.deadline = t.why = None
        self.shape.update(b'%d.' % t.ident)
        self.current = t
        self.slice = 0
        if self.countdown is None and self.preempt_mean:
            self.countdown = self.choices.gap(
                self.gap_mean or self.preempt_mean, label='preempt-in',
                never=self.never)
            self.gap_mean = None
            if self.countdown is None:
                self.countdown = -1
        if not t.glet:
            t.glet.parent = self.hub
        forced = t.glet.switch()
        self.current = None
        if isinstance(forced, Task) and forced.runnable(self.now) and \
                self.steps <= self.max_steps:
            return forced
        return None

    def step(self, kind, detail='', pure=False):
        """A point where the outside world may act: pre-emption, crash."""
        t = self.current
        if t is None or t.quiet:
            return
        if t.killed:
            raise SimDead()
        self.steps += 1
        t.steps += 1
        self.now += self.step_cost
        if not pure:
            self.event(kind, detail)
            self.shape.update(b'%d:%s;' % (t.ident, kind.encode()))
        if self.steps > self.max_steps or self.violation is not None:
            self._switch_to_hub()
            raise SimStop()
        for fn in self.on_step:
            fn(self, kind, detail)
        if t.killed:
            raise SimDead()
        self.slice += 1
        if self.countdown is not None and self.countdown > 0:
            self.countdown -= 1
            if self.countdown == 0:
                self.countdown = None
                self.yield_()
                return
        if self.slice >= self.fairness:
            self.yield_()

    def hot_step(self):
        """Next to a statement that touches state which threads share: a
        good place to stop a thread for long."""
        t = self.current
        if t.quiet or t.killed or self.violation is not None:
            return
        if self.choices.chance(1, self.hot, 'hot'):
            self.probe('hot-preemption')
            self.countdown = None
            self.gap_mean = 2000
            self.yield_()

    def yield_(self):
        """Let another task run, if any can; the scheduler chooses."""
        t = self.current
        others = [o for o in self.tasks
                  if o is not t and o.runnable(self.now)]
        self.slice = 0
        if not others:
            if self.countdown is None and self.preempt_mean:
                self.countdown = self.choices.gap(
                    self.preempt_mean, label='preempt-in',
                    never=self.never) or -1
            return
        # hand over to one of the others
        nxt = others[self.choices.below(len(others), 'preempt-to')]
        self.probe('preemption')
        self._switch_and_run(nxt)

    def _switch_and_run(self, nxt):
        # through the hub, so that greenlet parents stay simple
        t = self.current
        self.hub.switch(nxt)
        if t.killed:
            raise SimDead()
        if self.violation is not None:
            raise SimStop()

    def block(self, pred, deadline=None, why=''):
        """Suspend the current task until pred() or the deadline.  Returns
        False if the deadline came first."""
        t = self.current
        if t is None:
            if pred is None or pred():
                return True
            raise RuntimeError('blocking outside a simulated task: ' + why)
        if t.killed:
            raise SimDead()
        t.pred, t.deadline, t.why = pred, deadline, why
        t.timed_out = False
        self._switch_to_hub()
        if t.killed:
            raise SimDead()
        if self.violation is not None:
            raise SimStop()
        return not t.timed_out

    def sleep(self, seconds):
        if self.current is None:
            self.now += max(0, seconds)
            return
        self.block(None, self.now + max(0.0, seconds), 'sleep')

    def quietly(self):
        return _Quiet(self)


class _Quiet(object):

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.task = self.sim.current
        if self.task is not None:
            self.task.quiet += 1

    def __exit__(self, *exc):
        if self.task is not None:
            self.task.quiet -= 1


def run_sim(sim):
    """sim.run() with ACTIVE set; forced hand-overs handled here."""
    global ACTIVE, LAST
    prev = ACTIVE
    ACTIVE = LAST = sim
    try:
        sim.run()
    finally:
        sim.ended_now = sim.now
        ACTIVE = prev
    return sim
