"""C15: the terminal pinentry caches and confirms passphrases exactly."""
import functools
import getpass

from checks.base import BaseCheck, Run, Violation
from sim import core

WORDS = ['sesame', 'Sesame', 'sesame ', ' sesame', '', 'caf\xe9', 'cafe\u0301',
         'x' * 100, 'X', '0', 'None', '\t', 'pass word', '\U0001f511',
         'sesame\r', 'secret1', 'secret2', 'secret3', '\udce9']
IDS = ['id1', 'id2', 'ID1', 'id1 ', 'caf\xe9', 'cafe\u0301', 'X', None, '',
       'x', 'sesame', '0', ' ']
TEXTS = [None, '', 'X', 'Please!', '\u6587']
LIMIT = 400                 # prompts of one request


class Interrupted(KeyboardInterrupt):
    pass


class Gone(EOFError):
    pass


class Broken(OSError):
    pass


class Stream(object):
    """Where the prompts go; may be closed by the other side."""

    def __init__(self, term):
        self.term = term

    def write(self, text):
        d = self.term.dialogue()
        if d is not None and d.broken is not None:
            if d.broken == 0:
                d.broken = None
                self.term.sim.fault('broken-stream')
                d.interrupted = True
                raise Broken('simulated')
            d.broken -= 1
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return True

    encoding = 'utf-8'


class Dialogue(object):
    """What the user did during one request."""

    def __init__(self):
        self.rounds = []            # [[first, confirmation, ...]]
        self.prompts = 0
        self.interrupted = False
        self.broken = None
        self.stop_at = None
        self.typos = 0


class Terminal(object):
    """The user in front of it."""

    def __init__(self, sim, ch):
        self.sim = sim
        self.ch = ch
        self.active = {}            # task -> Dialogue

    def dialogue(self):
        return self.active.get(self.sim.current)

    def ask(self, prompt):
        d = self.dialogue()
        ch = self.ch
        sim = self.sim
        sim.step('prompt', prompt)
        if d is None:
            raise core.HarnessError('prompt outside a request')
        d.prompts += 1
        if d.prompts > LIMIT:
            raise Violation('endless', 'asked more than %d times' % LIMIT)
        if d.stop_at is not None and d.prompts > d.stop_at:
            d.interrupted = True
            kind = ch.pick([Interrupted, Gone], 'how')
            sim.fault('user-' + kind.__name__.lower())
            raise kind()
        sim.sleep(ch.pick([1, 0, 30, 86400], 'thinking'))
        confirm = 'onfirm' in prompt or 'epeat' in prompt or 'gain' in prompt
        if confirm and d.rounds:
            word = d.rounds[-1][0]
            if d.typos > 0 and ch.chance(1, 2, 'typo'):
                d.typos -= 1
                sim.fault('typo')
                word = ch.pick(WORDS + [word + 'x', word[:-1], word.upper()],
                               'typed')
            d.rounds[-1].append(word)
        else:
            word = ch.pick(WORDS, 'word')
            if ch.chance(1, 3, 'numbered'):
                word += str(d.prompts) + str(sim.current.ident)
            d.rounds.append([word])
        sim.event('typed', repr(word))
        return word


class Check(BaseCheck):

    id = 'C15'
    runs = {'quick': 20000, 'thorough': 400000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.pinentry',)
    rule = ('one run = one or two pinentries used by one or two tasks '
            '(interleaved at every statement, with cache ids of their own) '
            'for up to twelve requests and clearings each; a simulated user '
            'types, mistypes, interrupts, and takes up to a day; the clock '
            'jumps; every outcome is compared with a reference model; '
            'non-trivial = a cached passphrase was returned and a fault '
            'injected')
    real_components = ['pgp.pinentry.getpass']
    stub_components = ['terminal (getpass.getpass, output stream)', 'clock']
    measure = 'sha-256 of requests, typed text and outcomes'
    assumptions = ['a prompt asks for confirmation if it says so']

    def load(self):
        self.term = None
        real = getpass.getpass

        def simulated(prompt='Password: ', stream=None):
            s = core.ACTIVE
            if s is None or s.current is None:
                return real(prompt, stream)
            return self.term.ask(prompt)
        getpass.getpass = getpass.unix_getpass = \
            getpass.fallback_getpass = simulated
        import pgp.pinentry.getpass as mod
        self.Pinentry = mod.GetPassPinentry

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 60, 10], 'preempt-mean'),
                       max_steps=200000)
        proc = sim.process('user')
        self.term = Terminal(sim, ch)
        pinentries = [(self.Pinentry(), {})
                      for _ in range(ch.pick([1, 1, 2], 'pinentries'))]
        n = ch.pick([1, 1, 2], 'tasks')
        state = {'cached': 0}
        for i in range(n):
            ids = IDS[i::n]
            sim.spawn(proc, functools.partial(
                self.user, sim, ch, pinentries, ids, state), 'u%d' % i)
        core.run_sim(sim)
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', tb[-900:])
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', repr(sim.deadlock))
        return Run.of(ch, sim, nontrivial=bool(
            state['cached'] and sim.fault_counts), sample='')

    def user(self, sim, ch, pinentries, ids, state):
        for _ in range(1 + ch.below(12, 'requests')):
            pinentry, cache = pinentries[ch.below(len(pinentries), 'which')]
            cid = ids[ch.below(len(ids), 'cache-id')]
            if ch.chance(1, 6, 'clock-jump'):
                sim.wall += ch.pick([1e6, -1e6, 1e9, -1.3e9], 'jump')
                sim.fault('clock-jump')
            if ch.chance(1, 5, 'clear'):
                pinentry.clear_passphrase(cid)
                cache.pop(cid, None)
                sim.event('clear', repr(cid))
                continue
            self.request(sim, ch, pinentry, cache, cid, state)

    def request(self, sim, ch, pinentry, cache, cid, state):
        args = {'stream': Stream(self.term)}
        if cid is not None or ch.chance(1, 2, 'give-none'):
            args['cache_id'] = cid
        for k in ('prompt', 'error_message', 'description'):
            v = ch.pick(TEXTS, k)
            if v is not None:
                args[k] = v
        use_cache = not ch.chance(1, 5, 'no-cache')
        if not use_cache or ch.chance(1, 2, 'say-so'):
            args['use_cache'] = use_cache
        no_ask = ch.chance(1, 4, 'no-ask')
        if no_ask:
            args['no_ask'] = True
        repeat = ch.pick([0, 1, 2, 3], 'repeat')
        if repeat or ch.chance(1, 2, 'say-zero'):
            args['repeat'] = repeat
        d = Dialogue()
        d.typos = ch.pick([0, 1, 2, 5], 'typos')
        if ch.chance(1, 6, 'interrupts'):
            d.stop_at = ch.below(2 + 2 * repeat, 'stop-at')
        if ch.chance(1, 12, 'broken-stream'):
            d.broken = ch.below(6, 'broken-at')
        key = cid if cid not in (None, '', 'X') else None
        what = 'id %r use_cache %s no_ask %s repeat %d, typed %%r' % (
            cid, use_cache, no_ask, repeat)
        self.term.active[sim.current] = d
        error = result = None
        try:
            result = pinentry.get_passphrase(**args)
        except Violation:
            raise
        except (Interrupted, Exception) as e:
            if core.is_harness_error(e):
                raise
            error = e
        del self.term.active[sim.current]
        what = what.replace('%r', repr(d.rounds))
        sim.event('outcome', what, repr(result), type(error).__name__)
        sim.shape.update(repr((what, result, type(error).__name__)).encode(
            'utf8', 'replace'))
        cached = use_cache and key is not None and key in cache
        if no_ask and d.prompts:
            raise Violation('asked', '%s: asked although that is forbidden' %
                            what)
        if cached:
            if d.prompts:
                raise Violation('asked', '%s: asked although cached' % what)
            if error is not None:
                if d.interrupted:
                    return
                raise Violation('refused', '%s: cached, but %r' % (what,
                                                                   error))
            if result != cache[key]:
                raise Violation('wrong', '%s: %r returned, %r is cached' % (
                    what, result, cache[key]))
            state['cached'] += 1
            return
        if no_ask:
            if error is None:
                raise Violation('invented', '%s: returned %r without asking' %
                                (what, result))
            return
        good = [r for r in d.rounds
                if len(r) == 1 + repeat and len(set(r)) == 1]
        if error is not None:
            if not d.interrupted:
                raise Violation('refused', '%s: %r' % (what, error))
            return
        if d.interrupted:
            raise Violation('interrupt-ignored', '%s: returned %r' % (
                what, result))
        if not d.rounds:
            raise Violation('invented', '%s: returned %r without asking' % (
                what, result))
        last = d.rounds[-1]
        if len(last) != 1 + repeat or len(set(last)) != 1:
            raise Violation('unconfirmed', '%s: returned %r' % (what, result))
        if result != last[0]:
            raise Violation('wrong', '%s: returned %r' % (what, result))
        if len(good) != 1:
            raise Violation('asked', '%s: asked again after a good round' %
                            what)
        if use_cache and key is not None:
            cache[key] = result
