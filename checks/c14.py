"""C14: the gpg-agent client returns the exact passphrase or an error."""
import errno
import functools
import os
import urllib.parse

from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import net as net_mod

PATH = '/sim/run/S.gpg-agent'
PASSPHRASES = ['sesame', '', 'OK', 'ERR 67108949 no', 'D D ', ' lead and tail ',
               '%', '%41%zz', '100%25', '+', 'a b+c', 'caf\xe9',
               '\u6587\u5b57\U0001f511', 'two\nlines', 'cr\rlf\r\n', '\t',
               'nul\0nul', '# comment', 'S status', 'x' * 999, 'y' * 3000,
               '\u2028', '\x85', 'INQUIRE x', 'OK\nOK', '\xff\xfe']
FIELDS = [None, '', 'X', 'PIN?', 'Please enter: 100%', 'a+b c', 'na\xefve',
          'two\nlines', '\u6587', '"q" \'q\'', 'tail ', '%41', 'x' * 200,
          'y' * 257,
          'OK', '/path;semi#hash', '\\', '\r']
IDS = ['id1', 'id2', 'ID1', 'id 1', 'id+1', 'id%201', 'n\xef', None]
NOISE = [b'S PROGRESS need_entropy X 30 120', b'# just a comment', b'#',
         b'S OK', b'S', b'# OK', b'# ERR 1 no', b'S KEYINFO D 1', b'S \xff\xfe']
ERRORS = [b'ERR 67108949 No pinentry <GPG Agent>', b'ERR 83886179 canceled',
          b'ERR 67108922 No data <GPG Agent>', b'ERR 1', b'ERR',
          b'ERR 5 caf\xc3\xa9 \xff']
OKS = [b'OK', b'OK closing', b'OK D not data', b'OK %41']
BYE = ['at-connect', 'in-reply', 'in-request']


class Boom(KeyboardInterrupt):
    pass


class Session(object):
    """One connection, in the agent's eyes."""

    def __init__(self):
        self.requests = []
        self.sent = None            # passphrase sent, if one was
        self.answer = None          # 'ok', 'err', 'cut'
        self.welcomed = False


class Agent(object):

    def __init__(self, sim, ch):
        self.sim = sim
        self.ch = ch
        self.cache = {}
        self.log = []
        self.trouble = ch.pick([0, 1, 2, 4], 'trouble')
        self.calm = False
        self.exact = ch.chance(1, 4, 'tiny-fragments')

    def faulty(self, label, n):
        return not self.calm and self.trouble and \
            self.ch.chance(self.trouble, 2 * n, label)

    def accept(self, conn):
        s = Session()
        s.conn = conn
        s.task = self.sim.current
        self.log.append(s)
        conn.done = 0
        ch = self.ch
        if ch.chance(1, 3, 'short-sends'):
            conn.accept_parts = lambda n: 1 + ch.below(n, 'send-part')
        if self.faulty('cut-request', 10):
            conn.send_limit = ch.below(150, 'sent')
            self.sim.fault('cut-request')
        lines = self.noise([])
        if self.faulty('not-welcome', 10):
            lines.append(ch.pick(ERRORS, 'error'))
            self.sim.fault('refused')
            s.answer = 'err'
        else:
            lines.append(ch.pick([b'OK Pleased to meet you, process 7',
                                  b'OK'], 'welcome'))
            s.welcomed = True
        self.reply(s, lines)
        conn.on_data = functools.partial(self.data, s)

    def noise(self, lines):
        ch = self.ch
        out = list(lines)
        for _ in range(ch.pick([0, 0, 1, 3], 'noise')):
            out.insert(ch.below(len(out) + 1, 'noise-at'),
                       ch.pick(NOISE, 'noise-line'))
        return out

    def reply(self, s, lines, matters=True):
        ch = self.ch
        conn = s.conn
        data = b''.join(x + b'\n' for x in lines)
        end = None
        if self.faulty('cut', 4):
            data = data[:ch.below(len(data), 'cut-at')]
            end = ch.pick(['eof', 'reset'], 'cut-how')
            self.sim.fault('cut-' + end)
            if matters:
                s.answer = 'cut'
        slow = self.faulty('slow', 6)
        if slow:
            self.sim.fault('delay')
        parts = ch.pick([1, 1, 2, 4, 12], 'fragments')
        while data and parts > 1:
            n = 1 + ch.below(max(1, min(len(data), 2 * len(data) // parts)),
                             'fragment')
            if self.exact:
                n = 1
            conn.feed(data[:n], ch.pick([0, 0.01, 45], 'pause') if slow
                      else 0.001)
            data = data[n:]
            parts -= 1
        conn.feed(data)
        if end == 'eof':
            conn.eof()
        elif end:
            conn.reset()

    def data(self, s, conn):
        while True:
            raw = bytes(conn.received[conn.done:])
            line, sep, _ = raw.partition(b'\n')
            if not sep:
                return
            conn.done += len(line) + 1
            s.requests.append(line)
            self.sim.event('agent got', line[:120])
            if s.answer in ('err', 'cut') and not s.welcomed:
                continue
            self.serve(s, line)

    @staticmethod
    def unescape(field):
        return urllib.parse.unquote_to_bytes(
            field.replace(b'+', b' ')).decode('utf8')

    def serve(self, s, line):
        ch = self.ch
        words = line.split(b' ')
        cmd = words[0].upper()
        if cmd == b'GET_PASSPHRASE':
            i = 1
            opts = []
            while i < len(words) and words[i].startswith(b'--'):
                opts.append(words[i])
                i += 1
            fields = words[i:]
            try:
                s.fields = [self.unescape(f) for f in fields]
            except UnicodeDecodeError:
                s.fields = None
            s.opts = sorted(opts)
            if s.fields is None or len(s.fields) != 4:
                s.answer = 'bad'
                self.reply(s, [b'ERR 67109139 bad arguments'])
                return
            cid = s.fields[0]
            if self.faulty('error', 5):
                s.answer = 'err'
                self.sim.fault('agent-error')
                self.reply(s, self.noise([]) + [ch.pick(ERRORS, 'error')])
                return
            if self.faulty('late-error', 10):
                # some data, then an error after all
                s.answer = 'err'
                self.sim.fault('agent-error-after-data')
                self.reply(s, self.noise([b'D part of it']) +
                           [ch.pick(ERRORS, 'error')])
                return
            if self.faulty('inquire', 20):
                s.answer = 'err'
                self.sim.fault('inquiry')
                self.reply(s, [b'INQUIRE PINENTRY_LAUNCHED 42'])
                return
            if cid != 'X' and cid in self.cache:
                s.sent = self.cache[cid]
            elif b'--no-ask' in opts:
                s.answer = 'err'
                self.sim.probe('not-cached')
                self.reply(s, [b'ERR 67108922 No data <GPG Agent>'])
                return
            else:
                s.sent = ch.pick(PASSPHRASES, 'passphrase')
                if ch.chance(1, 3, 'any-characters'):
                    s.sent = ''.join(
                        chr(ch.pick([ch.below(33, 'c'), ch.below(128, 'c'),
                                     128 + ch.below(1000, 'c'),
                                     0x1f400 + ch.below(99, 'c')], 'char'))
                        for _ in range(ch.below(9, 'length')))
                elif ch.chance(1, 3, 'numbered'):
                    s.sent += str(len(self.log))
                if cid != 'X':
                    self.cache[cid] = s.sent
            s.answer = 'ok'
            if s.sent == '' and ch.chance(1, 2, 'no-data-line'):
                lines = []
            else:
                lines = self.data_lines(s.sent.encode('utf8'))
            self.reply(s, self.noise(lines) + [ch.pick(OKS, 'ok')])
        elif cmd == b'CLEAR_PASSPHRASE':
            fields = [self.unescape(f) for f in words[1:]
                      if not f.startswith(b'--')]
            s.fields = fields
            if len(fields) != 1 or self.faulty('error', 5):
                s.answer = 'err'
                if len(fields) == 1:
                    self.sim.fault('agent-error')
                self.reply(s, self.noise([]) + [ch.pick(ERRORS, 'error')])
                return
            self.cache.pop(fields[0], None)
            s.answer = 'ok'
            self.reply(s, self.noise([]) + [ch.pick(OKS, 'ok')])
        elif cmd == b'BYE':
            self.reply(s, [b'OK closing connection'], False)
        else:
            # options, resets and the like
            self.reply(s, self.noise([]) + [b'OK'], False)

    def data_lines(self, data):
        """The passphrase in any number of data lines."""
        ch = self.ch
        how = ch.below(3, 'escape')
        units = []
        for b in data:
            c = bytes([b])
            if c in b'%\r\n' or how == 2 or (how == 1 and not (
                    33 <= b < 127)):
                c = (b'%%%02X' if ch.chance(3, 4, 'upper') or how
                     else b'%%%02x') % b
            units.append(c)
        parts = ch.pick([1, 1, 2, 3, 30], 'data-lines')
        lines = []
        full = ch.chance(1, 2, 'full-lines')
        while units:
            n = min(len(units), 300)
            if full:
                # as many as a line of 1000 octets may hold
                n = room = 0
                for u in units:
                    room += len(u)
                    if room > 997:
                        break
                    n += 1
            if parts > 1:
                n = min(n, 1 + ch.below(max(1, 2 * len(units) // parts),
                                        'in-line'))
            parts -= 1
            lines.append(b'D ' + b''.join(units[:n]))
            units = units[n:]
        return lines or [b'D ']


class Check(BaseCheck):

    id = 'C14'
    runs = {'quick': 15000, 'thorough': 300000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.pinentry',)
    rule = ('one run = one to three tasks, each with its own client, make up '
            'to six requests to one simulated gpg-agent over simulated '
            'sockets which take part of what is sent, fragment and delay '
            'replies and cut the connection at any octet; the agent mixes '
            'status lines, comments and data lines; every outcome is judged '
            'from what the agent got and sent; non-trivial = a passphrase '
            'was returned and a fault was injected')
    real_components = ['pgp.pinentry.gpg_agent']
    stub_components = ['sockets', 'gpg-agent', 'clock']
    measure = 'sha-256 of requests, replies and outcomes'
    assumptions = ['an agent that neither answers nor closes the connection '
                   'is waited for']

    def load(self):
        import pgp.pinentry.gpg_agent as mod
        net_mod.install()
        self.Client = mod.GPGAgentPinentry

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 100, 20], 'preempt-mean'),
                       max_steps=400000)
        proc = sim.process('client')
        net = net_mod.Network(sim)
        agent = Agent(sim, ch)
        net.listeners[PATH] = agent.accept
        net.connect_faults[PATH] = functools.partial(self.connecting, agent)
        self.interrupts = {}
        net.interrupt = functools.partial(self.interrupt, sim)
        state = {'ok': 0, 'failed': 0}
        by_env = ch.chance(1, 4, 'from-environment')
        if by_env:
            os.environ['GPG_AGENT_INFO'] = PATH + ':1234:1'
        try:
            clients = [self.Client() if by_env
                       else self.Client(socket_path=PATH)
                       for _ in range(1 + ch.below(3, 'tasks'))]
        finally:
            os.environ.pop('GPG_AGENT_INFO', None)
        for i, c in enumerate(clients):
            sim.spawn(proc, functools.partial(
                self.user, sim, ch, agent, net, c, state), 'u%d' % i)
        core.run_sim(sim)
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', tb[-900:])
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', 'a request never ends: %r' % (
                    sim.deadlock,))
        return Run.of(ch, sim, nontrivial=bool(
            state['ok'] and sim.fault_counts), sample='trouble %d' %
            agent.trouble)

    def connecting(self, agent):
        if agent.faulty('connect', 12):
            return agent.ch.pick([errno.ECONNREFUSED, errno.EACCES,
                                  errno.ENOENT], 'connect')
        return None

    def interrupt(self, sim, kind):
        n = self.interrupts.get(sim.current)
        if n is not None:
            if n == 0:
                del self.interrupts[sim.current]
                sim.fault('interrupt')
                raise Boom()
            self.interrupts[sim.current] = n - 1

    def user(self, sim, ch, agent, net, client, state):
        for _ in range(1 + ch.below(6, 'requests')):
            if ch.chance(1, 5, 'calm'):
                agent.calm = True
            cid = ch.pick(IDS, 'cache-id')
            clear = cid and ch.chance(1, 4, 'clear')
            if clear:
                what = 'clear %r' % cid
                fn = functools.partial(client.clear_passphrase, cid)
            else:
                args = {}
                for k in ('prompt', 'error_message', 'description'):
                    v = ch.pick(FIELDS, k)
                    if v is not None:
                        args[k] = v
                if cid:
                    args['cache_id'] = cid
                if ch.chance(1, 4, 'no-ask'):
                    args['no_ask'] = True
                if ch.chance(1, 6, 'quality'):
                    args['qualitybar'] = True
                r = ch.pick([None, 0, 1, 2, 7], 'repeat')
                if r is not None:
                    args['repeat'] = r
                what = 'get %r' % (args,)
                fn = functools.partial(client.get_passphrase, **args)
            if not agent.calm and agent.trouble and ch.chance(1, 10,
                                                              'interrupt'):
                self.interrupts[sim.current] = ch.below(60, 'interrupt-at')
            mark, socks = len(agent.log), len(net.sockets)
            me = sim.current
            calm = agent.calm
            error = result = None
            try:
                result = fn()
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                error = e
            except Boom as e:
                error = e
            self.interrupts.pop(me, None)
            mine = [s for s in agent.log[mark:] if s.task is me]
            sim.event('outcome', what, repr(result), type(error).__name__)
            sim.shape.update(repr((what, result, type(error).__name__)
                                  ).encode('utf8', 'replace'))
            for s in net.sockets[socks:]:
                if s.owner is me and not s.really_closed:
                    raise Violation('left-open', '%s: %r; the connection was '
                                    'left open' % (what, error))
            if error is None:
                state['ok'] += 1
                self.judge(what, clear, cid, result, mine,
                           None if clear else args)
            else:
                state['failed'] += 1
                if calm and not (mine and mine[-1].answer == 'err'):
                    raise Violation('refused', '%s: although nothing went '
                                    'wrong: %r' % (what, error))

    def judge(self, what, clear, cid, result, mine, args):
        if not mine or mine[-1].answer is None:
            raise Violation('invented', '%s: returned %r, but the agent got '
                            'no request' % (what, result))
        s = mine[-1]
        if s.answer != 'ok':
            raise Violation('error-ignored', '%s: returned %r, but the '
                            'agent\'s answer was: %s' % (what, result,
                                                         s.answer))
        if clear:
            if s.fields != [cid]:
                raise Violation('wrong-request', '%s: the agent got %r' % (
                    what, s.requests))
            return
        if result != s.sent:
            raise Violation('wrong-passphrase', '%s: returned %r, the agent '
                            'sent %r' % (what, result, s.sent))
        want = [cid] + [args.get(k) for k in ('error_message', 'prompt',
                                              'description')]
        want = [w or 'X' for w in want]
        if s.fields != want:
            raise Violation('wrong-request', '%s: the agent understood %r' %
                            (what, s.fields))
        opts = [b'--data']
        if args.get('no_ask'):
            opts.append(b'--no-ask')
        if args.get('qualitybar'):
            opts.append(b'--qualitybar')
        r = args.get('repeat', 0)
        if r == 1:
            opts.append(b'--repeat')
        elif r:
            opts.append(b'--repeat=%d' % r)
        got = [b'--repeat' if o == b'--repeat=1' else o for o in s.opts
               if o != b'--repeat=0']
        if sorted(opts) != sorted(got):
            raise Violation('wrong-request', '%s: options %r' % (what,
                                                                 s.opts))
