"""C10: every recipient can read a message, and nobody else."""
import io
import unicodedata

from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys
from sim import pgpmsg
from sim import pgpref


class Mail(object):
    pass


class Check(BaseCheck):

    id = 'C10'
    runs = {'quick': 2600, 'thorough': 60000}
    wall = {'quick': 240, 'thorough': 800}
    rule = ('one run = one or two senders (the library, or an independent '
            'implementation) encrypt generated messages to generated sets of '
            'RSA and ElGamal keys, hidden or not, and passphrases while the '
            'system random source has windows of extreme values; mail goes '
            'directly, as a stream, armored or through a relay; receivers '
            'read it as every recipient and as outsiders, each time also '
            'with an independent implementation; non-trivial = at least two '
            'readers tried to read one message')
    real_components = ['pgp.message', 'pgp.packets', 'pgp.s2k', 'pgp.cipher',
                       'pgp.utils', 'pgp.armor', 'pgp.shortcuts',
                       'pgp.transferrable_keys (key objects)', 'PyCrypto']
    stub_components = ['the link', 'random numbers', 'clock',
                       'reference sender and receiver (sim/pgpmsg.py)',
                       'test keys are pre-generated and pre-unlocked']
    measure = ('sha-256 of message shape, cipher, recipients, protection, '
               'random-source plan and the way the mail travelled')
    assumptions = [
        'without integrity protection a wrong key may yield noise (it must '
        'not yield the content)',
        'the random source recovers after a window of extreme values: '
        'padding and nonces need a non-constant source to be drawn at all']

    def load(self):
        import pgp.armor
        import pgp.shortcuts
        self.world = mc.World()
        self.armor = pgp.armor
        self.short = pgp.shortcuts
        w = self.world
        self.locked = [w.library_key(k.ref, unlock=False) for k in w.keys]

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 20, 5], 'preempt-mean'),
                       max_steps=300000)
        proc = sim.process('peers')
        state = {'nt': False, 'what': []}
        rng = mc.rng_plan(ch, sim)
        sim.event('rng', rng)
        box = []
        n = 1 + ch.below(2, 'senders')
        ended = [0]

        def sender():
            try:
                for _ in range(1 + ch.below(2, 'messages')):
                    box.append(self.send(sim, ch, state))
                    sim.sleep(ch.pick([0, 1, 3600], 'pause'))
            finally:
                ended[0] += 1

        def receiver():
            while True:
                sim.block(lambda: bool(box) or ended[0] == n, None, 'mail')
                if not box:
                    return
                self.receive(sim, ch, state, box.pop(0))

        for i in range(n):
            sim.spawn(proc, sender, 's%d' % i)
        for i in range(1 + ch.below(2, 'receivers')):
            sim.spawn(proc, receiver, 'r%d' % i)
        core.run_sim(sim)
        what = ' | '.join(state['what'])
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s (random source %s): %s' % (
                    what, rng, tb[-700:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', what)
        return Run.of(ch, sim, nontrivial=state['nt'], sample=what)

    # -- sending ------------------------------------------------------------

    def send(self, sim, ch, state):
        w = self.world
        m = Mail()
        m.cipher = ch.pick(mc.CIPHERS, 'cipher')
        m.protect = not ch.chance(1, 3, 'unprotected')
        m.msg, what = mc.layered(ch, w, 2, big=ch.chance(1, 40, 'big'))
        m.rcpts = mc.recipients(ch, w, 4, allow_empty_passphrase=True)
        m.want = mc.content(m.msg)
        m.inner = mc.wire(m.msg)
        reference = ch.chance(1, 4, 'by-reference')
        m.what = '%s cipher %d%s to %s%s' % (
            what, m.cipher, '' if m.protect else ' unprotected',
            ', '.join(r.name for r in m.rcpts),
            ' by the reference' if reference else '')
        state['what'].append(m.what)
        sim.shape.update(m.what.encode())
        sim.event('send', m.what)
        if reference:
            raw = self.reference(ch, m)
        else:
            explicit = None
            if ch.chance(1, 8, 'own-session-key'):
                explicit = ch.data(pgpref.KEYLEN[m.cipher])
            odd = [1000, 70000, 65535, 999999] if ch.chance(
                1, 8, 'odd-count') else []
            try:
                enc = mc.encrypt(ch, w, m.msg, m.rcpts, m.cipher, m.protect,
                                 explicit, odd)
                raw = mc.wire(enc)
            except ValueError:
                if not odd:
                    raise
                # No specifier can say this count.
                sim.probe('odd-count-refused')
                enc = mc.encrypt(ch, w, m.msg, m.rcpts, m.cipher, m.protect,
                                 explicit)
                raw = mc.wire(enc)
            if ch.chance(1, 6, 'read-own'):
                # without a trip over the wire
                self.read_with(sim, enc, m, m.rcpts[0], 'as made')
        m.raw = raw
        m.data = self.travel(sim, ch, m, raw)
        return m

    def reference(self, ch, m):
        """The same message, made by an independent implementation."""
        key = ch.data(pgpref.KEYLEN[m.cipher])
        if m.cipher == 2 or ch.chance(1, 6, 'odd-key'):
            key = bytes(b | 1 for b in key)
        packets = []

        def draw(n):
            return bytes((b or 1) for b in ch.data(n))
        only = len(m.rcpts) == 1 and m.rcpts[0].kind == 'passphrase'
        for r in m.rcpts:
            if r.kind == 'passphrase':
                spec = (ch.pick([3, 1, 0], 's2k'),
                        ch.pick(mc.HASHES, 's2k-hash'), ch.data(8),
                        ch.pick([96, 0, 1, 0x21], 's2k-coded'))
                p = r.token.encode('utf8')
                if only and ch.chance(1, 2, 'direct-key'):
                    # the passphrase gives the session key itself
                    pk, key = pgpmsg.skesk(m.cipher, p, spec)
                else:
                    outer = m.cipher
                    if ch.chance(1, 3, 'other-outer'):
                        outer = ch.pick(mc.CIPHERS, 'outer-cipher')
                    pk, _ = pgpmsg.skesk(outer, p, spec, key, m.cipher)
                packets.append(pk)
            else:
                packets.append(pgpmsg.pkesk(r.who[2], m.cipher, key, draw,
                                            r.kind == 'hidden'))
        if ch.chance(1, 2, 'shuffle-esks'):
            packets = packets[::-1]
        prefix = ch.data(pgpref.BLOCK[m.cipher])
        packets.append(pgpmsg.encrypt_data(m.cipher, key, m.inner, m.protect,
                                           prefix))
        partial = ch.pick([0, 0, 512, 1024], 'partial')
        return b''.join(
            keys.packet(t, b, partial=partial if t in (9, 18) and
                        len(b) > partial else 0) for t, b in packets)

    def travel(self, sim, ch, m, raw):
        w = self.world
        m.way = ch.pick(['direct', 'stream', 'armor', 'relay'], 'way')
        sim.shape.update(m.way.encode())
        if m.way == 'armor':
            return str(self.armor.ASCIIArmor(self.armor.PGP_MESSAGE,
                                             bytearray(raw)))
        if m.way == 'relay':
            # a list server that parses and writes again
            return mc.wire(w.parse(raw))
        return raw

    def parse(self, m):
        w = self.world
        if m.way == 'armor':
            return self.short.read_message(m.data)
        if m.way == 'stream':
            return w.m.open_pgp_message_from_packets(list(
                w.parsers.parse_binary_packet_stream(io.BytesIO(m.data))))
        return w.parse(m.data)

    # -- receiving ------------------------------------------------------------

    def read_with(self, sim, enc, m, r, how):
        token = r.token
        if r.kind == 'passphrase':
            token = mc.as_given(sim.choices, token)
        try:
            got = mc.content(enc.get_message(token))
        except Exception as e:
            if core.is_harness_error(e):
                raise
            raise Violation('unreadable', '%s: %s cannot read it (%s): %r' % (
                m.what, r.name, how, e))
        if got != m.want:
            raise Violation('different', '%s: %s reads %s (%s) instead of '
                            '%s' % (m.what, r.name, mc.brief(got), how,
                                    mc.brief(m.want)))

    def receive(self, sim, ch, state, m):
        enc = self.parse(m)
        if not isinstance(enc, self.world.m.EncryptedMessageWrapper):
            raise Violation('lost', '%s: arrives as %r' % (m.what, enc))
        order = list(m.rcpts)
        if ch.chance(1, 2, 'other-order'):
            order.reverse()
        fresh = ch.chance(1, 2, 'own-copy')
        for r in order:
            self.read_with(sim, self.parse(m) if fresh else enc, m, r, m.way)
            sim.probe('read-' + r.kind)
        self.independent(sim, ch, m)
        readers = len(order) + self.outsiders(sim, ch, m, enc)
        # they did not spoil it for the recipients
        r = order[ch.below(len(order), 'again')]
        self.read_with(sim, enc, m, r, 'after outsiders tried')
        if readers > 1:
            state['nt'] = True

    def independent(self, sim, ch, m):
        try:
            e = pgpmsg.Encrypted(m.raw)
            if e.protected != m.protect:
                raise pgpmsg.Unreadable('protected: %r' % e.protected)
        except (pgpmsg.Unreadable, ValueError, IndexError) as x:
            raise Violation('malformed', '%s: %s' % (m.what, x))
        for r in m.rcpts:
            try:
                if r.kind == 'passphrase':
                    got = e.read(passphrase=r.token.encode('utf8'))
                else:
                    got = e.read(part=r.who[2])
            except pgpmsg.Unreadable as x:
                raise Violation(
                    'unreadable', '%s: an independent implementation cannot '
                    'read it as %s: %s' % (m.what, r.name, x))
            if got[5] != m.inner or got[1] != m.cipher:
                raise Violation(
                    'different', '%s: an independent implementation reads '
                    '%s (cipher %d) as %s' % (
                        m.what, mc.brief(got[5]), got[1], r.name))
            if r.kind != 'passphrase' and \
                    got[0].is_hidden() != (r.kind == 'hidden'):
                raise Violation('hidden', '%s: key ID %s for %s' % (
                    m.what, got[0].key_id, r.name))

    def outsiders(self, sim, ch, m, enc):
        w = self.world
        inside = [r.who[0] for r in m.rcpts if r.who]
        words = [r.token for r in m.rcpts if not r.who]
        who = []
        for c in w.all_crypters():
            if c[0] not in inside:
                who.append(('the key of another (%s)' % c[2].kind, c[0]))
        for k in self.locked:
            for s, p, ref in k.crypters:
                if any(r.who and r.who[2].key_id() == ref.key_id()
                       for r in m.rcpts):
                    who.append(('its own locked key', s))
        for s in w.all_signers():
            if s[0] not in inside and s[2].kind == 'dsa':
                who.append(('a DSA key', s[0]))
        guesses = [p for p in mc.PASSPHRASES if p not in words]
        for p in words:
            guesses += [p + ' ', p[:-1], p.upper(), p + p, p + '\0',
                        unicodedata.normalize('NFC', p),
                        unicodedata.normalize('NFD', p), p.strip()]
        for p in guesses:
            if p not in words:
                who.append(('passphrase %r' % p[:20], p))
        n = 0
        for _ in range(1 + ch.below(4, 'outsiders')):
            name, token = who[ch.below(len(who), 'outsider')]
            n += 1
            sim.probe('outsider')
            try:
                got = mc.content(enc.get_message(token))
            except Exception as e:
                if core.is_harness_error(e):
                    raise
                continue
            if m.protect or got == m.want:
                raise Violation('leaked', '%s: %s, who is not a recipient, '
                                'reads %s' % (m.what, name, mc.brief(got)))
        return n
