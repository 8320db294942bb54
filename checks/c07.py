"""C07: an integrity-protected message arrives exactly or not at all."""
import io

from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys


def lenient_tags(data):
    """Tags of the packets a very tolerant reader could see."""
    tags = []
    i = 0
    data = bytes(data)
    try:
        while i < len(data):
            t = data[i]
            i += 1
            if t & 0x40:
                tags.append(t & 0x3f)
                while True:
                    l = data[i]
                    if l < 192:
                        n, i, more = l, i + 1, False
                    elif l < 224:
                        n, i, more = ((l - 192) << 8) + data[i + 1] + 192, \
                            i + 2, False
                    elif l == 255:
                        n = int.from_bytes(data[i + 1:i + 5], 'big')
                        i, more = i + 5, False
                    else:
                        n, i, more = 1 << (l & 31), i + 1, True
                    i += n
                    if not more:
                        break
            else:
                tags.append((t >> 2) & 15)
                w = 1 << (t & 3)
                if w == 8:
                    break
                n = int.from_bytes(data[i:i + w], 'big')
                i += w + n
    except IndexError:
        pass
    return tags


class Channel(object):
    """A link that moves a message in frames and can do anything to them."""

    def __init__(self, sim, ch, other):
        self.sim = sim
        self.ch = ch
        self.other = other          # bytes of another message

    def spot(self, n):
        """An offset; the edges and the middle are all likely."""
        ch = self.ch
        if ch.chance(1, 3, 'edge'):
            k = ch.below(min(n, 48), 'edge-off')
            return n - 1 - k if ch.chance(1, 2, 'from-end') else k
        return ch.below(n, 'offset')

    def damage(self, data, faults):
        data = bytearray(data)
        for _ in range(faults):
            if not data:
                break
            self.one(data)
        return bytes(data)

    def length(self, limit):
        return 1 + self.ch.below(min(max(1, limit), self.ch.pick(
            [1, 8, 16, 20, 64, 512], 'block')), 'block-len')

    def one(self, data):
        ch = self.ch
        kind = ch.pick(['flip', 'burst', 'drop', 'cut', 'insert', 'dup',
                        'swap', 'replace', 'zero', 'cut-front', 'append'],
                       'damage')
        self.sim.fault(kind)
        n = len(data)
        at = self.spot(n)
        if kind == 'flip':
            data[at] ^= 1 << ch.below(8, 'bit')
        elif kind == 'burst':
            k = min(self.length(n), n - at)
            noise = ch.data(k)
            for i in range(k):
                data[at + i] ^= noise[i] or 0x55
        elif kind == 'drop':
            del data[at:at + self.length(n - 1)]
        elif kind == 'cut':
            del data[at:]
        elif kind == 'cut-front':
            del data[:at]
        elif kind == 'insert':
            data[at:at] = ch.data(self.length(512))
        elif kind == 'dup':
            k = self.length(n)
            data[at:at] = data[at:at + k]
        elif kind == 'swap':
            k = min(self.length(n // 2), n // 2)
            b = self.spot(n)
            a, b = min(at, b), max(at, b)
            if b - a < k:
                k = b - a
            if b + k > n:
                k = n - b
            if k:
                x = data[a:a + k]
                data[a:a + k] = data[b:b + k]
                data[b:b + k] = x
        elif kind == 'replace':
            # never the whole of the other message's data
            k = min(self.length(512), len(self.other) // 2)
            src = ch.below(max(1, len(self.other) - k), 'from')
            data[at:at + k] = self.other[src:src + k]
        elif kind == 'zero':
            k = min(self.length(n), n - at)
            data[at:at + k] = b'\0' * k
        elif kind == 'append':
            data.extend(ch.data(self.length(64)))

    def transmit(self, wire):
        """(bytes as delivered, description)"""
        ch = self.ch
        sim = self.sim
        mode = ch.weighted([('clean', 1), ('raw', 4), ('body', 5),
                            ('packets', 2), ('frames', 2)], 'transmission')
        sim.step('net', mode, pure=True)
        if mode == 'clean':
            return wire, mode
        faults = 1 + (ch.below(3, 'faults') if ch.chance(1, 3, 'multi')
                      else 0)
        if mode == 'raw':
            return self.damage(wire, faults), mode
        if mode == 'frames':
            return self.frames(wire), mode
        pk = [(t, b) for t, b, _ in keys.split_packets(wire)]
        if mode == 'body':
            # mostly the encrypted data, sometimes a session key packet
            i = len(pk) - 1
            if ch.chance(1, 4, 'session-key'):
                i = ch.below(len(pk), 'which')
            pk[i] = (pk[i][0], self.damage(pk[i][1], faults))
        else:
            for _ in range(faults):
                k = ch.pick(['dup', 'drop', 'swap'], 'packet-damage')
                sim.fault('packet-' + k)
                i = ch.below(len(pk), 'packet')
                j = ch.below(len(pk), 'packet')
                if k == 'dup':
                    pk.insert(j, pk[i])
                elif k == 'drop' and len(pk) > 1:
                    del pk[i]
                else:
                    pk[i], pk[j] = pk[j], pk[i]
        return b''.join(keys.packet(t, b) for t, b in pk), mode

    def frames(self, wire):
        """Cut into frames that are lost, repeated, reordered, damaged."""
        ch = self.ch
        size = ch.pick([16, 8, 20, 64, 256, 1000], 'frame-size')
        fr = [wire[i:i + size] for i in range(0, len(wire), size)]
        out = []
        late = []
        rate = ch.pick([20, 3, 8, 100], 'loss')
        for f in fr[:600]:
            self.sim.step('net', 'frame', pure=True)
            if not ch.chance(1, rate, 'frame-fault'):
                out.append(f)
                continue
            k = ch.pick(['loss', 'repeat', 'reorder', 'corrupt', 'delay',
                         'stop'], 'frame-damage')
            self.sim.fault('frame-' + k)
            if k == 'repeat':
                out += [f, f]
            elif k == 'reorder' and out:
                out.insert(len(out) - 1, f)
            elif k == 'corrupt':
                out.append(self.damage(f, 1))
            elif k == 'delay':
                late.append(f)
            elif k == 'stop':
                return b''.join(out)
        out += fr[600:]
        for f in late:
            out.insert(ch.below(len(out) + 1, 'late'), f)
        return b''.join(out)


class Check(BaseCheck):

    id = 'C07'
    runs = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 200, 'thorough': 800}
    rule = ('one run = a sender encrypts a generated message (literal, '
            'compressed, signed, all ciphers, all recipient kinds) with '
            'integrity protection and sends it several times over a faulty '
            'link to its recipients, who each decrypt what arrived; '
            'non-trivial = at least one delivery was damaged and still '
            'recognisable as an encrypted message')
    real_components = ['pgp.message', 'pgp.packets', 'pgp.s2k', 'pgp.cipher',
                       'pgp.transferrable_keys (decryption)', 'PyCrypto']
    stub_components = ['the link', 'random numbers', 'clock',
                       'test keys are pre-generated and pre-unlocked']
    measure = ('sha-256 of the message shape, cipher, recipients and the '
               'kinds and places of all damage')
    assumptions = [
        'damage is noise: it does not forge SHA-1, and it does not replace a '
        'whole message by another complete one',
        'deliveries whose damaged header turns the message into one without '
        'integrity protection (tag 9) or into one that is not encrypted are '
        'outside the property']

    def load(self):
        self.world = mc.World()

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 20, 5], 'preempt-mean'),
                       max_steps=200000)
        proc = sim.process('peers')
        w = self.world
        state = {'nt': False, 'what': ''}
        boxes = []

        def sender():
            cipher = ch.pick(mc.CIPHERS, 'cipher')
            msg, what = mc.layered(ch, w, 2, big=ch.chance(1, 10, 'big'))
            rcpts = mc.recipients(ch, w, 3)
            enc = mc.encrypt(ch, w, msg, rcpts, cipher)
            wire = mc.wire(enc)
            # other mail that crosses the same link, to the same people
            omsg, _ = mc.layered(ch, w, 1, sign=False)
            if ch.chance(1, 3, 'same-content'):
                omsg = msg
            other = mc.wire(mc.encrypt(ch, w, omsg, rcpts, cipher))
            state['what'] = '%s cipher %d to %s' % (
                what, cipher, ', '.join(r.name for r in rcpts))
            sim.shape.update(state['what'].encode())
            sim.event('sent', state['what'], len(wire))
            want = mc.content(msg)
            link = Channel(sim, ch, other)
            for i in range(3 + ch.below(6, 'deliveries')):
                r = rcpts[ch.below(len(rcpts), 'to')]
                data, mode = link.transmit(wire)
                sim.sleep(ch.pick([0, 0.5, 3600], 'delay'))
                boxes.append((i, r, data, mode, data == wire, want))
            boxes.extend([None] * 2)

        def receiver():
            while True:
                sim.block(lambda: bool(boxes), None, 'mail')
                item = boxes.pop(0)
                if item is None:
                    return
                self.receive(sim, ch, state, *item)

        sim.spawn(proc, sender, 'sender')
        sim.spawn(proc, receiver, 'r1')
        sim.spawn(proc, receiver, 'r2')
        core.run_sim(sim)
        if sim.violation is None:
            if sim.deadlock or sim.out_of_steps:
                for t, e, tb in sim.failed_tasks:
                    raise core.HarnessError(tb)
                raise Violation('stuck', 'the receivers never ended')
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s: sending failed: %s' % (
                    state['what'], tb[-600:]))
        return Run.of(ch, sim, nontrivial=state['nt'], sample=state['what'])

    def receive(self, sim, ch, state, i, r, data, mode, clean, want):
        w = self.world
        sim.shape.update(b'%d' % len(data))
        if mode != 'clean' and not clean and 9 in lenient_tags(data):
            sim.probe('downgraded')
            return
        try:
            if ch.chance(1, 3, 'as-stream'):
                pk = list(w.parsers.parse_binary_packet_stream(
                    io.BytesIO(data)))
            else:
                pk = list(w.parsers.parse_binary_packet_data(data))
            msg = w.m.open_pgp_message_from_packets(pk)
            if not isinstance(msg, w.m.EncryptedMessageWrapper):
                sim.probe('not-encrypted')
                if clean:
                    raise Violation('clean-lost', '%s: undamaged wire parsed '
                                    'to %s' % (state['what'],
                                               type(msg).__name__))
                return
            if not clean:
                state['nt'] = True
                sim.probe('damaged-and-recognised')
            got = mc.content(msg.get_message(r.token))
        except Violation:
            raise
        except Exception as e:
            if core.is_harness_error(e):
                raise
            sim.event('delivery', i, mode, 'raised', type(e).__name__)
            if clean:
                raise Violation(
                    'clean-refused', '%s: delivered undamaged, but decrypting '
                    'as %s raised %r' % (state['what'], r.name, e))
            return
        sim.event('delivery', i, mode, 'decrypted')
        if got != want:
            raise Violation(
                'altered', '%s: delivery %d (%s) was damaged; decrypting it '
                'as %s returned %s instead of %s or an error' % (
                    state['what'], i, mode, r.name, mc.brief(got),
                    mc.brief(want)))
        if not clean:
            sim.probe('damage-without-effect')
