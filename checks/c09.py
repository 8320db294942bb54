"""C09: genuine signatures always verify, altered ones never do."""
import datetime
import struct

from checks import messages_common as mc
from checks import packets_common as pc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys
from sim import pgpref

EPOCHS = [1400000000, 0, 1, 86400, 951782400, 1900000000, 2 ** 31 - 2,
          2 ** 31 + 5, 4000000000, 2 ** 32 - 100000]


def signed_part(body):
    """What a signature packet asserts: everything but unhashed subpackets
    and the encoding of numbers. Independent of the library; None if it
    cannot be read."""
    try:
        v = body[0]
        if v >= 4:
            typ, pk, ha = body[1], body[2], body[3]
            n = struct.unpack('>H', body[4:6])[0]
            hashed = body[:6 + n]
            if len(hashed) < 6 + n:
                return None
            i = 6 + n
            m = struct.unpack('>H', body[i:i + 2])[0]
            i += 2 + m
        elif v in (2, 3):
            typ, pk, ha = body[2], body[15], body[16]
            # versions 2 and 3 are one format
            v = 3
            hashed = (body[2:7], body[7:15])
            i = 17
        else:
            return None
        if i + 2 > len(body):
            return None
        count = {1: 1, 3: 1, 17: 2}.get(pk)
        if count is None:
            return None
        values, _ = pgpref.read_mpis(body, i + 2, count)
        if len(values) != count:
            return None
        return (v, typ, pk, ha, bytes(hashed) if v >= 4 else hashed,
                bytes(body[i:i + 2]), tuple(values))
    except (IndexError, struct.error, ValueError):
        return None


def same_key(a, b, ref):
    """Do two key packet bodies hold the same key, written differently?"""
    if a[:6] != b[:6]:
        return False
    try:
        return pgpref.read_mpis(b, 6, len(ref.pub))[0] == ref.pub
    except (ValueError, struct.error, IndexError):
        return False


class Item(object):
    """Something that can be signed, in the library and in the reference."""

    def __init__(self, kind, obj, keep=(), **more):
        self.kind = kind
        self.obj = obj
        self.keep = keep
        self.__dict__.update(more)


class Check(BaseCheck):

    id = 'C09'
    runs = {'quick': 9000, 'thorough': 120000}
    wall = {'quick': 200, 'thorough': 800}
    rule = ('one run = signer tasks (RSA and DSA, primary keys and subkeys, '
            'all hashes, V3 and V4, documents, texts, user IDs, user '
            'attributes, keys, subkeys) that sign at generated times with a '
            'generated random source, and verifier tasks that parse and '
            'verify, then verify with one thing altered; half of the '
            'signatures come from or are re-checked by an independent '
            'implementation; non-trivial = at least one altered signature '
            'was presented')
    real_components = ['pgp.transferrable_keys', 'pgp.signature',
                       'pgp.message', 'pgp.packets', 'pgp.utils', 'PyCrypto']
    stub_components = ['clock', 'random numbers', 'the link',
                       'reference signer and verifier (sim/pgpref.py)']
    measure = ('sha-256 of signer, hash, version, type, item, time and all '
               'alterations')
    assumptions = ['DSA digests are at least as long as q',
                   'alterations of unhashed subpackets and of the encoding '
                   'of an unchanged number are not alterations of what was '
                   'signed',
                   'altered text with the same canonical form is the same '
                   'text for a canonical-text signature']

    def load(self):
        import pgp.signature
        import pgp.exceptions
        from pgp.packets import packets
        from pgp.packets import signature_subpackets as ss
        self.world = mc.World()
        self.sig = pgp.signature
        self.packets = packets
        self.ss = ss
        w = self.world
        self.signers = w.all_signers()

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 20, 5], 'preempt-mean'),
                       max_steps=200000)
        proc = sim.process('peers')
        sim.wall = ch.pick(EPOCHS, 'epoch') - sim.now
        state = {'nt': False, 'what': [], 'walls': [sim.wall]}
        rng = mc.rng_plan(ch, sim)
        sim.event('rng', rng)
        box = []
        n = 1 + ch.below(2, 'signer-tasks')
        ended = [0]

        def signer():
            try:
                for _ in range(1 + ch.below(2, 'signatures')):
                    box.append(self.make(sim, ch, state))
                    # clock jumps between signing and verifying
                    sim.wall += ch.pick([0, 3600, -3600, 10 ** 8], 'jump')
                    sim.wall = max(sim.wall, -sim.now)
                    state['walls'].append(sim.wall)
                    sim.sleep(ch.pick([0, 1, 3600], 'pause'))
            finally:
                ended[0] += 1

        def verifier():
            while True:
                sim.block(lambda: bool(box) or ended[0] == n, None, 'mail')
                if not box:
                    return
                self.receive(sim, ch, state, box.pop(0))

        for i in range(n):
            sim.spawn(proc, signer, 's%d' % i)
        sim.spawn(proc, verifier, 'v0')
        if ch.chance(1, 2, 'two-verifiers'):
            sim.spawn(proc, verifier, 'v1')
        core.run_sim(sim)
        what = ' | '.join(state['what'])
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s (%s): %s' % (
                    what, rng, tb[-700:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', what)
        return Run.of(ch, sim, nontrivial=state['nt'], sample=what)

    # -- signing ------------------------------------------------------------

    def item(self, ch, lk):
        w = self.world
        tk = w.tk
        kind = ch.weighted([('document', 5), ('text', 3), ('uid', 3),
                            ('subkey', 2), ('key', 2), ('attribute', 2)],
                           'item')
        if kind == 'document':
            m = w.m.BinaryMessage(
                ch.data(ch.pick([0, 1, 20, 100, 300, 5000], 'size')),
                'a.bin', datetime.datetime.fromtimestamp(1400000000))
            return Item(kind, m, types=[0])
        if kind == 'text':
            m = w.m.TextMessage(
                ch.pick(mc.TEXTS, 'text'), 'a.txt',
                datetime.datetime.fromtimestamp(1400000000))
            return Item(kind, m, types=[1, 0])
        other = w.keys[ch.below(len(w.keys), 'target-key')]
        if kind == 'uid':
            pk = other.public
            if ch.chance(1, 2, 'new-uid'):
                u = ch.pick(pc.USER_IDS, 'uid')
                if ch.chance(1, 5, 'long-uid'):
                    u = (u + 'Long \u0141') * ch.pick([40, 300, 12000],
                                                     'times')
                u = tk.UserID(pk, u)
            else:
                u = pk.user_ids[ch.below(len(pk.user_ids), 'which-uid')]
            return Item(kind, u, (pk,), types=[0x10, 0x11, 0x12, 0x13, 0x30],
                        key=other)
        if kind == 'attribute':
            pk = other.public
            a = tk.UserAttribute(pk, [tk.UserAttributeContentItem(
                'image/jpeg', ch.data(ch.pick([1, 170, 175, 176, 200, 8365,
                                               8370], 'image')))
                for _ in range(1 + ch.below(2, 'images'))])
            return Item(kind, a, (pk,), types=[0x10, 0x13, 0x30], key=other)
        if kind == 'subkey':
            pk = other.public
            return Item(kind, pk.subkeys[ch.below(len(pk.subkeys),
                                                  'which-subkey')],
                        (pk,), types=[0x18, 0x28], key=other)
        return Item(kind, other.public, types=[0x1f, 0x20], key=other)

    def subpackets(self, ch):
        ss = self.ss
        out = []
        raw = b''
        for _ in range(ch.weighted([(0, 3), (1, 3), (2, 2), (4, 1)],
                                   'extra-subpackets')):
            d = pc.a_subpacket(ch)
            raw += d
            sp, _ = ss.signature_subpacket_from_data(bytearray(d), 0)
            out.append(sp)
        return out, raw

    def make(self, sim, ch, state):
        s = self.signers[ch.below(len(self.signers), 'signer')]
        it = self.item(ch, s)
        typ = ch.pick(it.types, 'sig-type')
        h = mc.pick_hash(ch, s)
        reference = ch.chance(1, 4, 'by-reference')
        version = 4
        if not reference and ch.chance(1, 5, 'v3'):
            version = 3
        extra, raw = self.subpackets(ch)
        what = '%s V%d type %#x hash %d over %s%s' % (
            s[2].kind, version, typ, h, it.kind,
            ' by the reference' if reference else '')
        state['what'].append(what)
        sim.shape.update(what.encode())
        sim.event('sign', what)
        when = int(sim.wall + sim.now)
        wall = sim.wall
        if reference:
            body = pgpref.sig_packet(
                s[2], typ, h, when & 0xffffffff,
                self.hashed_content(it, typ, version),
                hashed=raw, k=2 + int.from_bytes(
                    ch.data(20), 'big') % (s[2].pub[1] - 3)
                if s[2].kind == 'dsa' else 1)
        else:
            if it.kind in ('document', 'text') and version == 4 and \
                    not extra and ch.chance(1, 2, 'message-api'):
                m = it.obj.sign(s[0], signature_type=typ, hash_algorithm=h,
                                one_pass=ch.chance(1, 2, 'one-pass'))
                it.signed = m
                sig = m.signatures[0]
            else:
                sig = s[0].sign(it.obj, version, typ, h,
                                hashed_subpackets=extra)
            body = bytes(sig.to_packet().content)
            self.judge_independently(sim, s, it, typ, version, body, when,
                                     what, wall, state['walls'])
        return (s, it, typ, version, body, what)

    def hashed_content(self, it, typ, version):
        """The bytes RFC 4880 5.2.4 feeds to the hash for the item."""
        if it.kind == 'document':
            return bytes(it.obj.data)
        if it.kind == 'text':
            t = it.obj.data
            if typ == 1:
                t = t.replace('\r\n', '\n').replace('\r', '\n').replace(
                    '\n', '\r\n')
            return t.encode('utf8')
        ref = it.key.ref
        head = pgpref.key_hash_bytes(ref.primary)
        if it.kind == 'key':
            return head
        if it.kind == 'subkey':
            i = list(it.key.public.subkeys).index(it.obj)
            return head + pgpref.key_hash_bytes(ref.parts[i + 1])
        if it.kind == 'uid':
            b = it.obj.user_id.encode('utf8', 'surrogateescape')
            mark = b'\xb4'
        else:
            b = b''
            for c in it.obj.content_items:
                b += keys.subpacket(1, b'\x10\x00\x01\x01' + b'\0' * 12 +
                                    bytes(c.data))
            mark = b'\xd1'
        if version >= 4:
            head += mark + struct.pack('>I', len(b))
        return head + b

    def judge_independently(self, sim, s, it, typ, version, body, when,
                            what, wall, walls):
        part = signed_part(body)
        if part is None:
            raise Violation('unreadable', '%s: the packet made cannot be '
                            'read: %r' % (what, body[:60]))
        if version >= 4:
            n = struct.unpack('>H', body[4:6])[0]
            head = body[:6 + n]
            trailer = head + b'\x04\xff' + struct.pack('>I', len(head))
            # another task may have moved the clock meanwhile
            if not any(keys.subpacket(2, struct.pack(
                    '>I', (when + d + int(w - wall)) & 0xffffffff)) in head
                    for w in walls for d in (0, 1)):
                raise Violation('time', '%s: signed at %d, but the signature '
                                'does not say so: %r' % (what, when, head))
        else:
            trailer = body[2:7]
        h = pgpref.new_hash(part[3], self.hashed_content(it, typ, version) +
                            trailer)
        d = h.digest()
        if d[:2] != part[5] or not s[2].verify(part[3], d, list(part[6])):
            raise Violation('not-genuine', '%s: an independent '
                            'implementation rejects the signature' % what)

    # -- verifying ------------------------------------------------------------

    def verify(self, public, body, item):
        """Parse and verify; (verified, error)."""
        try:
            pk = list(self.world.parsers.parse_binary_packet_data(
                keys.packet(2, body)))
            if len(pk) != 1:
                return False, 'parsed to %d packets' % len(pk)
            cls = self.sig.BaseSignature
            if not isinstance(item, self.world.m.BaseMessage):
                cls = self.world.tk.KeySignature
            sig = cls.from_packet(pk[0], item)
            ok = public.verify(sig, item)
        except Exception as e:
            if core.is_harness_error(e):
                raise
            return False, e
        # returning a false value is not reporting success
        return bool(ok), None

    def receive(self, sim, ch, state, mail):
        s, it, typ, version, body, what = mail
        sec, pub, ref = s
        ok, err = self.verify(pub, body, it.obj)
        sim.event('verify', what, ok, type(err).__name__)
        if not ok:
            raise Violation('genuine-refused', '%s: a genuine signature does '
                            'not verify: %r' % (what, err))
        self.roundtrip(sim, ch, mail)
        for _ in range(4 + ch.below(6, 'alterations')):
            self.alter(sim, ch, state, mail)

    def roundtrip(self, sim, ch, mail):
        """Message and key go through serialisation and parsing."""
        s, it, typ, version, body, what = mail
        w = self.world
        raw = s[2]
        kind = ch.pick(['none', 'message', 'certificate'], 'roundtrip')
        owner = [k for k in w.keys if s in k.parts][0]
        if kind != 'none':
            # what the owner of the secret key would publish
            out = b''.join(bytes(p) for p in
                           owner.secret.to_public_key().to_packets())
            pk = w.tk.TransferablePublicKey.from_packets(list(
                w.parsers.parse_binary_packet_data(out)))
            pub = ([pk] + list(pk.subkeys))[owner.parts.index(s)]
        if kind == 'message' and it.kind in ('document', 'text'):
            m = w.m.SignedMessageWrapper(
                [self.sig.BaseSignature.from_packet(list(
                    w.parsers.parse_binary_packet_data(
                        keys.packet(2, body)))[0], it.obj)],
                it.obj, ch.chance(1, 2, 'one-pass'))
            if hasattr(it, 'signed') and ch.chance(1, 2, 'as-made'):
                m = it.signed
            got = w.parse(mc.wire(m))
            try:
                ok = bool(pub.verify(got.signatures[0], got.message))
                err = None
            except Exception as e:
                ok, err = False, e
            if not ok:
                raise Violation('genuine-refused', '%s: after a round trip '
                                'the signature does not verify: %r' % (
                                    what, err))
        elif kind == 'certificate' and it.kind not in ('document', 'text'):
            pk2 = self.with_signature(it, body)
            target, sig = pk2[1], pk2[2]
            try:
                ok = bool(pub.verify(sig, target))
                err = None
            except Exception as e:
                ok, err = False, e
            if not ok:
                raise Violation('genuine-refused', '%s: after the certified '
                                'key was exported and imported the signature '
                                'does not verify: %r' % (what, err))

    def with_signature(self, it, body):
        """The certified key, exported with the signature and parsed."""
        w = self.world
        ref = it.key.ref
        pk = ref.packets(False)
        out = []
        if it.kind == 'key':
            out = [pk[0], (2, body)] + pk[1:]
        elif it.kind == 'subkey':
            i = list(it.key.public.subkeys).index(it.obj)
            want = ref.parts[i + 1].public_body()
            j = [k for k, p in enumerate(pk) if p == (14, want)][0]
            out = pk[:j + 2] + [(2, body)] + pk[j + 2:]
        else:
            tag = 13 if it.kind == 'uid' else 17
            b = bytes(it.obj.to_packet().content)
            j = [k for k, p in enumerate(pk) if p[0] == 14][0]
            out = pk[:j] + [(tag, b), (2, body)] + pk[j:]
        raw = b''.join(keys.packet(t, b) for t, b in out)
        key = w.tk.TransferablePublicKey.from_packets(list(
            w.parsers.parse_binary_packet_data(raw)))
        again = b''.join(bytes(p) for p in key.to_packets())
        key = w.tk.TransferablePublicKey.from_packets(list(
            w.parsers.parse_binary_packet_data(again)))
        if it.kind == 'key':
            return key, key, key.signatures[0]
        if it.kind == 'subkey':
            t = key.subkeys[i]
            return key, t, t.signatures[-1]
        t = (key.user_ids if it.kind == 'uid' else key.user_attributes)[-1]
        return key, t, t.signatures[-1]

    # -- alterations ------------------------------------------------------------

    def flip(self, ch, data, lo=0, hi=None):
        data = bytearray(data)
        hi = len(data) if hi is None else hi
        if hi <= lo:
            return bytes(data)
        for _ in range(1 + ch.weighted([(0, 6), (1, 1), (7, 1)], 'flips')):
            data[lo + ch.below(hi - lo, 'byte')] ^= 1 << ch.below(8, 'bit')
        return bytes(data)

    def alter(self, sim, ch, state, mail):
        s, it, typ, version, body, what = mail
        sec, pub, ref = s
        kinds = ['metadata', 'values', 'item', 'key', 'swap']
        kind = ch.pick(kinds, 'alteration')
        item = it.obj
        new = body
        who = pub
        keep = None
        if kind == 'metadata':
            end = 17
            if version >= 4:
                n = struct.unpack('>H', body[4:6])[0]
                end = 6 + n
            new = self.flip(ch, body, 0, end)
        elif kind == 'values':
            new = self.alter_values(ch, body, version, ref)
        elif kind == 'item':
            item, keep = self.alter_item(ch, it, typ)
            if item is None:
                return
        elif kind == 'key':
            who, new, keep = self.alter_key(ch, s, body, version)
            if who is None:
                return
        else:
            item, who, keep = self.swap(ch, s, it, typ)
            if item is None:
                return
        if kind in ('metadata', 'values') and \
                signed_part(new) == signed_part(body):
            return
        state['nt'] = True
        sim.fault('altered-' + kind)
        ok, err = self.verify(who, new, item)
        sim.event('altered', kind, ok, type(err).__name__)
        sim.shape.update(kind.encode() + new[:40])
        if ok:
            raise Violation(
                'altered-accepted', '%s: verified although the %s changed: '
                '%s' % (what, kind, self.difference(body, new, it, item)))

    def difference(self, a, b, it, item):
        out = []
        if a != b:
            out = ['byte %d %02x -> %02x' % (i, x, y)
                   for i, (x, y) in enumerate(zip(a, b)) if x != y][:6]
            if len(a) != len(b):
                out.append('length %d -> %d' % (len(a), len(b)))
        if item is not it.obj:
            out.append('item %r' % (getattr(item, 'data', None) or getattr(
                item, 'user_id', None) or item,))
        return ', '.join(str(x) for x in out)[:400]

    def alter_values(self, ch, body, version, ref):
        part = signed_part(body)
        values = list(part[6])
        i = len(body) - sum(2 + (v.bit_length() + 7) // 8 for v in values)
        how = ch.pick(['flip', 'flip', 'hash2', 'zero', 'plus', 'negate',
                       'one', 'swap', 'long'], 'value-change')
        if how == 'hash2':
            return self.flip(ch, body, i - 2, i)
        if how == 'flip':
            return self.flip(ch, body, i)
        k = ch.below(len(values), 'which')
        order = ref.pub[0] if ref.kind == 'rsa' else ref.pub[1]
        if how == 'zero':
            values[k] = 0
            if ch.chance(1, 2, 'all'):
                values = [0] * len(values)
        elif how == 'one':
            values[k] = 1
        elif how == 'plus':
            values[k] += order
        elif how == 'negate':
            values[k] = order - values[k]
        elif how == 'swap':
            values.reverse()
        elif how == 'long':
            values[k] += 1 << (order.bit_length() + ch.below(20, 'bits'))
        return body[:i] + b''.join(keys.mpi(v) for v in values)

    def alter_item(self, ch, it, typ):
        w = self.world
        if it.kind == 'document':
            data = it.obj.data
            how = ch.below(4, 'change')
            if how == 0 or not data:
                at = ch.below(len(data) + 1, 'at')
                data = data[:at] + ch.data(1 + ch.below(3, 'n')) + data[at:]
            elif how == 1:
                data = self.flip(ch, data)
            elif how == 2:
                data = data[:ch.below(len(data), 'cut')]
            else:
                at = ch.below(len(data), 'at')
                data = data[:at] + data[at + 1:]
            if data == it.obj.data:
                return None, None
            return w.m.BinaryMessage(data, it.obj.filename,
                                     it.obj.timestamp), None
        if it.kind == 'text':
            t = it.obj.data
            at = ch.below(len(t) + 1, 'at')
            how = ch.below(3, 'change')
            if how == 0:
                t = t[:at] + ch.pick(['x', ' ', '\n', '\r', '\t', '\u20ac'],
                                     'insert') + t[at:]
            elif how == 1:
                t = t[:at] + t[at + 1:]
            else:
                t = t.replace(*ch.pick([('\n', '\r\n'), ('\r\n', '\n'),
                                        (' ', '  '), ('\r', '\n')],
                                       'replace'))

            def canon(x):
                return x.replace('\r\n', '\n').replace('\r', '\n')
            a, b = it.obj.data, t
            if typ == 1:
                a, b = canon(a), canon(b)
            if a == b:
                return None, None
            return w.m.TextMessage(t, it.obj.filename, it.obj.timestamp), None
        tk = w.tk
        ref = it.key.ref
        how = ch.pick(['target-key', 'self'], 'change')
        packets = ref.packets(False)
        if it.kind == 'key' or how == 'target-key':
            # one bit of the primary key
            b = self.flip(ch, packets[0][1], 1)
            if same_key(packets[0][1], b, ref.primary):
                return None, None
            packets[0] = (6, b)
        key = self.parse_key(packets)
        if key is None:
            return None, None
        if it.kind == 'key':
            return key, key
        if it.kind == 'subkey':
            i = list(it.key.public.subkeys).index(it.obj)
            if how == 'self':
                want = ref.parts[i + 1].public_body()
                j = [k for k, p in enumerate(packets) if p == (14, want)][0]
                packets[j] = (14, self.flip(ch, want, 1))
                if same_key(want, packets[j][1], ref.parts[i + 1]):
                    return None, None
                key = self.parse_key(packets)
                if key is None:
                    return None, None
            return key.subkeys[i], key
        if it.kind == 'uid':
            u = it.obj.user_id
            if how == 'self':
                raw = bytearray(u.encode('utf8', 'surrogateescape'))
                if not raw or ch.chance(1, 4, 'longer'):
                    raw.append(0x20)
                else:
                    raw = bytearray(self.flip(ch, bytes(raw)))
                u = bytes(raw).decode('utf8', 'surrogateescape')
                if u == it.obj.user_id:
                    return None, None
            return tk.UserID(key, u), key
        items = [tk.UserAttributeContentItem(c.mime_type, bytes(c.data))
                 for c in it.obj.content_items]
        if how == 'self':
            k = ch.below(len(items), 'image')
            before = items[k].data
            items[k].data = self.flip(ch, before)
            if items[k].data == before:
                items.append(items[0])
        return tk.UserAttribute(key, items), key

    def parse_key(self, packets):
        try:
            return self.world.tk.TransferablePublicKey.from_packets(list(
                self.world.parsers.parse_binary_packet_data(b''.join(
                    keys.packet(t, b) for t, b in packets))))
        except Exception as e:
            if core.is_harness_error(e):
                raise
            return None

    def alter_key(self, ch, s, body, version):
        """The verifying key differs in some bit of its numbers."""
        w = self.world
        sec, pub, ref = s
        owner = [k for k in w.keys if s in k.parts][0]
        packets = owner.ref.packets(False)
        tag = 6 if ref is owner.ref.primary else 14
        want = ref.public_body()
        j = [k for k, p in enumerate(packets) if p == (tag, want)][0]
        how = ch.pick(['numbers', 'anything'], 'key-change')
        b = self.flip(ch, want, 8 if how == 'numbers' else 1)
        if b == want:
            return None, None, None
        packets[j] = (tag, b)
        key = self.parse_key(packets)
        if key is None:
            return None, None, None
        who = ([key] + list(key.subkeys))[owner.parts.index(s)]
        new = body
        try:
            values, _ = pgpref.read_mpis(b, 6, len(ref.pub))
        except (ValueError, struct.error):
            return None, None, None
        if values == ref.pub and b[:6] == want[:6]:
            return None, None, None     # only written differently
        if how == 'numbers' and values != ref.pub:
            # and claims to be the issuer
            old = bytes.fromhex(ref.key_id())
            fresh = bytes.fromhex(who.key_id)
            if version >= 4:
                n = struct.unpack('>H', body[4:6])[0]
                new = body[:6 + n] + body[6 + n:].replace(old, fresh, 1)
            else:
                new = body[:7] + fresh + body[15:]
        return who, new, key

    def swap(self, ch, s, it, typ):
        """Another signer's key, or another item."""
        w = self.world
        how = ch.pick(['signer', 'item'], 'swap')
        if how == 'signer':
            o = self.signers[ch.below(len(self.signers), 'other-signer')]
            if o is s:
                return None, None, None
            return it.obj, o[1], None
        if it.kind == 'uid':
            k = w.keys[ch.below(len(w.keys), 'other-key')]
            u = k.public.user_ids[0]
            if k is it.key and u.user_id == it.obj.user_id:
                return None, None, None
            return u, s[1], k
        if it.kind in ('subkey', 'key'):
            k = w.keys[ch.below(len(w.keys), 'other-key')]
            if k is it.key:
                if it.kind == 'key':
                    return k.public.subkeys[0], s[1], k
                return k.public, s[1], k
            return (k.public if it.kind == 'key' else k.public.subkeys[0],
                    s[1], k)
        return None, None, None
