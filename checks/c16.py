"""C16: key identity and timestamps in any time zone and under any clock."""
import datetime
import hashlib
import os
import struct
import time

from checks import messages_common as mc
from checks.base import BaseCheck, Run, Violation
from sim import core
from sim import keys
from sim import pgpref

ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3',
         'AEST-10AEDT,M10.1.0,M4.1.0/3', 'NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01',
         '<+0545>-5:45', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', '<-12>12',
         '<+14>-14', 'XXX-0:00:07',
         '<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45',
         'IST-1GMT0,M10.5.0,M3.5.0/1', 'AAA0BBB-3,M3.2.0,M11.1.0',
         'CCC-1DDD-3,M3.5.0/0,M10.5.0/0']
EDGES = [0, 1, 59, 3599, 43200, 50400, 86399, 86400, 951782400, 1330473600,
         1400000000, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 4000000000,
         2 ** 32 - 86400, 2 ** 32 - 2, 2 ** 32 - 1]
TEXT = ['\u2020 n\xe4me <a@example.org>', 'plain <b@example.org>', '']


def u32(n):
    return struct.pack('>I', n)


class SigModel(object):

    def __init__(self, version, typ, ctime, expires, key_expires, self_sig,
                 issuer, body):
        self.version = version
        self.typ = typ
        self.ctime = ctime
        self.expires = expires            # seconds, 0 or None
        self.key_expires = key_expires
        self.self_sig = self_sig
        self.issuer = issuer
        self.body = body

    @property
    def end(self):
        return self.ctime + self.expires if self.expires else None


class PartModel(object):
    """A key, subkey, user ID or user attribute with its signatures."""

    def __init__(self, kind, tag, body, ctime=None, days=None):
        self.kind = kind
        self.tag = tag
        self.body = body
        self.ctime = ctime
        self.days = days
        self.sigs = []


class Check(BaseCheck):

    id = 'C16'
    runs = {'quick': 6000, 'thorough': 80000}
    wall = {'quick': 240, 'thorough': 800}
    instrument = ('pgp.signature', 'pgp.transferrable_keys')
    rule = ('one run = a generated key (V3, V4, public, secret; RSA, DSA, '
            'ElGamal; signatures of versions 3 and 4 with and without '
            'expiry), message, signature or keyserver index at instants '
            'around the edges of 32 bits and around daylight-saving changes, '
            'parsed, examined, changed and written in two or three '
            'successive processes, each in its own time zone, while a task '
            'sets the clock back and forth between any two statements; '
            'every byte, key id, instant and expiry answer is compared with '
            'a reference; non-trivial = the zones have different offsets '
            'and the clock jumped')
    real_components = ['pgp.transferrable_keys', 'pgp.signature',
                       'pgp.message', 'pgp.packets', 'pgp.keyserver.hkp '
                       '(index lines)', 'the C library\'s time zones']
    stub_components = ['clock', 'random numbers', 'other processes (fresh '
                       'objects under another TZ)']
    measure = 'sha-256 of zones, kinds, instants, clock jumps and answers'
    assumptions = [
        'a signature has one creation time and at most one expiry time',
        'whether something has expired in the very instant of expiry is '
        'not specified',
        'signatures made in the same second have no defined order']

    def load(self):
        import pgp.keyserver.hkp as hkp
        import pgp.message
        import pgp.signature
        import pgp.transferrable_keys as tk
        from pgp.packets import parsers
        self.hkp = hkp
        self.m = pgp.message
        self.sig = pgp.signature
        self.tk = tk
        self.parsers = parsers
        self.world = mc.World()
        self.transitions = {}
        for z in ZONES:
            self.set_zone(z)
            self.transitions[z] = self.find_transitions()
        self.set_zone('UTC0')

    @staticmethod
    def set_zone(z):
        os.environ['TZ'] = z
        time.tzset()

    @staticmethod
    def find_transitions():
        """[(instant, change of offset)], from the C library."""
        def off(t):
            return time.localtime(t).tm_gmtoff
        out = []
        t = 0
        while t < 2 ** 32:
            t2 = t + 86400 * 20
            if off(t2) != off(t):
                a, b = t, t2
                while b - a > 1:
                    m = (a + b) // 2
                    if off(m) == off(a):
                        a = m
                    else:
                        b = m
                out.append((b, off(b) - off(a)))
            t = t2
        return out

    # -- one run ---------------------------------------------------------------

    def run(self, ch):
        sim = core.Sim(ch, preempt=ch.pick([None, 300, 40, 10],
                                           'preempt-mean'),
                       max_steps=400000)
        proc = sim.process('user')
        self.sim = sim
        self.ch = ch
        self.zones = [ch.pick(ZONES, 'zone')
                      for _ in range(2 + ch.below(2, 'phases'))]
        self.what = ['/'.join(z.split(',')[0] for z in self.zones)]
        self.busy = True
        self.jumps = 0
        self.lo = self.hi = None
        sim.wall = 0.0
        sim.wall = float(self.instant('clock')) - sim.now
        kind = ch.weighted([('key', 6), ('message', 3), ('signing', 2),
                            ('index', 1), ('travel', 1)], 'kind')
        self.what.append(kind)
        sim.spawn(proc, lambda: self.user(kind), 'user')
        sim.spawn(proc, self.gremlin, 'clock')
        try:
            core.run_sim(sim)
        finally:
            self.set_zone('UTC0')
        what = ' '.join(self.what)
        if sim.violation is None:
            for t, e, tb in sim.failed_tasks:
                raise Violation('refused', '%s: %s' % (what, tb[-900:]))
            if sim.deadlock or sim.out_of_steps:
                raise Violation('stuck', what)
        sim.shape.update(what.encode())
        return Run.of(ch, sim, nontrivial=bool(
            self.jumps and len(set(self.zones)) > 1), sample=what)

    def clock(self):
        return self.sim.wall + self.sim.now

    def gremlin(self):
        """Sets the clock now and then."""
        ch = self.ch
        sim = self.sim
        while self.busy:
            sim.sleep(ch.pick([0.002, 0.01, 0.05, 1.0], 'calm'))
            if not self.busy:
                break
            if not ch.chance(1, 2, 'jump'):
                continue
            if ch.chance(1, 3, 'far'):
                new = float(self.instant('clock'))
            else:
                new = self.clock() + ch.pick(
                    [-0.7, 1.0, -1.0, 3600.0, -3600.0, 86400.0, -86400.0,
                     1e7], 'by')
            new = min(max(new, 0.0), 2.0 ** 33)
            self.see()
            sim.fault('clock-jump')
            sim.wall += new - self.clock()
            self.jumps += 1
            self.see()

    def see(self):
        """Notes how early and how late the clock was during a question."""
        if self.lo is not None:
            self.lo = min(self.lo, self.clock())
            self.hi = max(self.hi, self.clock())

    def instant(self, label):
        ch = self.ch
        how = ch.below(4, label + '-how')
        if how == 0:
            return ch.pick(EDGES, label + '-edge')
        if how == 1:
            return ch.below(2 ** 32, label + '-any')
        z = self.zones[ch.below(len(self.zones), label + '-zone')]
        tr = self.transitions[z]
        if not tr:
            return 1 + ch.below(2 ** 32 - 1, label + '-any')
        t, d = tr[ch.below(len(tr), label + '-transition')]
        d = abs(d)
        return t + ch.pick([0, -1, 1, d - 1, d, d + 1, -d - 1, -d, -d + 1,
                            d // 2, -d // 2, 86400 - 1, -86400],
                           label + '-near') if how == 2 else \
            min(2 ** 32 - 1, max(0, t + ch.below(4 * 3600 + 1,
                                                 label + '-off') - 7200))

    def duration(self, start, label):
        ch = self.ch
        how = ch.below(5, label + '-how')
        if how == 0:
            return None
        if how == 1:
            return ch.pick([0, 1, 60, 3600, 86400, 365 * 86400, 2 ** 31,
                            2 ** 32 - 1], label)
        if how == 2:
            # ends about now
            n = int(self.clock()) - start + ch.below(5, label + '-off') - 2
        else:
            n = self.instant(label) - start
        return n if 0 < n < 2 ** 32 else 60

    # -- keys --------------------------------------------------------------------

    def sub(self, t, data, critical=False):
        body = bytes([t | (0x80 if critical else 0)]) + data
        return keys.newlen(len(body)) + body

    def signature(self, typ, key_id, ids, taken):
        ch = self.ch
        own = not ch.chance(1, 4, 'third-party')
        issuer = ids[ch.below(len(ids), 'issuer')] if own and ch.chance(
            1, 4, 'by-subkey') else key_id if own else '%016X' % (
                0x1122334455667788 + ch.below(3, 'stranger'))
        while True:
            ctime = self.instant('signed')
            if taken and ch.chance(1, 2, 'soon-after'):
                # perhaps the same time of day, after summer time
                ctime = (max(taken) + 1 + ch.below(7200, 'after')) % 2 ** 32
            if ctime not in taken:
                break
            ctime = (ctime + 1) % 2 ** 32
            if ctime not in taken:
                break
        taken.add(ctime)
        value = keys.mpi((1 << 100) + ch.below(1000, 'value'))
        pk = b'\x01'
        if ch.chance(1, 5, 'v3-signature'):
            body = bytes([ch.pick([3, 2], 'sig-version'), 5, typ]) + \
                u32(ctime) + bytes.fromhex(issuer) + pk + b'\x08\xab\xcd' + \
                value
            return SigModel(3, typ, ctime, None, None,
                            own, issuer, body)
        exp = self.duration(ctime, 'expires')
        kexp = None
        if typ not in (0x20, 0x28, 0x30):
            kexp = self.duration(self.key_start, 'key-expires')
        subs = [self.sub(2, u32(ctime), ch.chance(1, 4, 'critical'))]
        if exp is not None:
            subs.append(self.sub(3, u32(exp), ch.chance(1, 4, 'critical')))
        if kexp is not None:
            subs.append(self.sub(9, u32(kexp), ch.chance(1, 4, 'critical')))
        if ch.chance(1, 3, 'flags'):
            subs.append(self.sub(27, b'\x03'))
        if ch.chance(1, 2, 'order'):
            subs.reverse()
        iss = self.sub(16, bytes.fromhex(issuer))
        unhashed = b''
        if ch.chance(1, 2, 'issuer-hashed'):
            subs.insert(ch.below(len(subs) + 1, 'at'), iss)
        else:
            unhashed = iss
        hashed = b''.join(subs)
        body = b'\x04' + bytes([typ]) + pk + b'\x08' + \
            struct.pack('>H', len(hashed)) + hashed + \
            struct.pack('>H', len(unhashed)) + unhashed + b'\xab\xcd' + value
        return SigModel(4, typ, ctime, exp, kexp, own, issuer, body)

    def key_part(self, sub, secret, v3):
        ch = self.ch
        ctime = self.instant('created')
        n = (1 << 511) + 2 * ch.below(1 << 20, 'number') + 1
        if v3:
            days = ch.pick([0, 1, 30, 365, 65535], 'days')
            if ctime + days * 86400 > 2 ** 33:
                days = 1
            body = bytes([ch.pick([3, 2], 'key-version')]) + u32(ctime) + \
                struct.pack('>H', days) + b'\x01' + keys.mpi(n) + \
                keys.mpi(65537)
            p = PartModel('key', 6, body, ctime, days)
            p.fingerprint = hashlib.md5(
                n.to_bytes(64, 'big') + b'\x01\0\x01').hexdigest().upper()
            p.key_id = '%016X' % (n & (2 ** 64 - 1))
            return p
        kind = ch.pick(['rsa', 'dsa', 'elg'], 'algorithm')
        if kind == 'rsa':
            body = keys.rsa_body(ctime, n)
        elif kind == 'dsa':
            body = keys.dsa_body(ctime, n, (1 << 159) + 7, 5, n - 6)
        else:
            body = keys.elg_body(ctime, n, 3, n - 10)
        fp = keys.fingerprint(body)
        if secret:
            h = hashlib.sha256(body).digest()
            body += keys.secret_tail(h[:8], h[8:24], h * 2)
        p = PartModel('key', (7 if secret else 5) if secret else
                      (14 if sub else 6), body, ctime)
        if secret and not sub:
            p.tag = 5
        p.fingerprint = fp
        p.key_id = fp[-16:]
        return p

    def key(self, v3_too=True):
        """A generated transferable key as a list of parts."""
        ch = self.ch
        v3 = v3_too and ch.chance(1, 6, 'v3-key')
        secret = not v3 and ch.chance(1, 3, 'secret')
        self.secret = secret
        primary = self.key_part(False, secret, v3)
        self.key_start = primary.ctime
        subs = []
        if not v3:
            for _ in range(ch.below(3, 'subkeys')):
                subs.append(self.key_part(True, secret, False))
        ids = [primary.key_id] + [s.key_id for s in subs]

        def sign(part, types, at_least=0, binding=None):
            taken = set()
            for i in range(max(at_least, ch.below(4, 'signatures'))):
                typ = types[ch.below(len(types), 'type')]
                if binding is not None and i == 0:
                    typ = binding
                part.sigs.append(self.signature(typ, primary.key_id, ids,
                                                taken))
        sign(primary, [0x1f, 0x1f, 0x20])
        parts = [primary]
        for i in range(1 + ch.below(2, 'user-ids')):
            p = PartModel('uid', 13, TEXT[ch.below(
                len(TEXT), 'user-id')].encode(
                    'latin-1' if ch.chance(1, 4, 'latin-1') else 'utf-8',
                    'replace'))
            sign(p, [0x13, 0x10, 0x11, 0x12, 0x30])
            parts.append(p)
        if ch.chance(1, 6, 'attribute'):
            image = b'\xff\xd8\xff\xe0 not much of a picture'
            data = b'\x10\x00\x01\x01' + b'\0' * 12 + image
            p = PartModel('attribute', 17, keys.newlen(len(data) + 1) +
                          b'\x01' + data)
            sign(p, [0x13, 0x30])
            parts.append(p)
        for s in subs:
            self.key_start = s.ctime
            sign(s, [0x18, 0x18, 0x28], 1, 0x18)
            parts.append(s)
        self.what.append('%s%s %d parts, %d signatures' % (
            'v3 ' if v3 else '', 'secret' if secret else 'public',
            len(parts), sum(len(p.sigs) for p in parts)))
        return parts

    def raw(self, parts):
        old = self.ch.chance(1, 2, 'old-headers')
        out = b''
        for p in parts:
            out += keys.packet(p.tag, p.body, old and p.tag < 16)
            for s in p.sigs:
                out += keys.packet(2, s.body, old)
        self.sim.shape.update(out)
        return out

    def parse(self, raw):
        cls = self.tk.TransferableSecretKey if self.secret else \
            self.tk.TransferablePublicKey
        return cls.from_packets(list(
            self.parsers.parse_binary_packet_data(raw)))

    def bad(self, kind, text, *args):
        raise Violation(kind, '%s in zone %s: %s' % (
            ' '.join(self.what), os.environ['TZ'], text % args))

    def same_instant(self, dt, t, name):
        got = dt.timestamp() if dt else None
        if got != t:
            self.bad('instant', '%s is %s (%s), not %s', name, dt, got, t)

    def look_at_key(self, key, parts, quick=False):
        ch = self.ch
        objs = [key] + list(key.user_ids) + list(key.user_attributes) + \
            list(key.subkeys)
        if len(objs) != len(parts):
            self.bad('parts', '%d parts instead of %d', len(objs),
                     len(parts))
        for o, p in zip(objs, parts):
            if p.kind == 'key':
                for name in ('fingerprint', 'key_id'):
                    if getattr(o, name) != getattr(p, name):
                        self.bad('identity', '%s is %s, not %s', name,
                                 getattr(o, name), getattr(p, name))
                self.same_instant(o.creation_time, p.ctime, 'key creation')
                if self.secret:
                    pub = o.to_public_key()
                    if pub.fingerprint != p.fingerprint:
                        self.bad('identity', 'public key of %s is %s',
                                 p.fingerprint, pub.fingerprint)
            if len(o.signatures) != len(p.sigs):
                self.bad('parts', '%d signatures instead of %d',
                         len(o.signatures), len(p.sigs))
            base = p if p.kind == 'key' else parts[0]
            for s, m in zip(o.signatures, p.sigs):
                self.look_at_signature(s, m)
                end = base.ctime + m.key_expires if m.key_expires else None
                self.same_instant(s.key_expiration_time, end,
                                  'key expiration of a signature')
            self.most_recent(o, p, base)
            self.current(o, p)

    def look_at_signature(self, s, m):
        self.same_instant(s.creation_time, m.ctime, 'signature creation')
        self.same_instant(s.signature_expiration_time, m.end,
                          'signature expiration')
        if list(s.issuer_key_ids) != [m.issuer]:
            self.bad('identity', 'issuer %r, not %s', s.issuer_key_ids,
                     m.issuer)
        self.ask_expired(s, m)

    def ask_expired(self, s, m):
        self.lo = self.hi = self.clock()
        answer = s.expired
        self.see()
        lo, hi, self.lo = self.lo, self.hi, None
        self.what.append('e%d' % bool(answer))
        if m.end is None or lo > m.end:
            want = m.end is not None
            self.sim.probe('expired' if want else 'never-expires')
        elif hi < m.end:
            want = False
            self.sim.probe('not-yet-expired')
        else:
            self.sim.probe('clock-jumped-across-expiry')
            return
        if bool(answer) != want:
            self.bad('expired', 'expired is %s for a signature which expires '
                     'at %s when the clock shows %.3f to %.3f', answer,
                     m.end, lo, hi)

    def most_recent(self, o, p, base):
        """The attributes taken from the most recent self-signature."""
        types = {'key': (0x1f,), 'uid': (0x10, 0x11, 0x12, 0x13),
                 'attribute': (0x10, 0x11, 0x12, 0x13)}[p.kind]
        if p.kind == 'key' and p is not base or p.tag in (7, 14):
            types = (0x18,)
        if p.days is not None:
            self.same_instant(
                o.expiration_time,
                p.ctime + p.days * 86400 if p.days else None,
                'V3 key expiration')
            return
        own = [m for m in p.sigs if m.self_sig and m.typ in types]
        last = max(own, key=lambda m: m.ctime) if own else None
        end = base.ctime + last.key_expires if last and last.key_expires \
            else None
        self.same_instant(o.expiration_time, end, 'key expiration')
        if p.kind != 'key':
            self.same_instant(o.creation_time, last.ctime if last else None,
                              'creation of a user id')

    def current(self, o, p):
        """Which self-signatures count now."""
        self.lo = self.hi = self.clock()
        now = list(o.current_self_signatures) + list(o.revocation_signatures)
        self.see()
        lo, hi, self.lo = self.lo, self.hi, None
        for s, m in zip(o.signatures, p.sigs):
            there = any(x is s for x in now)
            if there and m.end is not None and m.end < lo:
                self.bad('expired', 'a signature that expired at %s counts '
                         'as current at %.3f', m.end, lo)
            if not there and m.self_sig and m.typ in (0x20, 0x28, 0x30) and (
                    m.end is None or hi < m.end):
                self.bad('expired', 'a revocation that expires at %s no '
                         'longer counts at %.3f', m.end, hi)

    def write(self, obj):
        out = b''.join(bytes(x) for x in obj.to_packets())
        return out

    def same_bytes(self, got, want):
        if got == want:
            return
        a, b = keys.split_packets(want), keys.split_packets(got)
        for i, (x, y) in enumerate(zip(a, b)):
            if x[2] != y[2]:
                self.bad('bytes', 'packet %d (tag %d) written as %s, was %s',
                         i, x[0], y[2][:80].hex(), x[2][:80].hex())
        self.bad('bytes', '%d packets written, %d read', len(b), len(a))

    def user(self, kind):
        try:
            getattr(self, 'user_' + kind)()
        finally:
            self.busy = False

    def phase(self, i):
        self.set_zone(self.zones[i])
        self.sim.event('zone', self.zones[i])

    def user_key(self):
        ch = self.ch
        parts = self.key()
        raw = self.raw(parts)
        for i in range(len(self.zones)):
            self.phase(i)
            key = self.parse(raw)
            for _ in range(1 + ch.below(2, 'again')):
                self.look_at_key(key, parts)
            out = self.write(key)
            self.same_bytes(out, raw)
            if self.secret:
                pub = b''.join(bytes(x) for x in
                               key.to_public_key().to_packets())
                want = b''
                for p, (tag, body, praw) in zip(
                        [q for p in parts for q in [p] + p.sigs],
                        keys.split_packets(raw)):
                    if tag in (5, 7):
                        old = not praw[0] & 0x40
                        praw = keys.packet({5: 6, 7: 14}[tag],
                                           keys.public_part(body), old)
                    want += praw
                self.same_bytes(pub, want)
            if ch.chance(1, 3, 'set'):
                self.set_times(key, parts)
                raw = self.write(key)
                again = self.parse(raw)
                self.look_at_key(again, parts)

    def set_times(self, key, parts):
        """Changes an expiry time; everything else stays."""
        ch = self.ch
        objs = [key] + list(key.user_ids) + list(key.user_attributes) + \
            list(key.subkeys)
        cands = [(o, p, s, m) for o, p in zip(objs, parts)
                 for s, m in zip(o.signatures, p.sigs) if m.version == 4]
        if not cands:
            return
        o, p, s, m = cands[ch.below(len(cands), 'which')]
        base = p if p.kind == 'key' else parts[0]
        when = self.instant('new')
        dt = datetime.datetime.fromtimestamp(when)
        how = ch.below(4, 'what-to-set')
        self.what.append('set%d %d' % (how, when))
        if how == 0:
            if ch.chance(1, 4, 'never'):
                s.signature_expiration_time = None
                m.expires = 0
                return
            try:
                s.signature_expiration_time = dt
            except ValueError:
                if when >= m.ctime:
                    self.bad('set', 'expiry at %d of a signature made at %d '
                             'refused', when, m.ctime)
                self.sim.probe('expiry-before-creation-refused')
                return
            if when < m.ctime:
                self.bad('set', 'expiry at %d of a signature made at %d '
                         'accepted', when, m.ctime)
            m.expires = when - m.ctime
        elif how == 1:
            if when < base.ctime or m.typ in (0x20, 0x28, 0x30):
                return
            s.key_expiration_time = dt
            m.key_expires = when - base.ctime
        elif how == 2:
            if when < base.ctime or p.days is not None:
                return
            types = (0x1f,) if p is parts[0] else \
                (0x18,) if p.kind == 'key' else (0x10, 0x11, 0x12, 0x13)
            own = [x for x in p.sigs if x.self_sig and x.typ in types]
            if not own:
                return
            last = max(own, key=lambda x: x.ctime)
            if last.version != 4:
                return
            o.expiration_time = dt
            last.key_expires = when - base.ctime
        else:
            # the creation time; the expiry stays where it is
            if any(x.ctime == when for x in p.sigs) or \
                    m.end is not None and m.end < when or \
                    m.end is not None and m.end - when >= 2 ** 32:
                return
            end = m.end
            s.creation_time = dt
            m.ctime = when
            m.expires = end - when if end is not None else m.expires
        self.sim.probe('times-set')

    # -- messages ----------------------------------------------------------------

    def user_message(self):
        ch = self.ch
        t = self.instant('written')
        text = ch.chance(1, 2, 'text')
        data = b'some text\n' if text else b'\0\xff\x80'
        name = ch.pick([b'', b'a.txt', b'_CONSOLE', b'\xe9'], 'name')
        body = ch.pick([b'u', b't'], 'format') if text else b'b'
        body += bytes([len(name)]) + name + u32(t) + data
        raw = keys.packet(11, body, ch.chance(1, 2, 'old-headers'))
        sigs = []
        if ch.chance(1, 2, 'signed'):
            self.key_start = 0
            taken = set()
            for _ in range(1 + ch.below(2, 'signatures')):
                sigs.append(self.signature(0, '00' * 7 + '42', ['0' * 16],
                                           taken))
            raw = b''.join(keys.packet(2, m.body) for m in sigs) + raw
        self.what.append('literal %d' % t)
        for i in range(len(self.zones)):
            self.phase(i)
            msg = self.world.parse(raw)
            inner = msg
            if sigs:
                inner = msg.message
                if len(msg.signatures) != len(sigs):
                    self.bad('parts', 'signatures lost')
                for s, m in zip(msg.signatures, sigs):
                    self.look_at_signature(s, m)
            self.same_instant(inner.timestamp, t, 'message time')
            out = mc.wire(msg)
            a, b = keys.split_packets(raw), keys.split_packets(out)
            if [x[:2] for x in a] != [x[:2] for x in b] and not (
                    # both mean UTF-8 text here
                    text and [self.textual(x) for x in a] ==
                    [self.textual(x) for x in b]):
                self.bad('bytes', 'message written as %s, was %s',
                         out[:90].hex(), raw[:90].hex())
            raw = out if ch.chance(1, 2, 'pass-on') else raw
            if ch.chance(1, 3, 'new-time'):
                t = self.instant('rewritten')
                cls = type(inner)
                msg = cls(inner.data, inner.filename,
                          datetime.datetime.fromtimestamp(t))
                raw = mc.wire(msg)
                sigs = []
                body = keys.split_packets(raw)[0][1]
                at = 2 + body[1]
                if body[at:at + 4] != u32(t):
                    self.bad('bytes', 'time %d written as %s', t,
                             body[at:at + 4].hex())

    @staticmethod
    def textual(x):
        tag, body = x[:2]
        return tag, (b'u' + body[1:] if tag == 11 and body[:1] == b't'
                     else body)

    # -- signing -----------------------------------------------------------------

    def user_signing(self):
        ch = self.ch
        w = self.world
        signers = w.all_signers()
        s = signers[ch.below(len(signers), 'signer')]
        owner = [k for k in w.keys if s in k.signers][0]
        which = owner.parts.index(s)
        version = ch.pick([4, 4, 3], 'version')
        hash_ = mc.pick_hash(ch, s)
        self.phase(0)
        mine = w.library_key(owner.ref)
        secret = mine.parts[which][0]
        lit = w.m.BinaryMessage(b'signed in some zone', '',
                                datetime.datetime.fromtimestamp(
                                    self.instant('written')))
        if not 0 <= self.clock() < 2 ** 32 - 100:
            self.sim.wall = 1400000000.0 - self.sim.now
        self.lo = self.hi = self.clock()
        sig = secret.sign(lit, version, 0, hash_)
        self.see()
        lo, hi, self.lo = self.lo, self.hi, None
        made = sig.creation_time.timestamp()
        if not int(lo) <= made <= int(hi):
            self.bad('instant', 'signature made between %.3f and %.3f says '
                     '%s', lo, hi, made)
        raw = bytes(sig.to_packet())
        body = keys.split_packets(raw)[0][1]
        at = body.index(u32(int(made)))
        self.what.append('v%d %s %d' % (version, s[2].kind, at))
        m = SigModel(version, 0, int(made), None, None, True,
                     s[2].key_id(), body)
        for i in range(len(self.zones)):
            self.phase(i)
            packet = list(self.parsers.parse_binary_packet_data(raw))[0]
            again = self.sig.BaseSignature.from_packet(packet, lit)
            self.look_at_signature(again, m)
            reader = w.library_key(owner.ref, unlock=False)
            try:
                reader.parts[which][1].verify(again, lit)
            except Exception as e:
                self.bad('signature', 'does not verify: %r', e)
            out = bytes(again.to_packet())
            self.same_bytes(out, raw)
            if ch.chance(1, 2, 'pass-on'):
                raw = out

    # -- keyserver index ---------------------------------------------------------

    def user_index(self):
        ch = self.ch
        for i in range(len(self.zones)):
            self.phase(i)
            a = self.instant('listed')
            b = self.duration(a, 'until')
            pub = 'pub:0123456789ABCDEF:1:2048:%d:%s:' % (
                a, '' if b is None else a + b)
            c = self.instant('uid-listed')
            uid = 'uid:me:%d::' % c
            r = self.hkp.HKPResult(None, pub, [uid])
            self.same_instant(r.created, a, 'created')
            self.same_instant(r.expires, None if b is None else a + b,
                              'expires')
            self.same_instant(r.user_ids[0].created, c, 'uid created')
            if r.user_ids[0].expires is not None:
                self.bad('instant', 'expiry invented')

    # -- the zone changes under a loaded key -------------------------------------

    def user_travel(self):
        parts = self.key(v3_too=False)
        raw = self.raw(parts)
        self.phase(0)
        key = self.parse(raw)
        self.look_at_key(key, parts)
        self.phase(1)
        self.sim.fault('zone-change')
        out = self.write(key)
        if out == raw:
            return
        a, b = keys.split_packets(raw), keys.split_packets(out)
        shifts = set()
        for x, y in zip(a, b):
            if x[2] == y[2]:
                continue
            at = 1 if x[0] in (5, 6, 7, 14) else 3 if x[0] == 2 and \
                x[1][0] < 4 else None
            if at is None or x[1][:at] + x[1][at + 4:] != \
                    y[1][:at] + y[1][at + 4:]:
                self.same_bytes(out, raw)
            d = (struct.unpack('>I', x[1][at:at + 4])[0] -
                 struct.unpack('>I', y[1][at:at + 4])[0]) % 2 ** 32
            shifts.add(min(d, 2 ** 32 - d))
        if len(a) != len(b) or max(shifts) > 27 * 3600:
            self.same_bytes(out, raw)
        self.bad('zone-changed-under-object', 'a key parsed in zone %s is '
                 'written with creation times moved by %s seconds',
                 self.zones[0], sorted(shifts))
