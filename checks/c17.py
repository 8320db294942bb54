"""C17: a multi-keyring database routes and searches exactly."""
from checks.base import BaseCheck, Run, Violation
from checks import keyring_common as kc
from checks import linear
from sim import core
from sim import keys


class Ring(object):

    def __init__(self, path, secret, read_only, specs):
        self.path = path
        self.secret = secret
        self.read_only = read_only
        self.start = specs
        self.handle = None


class Check(BaseCheck):

    id = 'C17'
    instrument = ('pgp.db',)
    runs = {'quick': 4000, 'thorough': 60000}
    rule = ('one run = a database over 1-4 generated keyrings (public and '
            'secret, some read-only, registered in a generated order with '
            'and without priority) in one process, and up to two other '
            'processes that change the same files meanwhile; 1-5 database '
            'operations (add, update, delete, search by every combination of '
            'criteria, key list), pre-empted between any two statements of '
            'pgp.db; results are judged against the timeline of the files '
            'read by an independent parser; non-trivial = an operation of '
            'the database met at least two keyrings or a concurrent change')
    real_components = ['pgp.db.gpg', 'pgp.packets', 'pgp.transferrable_keys',
                       'pgp.user_id']
    stub_components = ['file system (in memory)', 'process table, pids',
                       'clock and sleep', 'threads (greenlets) and locks']
    assumptions = ['other processes change keyrings through the library']

    def load(self):
        import pgp.db.gpg                                 # noqa

    def run(self, ch):
        w = kc.World(ch, preempt=ch.pick([10, 30, 200], 'preempt-mean'),
                     max_steps=80000,
                     step_cost=ch.pick([0.0005, 0.0005, 0.02, 0.5],
                                       'machine-speed'))
        sim = w.sim
        # some runs are about searches while others add and delete
        self.racing = ch.chance(1, 3, 'racing')
        self.make_pools(ch)
        standard = ch.chance(1, 6, 'default-keyrings')
        rings = self.standard_rings(w, ch) if standard else \
            self.make_rings(w, ch)
        # timeline of each file: [(step, {fp: content})]
        lines = dict((r.path, [(0, self.snapshot(w, r.path))])
                     for r in rings)

        def watch(op, path, inode):
            if path in lines and op in ('replace', 'create', 'write',
                                        'truncate'):
                try:
                    snap = self.snapshot(w, path)
                except (ValueError, IndexError):
                    # a writer that works in place: between two states
                    return
                lines[path].append((sim.steps, snap))
        w.vfs.watch.append(watch)
        proc = w.process('db', users=('pgp.shortcuts',) if standard else ())
        trail = []
        probes = {'met': 0}
        nother = ch.below(3, 'other-processes')
        if self.racing:
            nother = max(1, nother)

        def standard_db():
            # GnuPG's own keyrings: the secret one comes first
            if not rings[0].read_only and ch.chance(1, 2, 'shortcut'):
                db = proc.modules['pgp.shortcuts'].get_gnupg_db()
            else:
                db = w.gpg(proc).GPGDatabase()
                db.load_default_resources(read_only=rings[0].read_only)
            return db

        def main():
            order = []
            if standard:
                try:
                    db = standard_db()
                except Exception as e:
                    self.library(e, 'opening the default keyrings')
                order += rings
                for i in range(1 + ch.below(5, 'ops')):
                    self.operate(w, ch, db, order, lines, i, trail, nother)
                return
            db = w.gpg(proc).GPGDatabase()
            for r in self.registration(ch, rings):
                primary = ch.chance(1, 3, 'primary')
                prefix = ch.pick(['', 'gnupg-keyring:'], 'prefix')
                try:
                    r.handle = db.add_resource(prefix + r.path, primary=primary,
                                    read_only=r.read_only, secret=r.secret)
                except Exception as e:
                    self.library(e, 'add_resource')
                if r in order and primary:
                    order.remove(r)
                    order.insert(0, r)
                elif r not in order:
                    if primary:
                        order.insert(0, r)
                    else:
                        order.append(r)
            for i in range(1 + ch.below(5, 'ops')):
                self.operate(w, ch, db, order, lines, i, trail, nother)
        sim.spawn(proc, main, 'db')
        for p in range(nother):
            other = w.process('o%d' % p)

            def meddle(other=other, p=p):
                for i in range(1 + ch.below(
                        8 if self.racing else 4, 'meddling')):
                    r = rings[ch.below(len(rings), 'which-ring')]
                    if r.read_only and ch.chance(1, 2, 'skip-ro'):
                        continue
                    h = w.gpg(other).get_resource(r.path, secret=r.secret)
                    spec = self.pool(r.secret)[ch.below(5, 'which-key')]
                    v = 1000 + 100 * p + i
                    what = ch.pick(['delete', 'add', 'delete'] if self.racing
                                   else ['add', 'update', 'delete'], 'what')
                    try:
                        key = w.key_object(spec, v)
                        getattr(h, what + '_transferrable_key')(key)
                    except KeyError:
                        pass
                    sim.probe('concurrent-change')
                    sim.sleep(ch.pick([0, 0.01, 0.2], 'pause'))
            sim.spawn(other, meddle, 'o%d' % p)
        sim.run()
        v = sim.violation
        if v is None and (sim.deadlock or sim.out_of_steps):
            v = Violation('no-progress', 'the database got stuck: %s' % (
                sim.deadlock or 'step limit'))
        if v is None and sim.failed_tasks:
            t, e, tb = sim.failed_tasks[0]
            if t.name == 'db':
                raise core.HarnessError(tb)
            v = Violation('other-failed', '%s: %r' % (t.name, e))
        return Run.of(ch, sim, v, len(rings) > 1 or nother > 0,
                      '%d rings; %s' % (len(rings), '; '.join(trail)))

    def library(self, e, what):
        if isinstance(e, Violation) or core.is_harness_error(e):
            raise e
        raise Violation('operation-failed', '%s raised %s: %s' % (
            what, type(e).__name__, e))

    def make_pools(self, ch):
        self._pools = dict(
            (secret, keys.dress(ch, [keys.spec(0, secret),
                                     keys.spec(1, secret),
                                     keys.spec(2, secret)] + keys.colliding(
                                         0, secret)))
            for secret in (False, True))

    def pool(self, secret):
        return self._pools[secret]

    def make_rings(self, w, ch):
        rings = []
        for i in range(1 + ch.below(4, 'rings')):
            secret = ch.chance(2, 5, 'secret-ring')
            ro = ch.chance(1, 4, 'read-only')
            pool = self.pool(secret)
            specs = [s for s in pool
                     if ch.chance(4 if self.racing else 2, 5, 'has-key')]
            r = Ring(kc.DIR + '/ring%d.gpg' % i, secret, ro, specs)
            w.vfs.put(r.path, b''.join(
                s.raw(i * 10, self.uids(ch), old=ch.chance(1, 2, 'old'))
                for s in specs))
            rings.append(r)
        return rings

    def uids(self, ch):
        return ch.pick([1, 1, 2, 3], 'uids')

    def standard_rings(self, w, ch):
        rings = []
        ro = ch.chance(1, 4, 'read-only')
        w.vfs.mkdir(kc.DIR + '/.gnupg')
        for name, secret in (('secring', True), ('pubring', False)):
            specs = [s for s in self.pool(secret)
                     if ch.chance(2, 5, 'has-key')]
            r = Ring('%s/.gnupg/%s.gpg' % (kc.DIR, name), secret, ro, specs)
            w.vfs.put(r.path, b''.join(
                s.raw(0, self.uids(ch), old=ch.chance(1, 2, 'old'))
                for s in specs))
            rings.append(r)
        return rings

    def registration(self, ch, rings):
        order = list(rings)
        for i in range(len(order) - 1, 0, -1):
            j = i - ch.below(i + 1, 'shuffle')
            order[i], order[j] = order[j], order[i]
        if ch.chance(1, 4, 'twice'):
            order.append(order[ch.below(len(order), 'again')])
        return order

    def snapshot(self, w, path):
        return w.file_keys(path)

    def during(self, line, start, end):
        """The states the file was in at some time in [start, end]."""
        out = []
        for i, (t, s) in enumerate(line):
            nxt = line[i + 1][0] if i + 1 < len(line) else float('inf')
            if nxt >= start and t <= end:
                out.append(s)
        return out

    def operate(self, w, ch, db, order, lines, i, trail, nother):
        sim = w.sim
        kind = ch.weighted([('search', 60 if self.racing else 6), ('add', 4),
                            ('update', 3), ('delete', 3), ('keys', 1),
                            ('values', 1)], 'op')
        start = sim.steps
        marks = dict((p, len(l)) for p, l in lines.items())
        if kind in ('add', 'update', 'delete'):
            secret = ch.chance(2, 5, 'secret-key')
            spec = self.pool(secret)[ch.below(5, 'which-key')]
            v = 100 + i
            text = '%s %s %s' % (kind, 'secret' if secret else 'public',
                                 spec.fp[-8:])
            trail.append(text)
            sim.event('call', text)
            target = None
            for r in order:
                if r.secret == secret:
                    target = r
                    break
            uids = self.uids(ch)
            key = w.key_object(spec, v, uids)
            content = tuple(spec.content(v, uids))
            raised = None
            try:
                getattr(db, kind + '_key')(key)
            except Exception as e:
                if isinstance(e, Violation) or core.is_harness_error(e):
                    raise
                raised = e
                sim.event('raised', type(e).__name__)
            end = sim.steps
            if target is None:
                if nother == 0:
                    self.untouched(lines, marks, None, text)
                return
            line = lines[target.path]
            states = self.during(line, start, end)
            # only the target may show what this operation stored
            for path, l in lines.items():
                for _, s in l[marks[path]:]:
                    if path != target.path and s.get(spec.fp) == content:
                        raise Violation('wrong-ring', '%s stored the key in '
                                        '%s, not in %s' % (text, path,
                                                           target.path))
            if nother == 0:
                self.untouched(lines, marks, None if target.read_only
                               else target.path, text)
                before = line[marks[target.path] - 1][1]
                after = line[-1][1]
                want = dict(before)
                may = not target.read_only
                if kind == 'add':
                    may = may and spec.fp not in before
                    want[spec.fp] = content
                elif kind == 'update':
                    may = may and spec.fp in before
                    want[spec.fp] = content
                else:
                    may = may and spec.fp in before
                    want.pop(spec.fp, None)
                if may and raised is not None:
                    raise Violation('refused', '%s raised %r' % (text,
                                                                 raised))
                if not may and raised is None:
                    raise Violation('accepted', '%s was accepted (ring %s%s)'
                                    % (text, target.path, ', read-only'
                                       if target.read_only else ''))
                if after != (want if may else before):
                    raise Violation('wrong-content', 'after %s %s holds {%s}'
                                    % (text, target.path,
                                       kc.state_text(after)))
            elif raised is None and kind != 'delete':
                if target.read_only:
                    raise Violation('accepted', '%s was accepted by the '
                                    'read-only %s' % (text, target.path))
                if not any(s.get(spec.fp) == content for s in states):
                    raise Violation('not-stored', '%s returned but %s never '
                                    'held the key' % (text, target.path))
            elif raised is None:
                if target.read_only:
                    raise Violation('accepted', '%s was accepted by the '
                                    'read-only %s' % (text, target.path))
                if all(spec.fp in s for s in states):
                    raise Violation('not-deleted', '%s returned but %s '
                                    'always held the key' % (text,
                                                             target.path))
        elif kind in ('search', 'values'):
            one = order[ch.below(len(order), 'whole-ring')]
            if kind == 'values' and one.handle is not None:
                order = [one]
                self.read_all(w, ch, order, lines, trail)
                return
            self.search(w, ch, db, order, lines, trail)
        else:
            trail.append('keys')
            try:
                got = list(db.keys())
            except Exception as e:
                self.library(e, 'keys()')
            end = sim.steps
            lo, hi = 0, 0
            for r in order:
                st = self.during(lines[r.path], start, end)
                if len(st) > 1:
                    lo = None
                    break
                lo += len(st[0])
            if lo is not None and len(got) != lo:
                raise Violation('wrong-keys', 'keys() gave %d names for %d '
                                'keys' % (len(got), lo))
            for k in got:
                if not any(linear.matches(fp, k) for r in order
                           for s in self.during(lines[r.path], start, end)
                           for fp in s):
                    raise Violation('wrong-keys', 'keys() gave %s, which no '
                                    'ring holds' % k)

    def untouched(self, lines, marks, but, text):
        for path, l in lines.items():
            if path != but and len(l) != marks[path]:
                if l[-1][1] != l[marks[path] - 1][1]:
                    raise Violation('wrong-ring', '%s changed %s' % (text,
                                                                     path))

    def search(self, w, ch, db, order, lines, trail):
        sim = w.sim
        spec = self.pool(ch.chance(1, 2, 'secret'))[ch.below(5, 'which-key')]
        crit = {}
        mode = ch.below(7, 'criteria')
        if self.racing and ch.chance(3, 4, 'broad'):
            mode = 2
        if mode in (0, 3, 4, 6):
            crit['fingerprint'] = spec.fp
        if mode in (1, 3, 5, 6):
            other = spec
            if mode in (3, 6) and ch.chance(1, 3, 'other-key-id'):
                other = self.pool(False)[ch.below(5, 'other')]
            n = ch.pick([8, 16], 'id-length')
            crit['key_id'] = other.fp[-n:]
            if ch.chance(1, 6, 'not-an-id'):
                # other digits of the fingerprint identify nothing
                i = ch.below(len(other.fp) - n, 'from')
                crit['key_id'] = other.fp[i:i + n]
        if mode in (2, 4, 5, 6):
            crit['user_id'] = ch.pick([
                '<%s0@' % spec.name, spec.name.upper() + '0@EXAMPLE',
                'v1', 'example.org', 'nobody'] if not self.racing else
                ['example.org', 'EXAMPLE', '<%s' % spec.name], 'user-id')
            if not self.racing and ch.chance(1, 2, 'part'):
                # some part of a user ID that is stored right now
                stored = sorted(set(
                    b.decode('utf8') for r in order
                    for c in lines[r.path][-1][1].values()
                    for t, b in c if t == 13)) or ['nothing stored']
                whole = stored[ch.below(len(stored), 'user')]
                i = ch.pick([0, ch.below(len(whole), 'from')], 'start')
                whole = whole[i:i + 1 + ch.below(len(whole), 'length')]
                crit['user_id'] = ch.pick([whole, whole.upper(),
                                           whole.title()], 'case')
        text = 'search %s' % sorted(crit.items())
        trail.append(text)
        sim.event('call', text)
        start = sim.steps
        try:
            got = db.search(**crit)
        except Exception as e:
            self.library(e, text)
        end = sim.steps
        found = []
        for k in got:
            if k is None:
                raise Violation('wrong-result', '%s returned None' % text)
            c = w.content_of(k)
            found.append((keys.fingerprint(c[0][1]), c))

        def match(fp, content):
            if 'fingerprint' in crit and fp != crit['fingerprint']:
                return False
            if 'key_id' in crit and not fp.endswith(crit['key_id']):
                return False
            if 'user_id' in crit:
                return any(t == 13 and crit['user_id'].lower() in
                           b.decode('utf8').lower() for t, b in content)
            return True
        self.judge(w, text, order, lines, start, end, found, match)

    def read_all(self, w, ch, order, lines, trail):
        """Reads one keyring through its handle, as a mapping."""
        sim = w.sim
        how = ch.pick(['items', 'values', 'iter'], 'how')
        text = '%s of %s' % (how, order[0].path)
        trail.append(text)
        sim.event('call', text)
        h = order[0].handle
        start = sim.steps
        found = []
        try:
            if how == 'iter':
                for name in h:
                    try:
                        found.append((name, h.get_transferrable_key(name)))
                    except KeyError:
                        pass
            elif how == 'values':
                found = [(None, k) for k in h.values()]
            else:
                found = list(h.items())
        except Exception as e:
            self.library(e, text)
        end = sim.steps
        for i, (name, k) in enumerate(found):
            if k is None:
                raise Violation('wrong-result', '%s returned None' % text)
            c = w.content_of(k)
            fp = keys.fingerprint(c[0][1])
            if name is not None and not linear.matches(fp, name):
                raise Violation('wrong-result', '%s returned %s under the '
                                'name %s' % (text, fp, name))
            found[i] = (fp, c)
        self.judge(w, text, order, lines, start, end, found,
                   lambda fp, content: True)

    def judge(self, w, text, order, lines, start, end, found, match):
        sim = w.sim
        always = []
        possible = []
        for r in order:
            states = self.during(lines[r.path], start, end)
            if len(states) > 1:
                sim.probe('changed-during-search')
            for fp in set(f for s in states for f in s):
                here = [s[fp] if fp in s else None for s in states]
                ok = [c is not None and match(fp, c) for c in here]
                if all(ok):
                    always.append((fp, here))
                possible += [(fp, c) for c, o in zip(here, ok) if o]
        for item in found:
            if item not in possible:
                raise Violation('wrong-result', '%s returned %s, which did '
                                'not match or was not stored' % (
                                    text, item[0][-8:]))
        left = list(found)
        for fp, contents in always:
            hit = [x for x in left if x[0] == fp and x[1] in contents]
            if not hit:
                raise Violation('missing-result', '%s did not return %s' % (
                    text, fp[-8:]))
            left.remove(hit[0])
        # nothing twice: at most one result per ring and key
        most = {}
        for r in order:
            states = self.during(lines[r.path], start, end)
            for fp in set(f for s in states for f in s):
                if any(fp in s and match(fp, s[fp]) for s in states):
                    most[fp] = most.get(fp, 0) + 1
        for fp in set(f for f, _ in found):
            if sum(1 for f, _ in found if f == fp) > most.get(fp, 0):
                raise Violation('wrong-result', '%s returned %s more often '
                                'than it is stored' % (text, fp[-8:]))
        if found:
            sim.probe('search-found')
