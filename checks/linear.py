"""Linearizability of a keyring history against a map (Wing & Gong search)."""


class Op(object):

    __slots__ = ('task', 'kind', 'arg', 'call', 'ret', 'result', 'text')

    def __init__(self, task, kind, arg, call):
        self.task = task
        self.kind = kind
        self.arg = arg
        self.call = call
        self.ret = None         # None: never returned
        self.result = None
        self.text = ''

    def __repr__(self):
        return '[%s..%s] %s %s -> %s' % (
            self.call, self.ret, self.task, self.text or self.kind,
            'pending' if self.ret is None else self.result)


def matches(fp, wanted):
    return fp == wanted or (len(wanted) in (8, 16) and fp.endswith(wanted))


def apply(state, op):
    """state: frozenset of (fp, content).  Yields the states the operation
    may lead to, given its result (None result: still pending)."""
    d = dict(state)
    r = op.result
    if op.kind == 'add':
        fp, content = op.arg
        if fp in d:
            return [state] if r in (None, 'refused') else []
        if r == 'refused':
            return []
        d[fp] = content
        return [frozenset(d.items())]
    if op.kind == 'update':
        fp, content = op.arg
        if fp not in d:
            return [state] if r in (None, 'refused') else []
        if r == 'refused':
            return []
        d[fp] = content
        return [frozenset(d.items())]
    if op.kind == 'delete':
        fp = op.arg
        if fp not in d:
            return [state] if r in (None, 'refused') else []
        if r == 'refused':
            return []
        del d[fp]
        return [frozenset(d.items())]
    if op.kind == 'get':
        found = [(f, c) for f, c in d.items() if matches(f, op.arg)]
        if r is None:
            return [state]
        if r == 'refused':
            return [] if found else [state]
        return [state] if r in found else []
    if op.kind == 'contains':
        if r is None:
            return [state]
        return [state] if r == (op.arg in d) else []
    if op.kind == 'keys':
        if r is None:
            return [state]
        # the identifiers must name exactly the stored keys
        if len(r) != len(d):
            return []
        left = set(d)
        for k in sorted(r, key=len, reverse=True):
            hit = [f for f in left if matches(f, k)]
            if not hit:
                return []
            left.discard(hit[0])
        return [state]
    if op.kind == 'whole':
        return [state] if r == state else []
    raise ValueError(op.kind)


def linearizable(initial, ops, budget=200000):
    """None if some order explains the history; otherwise the longest prefix
    that could be explained.  Raises OverflowError past the budget."""
    ops = sorted(ops, key=lambda o: o.call)
    n = len(ops)
    full = (1 << n) - 1
    done = 0
    for i, o in enumerate(ops):
        if o.ret is None:
            done |= 1 << i          # optional
    seen = set()
    best = [0, ()]
    stack = [(0, initial, ())]
    work = 0
    while stack:
        mask, state, path = stack.pop()
        if (mask | done) == full:
            return None
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        work += 1
        if work > budget:
            raise OverflowError
        if len(path) > best[0]:
            best = [len(path), path]
        # an operation may go next if no other unfinished one returned
        # before it was called
        horizon = min([o.ret for i, o in enumerate(ops)
                       if not mask >> i & 1 and o.ret is not None] or
                      [float('inf')])
        for i, o in enumerate(ops):
            if mask >> i & 1 or o.call > horizon:
                continue
            for nxt in apply(state, o):
                stack.append((mask | 1 << i, nxt, path + (i,)))
    return [ops[i] for i in best[1]]
