"""Loads the library from the working tree, optionally instrumented with a
scheduling point before every statement, and as fresh module copies for each
simulated process."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

from sim import core
from sim import seams

REPO = os.environ.get('VERIF_REPO', '/repo')


def point():
    s = core.ACTIVE
    if s is not None and s.current is not None:
        s.step('stmt', pure=True)


def hot_point():
    s = core.ACTIVE
    if s is not None and s.hot and s.current is not None:
        s.hot_step()


_MUTATORS = frozenset([
    'append', 'extend', 'insert', 'pop', 'popitem', 'popleft', 'appendleft',
    'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort',
    'reverse', 'move_to_end', '__setitem__', 'write', 'send', 'reset'])


def _root(node):
    """(name, attributes) below which something is stored: a.b[c].d = ..."""
    attrs = []
    while isinstance(node, (ast.Attribute, ast.Subscript, ast.Starred,
                            ast.Call)):
        if isinstance(node, ast.Attribute):
            attrs.append(node.attr)
            node = node.value
        elif isinstance(node, ast.Call):
            # type(self).x
            if isinstance(node.func, ast.Name) and \
                    node.func.id == 'type' and node.args:
                return 'type()', attrs
            node = node.func
        else:
            node = node.value
    return (node.id if isinstance(node, ast.Name) else None), attrs


class _Shared(ast.NodeVisitor):
    """The names of a module's variables, and the class attributes, that the
    module's functions change: where threads can meet.  It only steers the
    search."""

    def __init__(self, tree):
        self.names = set()
        self.attrs = set()
        self.module = set()
        self.classes = {}
        self.depth = 0
        for node in tree.body:
            self._targets(node, self.module)
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef):
                self.module.add(node.name)
                for st in node.body:
                    self._targets(st, self.classes.setdefault('', set()))
        self.visit(tree)

    @staticmethod
    def _targets(st, into):
        for t in getattr(st, 'targets', [getattr(st, 'target', None)]):
            for n in ast.walk(t) if t is not None else ():
                if isinstance(n, ast.Name):
                    into.add(n.id)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            into.update((a.asname or a.name).split('.')[0]
                        for a in st.names)

    def visit_FunctionDef(self, node):
        a = node.args
        params = [x.arg for x in a.args + a.kwonlyargs]
        defaults = list(zip([x.arg for x in a.args[len(a.args) -
                                                   len(a.defaults):]],
                            a.defaults)) + list(zip(
                                [x.arg for x in a.kwonlyargs],
                                a.kw_defaults))
        mutable = set(n for n, d in defaults if isinstance(
            d, (ast.Dict, ast.List, ast.Set, ast.Call)))
        local = set(params) - mutable
        decl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        local -= decl
        if self.depth == 0:
            self.names |= decl
        self.depth += 1
        for n in ast.walk(node):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                self._store(n, local, mutable)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in _MUTATORS:
                self._store(n.func.value, local, mutable, True)
        self.depth -= 1
        for n in node.body:
            self.visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def _store(self, target, local, mutable, call=False):
        name, attrs = _root(target)
        if name is None:
            return
        if name in ('cls', 'type()') or '__class__' in attrs:
            self.attrs.update(a for a in attrs if a != '__class__')
        elif name == 'self':
            # something that lives in the class
            inner = attrs if call or isinstance(target, ast.Subscript) \
                else attrs[1:]
            self.attrs.update(a for a in inner
                              if a in self.classes.get('', ()))
        elif name in mutable or (name in self.module
                                 and name not in local):
            self.names.add(name)
            self.attrs.update(attrs)

    def touches(self, st):
        if not (self.names or self.attrs):
            return False
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return False
        if isinstance(st, (ast.If, ast.While)):
            nodes = [st.test]
        elif isinstance(st, ast.For):
            nodes = [st.iter]
        elif isinstance(st, ast.With):
            nodes = [i.context_expr for i in st.items]
        elif isinstance(st, ast.Try):
            return False
        else:
            nodes = [st]
        for node in nodes:
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id in self.names:
                    return True
                if isinstance(n, ast.Attribute) and n.attr in self.attrs:
                    return True
        return False


class _Instrument(ast.NodeTransformer):
    """A call of __sim_pt__() before every statement of every function, and
    one of __sim_hot__() around those that touch state which the module's
    functions share."""

    def __init__(self, shared=None):
        self.depth = 0
        self.shared = shared

    @staticmethod
    def _call(name, st):
        return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(
            ast.copy_location(ast.Name(name, ast.Load()), st),
            [], []), st)), st)

    def _stmts(self, body):
        out = []
        for st in body:
            hot = self.shared is not None and self.shared.touches(st)
            out.append(self._call('__sim_pt__', st))
            if hot:
                out.append(self._call('__sim_hot__', st))
            out.append(st)
            if hot and not isinstance(st, (ast.Return, ast.Raise, ast.Break,
                                           ast.Continue)):
                out.append(self._call('__sim_hot__', st))
        return out

    def _function(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        head = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, (ast.Constant, ast.Str)):
            head = [body[0]]
            body = body[1:]
        if self.depth >= 0:
            decl = [b for b in body if isinstance(b, (ast.Global,
                                                      ast.Nonlocal))]
            rest = [b for b in body if b not in decl]
            node.body = head + decl + self._stmts(rest)
            if not node.body:
                node.body = [ast.Pass()]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def _block(self, node):
        self.generic_visit(node)
        if self.depth:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(node, field, None)
                if b and isinstance(b, list) and not (
                        field == 'orelse' and isinstance(node, ast.If)
                        and len(b) == 1 and isinstance(b[0], ast.If)):
                    setattr(node, field, self._stmts(b))
        return node

    visit_If = visit_For = visit_While = visit_With = visit_Try = _block

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if self.depth:
            node.body = self._stmts(node.body)
        return node


_code_cache = {}


def _compile(path, instrument):
    key = (path, instrument)
    if key not in _code_cache:
        with seams.REAL.get('open', open)(path, 'rb') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        if instrument:
            tree = ast.fix_missing_locations(
                _Instrument(_Shared(tree)).visit(tree))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code_cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _code_cache[key]


class _Loader(importlib.abc.Loader):

    def __init__(self, path, instrument):
        self.path = path
        self.instrument = instrument

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        loading = seams._state.loading
        if loading is not None:
            module.__dict__['id'] = loading.sim_id
        code = _compile(self.path, self.instrument)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):

    def __init__(self, instrument):
        self.instrument = instrument      # tuple of module name prefixes

    def find_spec(self, name, path=None, target=None):
        if name != 'pgp' and not name.startswith('pgp.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        stat = seams.REAL.get('os.stat', os.stat)
        for cand, pkg in ((os.path.join(rel, '__init__.py'), True),
                          (rel + '.py', False)):
            try:
                stat(cand)
            except OSError:
                continue
            inst = any(name == p or name.startswith(p + '.')
                       for p in self.instrument)
            spec = importlib.util.spec_from_file_location(
                name, cand, loader=_Loader(cand, inst),
                submodule_search_locations=[rel] if pkg else None)
            return spec
        return None


_finder = None


def install(instrument=()):
    """Make `import pgp...` load from the working tree through us."""
    global _finder
    sys.dont_write_bytecode = True
    seams.install()
    import builtins
    builtins.__sim_pt__ = point
    builtins.__sim_hot__ = hot_point
    if _finder is not None:
        _finder.instrument = tuple(instrument)
        return
    _finder = _Finder(tuple(instrument))
    sys.meta_path.insert(0, _finder)
    # the library's own module-level locks (if any) must be simulated ones
    seams._state_always = True
    warnings.simplefilter('ignore')


def imp(name):
    return importlib.import_module(name)


def load_for(proc, prefix='pgp.db', names=('pgp.db.gpg',), users=()):
    """Fresh copies of the process-stateful modules for one process, and of
    the modules `users` that refer to them."""
    saved = {}

    def ours(m):
        return m == prefix or m.startswith(prefix + '.') or m in users
    for m in list(sys.modules):
        if ours(m):
            saved[m] = sys.modules.pop(m)
    parent = sys.modules.get(prefix.rsplit('.', 1)[0])
    leaf = prefix.rsplit('.', 1)[1]
    had = getattr(parent, leaf, None) if parent is not None else None
    prev = seams._state.loading
    seams._state.loading = proc
    try:
        for n in tuple(names) + tuple(users):
            proc.modules[n] = importlib.import_module(n)
    finally:
        seams._state.loading = prev
        for m in list(sys.modules):
            if ours(m):
                del sys.modules[m]
        sys.modules.update(saved)
        for m in users:
            if m in saved:
                setattr(sys.modules['pgp'], m.rpartition('.')[2], saved[m])
        if parent is not None and had is not None:
            setattr(parent, leaf, had)
    return proc.modules[names[0]]


# -- the library's own state between runs ------------------------------------
#
# A run must be a pure function of its choices, so whatever the library keeps
# in its modules and classes is put back before each run.

_frozen = None
_MISSING = object()


def _is_ours(obj):
    return str(getattr(obj, '__module__', '')).split('.')[0] == 'pgp'


class _Frozen(object):

    def __init__(self):
        self.namespaces = []     # (dict-like owner, snapshot, is_class)
        self.containers = []     # (object, copy)
        self.caches = []
        self.seen = set()
        for name in sorted(sys.modules):
            if name == 'pgp' or name.startswith('pgp.'):
                m = sys.modules[name]
                if m is None or id(m) in self.seen:
                    continue
                self.seen.add(id(m))
                self.namespaces.append((m, dict(vars(m)), False))
                for v in list(vars(m).values()):
                    self.value(v)

    def value(self, v):
        if id(v) in self.seen:
            return
        if isinstance(v, (dict, list, set, bytearray)) and \
                type(v).__module__ in ('builtins', 'collections'):
            self.seen.add(id(v))
            self.containers.append((v, v.copy()))
            for x in (v.values() if isinstance(v, dict) else
                      () if isinstance(v, bytearray) else v):
                if isinstance(x, (dict, list, set, bytearray)):
                    self.value(x)
            return
        if type(v).__module__ == 'collections' and hasattr(v, 'copy') and \
                hasattr(v, 'clear') and hasattr(v, 'extend'):
            self.seen.add(id(v))
            self.containers.append((v, v.copy()))
            return
        if type(v).__name__ in ('WeakValueDictionary', 'WeakKeyDictionary'):
            self.seen.add(id(v))
            self.containers.append((v, dict(v)))
            return
        if hasattr(v, 'cache_clear'):
            self.seen.add(id(v))
            self.caches.append(v)
        if isinstance(v, type):
            if _is_ours(v):
                self.seen.add(id(v))
                self.namespaces.append((v, dict(vars(v)), True))
                for x in list(vars(v).values()):
                    self.value(x)
            return
        f = getattr(v, '__func__', v)
        if hasattr(f, '__code__'):
            if not _is_ours(f):
                return
            self.seen.add(id(v))
            for x in list(f.__defaults__ or ()) + list(
                    (f.__kwdefaults__ or {}).values()):
                self.value(x)
            if vars(f):
                self.containers.append((vars(f), dict(vars(f))))
            for c in (f.__closure__ or ()):
                try:
                    self.value(c.cell_contents)
                except ValueError:
                    pass
            return
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self.value(f)
            return
        if _is_ours(type(v)) and hasattr(v, '__dict__'):
            self.seen.add(id(v))
            self.containers.append((vars(v), dict(vars(v))))
            for x in list(vars(v).values()):
                self.value(x)

    def thaw(self):
        for owner, snap, is_class in self.namespaces:
            cur = vars(owner)
            if len(cur) != len(snap):
                for k in [k for k in cur if k not in snap]:
                    if is_class and k.startswith('__'):
                        continue
                    delattr(owner, k)
            for k, v in snap.items():
                if cur.get(k, _MISSING) is not v:
                    if is_class and (k.startswith('__') or
                                     k.startswith('_abc')):
                        continue
                    setattr(owner, k, v)
        for obj, copy in self.containers:
            if isinstance(obj, dict) or hasattr(obj, 'keys'):
                if len(obj) != len(copy) or any(
                        obj.get(k, _MISSING) is not v
                        for k, v in copy.items()):
                    obj.clear()
                    obj.update(copy)
            elif isinstance(obj, set):
                if obj != copy:
                    obj.clear()
                    obj.update(copy)
            elif hasattr(obj, 'appendleft'):
                obj.clear()
                obj.extend(copy)
            elif obj != copy or any(a is not b for a, b in zip(obj, copy)):
                obj[:] = copy
        for c in self.caches:
            c.cache_clear()


def freeze():
    global _frozen
    _frozen = _Frozen()


def thaw():
    if _frozen is not None:
        _frozen.thaw()
