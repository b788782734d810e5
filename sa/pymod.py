"""Python sources of the package: modules, scopes, imports, classes, resolution of names."""
import ast
import builtins
import functools
import importlib
import os
import types

from . import pyt
from .ctx import REPO

PKG = 'pysimulators'


class Module:
    def __init__(self, name, path, tree, is_pkg=False):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.imports = {}      # local name -> dotted
        self.funcs = {}
        self.classes = {}
        self.assigns = {}      # name -> [value nodes]
        self.star = []
        self.stmts = []
        self._collect(tree.body)

    def _collect(self, body):
        for s in body:
            self.stmts.append(s)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports.update(self.import_names(s))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.assigns.setdefault(n.id, []).append(
                                s.value if isinstance(t, ast.Name) else None)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                if isinstance(s.target, ast.Name):
                    self.assigns.setdefault(s.target.id, []).append(
                        s.value if isinstance(s, ast.AnnAssign) else None)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(s, f, []) or [])
                for h in getattr(s, 'handlers', []):
                    self._collect(h.body)
                if isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            self.assigns.setdefault(n.id, []).append(None)

    def import_names(self, s):
        out = {}
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = self.absolute(s.module, s.level)
            for a in s.names:
                if a.name == '*':
                    self.star.append(base)
                else:
                    out[a.asname or a.name] = f'{base}.{a.name}'
        return out

    def absolute(self, module, level):
        if not level:
            return module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([module] if module else []))


class Func:
    """A function of the package: module, class (or None), node."""

    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name
        self.qual = '.'.join(x for x in (
            mod.name, outer.path if outer else (cls.name if cls else ''), node.name) if x)

    @property
    def path(self):
        return '.'.join(x for x in ((self.outer.path if self.outer else
                                     (self.cls.name if self.cls else '')), self.node.name) if x)

    @property
    def where(self):
        return os.path.relpath(self.mod.path, REPO)

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(d))
        return out

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators()

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators()

    @property
    def is_property(self):
        return any(d in ('property', 'functools.cached_property', 'cached_property')
                   for d in self.decorators())


class Class:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = f'{mod.name}.{node.name}'
        self.methods = {}
        self.setters = {}
        self.assigns = {}
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(self.mod, s, self)
            if any(d.endswith('.setter') for d in f.decorators()):
                self.setters[s.name] = f
            elif any(d.endswith('.deleter') for d in f.decorators()):
                pass
            else:
                self.methods[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.assigns[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body + s.orelse:
                self._add(x)

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(d).split('.')[-1])
        return out


class Repo:
    def __init__(self, root=REPO):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, 'src', PKG)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(root, 'src'))[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                self.modules[name] = Module(name, p, ast.parse(open(p).read(), p), is_pkg)
        self._cls = {}
        self._fun = {}
        for m in self.modules.values():
            for n, c in m.classes.items():
                self._cls[f'{m.name}.{n}'] = Class(m, c)
            for n, f in m.funcs.items():
                self._fun[f'{m.name}.{n}'] = Func(m, f)
        self._canon = {}

    # -------------------------------------------------------------- names
    def canon(self, dotted):
        """Canonical dotted name: re-exports are followed."""
        r = self._canon.get(dotted)
        if r is None:
            r = self._canon[dotted] = self._canon_(dotted, 0)
        return r

    def _canon_(self, dotted, depth):
        if depth > 20:
            return dotted
        if dotted in self._cls or dotted in self._fun or dotted in self.modules:
            return dotted
        parts = dotted.split('.')
        if parts[0] == PKG:
            for i in range(len(parts) - 1, 0, -1):
                mn = '.'.join(parts[:i])
                m = self.modules.get(mn)
                if m is None:
                    continue
                n, rest = parts[i], parts[i + 1:]
                if f'{mn}.{n}' in self.modules:
                    return dotted
                if n in m.imports and m.imports[n] != dotted:
                    return self._canon_('.'.join([m.imports[n]] + rest), depth + 1)
                if n in m.funcs or n in m.classes or n in m.assigns:
                    return dotted
                for b in m.star:
                    bm = self.modules.get(b)
                    if bm is not None and (n in bm.funcs or n in bm.classes or n in bm.assigns
                                           or n in bm.imports):
                        return self._canon_('.'.join([b, n] + rest), depth + 1)
                return dotted
            return dotted
        return canon_ext(dotted)

    def cls(self, dotted):
        return self._cls.get(self.canon(dotted))

    def fun(self, dotted):
        d = self.canon(dotted)
        f = self._fun.get(d)
        if f is None and '.' in d:
            c, n = d.rsplit('.', 1)
            k = self._cls.get(c)
            if k is not None:
                return self.lookup(k, n)
        return f

    def lookup_name(self, mod, name):
        """Dotted canonical name of a module-level name, or None."""
        if name in mod.imports:
            return self.canon(mod.imports[name])
        if name in mod.funcs or name in mod.classes or name in mod.assigns:
            return f'{mod.name}.{name}'
        for b in mod.star:
            bm = self.modules.get(b)
            if bm is not None and (name in bm.funcs or name in bm.classes or name in bm.assigns
                                   or name in bm.imports):
                return self.canon(f'{b}.{name}')
            if bm is None and has_ext(f'{b}.{name}'):
                return canon_ext(f'{b}.{name}')
        if hasattr(builtins, name):
            return f'builtins.{name}'
        if name in ('__name__', '__file__', '__doc__', '__path__'):
            return f'{mod.name}.{name}'
        return None

    # -------------------------------------------------------------- classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            d = self.expr_name(c.mod, b)
            if d is not None:
                out.append(d)
        return out

    def expr_name(self, mod, e):
        if isinstance(e, ast.Name):
            return self.lookup_name(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.expr_name(mod, e.value)
            return None if b is None else self.canon(f'{b}.{e.attr}')
        return None

    @functools.lru_cache(None)
    def mro(self, c):
        """Linearised ancestors (Class objects and dotted names of external ones)."""
        seqs = []
        for b in self.bases(c):
            k = self._cls.get(b)
            if k is not None:
                seqs.append(list(self.mro(k)))
            else:
                seqs.append([b])
        seqs.append([self._cls.get(b) or b for b in self.bases(c)])
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return tuple(out)
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                while h in s:
                    s.remove(h)

    def array_attrs(self):
        """Names of attributes that the package uses as arrays."""
        if getattr(self, '_array_attrs', None) is None:
            uses = {'shape', 'dtype', 'ndim', 'T', 'ravel', 'reshape', 'flat', 'strides', 'astype', 'itemsize'}
            r = set()
            for m in self.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and x.attr in uses and isinstance(x.value, ast.Attribute):
                        r.add(x.value.attr)
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and isinstance(
                            x.slice, ast.Tuple) and any(
                                isinstance(y, ast.Slice) or isinstance(y, ast.Constant) and y.value in (None, ...)
                                for y in x.slice.elts):
                        r.add(x.value.attr)
            self._array_attrs = r
        return self._array_attrs

    def lookup(self, c, name, after=None):
        """Method found along the linearisation (after a class if given)."""
        seen = after is None
        for k in self.mro(c):
            if not seen:
                seen = k is after
                continue
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                if name in k.setters:
                    return k.setters[name]
                if name in k.methods:
                    return None
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.assigns:
                return k, k.assigns[name]
        return None

    def ext_bases(self, c):
        return [k for k in self.mro(c) if not isinstance(k, Class)]

    def subclasses(self, c):
        return [k for k in self._cls.values() if c in self.mro(k)]

    def is_sub(self, a, b):
        """Class a (dotted) is b (dotted) or inherits from it; None if unknown."""
        ka = self.cls(a)
        b = self.canon(b)
        if ka is not None:
            for k in self.mro(ka):
                n = k.qual if isinstance(k, Class) else k
                if n == b:
                    return True
            r = False
            for e in self.ext_bases(ka):
                x, y = ext(e), ext(b)
                if isinstance(x, type) and isinstance(y, type):
                    r = r or issubclass(x, y)
                elif self.cls(b) is None:
                    return None
            return r
        x, y = ext(a), ext(b)
        if isinstance(x, type) and isinstance(y, type):
            return issubclass(x, y)
        if isinstance(x, type) and self.cls(b) is not None:
            return False
        return None

    # -------------------------------------------------------------- results
    def plain(self, qual):
        """The function always returns a value other than None, Ellipsis, True and False."""
        memo = self.__dict__.setdefault('_plain', {})
        if qual not in memo:
            c, n = qual.rsplit('.', 1)
            k = self._cls.get(c)
            f = self.lookup(k, n) if k is not None else self._fun.get(qual)
            memo[qual] = False
            memo[qual] = f is not None and plain_result(f, self.plain)
        return memo[qual]

    # -------------------------------------------------------------- enumeration
    def functions(self, nested=False):
        for m in self.modules.values():
            for n in m.funcs.values():
                f = self._fun.get(f'{m.name}.{n.name}')
                if f.node is not n:
                    f = Func(m, n)
                yield f
                if nested:
                    yield from self.nested(f)
            for c in m.classes:
                k = self._cls[f'{m.name}.{c}']
                for f in list(k.methods.values()) + list(k.setters.values()):
                    yield f
                    if nested:
                        yield from self.nested(f)

    def nested(self, f):
        def rec(body, outer):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    g = Func(outer.mod, s, outer.cls, outer)
                    yield g
                    yield from rec(s.body, g)
                elif isinstance(s, ast.ClassDef):
                    continue
                else:
                    for fld in ('body', 'orelse', 'finalbody'):
                        yield from rec(getattr(s, fld, []) or [], outer)
                    for h in getattr(s, 'handlers', []):
                        yield from rec(h.body, outer)
        yield from rec(f.node.body, f)


def plain_result(f, plain=lambda q: False):
    own = []

    def rec(x):
        for y in ast.iter_child_nodes(x):
            if not isinstance(y, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
                own.append(y)
                rec(y)
    rec(f.node)
    if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in own) or not ends(f.node.body):
        return False
    vals = {}
    for y in own:
        if isinstance(y, ast.Assign):
            for t in y.targets:
                for z in ast.walk(t):
                    if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store):
                        vals.setdefault(z.id, []).append(y.value if z is t else None)
        elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            vals.setdefault(y.id, [])
    stores = {}
    for y in own:
        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            stores[y.id] = stores.get(y.id, 0) + 1
    args = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}

    def ok(e, deep=0):
        if isinstance(e, (ast.BinOp, ast.Tuple, ast.List, ast.Dict, ast.Set, ast.JoinedStr, ast.ListComp,
                          ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return True
        if isinstance(e, ast.Constant):
            return not (e.value is None or e.value is Ellipsis or isinstance(e.value, bool))
        if isinstance(e, ast.IfExp):
            return ok(e.body, deep) and ok(e.orelse, deep)
        if isinstance(e, ast.Call):
            d = e.func
            if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == 'np':
                return d.attr in ('zeros', 'empty', 'ones', 'asarray', 'array', 'arange', 'full', 'where',
                                  'concatenate', 'zeros_like', 'empty_like', 'ones_like', 'argsort')
            if isinstance(d, ast.Attribute) and d.attr == 'copy' and not e.args:
                return True
            if isinstance(d, ast.Name) and d.id not in stores and d.id not in args and d.id in f.mod.funcs:
                return plain(f'{f.mod.name}.{d.id}')
            return isinstance(d, ast.Name) and d.id in ('tuple', 'list', 'dict', 'str', 'int', 'float', 'len',
                                                        'slice', 'set') and d.id not in stores
        if isinstance(e, ast.Name) and deep < 3 and e.id not in args and vals.get(e.id) and \
                len(vals[e.id]) == stores[e.id]:
            return all(v is not None and ok(v, deep + 1) for v in vals[e.id])
        return False
    rets = [y for y in own if isinstance(y, ast.Return)]
    return bool(rets) and all(y.value is not None and ok(y.value) for y in rets)


def ends(body):
    """The block never falls through."""
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


# ------------------------------------------------------------------ external names
ALLOWED_EXT = ('numpy', 'scipy', 'astropy', 'pyoperators', 'builtins', 'math', 'operator',
               'functools', 'itertools', 'collections', 'inspect', 're', 'os', 'sys', 'copy',
               'time', 'types', 'typing', 'pathlib', 'warnings', 'string', 'contextlib',
               'multiprocessing', 'fractions', 'numbers', 'abc', 'enum', 'dataclasses', 'healpy',
               'pickle', 'tempfile', 'shutil', 'subprocess', 'importlib', 'gc', 'random',
               'textwrap', 'datetime', 'glob', 'configparser', 'threading')


@functools.lru_cache(None)
@functools.lru_cache(10000)
def is_function(name):
    o = ext(name)
    return isinstance(o, (types.FunctionType, types.BuiltinFunctionType)) or type(o).__name__ in (
        'ufunc', '_ArrayFunctionDispatcher')


@functools.lru_cache(10000)
def distinct(x, y):
    a, b = ext(x), ext(y)
    return a is not None and b is not None and a is not b


pyt.is_function = is_function
pyt.distinct = distinct


def ext(dotted):
    """Object of an installed library (never of the analysed package), or None."""
    parts = dotted.split('.')
    if parts[0] not in ALLOWED_EXT:
        return None
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return None
    for i, p in enumerate(parts[1:], 1):
        try:
            o2 = getattr(o, p)
        except AttributeError:
            try:
                o2 = importlib.import_module('.'.join(parts[:i + 1]))
            except Exception:
                return None
        except Exception:
            return None
        o = o2
    return o


def has_ext(dotted):
    return ext(dotted) is not None


SAME = {
    'numpy.float64': 'builtins.float', 'numpy.double': 'builtins.float',
    'numpy.bool_': 'builtins.bool', 'numpy.bool': 'builtins.bool',
    'numpy.int_': 'builtins.int', 'numpy.int64': 'numpy.int64',
    'numpy.absolute': 'numpy.abs', 'numpy.radians': 'numpy.deg2rad',
    'numpy.degrees': 'numpy.rad2deg', 'numpy.newaxis': 'const.None',
    'math.pi': 'numpy.pi', 'math.sqrt': 'numpy.sqrt', 'math.sin': 'numpy.sin',
    'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.exp': 'numpy.exp',
    'math.log': 'numpy.log', 'math.atan2': 'numpy.arctan2', 'math.radians': 'numpy.deg2rad',
    'math.degrees': 'numpy.rad2deg', 'math.asin': 'numpy.arcsin', 'math.acos': 'numpy.arccos',
    'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil', 'math.hypot': 'numpy.hypot',
    'math.fabs': 'numpy.abs', 'math.trunc': 'numpy.trunc', 'numpy.fix': 'numpy.trunc', 'math.atan': 'numpy.arctan',
    'math.expm1': 'numpy.expm1', 'math.log1p': 'numpy.log1p', 'math.sinh': 'numpy.sinh', 'math.cosh': 'numpy.cosh',
    'math.tanh': 'numpy.tanh', 'math.isnan': 'numpy.isnan', 'math.isfinite': 'numpy.isfinite',
    'math.isinf': 'numpy.isinf', 'builtins.abs': 'numpy.abs', 'scipy.constants.pi': 'numpy.pi',
    'numpy.acos': 'numpy.arccos', 'numpy.asin': 'numpy.arcsin', 'numpy.atan2': 'numpy.arctan2',
    'numpy.atan': 'numpy.arctan', 'numpy.conj': 'numpy.conjugate', 'numpy.amax': 'numpy.max',
    'numpy.amin': 'numpy.min', 'numpy.pow': 'numpy.power', 'numpy.concat': 'numpy.concatenate',
    'numpy.floor_divide': 'numpy.floor_divide', 'numpy.true_divide': 'numpy.divide',
    'scipy.constants.speed_of_light': 'scipy.constants.c',
    'scipy.constants.Planck': 'scipy.constants.h', 'scipy.constants.Boltzmann': 'scipy.constants.k',
}


@functools.lru_cache(None)
def canon_ext(dotted):
    if dotted in SAME:
        return SAME[dotted]
    if dotted.split('.')[0] == 'pyoperators':
        o = ext(dotted)
        m, q = getattr(o, '__module__', None), getattr(o, '__qualname__', None)
        if isinstance(m, str) and isinstance(q, str) and m.startswith('pyoperators') and \
                '<' not in q:
            return f'{m}.{q}'
    return dotted


@functools.lru_cache(None)
def repo():
    return Repo()
