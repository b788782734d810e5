"""Value numbering of Python functions: abstract evaluation of the syntax tree into terms.

Every variable and every storage location (attribute of an argument, array, list)
is mapped to a term; branches are joined by conditions, loops become map/fold
terms, functions of the package are inlined unless they have a summary name.
The result of a function is its outcome (value or exception, by condition), its
ordered external effects, and the final contents of the locations reachable from
its arguments.
"""
import ast
import itertools
import re

from . import pyt
from .pyt import (
    ELL, FALSE, NONE, ONE, TRUE, UNDEF, ZERO, PI, T, TooBig, add, and_, attr, call, call_t, cat,
    const, constant, contains, dict_, div, eq, glob, index, is_, is_bool, is_seq, ite, le,
    literals, lt, mk, mul, neg, not_, num, opaque, or_, power, restrict, store, sub, subst, tostr,
    truth, walk)
from .pymod import Class, Func, Module, canon_ext, ext, repo

MAXDEPTH = 10


class Unsupported(Exception):
    pass


VIEW_METHODS = {'reshape', 'ravel', 'view', 'swapaxes', 'transpose', 'squeeze'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}
METH2NP = {'sum', 'min', 'max', 'mean', 'any', 'all', 'argmin', 'argmax', 'dot', 'cumsum', 'prod',
           'var', 'std', 'copy', 'conj', 'conjugate', 'ptp', 'repeat', 'nonzero', 'clip'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'popitem', 'fill', 'add', 'discard', 'add_history', 'add_comment',
            'resize', 'itemset', 'put', 'partition', 'setflags', 'byteswap_'}
IGNORED = {'builtins.print', 'warnings.warn', 'time.sleep', 'sys.stdout.flush'}
OUT3 = {'numpy.add': 2, 'numpy.subtract': 2, 'numpy.multiply': 2, 'numpy.divide': 2,
        'numpy.power': 2, 'numpy.sqrt': 1, 'numpy.exp': 1, 'numpy.sin': 1, 'numpy.cos': 1,
        'numpy.deg2rad': 1, 'numpy.rad2deg': 1, 'numpy.negative': 1, 'numpy.abs': 1,
        'numpy.hypot': 2, 'numpy.arctan2': 2, 'numpy.mod': 2, 'numpy.dot': 2, 'numpy.square': 1,
        'numpy.arccos': 1, 'numpy.arcsin': 1, 'numpy.log': 1, 'numpy.maximum': 2,
        'numpy.minimum': 2, 'numpy.floor': 1, 'numpy.ceil': 1, 'numpy.round': 2,
        'numpy.logical_or': 2, 'numpy.logical_and': 2, 'numpy.logical_not': 1,
        'numpy.bitwise_or': 2, 'numpy.bitwise_and': 2}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
       ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
       ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
       ast.RShift: '>>', ast.MatMult: '@'}

FRESH = {'call', 'list', 'dict', 'set', 'map', 'store', 'mut', 'obj', 'binop', 'fold', 'eff',
         'viewstore', 'dict*'}
ALIASING = {'numpy.' + x for x in (
    'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
    'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'rollaxis', 'moveaxis', 'expand_dims', 'real',
    'imag', 'diagonal', 'require', 'broadcast_to', 'split', 'flip', 'rot90')}
IMMUTABLE = {'builtins.int', 'builtins.float', 'builtins.str', 'builtins.len', 'builtins.bool',
             'builtins.tuple', 'builtins.type', 'numpy.dtype', 'builtins.isinstance'}


def isinst(x, c):
    """isinstance(x, c) for one class term."""
    if x.op == 'ite' and pyt.leaves_const(x):
        return ite(x.a[0], isinst(x.a[1], c), isinst(x.a[2], c))
    n = c.a[0] if c.op == 'glob' else None
    if n is not None:
        k = {'str': 'str', 'fstr': 'str', 'tuple': 'tuple', 'list': 'list', 'dict': 'dict'}.get(x.op)
        if x is NONE:
            return TRUE if n in ('types.NoneType', 'builtins.object') else FALSE
        if k is not None:
            if n == 'builtins.' + k or n == 'builtins.object':
                return TRUE
            o = ext(n)
            if isinstance(o, type):
                return TRUE if issubclass(ext('builtins.' + k), o) else FALSE
    return mk('isinstance', x, c)


DISJOINT = ('builtins.str', 'builtins.tuple', 'builtins.list', 'builtins.dict', 'builtins.set',
            'builtins.int', 'builtins.float', 'builtins.slice', 'numpy.ndarray')


def class_rel(kind, a, b):
    if b.op != 'glob':
        return None
    if kind == 'inst':
        k = {'str': 'str', 'tuple': 'tuple', 'list': 'list'}.get(a.op)
        if k is None:
            return None
        r = isinst(a, b)
        return True if r is TRUE else False if r is FALSE else None
    if a.op != 'glob':
        return None
    rp = repo()
    if a is b or rp.is_sub(a.a[0], b.a[0]):
        return True
    if a.a[0] in DISJOINT and b.a[0] in DISJOINT:
        return False
    return None


pyt.CLASS_REL[0] = class_rel


def kwargs_of(t):
    """Is it the dictionary of the keyword arguments, possibly updated?"""
    while t.op in ('store', 'del', 'ite'):
        t = t.a[1 if t.op == 'ite' else 0]
    return pyt.is_kwargs(t)


class State:
    __slots__ = ('env', 'heap', 'pc', 'eff', '_lits')

    def __init__(self, env, heap, pc, eff):
        self.env, self.heap, self.pc, self.eff = env, heap, pc, eff
        self._lits = None

    def copy(self, pc=None):
        return State(dict(self.env), dict(self.heap), self.pc if pc is None else pc, list(self.eff))

    def lits(self):
        if self._lits is None or self._lits[0] is not self.pc:
            self._lits = (self.pc, literals(self.pc))
        return self._lits[1]

    @property
    def dead(self):
        return self.pc is FALSE


class Frame:
    def __init__(self, func, mod, cls, depth, selfcls=None, target=None):
        self.func, self.mod, self.cls, self.depth = func, mod, cls, depth
        self.selfcls = selfcls
        self.target = target        # module whose names a specification sees
        self.rets = []
        self.loops = []
        self.globals = set()
        self.closure = None
        self.handlers = []


class Result:
    """Summary of a function."""

    def __init__(self):
        self.out = None          # decision diagram of ('ret', value) / ('raise', type)
        self.heap = {}           # location -> content (on normal return)
        self.effects = ()        # ((guard, event), ...)
        self.ok = True
        self.why = None


class Eng:
    def __init__(self, rp=None, symbols=(), spec=None, inline_all=False):
        self.repo = rp or repo()
        self.symbols = symbols       # qualified names that are not inlined
        self.spec = spec             # dict qual -> Func (not used for inlining)
        self.refs = itertools.count(1)
        self.clos = {}
        self.level = 0
        self.mutres = None
        self.addr = {}
        self.budget = 60000
        self.starred = False        # whether a call unpacks its arguments
        self.stack = []
        self.inlined = set()
        self.reached = set()
        self.raises = []
        self.inline_all = inline_all
        self.init_heap = {}
        for c in self.repo._cls.values():
            if any(str(b).startswith('enum.') for b in self.repo.ext_bases(c)):
                for n in c.assigns:
                    pyt.CONST_GLOBS.add(f'{c.qual}.{n}')

    # ================================================================ entry
    def run(self, f, target=None, selfcls=None, self_term=None):
        """Summary of function f (its arguments are symbolic)."""
        r = Result()
        try:
            self._run(f, r, target, selfcls)
        except (Unsupported, TooBig, RecursionError) as e:
            r.ok = False
            r.why = f'{type(e).__name__}: {e}'
        return r

    def _run(self, f, r, target, selfcls):
        node = f.node
        fr = Frame(f, f.mod, f.cls, 0, selfcls or f.cls, target)
        self.root = fr
        env = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        # canonical names of the arguments: by position for self, by name otherwise
        first = not f.is_static and f.cls is not None
        for i, n in enumerate(names):
            env[n] = mk('arg', 'self' if i == 0 and first else n)
        for x in a.kwonlyargs:
            env[x.arg] = mk('arg', x.arg)
        if a.vararg:
            env[a.vararg.arg] = mk('arg', '*args')
        if a.kwarg:
            env[a.kwarg.arg] = mk('arg', '**kw')
        st = State(env, {}, TRUE, [])
        self.stack.append(f.qual)
        try:
            st = self.block(node.body, st, fr)
        finally:
            self.stack.pop()
        if not st.dead:
            fr.rets.append((st.pc, NONE, st.heap, st))
        # outcome
        out = UNDEF
        for pc, exc, heap in reversed(self.raises):
            out = ite(pc, mk('raise', exc), out)
        for pc, v, heap, s in reversed(fr.rets):
            s2 = State(s.env, heap, pc, [])
            out = ite(pc, mk('ret', self.value(v, s2)), out)
        r.out = out
        # attributes set on values that are not followed
        r.lost = tuple({k for _, _, heap, _ in fr.rets for k in heap if k.op == 'attr' and k.a[0].op != 'ref' and
                        k not in self.reached and not rooted(k)})
        # final contents of the locations reachable from the arguments
        locs = {}
        for pc, v, heap, s in fr.rets:
            for k in heap:
                if rooted(k):
                    locs.setdefault(k, None)
        for k in locs:
            val = None
            for pc, v, heap, s in reversed(fr.rets):
                s2 = State(s.env, heap, pc, [])
                c = self.content(k, s2)
                c = restrict(c, literals(pc))
                val = c if val is None else ite(pc, c, val)
            if val is not k:
                r.heap[k] = val
        effs = []
        if fr.rets or self.raises:
            seen = set()
            for pc, v, heap, s in fr.rets:
                for g, e, n in s.eff:
                    if n not in seen:
                        seen.add(n)
                        effs.append((n, g, e))
            for g, e, n in self.raise_effects:
                if n not in seen:
                    seen.add(n)
                    effs.append((n, g, e))
        effs.sort(key=lambda x: x[0])
        r.effects = tuple((g, e) for n, g, e in effs)
        r.args = names

    raise_effects = ()

    # ================================================================ contents
    def content(self, t, st):
        """Current content of a location or value."""
        op = t.op
        if op in ('num', 'str', 'const', 'poly'):
            return t
        if op == 'ref':
            v = st.heap.get(t)
            if v is None:
                return t
            return self.content(v.a[0], st) if v.op == '@' else v
        v = st.heap.get(t)
        if v is not None:
            return self.content(v.a[0], st) if v.op == '@' else v
        if op == 'attr':
            b = self.content(t.a[0], st)
            return t if b is t.a[0] else attr(b, t.a[1])
        if op == 'index':
            b = self.content(t.a[0], st)
            return t if b is t.a[0] else index(b, t.a[1])
        if op == 'view':
            b = self.content(t.a[0], st)
            return self.viewterm(b, t)
        if op == 'tuple':
            items = tuple(self.content(x, st) for x in t.a[0])
            return t if all(x is y for x, y in zip(items, t.a[0])) else mk('tuple', items)
        if op == 'ite':
            return self.content_ite(t, st, {})
        if op == 'clos':
            return self.closure_term(t, st)
        if op == 'bound':
            return mk('meth', self.content(t.a[0], st), t.a[1])
        return t

    def content_ite(self, t, st, memo):
        r = memo.get(t)
        if r is None:
            if st.heap.get(t) is not None:
                r = self.content(t, st)
            else:
                a, b = (self.content_ite(x, st, memo) if x.op == 'ite' else self.content(x, st)
                        for x in t.a[1:])
                r = t if a is t.a[1] and b is t.a[2] else ite(t.a[0], a, b)
            memo[t] = r
        return r

    def value(self, t, st):
        """Content with the attributes set on it (for results)."""
        return self.full(self.content(t, st), t, st, 0)

    def full(self, v, addr, st, depth):
        if addr.op == 'tuple' and v.op == 'tuple' and len(addr.a[0]) == len(v.a[0]):
            return mk('tuple', tuple(self.full(x, a, st, depth + 1)
                                     for x, a in zip(v.a[0], addr.a[0])))
        if addr.op == 'ite':
            bases = {k.a[0] for k in st.heap if k.op == 'attr'}
            if not bases.isdisjoint(leaves(addr)) and any(x in bases and not rooted(x) for x in leaves(addr)):
                out = v
                for x, cond in branches(addr):
                    lit = literals(cond)
                    out = ite(cond, restrict(self.full(self.content(x, st), x, st, depth), lit), out)
                return out
            return v
        if depth > 3 or addr.op not in ('ref', 'view', 'call', 'attr', 'index') or addr.op != 'ref' and rooted(addr):
            return v
        x = st.heap.get(addr)
        if x is not None and x.op == '@':
            return self.full(v, x.a[0], st, depth + 1)
        fields = []
        for k in st.heap:
            if k.op == 'attr' and k.a[0] is addr:
                self.reached.add(k)
                fields.append((k.a[1], self.value(k, st)))
        if fields:
            return mk('obj', v, tuple(sorted(fields, key=lambda x: x[0])))
        return v

    def viewterm(self, b, t):
        n, args, kw = t.a[1], t.a[2], t.a[3]
        if n in VIEW_ATTRS:
            if n == 'T' and b.op == 'attr' and b.a[1] == 'T':
                return b.a[0]
            return attr(b, n)
        return mk('call', mk('meth', b, n), args, kw)

    def addressable(self, t):
        if t.op == 'ite':
            r = self.addr.get(t)
            if r is None:
                r = self.addr[t] = self.addressable(t.a[1]) or self.addressable(t.a[2])
            return r
        return t.op in ('ref', 'arg', 'attr', 'index', 'view', 'glob', 'lv')

    def relocate(self, n, st):
        """A variable that is a part of a new object: the part becomes a location of its own."""
        v = st.env.get(n)
        if v is None or v.op not in ('index', 'attr', 'view'):
            return
        r = v
        while r.op in ('index', 'attr', 'view') and r not in st.heap:
            r = r.a[0]
        if self.addressable(r):
            return
        x = mk('ref', next(self.refs))
        st.heap[x] = self.content(v, st)
        for k, y in list(st.env.items()):
            if y is v:
                st.env[k] = x

    def aliased(self, t, deep=0):
        """Locations whose data a value may share (the array itself, or a view of it)."""
        if deep > 12:
            return
        if t.op in ('store', 'viewstore', 'mut'):
            t = t.a[1 if t.op == 'mut' else 0]
            if isinstance(t, pyt.T):
                yield from self.aliased(t, deep + 1)
        elif t.op == 'ite':
            yield from self.aliased(t.a[1], deep + 1)
            yield from self.aliased(t.a[2], deep + 1)
        elif t.op == 'arg':
            yield t
        elif t.op == 'attr':
            if t.a[1] in VIEW_ATTRS:
                yield from self.aliased(t.a[0], deep + 1)
            elif rooted(t):
                yield t
        elif t.op == 'index':
            k = t.a[1]
            if k is ELL or k.op == 'slice' or k is NONE or k.op == 'tuple' and any(
                    x is ELL or x.op == 'slice' or x is NONE for x in k.a[0]):
                yield from self.aliased(t.a[0], deep + 1)
        elif t.op == 'view':
            yield from self.aliased(t.a[0], deep + 1)
        elif t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ALIASING:
            for x in t.a[1][:1] or [v for k, v in t.a[2] if k in ('a', 'ary', 'm', 'arys')]:
                yield from self.aliased(x, deep + 1)
        elif t.op == 'call' and t.a[0].op == 'meth' and t.a[0].a[1] in VIEW_METHODS:
            yield from self.aliased(t.a[0].a[0], deep + 1)

    def inplace(self, v, st):
        """The data of this value are changed: those of the arguments it may share too."""
        if v.op in ('arg', 'attr'):
            return
        for x in self.aliased(v):
            st.heap[mk('attr', x, '*data')] = TRUE

    def write(self, addr, v, st):
        """Replace the content of a location."""
        if addr.op == 'ref':
            x = st.heap.get(addr)
            if x is not None and x.op != '@':
                self.inplace(x, st)
            x = st.heap.get(addr)
            if x is not None and x.op == '@':
                return self.write(x.a[0], v, st)
            st.heap[addr] = v
        elif addr.op in ('arg', 'glob', 'lv'):
            st.heap[addr] = v
        elif addr.op == 'attr':
            x = st.heap.get(addr)
            if x is not None and x.op == '@':
                return self.write(x.a[0], v, st)
            st.heap[addr] = v
        elif addr.op == 'index':
            base = addr.a[0]
            if not self.addressable(base):
                self.inplace(self.content(addr, st), st)
                return
            self.write(base, store(self.content(base, st), addr.a[1], v), st)
        elif addr.op == 'view':
            base = addr.a[0]
            if not self.addressable(base):
                self.inplace(self.content(addr, st), st)
                return
            if addr.a[1] in ('T', 'ravel', 'reshape', 'view') and v.op == 'store' and v.a[1] is ELL \
                    and v.a[2].op == 'num':
                self.write(base, store(self.content(base, st), ELL, v.a[2]), st)
            else:
                self.write(base, mk('viewstore', self.content(base, st), addr.a[1],
                                    addr.a[2], v), st)
        elif addr.op == 'ite':
            c = addr.a[0]
            for x, cond in ((addr.a[1], c), (addr.a[2], not_(c))):
                if self.addressable(x):
                    old = self.content(x, st)
                    self.write(x, ite(cond, restrict(v, literals(cond)), old), st)

    def setfield(self, obj, name, v, st, fr):
        """obj.name = v"""
        if obj.op == 'ite':
            v = self.content(v, st)
            for x, cond in branches(obj):
                k = self.deref_alias(mk('attr', self.deref_alias(x, st), name), st)
                old = self.content(k, st)
                st.heap[k] = ite(cond, restrict(v, literals(cond)), old)
            return
        obj = self.deref_alias(obj, st)
        c = self.class_of(obj, st, fr)
        if c is not None and isinstance(c, Class):
            s = self.repo.setter(c, name)
            if s is not None and s.qual not in self.stack and self.may_inline(s, fr):
                self.inline(s, [obj, v], {}, st, fr)
                return
        k = mk('attr', obj, name)
        if v.op in ('ref', 'arg', 'view', 'index') and v is not k and self.addressable(v):
            st.heap[k] = mk('@', v)
        else:
            st.heap[k] = self.content(v, st)

    def deref_alias(self, t, st):
        seen = 0
        while seen < 20:
            x = st.heap.get(t)
            if x is None or x.op != '@':
                return t
            t = x.a[0]
            seen += 1
        return t

    def bind(self, name, v, st, fr):
        if name in fr.globals:
            m = (fr.target or fr.mod).name
            g = glob(f'{m}.{name}')
            st.heap[g] = self.content(v, st)
            return
        if v.op in FRESH:
            r = mk('ref', next(self.refs))
            st.heap[r] = v
            v = r
        elif v.op == 'ite' and not is_bool(v):
            v = self.located(v, st)
        st.env[name] = v

    def located(self, v, st):
        """Give a location to the new objects among the alternatives of a value."""
        if v.op == 'ite':
            a, b = self.located(v.a[1], st), self.located(v.a[2], st)
            return v if a is v.a[1] and b is v.a[2] else ite(v.a[0], a, b)
        if v.op in FRESH and not self.immutable(v):
            r = mk('ref', next(self.refs))
            st.heap[r] = v
            return r
        return v

    def immutable(self, v):
        return v.op == 'call' and v.a[0].op == 'glob' and v.a[0].a[0] in IMMUTABLE

    # ================================================================ statements
    def block(self, body, st, fr):
        for s in body:
            if st.dead:
                break
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('budget')
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st, fr)
        c = v
        if c is self.mutres:
            return st          # the effect is in the contents of the receiver
        if isinstance(s.value, ast.Call) and not st.dead:
            if c.op == 'call':
                self.effect(c, st)
            elif c.op == 'ite':
                for x, cond in branches(c):
                    if x.op == 'call':
                        self.effect(x, st, cond)
        return st

    def effect(self, c, st, cond=TRUE):
        if c.a[0].op == 'meth' and c.a[0].a[0].op == 'ite':
            # a method of one of several values
            for x, pc in branches(c.a[0].a[0]):
                self.effect(mk('call', mk('meth', x, c.a[0].a[1]), *c.a[1:]), st, and_(cond, pc))
            return
        f = c.a[0] if c.op == 'call' else None
        if f is not None and f.op == 'glob' and f.a[0] in IGNORED:
            return
        st.eff.append((and_(st.pc, cond), c, next(self.refs)))

    def s_Assign(self, s, st, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(
                s.value, (ast.Tuple, ast.List)) and not any(
                    isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts) and \
                len(s.value.elts) == len(s.targets[0].elts):
            vals = [self.ev(x, st, fr) for x in s.value.elts]
            vals = [self.content(v, st) if v.op in ('index', 'attr') else v for v in vals]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, st, fr)
            return st
        v = self.ev(s.value, st, fr)
        if len(s.targets) > 1 and v.op in ('call', 'list', 'dict', 'set', 'map'):
            r = mk('ref', next(self.refs))
            st.heap[r] = v
            v = r
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setfield(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name):
                self.relocate(t.value.id, st)
            o = self.place(t.value, st, fr)
            k = self.content(self.key(t.slice, st, fr), st)
            self.setitem(o, k, self.content(v, st), st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = v if v.op in ('tuple', 'list') else self.content(v, st)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts)
                for j, x in enumerate(t.elts):
                    if j < i:
                        self.assign(x, index(c, num(j)), st, fr)
                    elif j == i:
                        hi = NONE if i == n - 1 else num(i + 1 - n)
                        self.assign(x.value, call('builtins.list', index(c, mk('slice', num(i) if i else NONE, hi, NONE))), st, fr)
                    else:
                        self.assign(x, index(c, num(j - n)), st, fr)
                return
            for j, x in enumerate(t.elts):
                self.assign(x, self.unpack(c, j, len(t.elts)), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported('target')

    def place(self, e, st, fr):
        """Location designated by an expression some elements of which are assigned."""
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if isinstance(e, ast.Attribute) and isinstance(r, ast.Name) and r.id in st.env and st.env[
                r.id].op in ('ref', 'ite'):
            o = self.deref_alias(self.place(e.value, st, fr), st)
            if e.attr not in VIEW_ATTRS:
                return self.part(o, e, st, fr)
        return self.ev(e, st, fr)

    def part(self, o, e, st, fr):
        """Location of an attribute of a new object."""
        if o.op == 'ite':
            a, b = self.part(o.a[1], e, st, fr), self.part(o.a[2], e, st, fr)
            return ite(o.a[0], a, b)
        if o.op == 'ref' or o.op == 'attr' and o in st.heap and not rooted(o):
            c, k = st.heap.get(o), mk('attr', o, e.attr)
            if c is not None and c.op in ('call', 'obj', 'attr') and k not in st.heap:
                st.heap[k] = self.attr_of(c, e.attr)
            if k in st.heap:
                return self.deref_alias(k, st)
        return self.getattr(o, e.attr, st, fr)

    def unpack(self, c, j, n):
        if c.op == 'ite':
            return ite(c.a[0], self.unpack(c.a[1], j, n), self.unpack(c.a[2], j, n))
        return index(c, num(j))

    def setitem(self, o, k, v, st):
        if not self.addressable(o):
            st.eff.append((st.pc, mk('setitem', o, k, v), next(self.refs)))
            return
        self.write(o, store(self.content(o, st), k, v), st)

    def s_AugAssign(self, s, st, fr):
        op = BIN[type(s.op)]
        if isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name):
            self.relocate(s.target.value.id, st)
        if isinstance(s.target, ast.Name):
            self.relocate(s.target.id, st)
            cur = self.name(s.target.id, st, fr)
            v = self.content(self.ev(s.value, st, fr), st)
            old = self.content(cur, st)
            new = self.binop(op, old, v)
            if self.mutable_alias(cur, s.target.id, st) or self.evident(cur, s.target.id, fr) or cur.op in (
                    'arg', 'attr') and rooted(cur) and broadcasting(v):
                self.write(cur, new, st)
            elif cur.op == 'ref' and not self.shared(cur, s.target.id, st):
                if st.heap[cur].op != '@':
                    self.inplace(st.heap[cur], st)
                st.heap[cur] = new
            else:
                if cur.op == 'bound' and rooted(cur.a[0]):
                    # an attribute that may also be a method
                    st.heap[mk('attr', mk('attr', *cur.a), '*data')] = TRUE
                self.bind(s.target.id, new, st, fr)
            return st
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, st, fr)
            k = self.getattr(o, s.target.attr, st, fr)
            v = self.content(self.ev(s.value, st, fr), st)
            self.setfield(o, s.target.attr, self.binop(op, self.content(k, st), v), st, fr)
            return st
        o = self.place(s.target.value, st, fr)
        k = self.content(self.key(s.target.slice, st, fr), st)
        v = self.content(self.ev(s.value, st, fr), st)
        old = index(self.content(o, st), k)
        if k is ELL and self.addressable(o):
            # the whole array
            c = self.content(o, st)
            base = c.a[0] if c.op == 'store' and c.a[1] is ELL else c
            prev = c.a[2] if c.op == 'store' and c.a[1] is ELL else c
            self.write(o, store(base, ELL, self.binop(op, prev, v)), st)
            return st
        self.setitem(o, k, self.binop(op, old, v), st)
        return st

    def mutable_alias(self, cur, name, st):
        """An augmented assignment to this variable changes a caller-visible array."""
        if cur.op == 'arg':
            return cur.a[0] in ('out', 'output', 'out_', 'output_')
        if cur.op == 'index':
            k = cur.a[1]
            return k is ELL or k.op == 'slice' or k.op == 'tuple' and any(
                x is ELL or x.op == 'slice' for x in k.a[0])
        if cur.op == 'view':
            return True
        if cur.op == 'ite':
            return self.mutable_alias(cur.a[1], name, st) or self.mutable_alias(cur.a[2], name, st)
        if cur.op == 'ref':
            x = st.heap.get(cur)
            if x is not None and x.op == '@':
                return self.mutable_alias(x.a[0], name, st)
            return self.shared(cur, name, st) and x is not None and self.arraylike(x)
        return False

    def evident(self, cur, name, fr):
        """An argument or attribute that the source shows to be an array."""
        if cur.op == 'arg' or cur.op == 'attr' and cur.a[0].op == 'arg' and cur.a[0].a[0] != 'self':
            return fr.func is not None and name in arrays_of(fr.func.node)
        return cur.op == 'attr' and cur.a[0].op == 'arg' and cur.a[1] in self.repo.array_attrs()

    def shared(self, cur, name, st):
        return any(v is cur for n, v in st.env.items() if n != name) or any(
            v.op == '@' and v.a[0] is cur for v in st.heap.values())

    def arraylike(self, v):
        if v.op in ('store', 'viewstore', 'list'):
            return True
        if v.op == 'call':
            f = v.a[0]
            return f.op == 'glob' and f.a[0].split('.')[-1] in (
                'empty', 'zeros', 'ones', 'array', 'asarray', 'asanyarray', 'empty_like',
                'zeros_like', 'ones_like', 'arange', 'ascontiguousarray', 'copy', 'full')
        return False

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        if st.dead:
            return st
        if fr.loops:
            fr.loops[-1]['ret'].append((st.pc, v, st))
        else:
            fr.rets.append((st.pc, v, st.heap, st))
        return self.kill(st)

    def kill(self, st):
        return State(st.env, st.heap, FALSE, st.eff)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = mk('str', 'reraise')
        else:
            x = s.exc
            if isinstance(x, ast.Call):
                f = self.ev(x.func, st, fr)
                e = self.content(f, st)
            else:
                e = self.content(self.ev(x, st, fr), st)
                if e.op == 'call':
                    e = e.a[0]
        self.do_raise(e, st, fr)
        return self.kill(st)

    def do_raise(self, e, st, fr):
        if fr.handlers:
            fr.handlers[-1].append((st.pc, e, st))
            return
        if self.loopdepth(fr):
            fr.loops[-1]['raise'].append((st.pc, e, st))
            return
        if fr.depth and fr.parent_handlers:
            fr.parent_handlers[-1].append((st.pc, e, st))
            return
        if fr.depth and fr.parent_loops:
            fr.parent_loops[-1]['raise'].append((st.pc, e, st))
            return
        self.raises.append((st.pc, e, st.heap))
        self.raise_effects = tuple(self.raise_effects) + tuple(st.eff)

    def loopdepth(self, fr):
        return len(fr.loops)

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        st2 = st.copy(and_(st.pc, not_(c)))
        if not st2.dead:
            self.do_raise(glob('builtins.AssertionError'), st2, fr)
        st.pc = and_(st.pc, c)
        return st

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.content(self.key(t.slice, st, fr), st)
                c = self.content(o, st)
                if self.addressable(o):
                    self.write(o, pyt.delete(c, k) if is_key(k) else mk('mut', 'del', c, (k,)), st)
                else:
                    self.effect(mk('del', c, k), st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr)
                st.heap[mk('attr', self.deref_alias(o, st), t.attr)] = UNDEF
        return st

    def s_Import(self, s, st, fr):
        for n, d in (fr.target or fr.mod).import_names(s).items():
            st.env[n] = glob(self.repo.canon(d))
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.mkclos(s, st, fr)
        if s.decorator_list:
            v = st.env[s.name]
            for d in reversed(s.decorator_list):
                dn = ast.unparse(d)
                if dn.startswith('functools.wraps') or dn == 'staticmethod':
                    continue
                v = call_t(self.content(self.ev(d, st, fr), st), (self.content(v, st),))
            st.env[s.name] = v
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = mk('localclass', s.name)
        return st

    def mkclos(self, node, st, fr):
        n = next(self.refs)
        self.clos[n] = (node, st, fr)
        return mk('clos', n)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.dead:
            return st
        return self.branch(c, lambda x: self.block(s.body, x, fr),
                           lambda x: self.block(s.orelse, x, fr), st)

    def s_Match(self, s, st, fr):
        name = f'$match{s.lineno}_{s.col_offset}'
        self.assign(ast.Name(id=name, ctx=ast.Store()), self.ev(s.subject, st, fr), st, fr)
        subj = ast.Name(id=name, ctx=ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[test(x) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(value=True)
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()), args=[subj, p.cls],
                                keywords=[])
            raise Unsupported('pattern')
        orelse = []
        for c in reversed(s.cases):
            t = test(c.pattern)
            if c.guard is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, c.guard])
            n = ast.If(test=t, body=c.body, orelse=orelse)
            for x in ast.walk(n):
                if not hasattr(x, 'lineno'):
                    x.lineno, x.col_offset = c.pattern.lineno, c.pattern.col_offset
            orelse = [n]
        return self.block(orelse, st, fr)

    def branch(self, c, f, g, st):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a = f(st.copy(and_(st.pc, c)))
        b = g(st.copy(and_(st.pc, not_(c))))
        return self.join(c, a, b, len(st.eff))

    def join(self, c, a, b, neff=None):
        if a.dead:
            return b
        if b.dead:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else self.joinval(c, x, y, a, b)
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                heap[k] = x
                continue
            if x is None:
                if k.op == 'ref':
                    heap[k] = y
                    continue
                x = self.content(k, a)
            if y is None:
                if k.op == 'ref':
                    heap[k] = x
                    continue
                y = self.content(k, b)
            if x is y:
                heap[k] = x
                continue
            if x.op == '@':
                x = self.content(k, a)
            if y.op == '@':
                y = self.content(k, b)
            heap[k] = ite(c, x, y)
        eff = list(a.eff)
        have = {n for _, _, n in eff}
        eff += [e for e in b.eff if e[2] not in have]
        eff.sort(key=lambda e: e[2])
        return State(env, heap, or_(a.pc, b.pc), eff)

    def joinval(self, c, x, y, a, b):
        return ite(c, x, y)

    # ------------------------------------------------------------ try / with
    def s_Try(self, s, st, fr):
        hs = list(s.handlers)
        while hs and len(hs[-1].body) == 1 and isinstance(hs[-1].body[0], ast.Raise) and \
                hs[-1].body[0].cause is None and (hs[-1].body[0].exc is None or isinstance(
                    hs[-1].body[0].exc, ast.Name) and hs[-1].body[0].exc.id == hs[-1].name):
            hs.pop()          # the exception goes on
        if len(hs) < len(s.handlers):
            if not hs and not s.finalbody:
                return self.block(s.body + s.orelse, st, fr)
            s = ast.copy_location(ast.Try(s.body, hs, s.orelse, s.finalbody), s)
        if s.handlers and not s.finalbody and len(s.body) > 1:
            # the statements that cannot raise are as well before or after
            body = list(s.body)
            lead, last = [], []
            while len(body) > 1 and harmless(body[0]):
                lead.append(body.pop(0))
            while len(body) > 1 and harmless(body[-1]):
                last.insert(0, body.pop())
            if lead or last:
                st = self.block(lead, st, fr)
                s = ast.copy_location(ast.Try(body, s.handlers, last + s.orelse, []), s)
        t = lookup_test(s) if s.handlers else None
        if t is not None:
            test = ast.copy_location(t, s)
            ast.fix_missing_locations(test)
            c = self.cond(test, st, fr)
            return self.branch(c, lambda x: self.block(s.body + s.orelse, x, fr),
                               lambda x: self.block(s.handlers[0].body, x, fr), st)
        start = st.copy()
        fr.handlers.append([])
        n0 = next(self.refs)
        before = st.copy()
        calls = CallLog()
        old = getattr(self, 'calllog', None)
        self.calllog = calls
        rets = fr.loops[-1]['ret'] if fr.loops else fr.rets
        r0 = len(rets)
        try:
            body = self.block(s.body, st.copy(), fr)
        finally:
            self.calllog = old
        r1 = len(rets)
        raised = fr.handlers.pop()
        res = None
        key = tuple(calls.items[:6])
        pcx = before.pc
        outs = []
        guard = FALSE
        # exceptions raised by explicit statements
        for pc, e, rs in raised:
            matched = False
            for h in s.handlers:
                if self.handles(h, e, st, fr):
                    hs = rs.copy(pc)
                    if h.name:
                        hs.env[h.name] = mk('exc', e)
                    outs.append((pc, self.block(h.body, hs, fr)))
                    matched = True
                    break
            if not matched:
                rs2 = rs.copy(pc)
                if s.finalbody:
                    rs2 = self.block(s.finalbody, rs2, fr)
                self.do_raise(e, rs2, fr)
        # exceptions raised by the calls of the body
        if s.handlers and (calls.items or not raised):
            for h in s.handlers:
                t = glob('builtins.BaseException') if h.type is None else self.content(
                    self.ev(h.type, before, fr), before)
                cond = and_(pcx, and_(not_(guard), mk('raises', t, key)))
                hs = before.copy(cond)
                guard = or_(guard, mk('raises', t, key))
                if h.name:
                    hs.env[h.name] = mk('exc', t)
                outs.append((cond, self.block(h.body, hs, fr)))
        if guard is not FALSE and key:
            # what is returned after a call, if it has not raised
            for i in range(r0, r1):
                r = rets[i]
                if any(z is key[0] for y in r[:2] if isinstance(y, T) for z in walk(y)):
                    rets[i] = (and_(r[0], not_(guard)),) + tuple(r[1:])
        if not body.dead:
            body.pc = and_(body.pc, not_(guard))
        if s.orelse and not body.dead:
            body = self.block(s.orelse, body, fr)
        res = body
        for c, o in outs:
            if o.dead:
                continue
            rel = restrict(o.pc, before.lits())
            res = o if res.dead else self.join(rel, o, res)
        if s.finalbody and not res.dead:
            res = self.block(s.finalbody, res, fr)
        return res

    def handles(self, h, e, st, fr):
        if h.type is None:
            return True
        t = self.content(self.ev(h.type, st, fr), st)
        ts = t.a[0] if t.op == 'tuple' else (t,)
        for x in ts:
            if x is e:
                return True
            if x.op == 'glob' and e.op == 'glob':
                r = self.repo.is_sub(e.a[0], x.a[0])
                if r or r is None and x.a[0] in ('builtins.Exception', 'builtins.BaseException'):
                    return True
        return False

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            c = self.content(v, st)
            self.effect(mk('call', glob('with'), (c,), ()), st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk('call', glob('enter'), (c,), ()), st, fr)
        st = self.block(s.body, st, fr)
        return st

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        if isinstance(s.iter, (ast.Tuple, ast.List)) and not any(
                isinstance(x, ast.Starred) for x in s.iter.elts):
            items = [self.ev(x, st, fr) for x in s.iter.elts]
            return self.unroll(s, items, st, fr)
        it = self.content(self.ev(s.iter, st, fr), st)
        items = literal_iter(it)
        if items is not None and len(items) <= 24:
            return self.unroll(s, items, st, fr)
        return self.loop(s, it, st, fr)

    def unroll(self, s, items, st, fr):
        fr.loops.append({'ret': [], 'raise': None, 'break': [], 'cont': [], 'unroll': True})
        saved = fr.loops.pop()
        rec = {'break': [], 'cont': []}
        outer = getattr(fr, 'unrolled', None)
        for x in items:
            if st.dead:
                break
            self.assign(s.target, x, st, fr)
            fr.unrolled = rec
            rec['cont'] = []
            st = self.block(s.body, st, fr)
            for c in rec['cont']:
                st = c if st.dead else self.join(restrict(c.pc, literals(or_(c.pc, st.pc))), c, st)
        fr.unrolled = outer
        if s.orelse and not st.dead:
            st = self.block(s.orelse, st, fr)
        for b in rec['break']:
            st = b if st.dead else self.join(restrict(b.pc, literals(or_(b.pc, st.pc))), b, st)
        return st

    def s_Break(self, s, st, fr):
        u = getattr(fr, 'unrolled', None)
        if u is not None:
            u['break'].append(st.copy())
        else:
            fr.loops[-1]['break'].append(st.copy())
        return self.kill(st)

    def s_Continue(self, s, st, fr):
        u = getattr(fr, 'unrolled', None)
        if u is not None:
            u['cont'].append(st.copy())
        else:
            fr.loops[-1]['cont'].append(st.copy())
        return self.kill(st)

    def space(self, it):
        """Iteration space and elements: (space term, function of the position)."""
        if it.op == 'call' and it.a[0].op == 'glob' and not it.a[2]:
            n, args = it.a[0].a[0], it.a[1]
            if n == 'builtins.range':
                if len(args) == 1:
                    e = args[0]
                    if e.op == 'call' and e.a[0].op == 'glob' and e.a[0].a[0] == 'builtins.len':
                        return mk('seq', e.a[1][0]), (lambda b: b)
                    return mk('upto', e), (lambda b: b)
                if len(args) == 2:
                    return mk('upto', sub(args[1], args[0])), (lambda b: add(args[0], b))
                if args[2].op == 'num' and args[2].a[0] in (1, -1):
                    k = args[2]
                    return mk('upto', mul(k, sub(args[1], args[0]))), (lambda b: add(args[0], mul(k, b)))
                return it, (lambda b: index(it, b))
            if n == 'builtins.enumerate' and len(args) in (1, 2):
                sp, f = self.space(args[0])
                n0 = args[1] if len(args) == 2 else ZERO
                return sp, (lambda b: mk('tuple', (add(n0, b), f(b))))
            if n == 'builtins.zip' and args and not any(a.op == 'star' for a in args):
                fs = [self.space(a) for a in args]
                sps = []
                for sp, _ in fs:
                    if sp not in sps:
                        sps.append(sp)
                sp = sps[0] if len(sps) == 1 else mk('zip', tuple(sorted(sps)))
                return sp, (lambda b: mk('tuple', tuple(f(b) for _, f in fs)))
            if n == 'builtins.reversed' and len(args) == 1:
                sp, f = self.space(args[0])
                if sp.op == 'upto':
                    return sp, (lambda b: f(sub(sub(sp.a[0], pyt.ONE), b)))
                return mk('rev', sp), f
            if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(args) == 1:
                return self.space(args[0])
        if it.op == 'call' and it.a[0].op == 'meth' and not it.a[1] and not it.a[2]:
            o, n = it.a[0].a
            if n == 'items':
                return mk('seq', o), (lambda b: mk('tuple', (mk('keyat', o, b), index(o, mk('keyat', o, b)))))
            if n == 'keys':
                return mk('seq', o), (lambda b: mk('keyat', o, b))
            if n == 'values':
                return mk('seq', o), (lambda b: index(o, mk('keyat', o, b)))
        if it.op == 'map' and it.a[3] is TRUE:
            # element of a mapped sequence
            sp, lam = it.a[1], it.a[2]
            return sp, (lambda b: beta(lam, b))
        if it.op == 'ite' and all(mapped(x) for x in leaves(it)):
            return mk('seq', it), (lambda b: mapleaves(it, lambda x: beta(mapped(x).a[2], b)))
        if it.op == 'index' and it.a[1].op == 'slice' and it.a[0].op == 'call' and it.a[0].a[0].op == 'glob' and \
                it.a[0].a[0].a[0] in ('builtins.list', 'builtins.tuple') and len(it.a[0].a[1]) == 1 and \
                not it.a[0].a[2] and it.a[0].a[1][0].op == 'map':
            it = mk('index', it.a[0].a[1][0], it.a[1])
        if it.op == 'index' and it.a[1].op == 'slice' and it.a[0].op == 'map' and it.a[0].a[3] is TRUE and \
                it.a[0].a[1].op == 'seq' and it.a[1].a[1] is NONE and it.a[1].a[2] is NONE and (
                    it.a[1].a[0].op == 'num' and it.a[1].a[0].a[0] >= 0):
            # of its end
            m, lo = it.a[0], it.a[1].a[0]
            return mk('seq', index(m.a[1].a[0], it.a[1])), (lambda b: beta(m.a[2], add(lo, b)))
        return mk('seq', it), (lambda b: index(it, b))

    def loop(self, s, it, st, fr):
        filt = None
        if it.op == 'map' and it.a[3] is not TRUE and it.a[3].op == 'lambda':
            filt, it = it.a[3], mk('map', *it.a[:3], TRUE)
        sp, elt = self.space(it)
        lvl = self.level
        bv = mk('bv', lvl)
        news = []
        for t, n in element_names(s.target, s.iter):
            r = st.env.get(n)
            if r is not None and r.op == 'ref':
                c = self.content(r, st)
                if all(mapped(x) for x in leaves(c)):
                    news.append((t, r, c, []))

        def setup(x):
            self.assign(s.target, elt(bv), x, fr)
            for t, r, c, cell in news:
                cell[:] = [x.env.get(t), self.value(x.env[t], x) if t in x.env else None]
        return self.loopbody(s, sp, setup, None, st, fr, bv, lvl, beta(filt, bv) if filt is not None else TRUE, news)

    def s_While(self, s, st, fr):
        lvl = self.level
        bv = mk('bv', lvl)
        return self.loopbody(s, mk('while'), lambda x: None, s.test, st, fr, bv, lvl)

    def loopbody(self, s, sp, setup, test, st, fr, bv, lvl, filt=TRUE, news=()):
        assigned = assigned_names(s)
        targets = set()
        if isinstance(s, ast.For):
            targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.level += 1
        saved_unrolled = getattr(fr, 'unrolled', None)
        fr.unrolled = None
        try:
            carried = [n for n in assigned if n not in targets]
            # first pass: which locations are modified
            roots = []
            for _ in range(4):
                x = st.copy(TRUE)
                x.eff = []
                for n in carried:
                    if n in x.env:
                        v = x.env[n]
                        r = mk('ref', next(self.refs))
                        x.heap[r] = mk('lv', lvl, n)
                        x.env[n] = r if v.op == 'ref' else mk('lv', lvl, n)
                for k in roots:
                    x.heap[k] = mk('lv', lvl, k)
                base = dict(x.heap)
                rec = {'ret': [], 'raise': [], 'break': [], 'cont': []}
                fr.loops.append(rec)
                nr = len(self.raises)
                try:
                    testc = TRUE
                    if test is not None:
                        testc = self.cond(test, x, fr)
                        x.pc = and_(x.pc, testc)
                    setup(x)
                    end = self.block(s.body, x, fr) if filt is TRUE else self.branch(
                        filt, lambda y: self.block(s.body, y, fr), lambda y: y, x)
                finally:
                    fr.loops.pop()
                for c in rec['cont']:
                    end = c if end.dead else self.join(c.pc, c, end)
                outs = [end] if not end.dead else []
                brk = FALSE
                for b in rec['break']:
                    brk = or_(brk, b.pc)
                    end = b if end.dead else self.join(b.pc, b, end)
                new = [k for k in end.heap if k not in roots and (
                    k in st.heap or k.op in ('arg', 'attr', 'glob')) and
                    end.heap[k] is not base.get(k) and self.live(k, st)]
                new = [k for k in new if not (k.op == 'attr' and not rooted_or(k, st))]
                if not new:
                    break
                roots += new
            else:
                raise Unsupported('loop locations')
            # outcome of the loop
            fin = {}
            for n in carried:
                v = end.env.get(n, UNDEF)
                fin[n] = self.content(v, end)
            for k in roots:
                fin[k] = self.content(k, end)
            init = {}
            for n in carried:
                init[n] = self.content(st.env[n], st) if n in st.env else UNDEF
            for k in roots:
                init[k] = self.content(k, st)
            effs = [(g, e) for g, e, _ in end.eff]
            exits_ret = rec['ret']
            exits_raise = rec['raise']
            cond = testc if test is not None else TRUE
            count = None
            if test is not None:
                r = self.counter(cond, fin, init, lvl, bv)
                if r is not None:
                    name, sp, fmap = r
                    cond = TRUE
                    rep = mk('lv', lvl, name)

                    def rw(t):
                        return subst(t, lambda z: fmap if z is rep else TRUE if z is testc else None)
                    fin = {k: rw(v) for k, v in fin.items()}
                    effs = [(rw(g), rw(e)) for g, e in effs]
                    brk = rw(brk)
                    exits_ret = [(rw(pc), rw(self.content(v, x2)), x2) for pc, v, x2 in exits_ret]
                    exits_raise = [(rw(pc), e, x2) for pc, e, x2 in exits_raise]
                    count = name
        finally:
            self.level -= 1
            fr.unrolled = saved_unrolled
        out = st
        n_out = {}
        for k, v in fin.items():
            if count is not None and k == count:
                n_out[k] = subst_final(v, fmap, sp, bv, init[k])
                continue
            n_out[k] = self.foldterm(k, fin, init, sp, bv, lvl, cond, brk)
        # exceptional exits
        for pc, e, x2 in exits_raise:
            ex = mk('exists', sp, mk('lambda', lvl, self.close(pc, fin, init, lvl)))
            c = and_(out.pc, ex)
            if not and_(out.pc, ex) is FALSE:
                o2 = out.copy(c)
                self.do_raise(e, o2, fr)
                out.pc = and_(out.pc, not_(ex))
        vals = [(pc, self.content(v, x2), x2) for pc, v, x2 in exits_ret]
        if len(vals) > 1:
            # the first element for which there is an exit
            pc, val, x2 = vals[-1]
            for c, v, _ in vals[-2::-1]:
                pc, val = or_(c, pc), ite(c, v, val)
            vals = [(pc, val, x2)]
        for pc, val, x2 in vals:
            lam = self.close(pc, fin, init, lvl)
            ex = mk('exists', sp, mk('lambda', lvl, lam))
            if constant(val):
                rv = val
            else:
                rv = mk('first', sp, mk('lambda', lvl, lam), mk('lambda', lvl, self.close(val, fin, init, lvl)))
            o2 = out.copy(and_(out.pc, ex))
            if fr.loops:
                fr.loops[-1]['ret'].append((o2.pc, rv, o2))
            else:
                fr.rets.append((o2.pc, rv, o2.heap, o2))
            out.pc = and_(out.pc, not_(ex))
        for k, v in n_out.items():
            if isinstance(k, str):
                if v is not init[k]:
                    self.bind(k, v, out, fr) if k not in fr.globals else None
                    if init[k] is UNDEF and fin[k] is UNDEF:
                        out.env.pop(k, None)
            else:
                out.heap[k] = v
        for t, r, c, cell in news:
            # the elements of a new sequence that the loop changes
            if cell and cell[0] is not None and cell[0].op in ('ref', 'ite') and not end.dead:
                v = self.value(cell[0], end)
                if v is not cell[1] and out.heap.get(r) is c:
                    v = self.close(v, fin, init, lvl)
                    m = next(iter(leaves(c)))
                    w = mk('map', mapped(m).a[0], sp, mk('lambda', lvl, v), TRUE)
                    out.heap[r] = (w if m.op == 'map' else call_t(m.a[0], (w,), ())) if brk is FALSE else mk(
                        'mut', 'elements', c, (sp, mk('lambda', lvl, self.close(brk, fin, init, lvl)), mk('lambda', lvl, v)))
        for n in targets:
            out.env[n] = mk('lastof', sp, mk('str', 'target'))
        if effs:
            body = pyt.effseq([ite(self.close(g, fin, init, lvl), self.close(e, fin, init, lvl), NONE)
                               for g, e in effs])
            out.eff.append((out.pc, mk('foreach', sp, mk('lambda', lvl, body)), next(self.refs)))
        if s.orelse:
            if brk is FALSE:
                out = self.block(s.orelse, out, fr)
            else:
                c = mk('exists', sp, mk('lambda', lvl, self.close(brk, fin, init, lvl)))
                out = self.branch(c, lambda x: x, lambda x: self.block(s.orelse, x, fr), out)
        return out

    def live(self, k, st):
        return k in st.heap or rooted(k) or k.op == 'attr' and rooted_or(k, st)

    def counter(self, cond, fin, init, lvl, bv):
        """while i < n: ...; i += 1  ->  iteration over a range."""
        for n, v in fin.items():
            if not isinstance(n, str):
                continue
            lv = mk('lv', lvl, n)
            if v is not add(lv, ONE):
                continue
            # cond: n - i > 0
            if cond.op == 'pos':
                d = cond.a[0]
                ub = add(d, lv)
                if contains(ub, lambda t: t is lv) or any(
                        t.op == 'lv' and t.a[0] == lvl for t in walk(ub)):
                    continue
                return n, mk('upto', sub(ub, init[n])) if not (
                    init[n] is ZERO and ub.op == 'call' and ub.a[0].op == 'glob' and
                    ub.a[0].a[0] == 'builtins.len') else mk('seq', ub.a[1][0]), add(init[n], bv)
            c2 = not_(cond)
            if c2.op == 'pos':
                d = c2.a[0]        # not (d > 0), integer: i - n + 1 > 0
                ub = add(sub(lv, d), ONE)
                if any(t.op == 'lv' and t.a[0] == lvl for t in walk(ub)):
                    continue
                sp = mk('upto', sub(ub, init[n]))
                if init[n] is ZERO and ub.op == 'call' and ub.a[0].op == 'glob' and \
                        ub.a[0].a[0] == 'builtins.len':
                    sp = mk('seq', ub.a[1][0])
                return n, sp, add(init[n], bv)
        return None

    def close(self, t, fin, init, lvl):
        """Replace the loop-carried placeholders that the loop does not change."""
        def f(x):
            if x.op == 'lv' and x.a[0] == lvl:
                k = x.a[1]
                if k in fin and fin[k] is x:
                    return init[k]
            return None
        t = subst(t, f)
        names = []
        for x in ordered(t):
            if x.op == 'lv' and x.a[0] == lvl and x not in names:
                names.append(x)
        if not names:
            return t
        # carried values used in a condition: name them by the fold that computes them
        return subst(t, lambda x: mk('carried', x.a[0], names.index(x),
                                     mk('tuple', (init[x.a[1]],))) if x in names else None)

    def foldterm(self, k, fin, init, sp, bv, lvl, cond, brk):
        me = mk('lv', lvl, k)
        v = fin[k]
        if v is me:
            return init[k]

        def unchanged(x):
            if x.op == 'lv' and x.a[0] == lvl and x.a[1] in fin and fin[x.a[1]] is x:
                return init[x.a[1]]
            return None
        v = subst(v, unchanged)
        lvs = [x for x in walk(v) if x.op == 'lv' and x.a[0] == lvl]
        plain = cond is TRUE and brk is FALSE
        if not lvs and plain:
            if not contains(v, lambda t: t is bv) and sp.op != 'while':
                # same value at every iteration
                ne = mk('nonempty', sp)
                return ite(truth(ne), v, init[k])
            return mk('last', sp, mk('lambda', lvl, v), init[k])
        if lvs == [me] and plain:
            r = self.reduction(me, v, init[k], sp, lvl)
            if r is not None:
                return r
        # general: carried values in order of use
        order, todo = [], [k]
        while todo:
            n = todo.pop(0)
            if n in order:
                continue
            order.append(n)
            b = subst(fin[n], unchanged)
            for x in ordered(b):
                if x.op == 'lv' and x.a[0] == lvl and x.a[1] not in order:
                    todo.append(x.a[1])
        extra = [cond, brk]
        for t in extra:
            for x in ordered(subst(t, unchanged)):
                if x.op == 'lv' and x.a[0] == lvl and x.a[1] not in order:
                    order.append(x.a[1])
                    b = subst(fin.get(x.a[1], x), unchanged)
                    for y in ordered(b):
                        if y.op == 'lv' and y.a[0] == lvl and y.a[1] not in order:
                            order.append(y.a[1])
        ren = {mk('lv', lvl, n): mk('cv', lvl, i) for i, n in enumerate(order)}

        def rn(t):
            return subst(subst(t, unchanged), lambda x: ren.get(x))
        bodies = tuple(rn(fin[n]) if n in fin else ren[mk('lv', lvl, n)] for n in order)
        inits = tuple(init[n] if n in init else UNDEF for n in order)
        return mk('fold', sp, inits, bodies, rn(cond), rn(brk))

    def reduction(self, me, v, init, sp, lvl):
        if v.op == 'mut' and v.a[0] == 'append' and v.a[1] is me and len(v.a[2]) == 1:
            e = v.a[2][0]
            if not contains(e, lambda t: t is me):
                m = mk('map', 'list', sp, mk('lambda', lvl, e), TRUE)
                m = mapterm('list', sp, lvl, e, TRUE)
                return m if init.op == 'list' and not init.a[0] else cat(init, m)
        if v.op == 'ite':
            for c, a, b in ((v.a[0], v.a[1], v.a[2]), (not_(v.a[0]), v.a[2], v.a[1])):
                if b is me and a.op == 'mut' and a.a[0] == 'append' and a.a[1] is me:
                    e = a.a[2][0]
                    if not contains(e, lambda t: t is me) and not contains(c, lambda t: t is me):
                        m = mapterm('list', sp, lvl, e, c)
                        return m if init.op == 'list' and not init.a[0] else cat(init, m)
        if v.op == 'store' and v.a[0] is me and not contains(mk('tuple', (v.a[1], v.a[2])), lambda t: t is me) \
                and init.op == 'dict' and not init.a[0]:
            return mapterm('dict', sp, lvl, mk('tuple', (v.a[1], v.a[2])), TRUE)
        # sum
        d = sub(v, me) if v.op == 'poly' else None
        if d is not None and not contains(d, lambda t: t is me) and not is_seq(v):
            s = call('builtins.sum', mapterm('gen', sp, lvl, d, TRUE))
            return s if init is ZERO else add(init, s)
        return None

    # ================================================================ expressions
    def ev(self, e, st, fr):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st, fr)

    def val(self, e, st, fr):
        return self.content(self.ev(e, st, fr), st)

    def cond(self, e, st, fr):
        """Condition of a test, simplified by what is known."""
        if isinstance(e, ast.BoolOp):
            cs = TRUE if isinstance(e.op, ast.And) else FALSE
            st0 = st.pc
            for x in e.values:
                c = self.cond(x, st, fr)
                if isinstance(e.op, ast.And):
                    cs = and_(cs, c)
                    st.pc = and_(st0, cs)
                else:
                    cs = or_(cs, c)
                    st.pc = and_(st0, not_(cs))
                if st.pc is FALSE:
                    break
            st.pc = st0
            return restrict(cs, st.lits())
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, fr))
        return restrict(truth(self.val(e, st, fr)), st.lits())

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr)

    def name(self, n, st, fr):
        v = st.env.get(n)
        if v is not None and n not in fr.globals:
            if v.op == 'ite':
                v = restrict(v, st.lits())
            return v
        f = fr
        while f.closure is not None:
            cst, f = f.closure
            v = cst.env.get(n)
            if v is not None:
                return v
        for m in ((fr.mod, fr.target) if fr.target else (fr.mod,)):
            d = self.repo.lookup_name(m, n)
            if d is None or (fr.target and m is fr.mod and d.startswith('builtins.')):
                continue
            if m is fr.mod and fr.target and d.split('.')[0] == fr.mod.name.split('.')[0] and \
                    d.startswith(fr.mod.name):
                return glob(d)
            return self.globalterm(d)
        d = self.repo.lookup_name(fr.mod, n)
        if d is not None:
            return self.globalterm(d)
        return mk('undefined', n)

    def globalterm(self, d):
        if d.startswith('const.'):
            return NONE
        if d.startswith('builtins.') and d in ('builtins.None', 'builtins.True', 'builtins.False'):
            return {'N': NONE, 'T': TRUE, 'F': FALSE}[d[9]]
        if d == 'builtins.Ellipsis':
            return ELL
        g = glob(d)
        v = self.module_const(d)
        return v if v is not None else g

    _mc = {}

    def module_const(self, d):
        """Value of a module-level constant of the package defined by a simple expression."""
        if not d.startswith('pysimulators.') and not d.startswith('spec.'):
            return None
        key = (id(self.repo), d)
        if key in self._mc:
            return self._mc[key]
        self._mc[key] = None
        mn, n = d.rsplit('.', 1)
        m = self.repo.modules.get(mn)
        r = None
        if m is not None and n in m.assigns and len(m.assigns[n]) == 1 and m.assigns[n][0] is not None:
            node = m.assigns[n][0]
            if simple_const(node) or self.literal_const(m, n, node):
                st = State({}, {}, TRUE, [])
                try:
                    r = self.val(node, st, Frame(None, m, None, 0))
                    if contains(r, lambda t: t.op in ('opaque', 'undefined')):
                        r = None
                except Unsupported:
                    r = None
        self._mc[key] = r
        return r

    def literal_const(self, m, n, node):
        """Small container of literals, that nothing in its module modifies."""
        if not isinstance(node, (ast.List, ast.Dict, ast.Set)):
            return False
        x = list(ast.walk(node))
        base = {y.value for y in x if external_const(y)}
        if len(x) > 80 or not all(external_const(y) or y in base or isinstance(y, (ast.Constant, ast.UnaryOp, ast.unaryop, ast.Tuple, ast.List, ast.Dict,
                                                 ast.Set, ast.expr_context)) for y in x):
            return False
        for y in ast.walk(m.tree):
            if isinstance(y, ast.Global) and n in y.names:
                return False
            if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.value, ast.Name) and y.value.id == n:
                if not isinstance(y.ctx, ast.Load):
                    return False
                if isinstance(y, ast.Attribute) and y.attr not in ('get', 'items', 'keys', 'values', 'index', 'count'):
                    return False
            if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == n:
                return False
        return n.startswith('_') or n.isupper()

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, e.attr, st, fr)

    def getattr(self, o, n, st, fr):
        o = self.deref_alias(o, st)
        if o.op == 'glob':
            d = self.repo.canon(f'{o.a[0]}.{n}')
            c = self.repo.cls(o.a[0])
            if c is not None:
                f = self.repo.lookup(c, n)
                if f is not None:
                    return glob(f.qual)
                k = mk('attr', o, n)
                return glob(d)
            if d in st.heap:
                return glob(d)
            return self.globalterm(d)
        if n == '__class__':
            c = self.class_of(o, st, fr)
        if o.op == 'super':
            return mk('bound', o, n)
        k = mk('attr', o, n)
        if k in st.heap:
            v = st.heap[k]
            return v.a[0] if v.op == '@' else k
        c = self.class_of(o, st, fr)
        if isinstance(c, Class):
            f = self.repo.lookup(c, n)
            if f is not None:
                if f.is_property:
                    if f.qual in self.stack or not self.may_inline(f, fr):
                        return k
                    return self.inline(f, [o], {}, st, fr)
                return mk('bound', o, n)
            ca = self.repo.class_attr(c, n)
            if ca is not None and simple_const(ca[1]) and not self.assigned_attr(c, n):
                kls, node = ca
                v = self.val(node, State({}, {}, TRUE, []), Frame(None, kls.mod, None, 0))
                if constant(v):
                    return v
        if n in VIEW_ATTRS:
            if n == 'T' and o.op == 'view' and o.a[1] == 'T':
                return o.a[0]
            return mk('view', o, n, (), ())
        if n in ('shape', 'ndim', 'dtype', 'size') and False:
            return attr(self.content(o, st), n)
        if self.addressable(o):
            c = self.content(o, st)
            if c is not o:
                # attribute of a computed value
                return self.attr_of(c, n)
            return k
        return self.attr_of(o, n)

    def attr_of(self, c, n):
        if n in ('shape', 'ndim', 'size', 'dtype'):
            # element assignments do not change them
            while c.op in ('store', 'viewstore'):
                c = c.a[0]
            if c.op == 'ite':
                return ite(c.a[0], self.attr_of(c.a[1], n), self.attr_of(c.a[2], n))
        return attr(c, n)

    def assigned_attr(self, c, n):
        key = (id(self.repo), c.qual, n)
        r = self._aa.get(key)
        if r is None:
            r = False
            for k in list(self.repo.mro(c)) + self.repo.subclasses(c):
                if not isinstance(k, Class):
                    continue
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store):
                        r = True
            self._aa[key] = r
        return r

    _aa = {}

    def class_of(self, o, st, fr):
        if o.op == 'arg' and o.a[0] == 'self':
            return self.root_cls
        if o.op == 'selfof':
            return o.a[0]
        x = st.heap.get(o) if o.op == 'ref' else None
        if x is not None and x.op == '@':
            return self.class_of(x.a[0], st, fr)
        return None

    root_cls = None
    root = None

    def key(self, s, st, fr):
        return self.ev(s, st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        k = self.content(self.ev(e.slice, st, fr), st)
        if o.op in ('tuple',):
            return index(o, k)
        if k.op == 'str' and pyt.is_kwargs(o):
            return index(self.content(o, st), k)
        if self.addressable(o):
            c = self.content(o, st)
            if k is ELL and o.op != 'glob':
                return o
            if c is not o:
                r = index(c, k)
                if not (r.op == 'index' and r.a[0] is c):
                    if constant(k):
                        return r
                    return mk('index', o, k) if r.op != 'ite' or not constant(k) else r
            return mk('index', o, k)
        return index(self.content(o, st), k)

    def e_Slice(self, e, st, fr):
        def p(x):
            return NONE if x is None else self.val(x, st, fr)
        lo, hi, sp = p(e.lower), p(e.upper), p(e.step)
        if lo is ZERO and (sp is NONE or sp is ONE):
            lo = NONE
        if sp is ONE:
            sp = NONE
        return mk('slice', lo, hi, sp)

    def e_Tuple(self, e, st, fr):
        return self.sequence('tuple', e, st, fr)

    def e_List(self, e, st, fr):
        return self.sequence('list', e, st, fr)

    def e_Set(self, e, st, fr):
        return mk('set', tuple(sorted(self.val(x, st, fr) for x in e.elts)))

    def sequence(self, kind, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = mk(kind, ())
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.val(x.value, st, fr)
                    if v.op in ('tuple', 'list'):
                        v = mk(kind, v.a[0])
                    elif not (v.op == kind):
                        v = call('builtins.' + kind, v) if not (
                            is_seq(v) and kind == 'tuple' and v.op == 'attr') else v
                    out = cat(out, v)
                else:
                    out = cat(out, mk(kind, (self.val(x, st, fr),)))
            return out
        vals = [self.ev(x, st, fr) for x in e.elts]
        if kind == 'list':
            vals = [self.content(v, st) for v in vals]
        return mk(kind, tuple(vals))

    def e_Dict(self, e, st, fr):
        items = []
        base = None
        for k, v in zip(e.keys, e.values):
            if base is not None:
                if k is None:
                    base = None
                    break
                base = store(base, self.val(k, st, fr), self.val(v, st, fr))
            elif k is None:
                base = self.val(v, st, fr)
                if not kwargs_of(base) or not all(constant(k) for k, _ in items):
                    base = None
                    break
                # the arguments of the caller come last
                kw = base
                for kk, vv in items:
                    base = ite(self.compare('in', kk, kw), base, store(base, kk, vv))
            else:
                items.append((self.val(k, st, fr), self.val(v, st, fr)))
        if base is not None:
            return base
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append((mk('str', '**'), self.val(v, st, fr)))
            else:
                items.append((self.val(k, st, fr), self.val(v, st, fr)))
        return dict_(items)

    def e_JoinedStr(self, e, st, fr):
        out = mk('str', '')
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = cat(out, mk('str', v.value))
            else:
                x = self.val(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = ast.unparse(v.format_spec)
                if not spec and v.conversion in (-1, 115):
                    out = cat(out, tostr(x))
                else:
                    c = '' if v.conversion in (-1, 115) else chr(v.conversion)
                    out = cat(out, mk('fstr', x, spec + c))
        return out

    def e_FormattedValue(self, e, st, fr):
        return tostr(self.val(e.value, st, fr))

    def e_Lambda(self, e, st, fr):
        return self.mkclos(e, st.copy(), fr)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a = st.copy(and_(st.pc, c))
        b = st.copy(and_(st.pc, not_(c)))
        x = self.ev(e.body, a, fr)
        y = self.ev(e.orelse, b, fr)
        self.absorb(st, a, b, c)
        return ite(c, x, y)

    def absorb(self, st, a, b, c):
        if a.heap != st.heap or b.heap != st.heap or a.eff != st.eff or b.eff != st.eff or \
                a.env != st.env or b.env != st.env or a.pc is not and_(st.pc, c) or \
                b.pc is not and_(st.pc, not_(c)):
            j = self.join(c, a, b)
            st.env, st.heap, st.pc, st.eff = j.env, j.heap, j.pc, j.eff

    def e_BoolOp(self, e, st, fr):
        vals = []
        st0 = st.pc
        cur = None
        acc = []
        for x in e.values:
            v = self.val(x, st, fr)
            t = restrict(truth(v), st.lits())
            acc.append((t, v))
            st.pc = and_(st.pc, t if isinstance(e.op, ast.And) else not_(t))
            if st.pc is FALSE:
                break
        st.pc = st0
        out = acc[-1][1]
        for t, v in reversed(acc[:-1]):
            out = ite(t, out, v) if isinstance(e.op, ast.And) else ite(t, v if not is_bool(v) else TRUE, out)
        return out

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, fr))
        v = self.val(e.operand, st, fr)
        if isinstance(e.op, ast.USub):
            return neg(v) if not is_seq(v) else mk('binop', 'neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        if is_bool(v):
            return not_(v)
        return mk('binop', '~', v)

    def e_BinOp(self, e, st, fr):
        a = self.val(e.left, st, fr)
        b = self.val(e.right, st, fr)
        return self.binop(BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        if op == '%' and a.op == 'str':
            return self.percent(a, b)
        if op in ('+', '-', '*', '/', '**'):
            a, b = scalarbool(a), scalarbool(b)
            return {'+': add, '-': sub, '*': mul, '/': div, '**': power}[op](a, b)
        if op == '@':
            return call('numpy.dot', a, b)
        if op in ('&', '|'):
            if is_bool(a) and is_bool(b):
                return and_(a, b) if op == '&' else or_(a, b)
            x, y = sorted((a, b))
            return mk('binop', op, x, y)
        if op == '//' and a.op == 'num' and b.op == 'num' and b.a[0]:
            return num(a.a[0] // b.a[0])
        if op == '%' and a.op == 'num' and b.op == 'num' and b.a[0]:
            return num(a.a[0] % b.a[0])
        if op == '%':
            return self.modulo(a, b)
        return mk('binop', op, a, b)

    def modulo(self, a, b):
        """a % b, as a - b * (a // b)."""
        return sub(a, mul(b, mk('binop', '//', a, b)))

    def percent(self, a, b):
        parts = a.a[0].split('%s')
        args = list(b.a[0]) if b.op == 'tuple' else [b]
        if len(parts) == len(args) + 1 and '%' not in ''.join(parts):
            out = mk('str', parts[0])
            for p, x in zip(parts[1:], args):
                out = cat(cat(out, tostr(x)), mk('str', p))
            return out
        return mk('binop', '%', a, b)

    def e_Compare(self, e, st, fr):
        out = TRUE
        l = self.val(e.left, st, fr)
        for op, r in zip(e.ops, e.comparators):
            rv = self.val(r, st, fr)
            out = and_(out, self.compare(CMP[type(op)], l, rv))
            l = rv
        return out

    def compare(self, op, a, b):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op == 'is':
            return is_(a, b)
        if op == 'is not':
            return not_(is_(a, b))
        if op in ('in', 'not in'):
            if b.op in ('tuple', 'list', 'set') and len(b.a[0]) <= 30:
                c = FALSE
                for x in b.a[0]:
                    c = or_(c, eq(a, x))
            elif b.op == 'dict' and constant(a) and all(constant(k) for k, _ in b.a[0]):
                c = TRUE if any(k is a for k, _ in b.a[0]) else FALSE
            elif b.op == 'call' and b.a[0].op == 'meth' and b.a[0].a[1] == 'keys' and not b.a[1]:
                return self.compare(op, a, b.a[0].a[0])
            elif b.op == 'str' and a.op == 'str':
                c = TRUE if a.a[0] in b.a[0] else FALSE
            else:
                c = pyt.isin(a, b)
            return c if op == 'in' else not_(c)
        raise Unsupported(op)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.bind(e.target.id, v, st, fr)
        return self.name(e.target.id, st, fr)

    def e_Starred(self, e, st, fr):
        return mk('star', self.val(e.value, st, fr))

    def e_Await(self, e, st, fr):
        raise Unsupported('await')

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp('list', e, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp('gen', e, st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp('set', e, st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp('dict', e, st, fr)

    def comp(self, kind, e, st, fr):
        saved = dict(st.env)
        try:
            return self.comp_(kind, e, list(e.generators), st, fr)
        finally:
            st.env = saved

    def comp_(self, kind, e, gens, st, fr):
        g = gens[0]
        it = self.val(g.iter, st, fr)
        items = literal_iter(it)
        rest = gens[1:]

        def elt(x):
            if rest:
                return self.comp_(kind, e, rest, x, fr)
            if kind == 'dict':
                return mk('tuple', (self.val(e.key, x, fr), self.val(e.value, x, fr)))
            return self.val(e.elt, x, fr)
        if items is not None and len(items) <= 24 and not g.ifs and not rest:
            out = []
            for x in items:
                self.assign(g.target, x, st, fr)
                out.append(elt(st))
            if kind == 'dict':
                return dict_([(t.a[0][0], t.a[0][1]) for t in out])
            if kind == 'set':
                return mk('set', tuple(sorted(set(out))))
            return mk('list', tuple(out)) if kind == 'list' else mk('tuple', tuple(out))
        sp, f = self.space(it)
        lvl = self.level
        self.level += 1
        try:
            bv = mk('bv', lvl)
            x = st.copy(TRUE)
            x.eff = []
            self.assign(g.target, f(bv), x, fr)
            c = TRUE
            for i in g.ifs:
                cc = self.cond(i, x, fr)
                c = and_(c, cc)
                x.pc = and_(x.pc, cc)
            v = restrict(elt(x), x.lits())
        finally:
            self.level -= 1
        if rest:
            return mk('map', 'flat' + kind, sp, mk('lambda', lvl, v), c if c is TRUE else mk('lambda', lvl, c))
        return mapterm(kind, sp, lvl, v, c)

    def e_Yield(self, e, st, fr):
        v = self.val(e.value, st, fr) if e.value is not None else NONE
        c = mk('call', glob('yield'), (v,), ())
        self.effect(c, st)
        return mk('sent', c)

    def e_YieldFrom(self, e, st, fr):
        c = mk('call', glob('yield_from'), (self.val(e.value, st, fr),), ())
        self.effect(c, st)
        return mk('sent', c)

    # ------------------------------------------------------------ closures
    def closure_term(self, t, st):
        node, cst, cfr = self.clos[t.a[0]]
        key = ('closing', t.a[0])
        if key in self.stack:
            return opaque('recursive closure')
        self.stack.append(key)
        lvl = self.level
        self.level += 1
        saved, self.raises = self.raises, []
        sre, self.raise_effects = self.raise_effects, ()
        try:
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            args = [mk('pv', lvl, i) for i in range(len(names))]
            fr = Frame(None, cfr.mod, cfr.cls, cfr.depth + 1, cfr.selfcls, cfr.target)
            fr.parent_handlers, fr.parent_loops = [], []
            fr.closure = (cst, cfr)
            env = dict(zip(names, args))
            if a.vararg:
                env[a.vararg.arg] = mk('pv', lvl, 100)
            if a.kwarg:
                env[a.kwarg.arg] = mk('pv', lvl, 101)
            x = State(env, dict(st.heap), TRUE, [])
            if isinstance(node, ast.Lambda):
                v = self.value(self.ev(node.body, x, fr), x)
                eff = pyt.effseq([ite(g, e, NONE) for g, e, _ in x.eff]).a[0]
                return mk('fn', lvl, len(names), v, eff)
            if is_generator(node):
                return opaque('generator')
            end = self.block(node.body, x, fr)
            if not end.dead:
                fr.rets.append((end.pc, NONE, end.heap, end))
            out = UNDEF
            for pc, e, h in reversed(self.raises):
                out = ite(pc, mk('raise', e), out)
            effs = {}
            for pc, v, heap, s in reversed(fr.rets):
                out = ite(pc, self.value(v, State(s.env, heap, pc, [])), out)
                for g, e2, n in s.eff:
                    effs[n] = ite(g, e2, NONE)
            # what the function does to its arguments
            for pc, v, heap, s in fr.rets:
                for k in heap:
                    if root_is(k, 'pv'):
                        effs[1 << 60, k.id] = ite(pc, mk('final', k, self.content(
                            k, State(s.env, heap, pc, []))), NONE)
            eff = pyt.effseq([v for k, v in sorted(effs.items(), key=lambda kv: str(kv[0]))]).a[0]
            return mk('fn', lvl, len(names), out, eff)
        finally:
            self.level -= 1
            self.stack.pop()
            self.raises = saved
            self.raise_effects = sre

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            return mk('super', fr.cls.qual if fr.cls else '')
        f = None
        if isinstance(e.func, ast.Attribute):
            # the receiver of a method call is kept as a location
            o = self.deref_alias(self.ev(e.func.value, st, fr), st)
            if o.op in ('ref', 'arg', 'attr', 'index', 'view', 'lv', 'ite') and \
                    mk('attr', o, e.func.attr) not in st.heap and \
                    not isinstance(self.class_of(o, st, fr), Class) and self.addressable(o):
                f = mk('attr', o, e.func.attr)
            else:
                f = self.getattr(o, e.func.attr, st, fr)
        if f is None:
            f = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                self.starred = True
                v = self.val(a.value, st, fr)
                if v.op in ('tuple', 'list'):
                    args += list(v.a[0])
                    continue
                n = {len(x.a[0]) if x.op in ('tuple', 'list') else None for x in leaves(v)}
                if len(n) == 1 and None not in n:
                    args += [index(v, num(i)) for i in range(n.pop())]
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.val(k.value, st, fr)
                if v.op == 'dict' and all(kk.op == 'str' for kk, _ in v.a[0]):
                    for kk, vv in v.a[0]:
                        kw[kk.a[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return self.docall(f, args, kw, st, fr, e)

    def docall(self, f, args, kw, st, fr, e=None):
        c = self.unpacked(args, kw)
        if c is not None:
            # the arguments are unpacked from a value that depends on a condition
            a = st.copy(and_(st.pc, c))
            b = st.copy(and_(st.pc, not_(c)))
            p, q = (self.expand_args(args, kw, c, s) for s in (True, False))
            if a.pc is FALSE or b.pc is FALSE:
                return self.docall(f, *(q if a.pc is FALSE else p), st, fr, e)
            x = self.docall(f, *p, a, fr, e)
            y = self.docall(f, *q, b, fr, e)
            self.absorb(st, a, b, c)
            return ite(c, x, y)
        if f.op == 'ite' and all(x.op in ('glob', 'clos', 'bound', 'arg', 'meth', 'attr') or x is NONE
                                 for x in leaves(f)) and len(list(leaves(f))) <= 8:
            c = f.a[0]
            if f.a[1] is NONE or f.a[2] is NONE:
                return self.docall(f.a[2] if f.a[1] is NONE else f.a[1], args, kw, st, fr, e)
            a = st.copy(and_(st.pc, c))
            b = st.copy(and_(st.pc, not_(c)))
            if a.pc is FALSE or b.pc is FALSE:
                return self.docall(f.a[1] if b.pc is FALSE else f.a[2], args, kw, st, fr, e)
            x = self.docall(f.a[1], args, kw, a, fr, e)
            y = self.docall(f.a[2], args, kw, b, fr, e)
            self.absorb(st, a, b, c)
            return ite(c, x, y)
        if f.op == 'ite':
            return self.opaque_call(self.content(f, st), args, kw, st)
        if f.op == 'clos':
            return self.call_closure(f, args, kw, st, fr)
        if f.op == 'glob':
            return self.call_global(f, args, kw, st, fr)
        if f.op == 'bound':
            o, n = f.a
            if o.op == 'super':
                return self.call_super(o, n, args, kw, st, fr)
            c = self.class_of(o, st, fr)
            m = self.repo.lookup(c, n)
            a = args if m.is_static else [o] + args
            return self.call_func(m, a, kw, st, fr)
        if f.op in ('attr', 'view') and self.own_class(f, fr) is None:
            return self.call_method(f.a[0], f.a[1], args, kw, st, fr)
        if f.op == 'index' and self.addressable(f):
            f = self.content(f, st)
        f = self.content(f, st)
        return self.opaque_call(f, args, kw, st, self.own_class(f, fr))

    @staticmethod
    def unpacked(args, kw):
        """Condition that decides which arguments are unpacked, if it is known what they are."""
        for v in [x.a[0] for x in args if x.op == 'star'] + [kw[k] for k in kw if k == '**']:
            if v.op == 'ite':
                n = list(leaves(v))
                if len(n) <= 8 and (all(x.op in ('tuple', 'list') for x in n) or all(
                        x.op == 'dict' and all(k.op == 'str' for k, _ in x.a[0]) for x in n)):
                    return v.a[0]
        return None

    @staticmethod
    def expand_args(args, kw, c, side):
        def pick(v):
            return v.a[1 if side else 2] if v.op == 'ite' and v.a[0] is c else v
        ar = []
        for x in args:
            if x.op == 'star':
                v = pick(x.a[0])
                if v.op in ('tuple', 'list'):
                    ar += list(v.a[0])
                else:
                    ar.append(mk('star', v))
            else:
                ar.append(x)
        k2 = {k: v for k, v in kw.items() if k != '**'}
        if '**' in kw:
            v = pick(kw['**'])
            if v.op == 'dict' and all(k.op == 'str' for k, _ in v.a[0]):
                k2.update({k.a[0]: x for k, x in v.a[0]})
            else:
                k2['**'] = v
        return ar, k2

    def call_super(self, o, n, args, kw, st, fr):
        c = self.repo.cls(o.a[0]) if o.a[0] else None
        selft = None
        for cand in ('self', 'cls'):
            if cand in st.env:
                selft = st.env[cand]
        if selft is None and fr.func is not None and fr.func.node.args.args:
            selft = st.env.get(fr.func.node.args.args[0].arg)
        if c is not None:
            start = fr.selfcls if isinstance(fr.selfcls, Class) else c
            if c not in self.repo.mro(start):
                start = c
            m = self.repo.lookup(start, n, after=c)
            if m is not None:
                a = args if m.is_static or (n == '__new__') else [selft] + args
                return self.call_func(m, a, kw, st, fr)
            ext_ = self.repo.ext_bases(start)
            if ext_:
                a = args if n == '__new__' else ([selft] if selft is not None else []) + args
                return self.opaque_call(glob(f'{self.ext_owner(ext_, n)}.{n}'), a, kw, st)
        return self.opaque_call(glob(f'super.{n}'), ([selft] if selft is not None else []) + args, kw, st)

    def ext_owner(self, exts, n):
        for x in exts:
            o = ext(x)
            if o is not None and hasattr(o, n):
                return x
        return exts[0]

    def call_closure(self, f, args, kw, st, fr):
        node, cst, cfr = self.clos[f.a[0]]
        key = ('clos', f.a[0])
        if key in self.stack or is_generator(node) or fr.depth > MAXDEPTH or \
                '**' in kw or any(a.op == 'star' for a in args):
            return self.opaque_call(self.content(f, st), args, kw, st)
        self.stack.append(key)
        try:
            return self.apply(node, None, cfr.mod, cfr.cls, cfr.selfcls, cfr.target, (cst, cfr), args,
                              kw, st, fr)
        finally:
            self.stack.pop()

    def call_global(self, f, args, kw, st, fr):
        d = f.a[0]
        g = self.repo.fun(d)
        if g is None and d.startswith('spec.'):
            g = self.spec_helper(d)
        if g is not None:
            if g.cls is not None and g.is_classmethod:
                args = [glob(g.cls.qual)] + args
            return self.call_func(g, args, kw, st, fr)
        c = self.repo.cls(d)
        if c is not None:
            return self.construct(c, args, kw, st, fr)
        return self.call_ext(d, args, kw, st, fr)

    def spec_helper(self, d):
        m = self.repo.modules.get(d.rsplit('.', 1)[0])
        n = d.rsplit('.', 1)[1]
        if m is not None and n in m.funcs:
            return Func(m, m.funcs[n])
        return None

    def construct(self, c, args, kw, st, fr):
        """Instance of a class of the package: bound to its constructor's arguments."""
        m = self.repo.lookup(c, '__new__') or self.repo.lookup(c, '__init__')
        vals = [self.value(a, st) for a in args]
        kws = {k: self.value(v, st) for k, v in kw.items()}
        if m is not None:
            b = bind_args(m.node, [NONE] + vals, kws, skip=1)
            if b is not None:
                return mk('call', glob(c.qual), (), tuple(sorted(b.items())))
        return mk('call', glob(c.qual), tuple(vals), tuple(sorted(kws.items())))

    def may_inline(self, g, fr):
        if g.qual in self.symbols and not self.inline_all:
            return False
        if fr.depth >= MAXDEPTH or is_generator(g.node):
            return False
        for d in g.decorators():
            if d not in ('staticmethod', 'classmethod', 'property', 'functools.lru_cache') and \
                    not d.endswith('.setter'):
                return False
        return True

    def call_func(self, g, args, kw, st, fr):
        if g.qual in self.stack or not self.may_inline(g, fr) or '**' in kw or any(
                a.op == 'star' for a in args):
            return self.symbol_call(g, args, kw, st)
        return self.inline(g, args, kw, st, fr)

    def symbol_call(self, g, args, kw, st):
        vals = [self.value(a, st) for a in args]
        kws = {k: self.value(v, st) for k, v in kw.items()}
        b = bind_args(g.node, vals, kws, skip=0)
        if b is None:
            r = mk('call', glob(g.qual), tuple(vals), tuple(sorted(kws.items())))
        else:
            r = mk('call', glob(g.qual), (), tuple(sorted(b.items())))
        self.log(r)
        # destinations
        o = kw.get('out')
        if o is None:
            names = [x.arg for x in g.node.args.args]
            if 'out' in names and names.index('out') < len(args):
                o = args[names.index('out')]
        if o is not None and self.addressable(o) and o is not NONE:
            self.write(o, mk('eff', r, 'out'), st)
        return r

    def log(self, r):
        l = getattr(self, 'calllog', None)
        if l is not None:
            l.items.append(r)

    def inline(self, g, args, kw, st, fr):
        self.stack.append(g.qual)
        self.inlined.add(g.qual)
        target = None
        if g.mod.name.startswith('spec.'):
            target = fr.target
        try:
            sc = fr.selfcls if g.cls is not None and isinstance(fr.selfcls, Class) and \
                g.cls in self.repo.mro(fr.selfcls) else g.cls
            return self.apply(g.node, g, g.mod, g.cls, sc, target, None, args, kw, st, fr)
        finally:
            self.stack.pop()

    def apply(self, node, g, mod, cls, selfcls, target, closure, args, kw, st, fr):
        b = bind_values(self, node, args, kw, st, mod, fr, target)
        if b is None:
            if g is not None:
                return self.symbol_call(g, args, kw, st)
            return self.opaque_call(opaque('closure'), args, kw, st)
        nf = Frame(g, mod, cls, fr.depth + 1, selfcls, target)
        nf.closure = closure
        nf.parent_handlers = fr.handlers or getattr(fr, 'parent_handlers', None) or []
        nf.parent_loops = fr.loops or getattr(fr, 'parent_loops', None) or []
        x = State(b, st.heap, st.pc, st.eff)
        x = x.copy()
        for n, v in list(x.env.items()):
            if v.op in ('call', 'list', 'dict', 'set', 'map', 'store', 'mut', 'obj'):
                r = mk('ref', next(self.refs))
                x.heap[r] = v
                x.env[n] = r
        base_lits = st.lits()
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, x, nf)
            st.heap, st.eff, st.pc = x.heap, x.eff, x.pc
            return v
        end = self.block(node.body, x, nf)
        if not end.dead:
            nf.rets.append((end.pc, NONE, end.heap, end))
        if not nf.rets:
            st.pc = FALSE
            return UNDEF
        # merge the returns
        rets = nf.rets
        pc, v, heap, s = rets[-1]
        acc = State({'$ret': v}, heap, pc, s.eff)
        for pc, v, heap, s in reversed(rets[:-1]):
            o = State({'$ret': v}, heap, pc, s.eff)
            rel = restrict(pc, base_lits)
            acc = self.join(rel, o, acc)
        st.heap, st.eff, st.pc = acc.heap, acc.eff, acc.pc
        return acc.env['$ret']

    def own_class(self, f, fr):
        """Class of the function, if f is the class of self or of one of its subclasses."""
        fr = self.root or fr        # the argument is that of the function under study
        c = fr.selfcls if isinstance(fr.selfcls, Class) else fr.cls
        if not isinstance(c, Class) or fr.func is None or fr.func.is_static:
            return None
        me = mk('arg', 'self')
        if fr.func.is_classmethod or fr.func.node.name == '__new__':
            return c if f is me else None
        if f is mk('attr', me, '__class__') or f.op == 'call' and f.a[0] is glob('builtins.type') and f.a[1] == (me,):
            return c
        return None

    def opaque_call(self, f, args, kw, st, cls=None):
        vals = tuple(self.value(a, st) for a in args)
        kws = tuple(sorted((k, self.value(v, st)) for k, v in kw.items()))
        m = cls and (self.repo.lookup(cls, '__new__') or self.repo.lookup(cls, '__init__'))
        if m:
            b = bind_args(m.node, (NONE,) + vals, dict(kws), skip=1)
            if b is not None:
                vals, kws = (), tuple(sorted(b.items()))
        r = call_t(f, vals, kws)
        self.log(r)
        n = f.a[0] if f.op == 'glob' else ''
        if n.startswith('pysimulators._flib') or not n:
            # compiled or unknown routine: it may assign the arrays it is given
            if n or f.op in ('call', 'lambda'):
                ro = read_only(n) if n else ()
                if any(a.op == 'star' for a in args) and (n or len(args) > 2):
                    raise Unsupported('arguments unpacked')
                for i, a in enumerate(args):
                    if i in ro:
                        continue
                    if self.addressable(a) and a.op != 'glob' and not scalar_arg(a):
                        self.write(a, mk('eff', r, i), st)
                    elif self.starred and a.op in ('call', 'ite', 'store', 'viewstore', 'eff', 'lv') and any(
                            x.op in ('arg', 'attr') for x in pyt.walk(a)):
                        # the location of an argument that is unpacked from a sequence is not known
                        raise Unsupported('arguments unpacked')
        return r

    def call_method(self, o, n, args, kw, st, fr):
        c = self.class_of(o, st, fr)
        if isinstance(c, Class):
            m = self.repo.lookup(c, n)
            if m is not None:
                return self.call_func(m, args if m.is_static else [o] + args, kw, st, fr)
        oc = self.content(o, st)
        if n in MUTATORS and (self.addressable(o) or oc.op in ('list', 'dict')):
            return self.mutate(o, oc, n, args, kw, st)
        vals = tuple(self.value(a, st) for a in args)
        if n in ('reshape', 'transpose') and vals and (len(vals) > 1 or vals[0].op == 'star' or pyt.is_int(vals[0])):
            # the values as arguments or as a tuple
            v = mk('tuple', ())
            for x in vals:
                v = cat(v, mk('tuple', (x,)) if x.op != 'star' else x.a[0] if x.a[0].op == 'tuple' or x.a[
                    0].op == 'attr' and is_seq(x.a[0]) else call('builtins.tuple', x.a[0]))
            vals = (v,)
        kws = tuple(sorted((k, self.value(v, st)) for k, v in kw.items()))
        if n in VIEW_METHODS and self.addressable(o):
            if n == 'ravel' and not vals and not kws:
                pass
            return mk('view', o, n, vals, kws)
        if n == 'format' and oc.op == 'str':
            return self.fmt(oc, vals, kws)
        if n == 'join' and oc.op == 'str' and len(vals) == 1:
            vals = (iterable(vals[0]),)
            if vals[0].op in ('tuple', 'list'):
                out = mk('str', '')
                for i, x in enumerate(vals[0].a[0]):
                    out = cat(out if not i else cat(out, oc), tostr(x))
                return out
        if n == 'get' and len(vals) in (1, 2) and not kws:
            return ite(self.compare('in', vals[0], oc), index(oc, vals[0]),
                       vals[1] if len(vals) > 1 else NONE)
        if n == 'copy' and not vals and not kws:
            if oc.op in ('dict', 'list'):
                return oc
            return call('numpy.copy', a=oc)
        if n in METH2NP and not (oc.op == 'glob'):
            return self.npcall('numpy.' + n, (oc,) + vals, dict(kws), st, args, kw, shift=1)
        if n in ('startswith', 'endswith', 'lower', 'upper', 'strip') and oc.op == 'str' and all(
                v.op == 'str' for v in vals):
            r = getattr(oc.a[0], n)(*[v.a[0] for v in vals])
            return const(r)
        if n in ('replace', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip') and not kws and \
                all(v.op == 'str' for v in vals) and oc.op in ('str', 'ite') and all(x.op == 'str' for x in leaves(oc)):
            return mapleaves(oc, lambda x: const(getattr(x.a[0], n)(*[v.a[0] for v in vals])))
        if n in ('replace', 'strip') and vals and all(v.op == 'str' and not any(
                c.isalpha() for c in v.a[0]) for v in vals) and oc.op == 'call' and oc.a[0].op == 'meth' and \
                oc.a[0].a[1] in ('lower', 'upper') and not oc.a[1]:
            # the case does not matter
            return mk('call', mk('meth', mk('call', mk('meth', oc.a[0].a[0], n), vals, kws), oc.a[0].a[1]), (), ())
        r = mk('call', mk('meth', oc, n), vals, kws)
        self.log(r)
        if 'out' in kw and self.addressable(kw['out']):
            self.write(kw['out'], mk('eff', r, 'out'), st)
        return r

    def mutate(self, o, oc, n, args, kw, st):
        vals = tuple(self.content(a, st) for a in args)
        kws = tuple(sorted((k, self.content(v, st)) for k, v in kw.items()))
        if oc.op == 'list' and n == 'append':
            self.write(o, mk('list', oc.a[0] + vals), st)
            return NONE
        if oc.op == 'list' and n == 'extend' and vals[0].op in ('list', 'tuple'):
            self.write(o, mk('list', oc.a[0] + vals[0].a[0]), st)
            return NONE
        if oc.op == 'dict' and n == 'update' and (not vals or vals[0].op == 'dict'):
            c = oc
            for k, v in (vals[0].a[0] if vals else ()):
                c = store(c, k, v)
            for k, v in kws:
                c = store(c, mk('str', k), v)
            self.write(o, c, st)
            return NONE
        if n == 'update' and vals and vals[0].op == 'dict' and not kws:
            c = oc
            for k, v in vals[0].a[0]:
                c = store(c, k, v)
            self.write(o, c, st)
            return NONE
        if n == 'fill' and len(vals) == 1:
            self.write(o, store(oc, ELL, vals[0]), st)
            return NONE
        res = NONE
        if n in ('pop', 'popitem', 'setdefault'):
            if n == 'pop' and not kws and (len(vals) == 2 or len(vals) == 1 and pyt.is_str(vals[0])):
                c = self.compare('in', vals[0], oc)
                if len(vals) == 1 and c is not FALSE:
                    c = TRUE
                if len(vals) == 2 or c is TRUE:
                    self.write(o, ite(c, pyt.delete(oc, vals[0]), oc), st)
                    v = index(oc, vals[0])
                    if v.op == 'index':
                        # a value, not a location in the dictionary
                        v = mk('call', mk('meth', v.a[0], 'pop'), (vals[0],), ())
                    return v if c is TRUE else ite(c, v, vals[1])
            if n == 'setdefault' and not kws and 1 <= len(vals) <= 2:
                c = self.compare('in', vals[0], oc)
                v = vals[1] if len(vals) == 2 else NONE
                self.write(o, ite(c, oc, store(oc, vals[0], v)), st)
                return ite(c, index(oc, vals[0]), v)
            res = mk('call', mk('meth', oc, n), vals, kws)
        if kws:
            vals = vals + (mk('tuple', tuple(mk('tuple', (mk('str', k), v)) for k, v in kws)),)
        self.write(o, mk('mut', n, oc, vals), st)
        if res.op == 'call':
            self.mutres = res
        return res

    def fmt(self, s, vals, kws):
        import string
        out = mk('str', '')
        i = 0
        kw = dict(kws)
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s.a[0]):
                out = cat(out, mk('str', lit))
                if fld is None:
                    continue
                if fld == '':
                    v = vals[i]
                    i += 1
                elif fld.isdigit():
                    v = vals[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                else:
                    raise IndexError
                spec = ("f'" + spec + "'") if spec else ''
                if not spec and conv in (None, '', 's'):
                    out = cat(out, tostr(v))
                else:
                    out = cat(out, mk('fstr', v, spec + (conv if conv and conv != 's' else '')))
            return out
        except (IndexError, ValueError):
            return mk('call', mk('meth', s, 'format'), vals, kws)

    def call_ext(self, d, args, kw, st, fr):
        if d in IGNORED:
            return NONE
        if d.startswith('pysimulators._flib'):
            return self.opaque_call(glob(d), args, kw, st)
        if d in ('builtins.getattr',) and len(args) >= 2:
            n = self.content(args[1], st)
            if n.op == 'str':
                if len(args) == 2:
                    return self.getattr(args[0], n.a[0], st, fr)
                a = self.content(args[0], st)
                dflt = self.content(args[2], st)
                v = self.content(self.getattr(args[0], n.a[0], st, fr), st)
                if a.op == 'arg' and a.a[0] == 'self' and v.op != 'attr':
                    return v
                return ite(mk('hasattr', a, n), v, dflt)
            if len(args) == 3:
                a = self.content(args[0], st)
                return ite(mk('hasattr', a, n), self.call_ext(d, args[:2], kw, st, fr), self.content(args[2], st))
        if d == 'builtins.setattr' and len(args) == 3:
            n = self.content(args[1], st)
            if n.op == 'str':
                self.setfield(args[0], n.a[0], args[2], st, fr)
                return NONE
            if self.addressable(args[0]):
                self.write(mk('attr', args[0], '*'), mk('mut', 'setattr', self.content(
                    mk('attr', args[0], '*'), st), (n, self.content(args[2], st))), st)
                return NONE
        n = d.split('.', 1)
        whole = self.content if n[0] in ('builtins', 'operator') else self.value
        vals = tuple(whole(a, st) for a in args)
        kws = {k: whole(v, st) for k, v in kw.items()}
        if n[0] == 'builtins':
            r = self.builtin(n[1], vals, kws, st, args)
            if r is not None:
                return r
        elif n[0] == 'operator' and not kws:
            ops = {'add': '+', 'iadd': '+', 'sub': '-', 'mul': '*', 'imul': '*', 'truediv': '/',
                   'and_': '&', 'or_': '|', 'pow': '**'}
            if n[1] in ops and len(vals) == 2 and not n[1].startswith('i'):
                return self.binop(ops[n[1]], *vals)
        elif n[0] == 'numpy':
            return self.npcall(d, vals, kws, st, args, kw)
        elif d == 'functools.reduce' and len(vals) == 2 and False:
            pass
        # keyword names of the external callable
        b = bind_ext(d, vals, kws) if n[0] != 'builtins' else None
        if b is not None:
            r = mk('call', glob(d), (), tuple(sorted(b.items())))
        else:
            r = call_t(glob(d), vals, tuple(sorted(kws.items())))
        self.log(r)
        if 'out' in kw and self.addressable(kw['out']):
            self.write(kw['out'], mk('eff', r, 'out'), st)
        return r

    def npcall(self, d, vals, kws, st, args, kw, shift=0):
        short = d[6:]
        # destination
        out = kw.get('out')
        npos = OUT3.get(d)
        if out is None and npos is not None and len(vals) > npos and not shift:
            out = args[npos]
            vals = vals[:npos]
        kws = {k: v for k, v in kws.items() if k != 'out'}
        if out is NONE:
            out = None
        r = self.npvalue(d, short, vals, kws)
        if out is None:
            return r
        oc = self.content(out, st)
        if is_bool(r) or r.op:
            base = oc.a[0] if oc.op == 'store' and oc.a[1] is ELL else oc
            if self.addressable(out):
                if oc is NONE:
                    return r
                if oc.op == 'ite' or out.op == 'ite' or oc.op == 'arg':
                    isnone = is_(oc, NONE)
                    if isnone is not FALSE and isnone is not TRUE and not kw.get('out') is None and False:
                        pass
                self.write(out, store(base, ELL, r), st)

                def value(o):
                    if o is NONE:
                        return r
                    if o.op == 'ite':
                        return ite(o.a[0], value(o.a[1]), value(o.a[2]))
                    return o

                return value(out)
        return r

    def npvalue(self, d, short, vals, kws):
        n = len(vals)
        if not kws:
            if n == 1:
                x = vals[0]
                if short == 'deg2rad':
                    return mul(mul(x, PI), num('1/180'))
                if short == 'rad2deg':
                    return div(mul(x, num(180)), PI)
                if short == 'sqrt':
                    return power(x, num('1/2'))
                if short == 'square':
                    return power(x, num(2))
                if short == 'negative':
                    return neg(x)
                if short == 'expm1':
                    return sub(self.npvalue('numpy.exp', 'exp', (x,), {}), ONE)
                if short == 'log1p':
                    return self.npvalue('numpy.log', 'log', (add(ONE, x),), {})
                if short in ('round', 'around', 'round_'):
                    short, d = 'rint', 'numpy.rint'
                if short == 'reciprocal':
                    return power(x, num(-1))
                if short in ('logical_not', 'invert', 'bitwise_not'):
                    return not_(x) if is_bool(x) else mk('binop', '~', x)
                if short == 'asscalar':
                    return x
                if short in ('any', 'all') and is_bool(x):
                    return any_(x) if short == 'any' else not_(any_(not_(x)))
                if short == 'where':
                    short, d = 'nonzero', 'numpy.nonzero'
                if short == 'count_nonzero' and is_bool(x):
                    short, d = 'sum', 'numpy.sum'
                if short in ('isfinite',):
                    return call_t(glob(d), vals)
                if short == 'shape' and False:
                    return attr(x, 'shape')
                if short == 'ndim':
                    return attr(x, 'ndim')
                if short == 'size':
                    return attr(x, 'size')
                if short == 'shape':
                    return attr(x, 'shape')
                if short == 'transpose':
                    return attr(x, 'T')
                if short == 'ravel':
                    return mk('call', mk('meth', x, 'ravel'), (), ())
            elif n == 2:
                x, y = vals
                f = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'power': power,
                     'true_divide': div}.get(short)
                if f is not None:
                    return f(x, y)
                c = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=',
                     'greater': '>', 'greater_equal': '>='}.get(short)
                if c is not None:
                    return self.compare(c, x, y)
                if short in ('logical_and', 'bitwise_and'):
                    return self.binop('&', x, y)
                if short in ('logical_or', 'bitwise_or'):
                    return self.binop('|', x, y)
                if short in ('mod', 'remainder'):
                    return self.modulo(x, y)
                if short == 'floor_divide':
                    return mk('binop', '//', x, y)
                if short == 'hypot':
                    return power(add(power(x, num(2)), power(y, num(2))), num('1/2'))
                if short in ('maximum', 'minimum'):
                    return call_t(glob(d), tuple(sorted(vals)))
            elif n == 3:
                if short == 'where':
                    c, x, y = vals
                    if is_bool(c) and not_(c).id < c.id:
                        vals = (not_(c), y, x)
                    elif c.op == 'binop' and c.a[0] == '~':
                        vals = (c.a[1], y, x)
        b = bind_ext(d, vals, kws)
        if b is not None:
            if short == 'clip' and {'a', 'a_min', 'a_max'} == set(b) and NONE not in b.values():
                x = call_t(glob('numpy.maximum'), tuple(sorted((b['a'], b['a_min']))))
                return call_t(glob('numpy.minimum'), tuple(sorted((x, b['a_max']))))
            if short == 'linspace' and set(b) <= {'start', 'stop', 'num', 'endpoint'} and \
                    'num' in b and b.get('endpoint', TRUE) in (TRUE, FALSE):
                m = b['num'] if b.get('endpoint', TRUE) is FALSE else sub(b['num'], ONE)
                u = self.npvalue('numpy.arange', 'arange', (b['num'],), {})
                return add(b['start'], mul(u, div(sub(b['stop'], b['start']), m)))
            if d in ARRAYS and list(b) == ['a'] and b['a'].op == 'call' and b['a'].a[0].op == 'glob' and \
                    b['a'].a[0].a[0] in ARRAYS[d]:
                return b['a']  # already an array
            return mk('call', glob(d), (), tuple(sorted(b.items())))
        return call_t(glob(d), vals, tuple(sorted(kws.items())))

    def builtin(self, n, vals, kws, st, args):
        if n in CONSUMERS and len(vals) == 1:
            vals = (iterable(vals[0]),)
        x = vals[0] if vals else None
        if n == 'len' and len(vals) == 1:
            if x.op in ('tuple', 'list'):
                return num(len(x.a[0]))
            if x.op == 'str':
                return num(len(x.a[0]))
            if x.op == 'attr' and x.a[1] == 'shape':
                return attr(x.a[0], 'ndim')
            if x.op == 'map' and x.a[3] is TRUE and x.a[0] in ('list', 'gen'):
                sp = x.a[1]
                if sp.op == 'seq':
                    return call('builtins.len', sp.a[0])
            return call('builtins.len', x)
        if n == 'isinstance' and len(vals) == 2:
            cs = vals[1].a[0] if vals[1].op == 'tuple' else (vals[1],)
            r = FALSE
            for c in cs:
                if c.op == 'binop' and c.a[0] == '|':
                    r = or_(r, or_(isinst(x, c.a[1]), isinst(x, c.a[2])))
                else:
                    r = or_(r, isinst(x, c))
            return r
        if n == 'hasattr' and len(vals) == 2:
            return mk('hasattr', x, vals[1])
        if n == 'bool' and len(vals) == 1:
            return truth(x)
        if n in ('float', 'int') and len(vals) == 1 and x.op == 'num':
            if n == 'float' or x.a[0].denominator == 1:
                return x
        if n == 'float' and len(vals) == 1:
            return call('builtins.float', x)
        if n == 'str' and len(vals) == 1 and not kws:
            return tostr(x)
        if n in ('tuple', 'list') and len(vals) <= 1:
            if not vals:
                return mk(n, ())
            if x.op in ('tuple', 'list'):
                return mk(n, x.a[0])
            if x.op == 'map' and x.a[0] in ('list', 'gen'):
                return mk('map', 'list', *x.a[1:]) if n == 'list' else call(
                    'builtins.tuple', mk('map', 'gen', *x.a[1:]))
            if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'builtins.map':
                return call('builtins.' + n, x)
            return call('builtins.' + n, x)
        if n == 'dict':
            if not vals:
                return dict_([(mk('str', k), v) for k, v in sorted(kws.items()) if k != '**'] + (
                    [(mk('str', '**'), kws['**'])] if '**' in kws else []))
            if len(vals) == 1 and not kws:
                if x.op == 'dict':
                    return x
                if x.op == 'map' and x.a[0] in ('gen', 'list'):
                    return mk('map', 'dict', *x.a[1:])
                if x.op in ('tuple', 'list') and all(y.op == 'tuple' and len(y.a[0]) == 2 for y in x.a[0]):
                    return dict_([(y.a[0][0], y.a[0][1]) for y in x.a[0]])
                return call('builtins.dict', x)
        if n == 'set':
            if not vals:
                return mk('set', ())
            if x.op in ('tuple', 'list'):
                return mk('set', tuple(sorted(set(x.a[0]))))
        if n == 'sum' and len(vals) == 1:
            if x.op in ('tuple', 'list'):
                out = ZERO
                for y in x.a[0]:
                    out = add(out, y)
                return out
            if x.op == 'map':
                return call('builtins.sum', mk('map', 'gen', *x.a[1:]))
        if n in ('any', 'all') and len(vals) == 1:
            if x.op in ('tuple', 'list'):
                r = FALSE if n == 'any' else TRUE
                for y in x.a[0]:
                    r = or_(r, truth(y)) if n == 'any' else and_(r, truth(y))
                return r
            if x.op == 'map' and x.a[0] in ('gen', 'list'):
                lam = x.a[2]
                c = truth(lam.a[1])
                if n == 'all':
                    c = not_(c)
                flt = TRUE if x.a[3] is TRUE else x.a[3].a[1]
                c = and_(flt, c)
                r = mk('exists', x.a[1], mk('lambda', lam.a[0], c)) if c is not FALSE else FALSE
                return r if n == 'any' else not_(r)
        if n in ('min', 'max') and not kws:
            if len(vals) == 1 and x.op in ('tuple', 'list'):
                vals = x.a[0]
            if len(vals) > 1:
                if all(v.op == 'num' for v in vals):
                    return num((min if n == 'min' else max)(v.a[0] for v in vals))
                return call_t(glob('builtins.' + n), tuple(sorted(vals)))
        if n == 'abs' and len(vals) == 1:
            return call('numpy.abs', x)
        if n == 'pow' and len(vals) == 2:
            return power(*vals)
        if n == 'divmod' and len(vals) == 2:
            return mk('tuple', (mk('binop', '//', *vals), self.modulo(*vals)))
        if n == 'range' and len(vals) == 2 and vals[0] is ZERO:
            return call('builtins.range', vals[1])
        if n == 'type' and len(vals) == 1:
            return call('builtins.type', x)
        if n == 'slice':
            v = list(vals)
            if len(v) == 1:
                v = [NONE] + v
            while len(v) < 3:
                v.append(NONE)
            if v[0] is ZERO and v[2] in (NONE, ONE):
                v[0] = NONE
            if v[2] is ONE:
                v[2] = NONE
            return mk('slice', *v)
        if n == 'map' and len(vals) == 2:
            f = vals[0]
            if f.op == 'fn' and f.a[1] == 1 and not f.a[3]:
                sp, elt = self.space(vals[1])
                lvl = self.level
                v = subst(f.a[2], lambda t: elt(mk('bv', lvl)) if t.op == 'pv' and t.a[0] == f.a[0] and t.a[1] == 0 else None)
                return mapterm('gen', sp, lvl, v, TRUE)
            if f.op == 'glob':
                sp, elt = self.space(vals[1])
                lvl = self.level
                self.level += 1
                try:
                    v = self.content(self.docall(f, [elt(mk('bv', lvl))], {}, st,
                                                 Frame(None, next(iter(self.repo.modules.values())), None, MAXDEPTH)), st)
                finally:
                    self.level -= 1
                return mapterm('gen', sp, lvl, v, TRUE)
        if n == 'sorted' and kws == {} and len(vals) == 1:
            return call('builtins.sorted', x)
        if n == 'super':
            return mk('super', '')
        if n in ('object',):
            return None
        return None


_A = {'numpy.' + x for x in ('asarray', 'array', 'empty', 'zeros', 'ones', 'full', 'arange', 'ascontiguousarray')}
ARRAYS = {'numpy.asarray': _A, 'numpy.asanyarray': _A | {'numpy.asanyarray'}}


class CallLog:
    def __init__(self):
        self.items = []


# -------------------------------------------------------------------- helpers
def lookup_test(s):
    """The test equivalent to a try statement around the look-up of a key or of an attribute."""
    if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1 or s.handlers[0].name:
        return None
    h = s.handlers[0].type
    b = s.body[0]
    v = b.value if isinstance(b, (ast.Assign, ast.Return, ast.Expr)) else None
    if not isinstance(h, ast.Name) or v is None:
        return None
    if isinstance(b, ast.Assign) and not all(isinstance(t, ast.Name) for t in b.targets):
        return None
    if any(isinstance(x, ast.Name) and x.id in ('KeyError', 'AttributeError') and not isinstance(x.ctx, ast.Load)
           for x in ast.walk(s)):
        return None
    if h.id == 'KeyError' and isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice) and all(
            isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context))
            for y in (v.value, v.slice) for x in ast.walk(y)):
        return ast.Compare(left=v.slice, ops=[ast.In()], comparators=[v.value])
    if h.id == 'AttributeError' and isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
        return ast.Call(func=ast.Name(id='hasattr', ctx=ast.Load()), args=[v.value, ast.Constant(v.attr)],
                        keywords=[])
    return None


def harmless(s):
    """A statement that cannot raise."""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, (ast.Expr, ast.Return)):
        return s.value is None or isinstance(s.value, ast.Constant) or \
            isinstance(s, ast.Return) and isinstance(s.value, ast.Name)
    return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and isinstance(
        s.value, (ast.Constant, ast.Name))


def is_key(k):
    """The key of a dictionary, not the index of a list."""
    return pyt.is_str(k)


def scalarbool(t):
    return t


CONSUMERS = {'sorted', 'sum', 'any', 'all', 'set', 'frozenset', 'min', 'max', 'tuple', 'list', 'enumerate',
             'dict', 'iter'}


def iterable(x):
    """The same items in sequence, for a consumer that goes through them once."""
    if x.op == 'map' and x.a[0] == 'list':
        return mk('map', 'gen', *x.a[1:])
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in (
            'builtins.list', 'builtins.tuple', 'builtins.iter') and len(x.a[1]) == 1:
        return iterable(x.a[1][0])
    if x.op == 'call' and x.a[0].op == 'meth' and x.a[0].a[1] == 'keys' and not x.a[1]:
        return iterable(x.a[0].a[0])
    return x


def mapleaves(t, f):
    if t.op == 'ite':
        return ite(t.a[0], mapleaves(t.a[1], f), mapleaves(t.a[2], f))
    return f(t)


def branches(t, cond=TRUE):
    """(alternative, condition) of a value."""
    if t.op == 'ite':
        yield from branches(t.a[1], and_(cond, t.a[0]))
        yield from branches(t.a[2], and_(cond, not_(t.a[0])))
    else:
        yield t, cond


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def external_const(y):
    """numpy.nan and the like"""
    return isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.attr in (
        'nan', 'inf', 'pi', 'newaxis', 'e', 'NaN')


def any_(x):
    """Is an element of the boolean x true?"""
    if x is TRUE or x is FALSE:
        return x
    if x.op == 'ite':
        if x.a[1] is TRUE:
            return or_(any_(x.a[0]), any_(x.a[2]))
        if x.a[2] is TRUE and x.a[1] is not FALSE:
            return or_(any_(not_(x.a[0])), any_(x.a[1]))
    return truth(call('numpy.any', a=x))


def mapterm(kind, sp, lvl, v, c):
    flt = TRUE if c is TRUE else mk('lambda', lvl, c)
    if c is TRUE and kind in ('list', 'gen') and sp.op == 'seq' and v is index(sp.a[0], mk('bv', lvl)):
        if kind == 'list':
            return call('builtins.list', sp.a[0])
    return mk('map', kind, sp, mk('lambda', lvl, v), flt)


def beta(lam, x):
    lvl, body = lam.a
    return subst(body, lambda t: x if t.op == 'bv' and t.a[0] == lvl else None)


def subst_final(v, fmap, sp, bv, init):
    return mk('lastof', sp, init)


def ordered(t):
    """Sub-terms in a deterministic pre-order."""
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(reversed(pyt.children(x)))
    return out


def rooted(k):
    while k.op in ('attr', 'index', 'view'):
        k = k.a[0]
    return k.op in ('arg', 'glob') or typeof(k)


def typeof(k):
    """Class of an argument."""
    return k.op == 'call' and k.a[0].op == 'glob' and k.a[0].a[0] == 'builtins.type' and len(
        k.a[1]) == 1 and k.a[1][0].op == 'arg'


def root_is(k, op):
    while k.op in ('attr', 'index', 'view'):
        k = k.a[0]
    return k.op == op


def rooted_or(k, st):
    while k.op in ('attr', 'index', 'view'):
        k = k.a[0]
    return k.op in ('arg', 'glob') or k in st.heap or k.op == 'pv'


def scalar_arg(a):
    if a.op == 'index' and a.a[1].op == 'num':
        return True
    if a.op == 'attr' and a.a[1] in ('size', 'ndim', 'shape', 'itemsize', 'ncolmax', 'nrowmax'):
        return True
    if a.op == 'index' and a.a[0].op == 'attr' and a.a[0].a[1] in pyt.SEQ_ATTRS:
        return True
    return False


def literal_iter(it):
    if it.op in ('tuple', 'list'):
        return list(it.a[0])
    if it.op == 'str' and len(it.a[0]) <= 12:
        return [mk('str', c) for c in it.a[0]]
    if it.op == 'dict' and all(constant(k) for k, _ in it.a[0]):
        return [k for k, _ in it.a[0]]
    if it.op == 'call' and it.a[0].op == 'glob' and not it.a[2]:
        n, args = it.a[0].a[0], it.a[1]
        if n == 'builtins.range' and all(a.op == 'num' and a.a[0].denominator == 1 for a in args):
            r = range(*[int(a.a[0]) for a in args])
            if len(r) <= 24:
                return [num(i) for i in r]
        if n == 'builtins.zip' and args:
            ls = [literal_iter(a) for a in args]
            if all(l is not None for l in ls):
                return [mk('tuple', x) for x in zip(*ls)]
            known = [l for l in ls if l is not None]
            if known and len(args) > 1 and all(a.op in ('arg', 'attr', 'index') for a, l in zip(args, ls) if l is None):
                # the unknown ones are assumed to be as long as the known one
                k = min(len(l) for l in known)
                return [mk('tuple', tuple(l[i] if l is not None else index(a, num(i))
                                          for a, l in zip(args, ls))) for i in range(k)]
        if n == 'builtins.enumerate' and len(args) == 1:
            l = literal_iter(args[0])
            if l is not None:
                return [mk('tuple', (num(i), x)) for i, x in enumerate(l)]
        if n == 'builtins.reversed' and len(args) == 1:
            l = literal_iter(args[0])
            if l is not None:
                return l[::-1]
    if it.op == 'call' and it.a[0].op == 'meth' and it.a[0].a[0].op == 'dict' and not it.a[1]:
        d = it.a[0].a[0]
        if all(constant(k) for k, _ in d.a[0]):
            n = it.a[0].a[1]
            if n == 'items':
                return [mk('tuple', kv) for kv in d.a[0]]
            if n == 'keys':
                return [k for k, _ in d.a[0]]
            if n == 'values':
                return [v for _, v in d.a[0]]
    return None


_gen = {}


def is_generator(node):
    r = _gen.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            st = list(node.body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                st.extend(ast.iter_child_nodes(x))
        _gen[node] = r
    return r


ARRAY_USES = {'shape', 'dtype', 'ndim', 'T', 'ravel', 'reshape', 'flat', 'strides', 'astype', 'itemsize',
              'swapaxes', 'transpose'}
_arrays = {}


def arrays_of(node):
    """Parameters that the documentation or the body of a function shows to be arrays."""
    r = _arrays.get(node)
    if r is None:
        r = set()
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        doc = (ast.get_docstring(node) if not isinstance(node, ast.Lambda) else '') or ''
        for l in doc.splitlines():
            h, s, t = l.partition(':')
            if s and re.search('array|Tod|Map', t):
                r.update(x.strip() for x in h.split(','))
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in ARRAY_USES:
                r.add(x.value.id)
        r &= params
        _arrays[node] = r
    return r


def broadcasting(v):
    """A term that is an array of several dimensions."""
    if v.op == 'index':
        k = v.a[1]
        return k.op == 'tuple' and any(x is NONE or x is ELL or x.op == 'slice' for x in k.a[0])
    if v.op == 'poly':
        return any(broadcasting(x) for m, _ in v.a[0] for x, _ in m)
    return False


def mapped(c):
    """The map that a sequence is made of."""
    if c.op == 'call' and c.a[0] in (glob('builtins.tuple'), glob('builtins.list')) and len(c.a[1]) == 1 and not c.a[2]:
        c = c.a[1][0]
    return c if c.op == 'map' and c.a[3] is TRUE else None


def element_names(t, it):
    """(variable, sequence variable) of a loop over the elements of variables."""
    if isinstance(it, ast.Name) and isinstance(t, ast.Name):
        return [(t.id, it.id)]
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
        if it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            return [p for x, y in zip(t.elts, it.args) for p in element_names(x, y)]
        if it.func.id == 'enumerate' and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            return element_names(t.elts[1], it.args[0])
    return []


def assigned_names(s):
    out = []

    def add_(n):
        if n not in out:
            out.append(n)

    def rec(x):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            add_(x.name)
            return
        if isinstance(x, ast.Lambda):
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            add_(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            add_(x.name)
        for c in ast.iter_child_nodes(x):
            rec(c)
    for f in ('target', 'body', 'orelse', 'test'):
        v = getattr(s, f, None)
        for x in (v if isinstance(v, list) else [v] if v is not None else []):
            rec(x)
    return out


def simple_const(node):
    """Expression made of literals and arithmetic on names."""
    for x in ast.walk(node):
        if not isinstance(x, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.operator, ast.unaryop, ast.Tuple,
                              ast.Name, ast.Attribute, ast.expr_context)):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                    'sqrt', 'log', 'radians', 'degrees', 'deg2rad', 'rad2deg', 'arctan', 'sin', 'cos',
                    'exp') and not x.keywords:
                continue
            return False
    return not isinstance(node, (ast.Name, ast.Attribute))


_RO = {}


def read_only(name):
    """Positions of the arguments of a compiled routine that are declared intent(in)."""
    if not _RO:
        import glob as g
        import os
        import re
        from .ctx import REPO
        _RO[''] = ()
        for p in sorted(g.glob(os.path.join(str(REPO), 'src', 'flib', '*.f90'))):
            with open(p) as fh:
                text = re.sub(r'&[ \t]*\n[ \t]*&?', ' ', re.sub(r'![^\n]*', '', fh.read().lower()))
            for m in re.finditer(r'^\s*(?:[\w() =]*\s)?(subroutine|function)\s+(\w+)\s*\(([^)]*)\)(.*?)'
                                 r'^\s*end\s+\1\b', text, re.M | re.S):
                args = [x.strip() for x in m[3].split(',') if x.strip()]
                intent, dims = {}, set()
                for d in re.finditer(r'^([^\n]*?)::([^\n]*)$', m[4], re.M):
                    k = re.search(r'intent\s*\(\s*(\w+)', d[1])
                    for n, _, dim in re.findall(r'(\w+)\s*(\(([^()]*(?:\([^()]*\)[^()]*)*)\))?', d[2]):
                        if n in args and k:
                            intent[n] = k[1]
                            dims |= {x.strip() for x in dim.split(',')}
                vis = [x for x in args if intent.get(x) != 'out' and x not in dims]
                _RO.setdefault(m[2], frozenset(i for i, x in enumerate(vis) if intent.get(x) == 'in'))
    return _RO.get(name.split('.')[-1], ())


def bind_args(node, vals, kws, skip=0):
    """{name: term} of a call of a function definition, defaults removed; None if not bindable."""
    if any(v.op == 'star' for v in vals):
        return None
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    if len(vals) > len(names):
        if not a.vararg:
            return None
        out['*'] = mk('tuple', tuple(vals[len(names):]))
        vals = vals[:len(names)]
    for i, v in enumerate(vals):
        if i >= skip:
            out[names[i]] = v
    for k, v in kws.items():
        out[k] = v
    dn = names[len(names) - len(a.defaults):]
    dflt = dict(zip(dn, a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n, d in dflt.items():
        if n in out and isinstance(d, (ast.Constant, ast.UnaryOp)):
            try:
                dv = const(ast.literal_eval(d))
            except (ValueError, TypeError):
                continue
            if out[n] is dv:
                del out[n]
    return out


def bind_values(eng, node, args, kw, st, mod, fr, target):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    if len(args) > len(names):
        if not a.vararg:
            return None
        env[a.vararg.arg] = mk('tuple', tuple(args[len(names):]))
        args = args[:len(names)]
    elif a.vararg:
        env[a.vararg.arg] = mk('tuple', ())
    for n, v in zip(names, args):
        env[n] = v
    extra = []
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
        if k in names or k in kwonly:
            if k in env:
                return None
            env[k] = v
        elif a.kwarg:
            extra.append((mk('str', k), eng.content(v, st)))
        else:
            return None
    if a.kwarg:
        env[a.kwarg.arg] = dict_(extra)
    dn = names[len(names) - len(a.defaults):]
    df = Frame(None, mod, None, MAXDEPTH, None, target)
    for n, d in list(zip(dn, a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if n not in env:
            env[n] = eng.val(d, State({}, {}, TRUE, []), df)
    for n in names + kwonly:
        if n not in env:
            return None
    return env


_sig = {}
NP_SIG = {
    'numpy.arange': None,
    'numpy.array': ['object', 'dtype'],
    'numpy.asarray': ['a', 'dtype', 'order'],
    'numpy.asanyarray': ['a', 'dtype', 'order'],
    'numpy.ascontiguousarray': ['a', 'dtype'],
    'numpy.asfortranarray': ['a', 'dtype'],
    'numpy.bincount': ['x', 'weights', 'minlength'],
    'numpy.can_cast': ['from_', 'to', 'casting'],
    'numpy.copyto': ['dst', 'src', 'casting', 'where'],
    'numpy.dot': ['a', 'b', 'out'],
    'numpy.vdot': ['a', 'b'],
    'numpy.inner': ['a', 'b'],
    'numpy.empty_like': ['prototype', 'dtype', 'order', 'subok', 'shape'],
    'numpy.frombuffer': ['buffer', 'dtype', 'count', 'offset'],
    'numpy.fromfile': ['file', 'dtype', 'count', 'sep', 'offset'],
    'numpy.fromiter': ['iter', 'dtype', 'count'],
    'numpy.fromstring': ['string', 'dtype', 'count', 'sep'],
    'numpy.lexsort': ['keys', 'axis'],
    'numpy.putmask': ['a', 'mask', 'values'],
    'numpy.unravel_index': ['indices', 'shape', 'order'],
    'numpy.ravel_multi_index': ['multi_index', 'dims', 'mode', 'order'],
    'numpy.concatenate': ['arrays', 'axis', 'out'],
    'numpy.packbits': ['a', 'axis'],
    'numpy.unpackbits': ['a', 'axis'],
    'numpy.dtype': ['dtype', 'align', 'copy'],
    'numpy.empty': ['shape', 'dtype', 'order'],
    'numpy.zeros': ['shape', 'dtype', 'order'],
}


def bind_ext(d, vals, kws):
    """Positional arguments of a library function by name, defaults removed."""
    if any(v.op == 'star' for v in vals) or '**' in kws:
        return None
    import inspect
    s = _sig.get(d)
    if s is None:
        s = False
        if d in NP_SIG:
            s = NP_SIG[d] or False
        else:
            o = ext(d)
            if o is not None and callable(o):
                try:
                    if isinstance(o, type):
                        sig = inspect.signature(o)
                    else:
                        sig = inspect.signature(o)
                    ps = list(sig.parameters.values())
                    if ps and all(p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY, p.POSITIONAL_ONLY,
                                             p.VAR_KEYWORD) for p in ps):
                        s = ps
                except (ValueError, TypeError):
                    pass
        _sig[d] = s
    if not s:
        return None
    out = dict(kws)
    if isinstance(s[0], str):
        names = s
        dfl = {}
    else:
        names = [p.name for p in s if p.kind != p.VAR_KEYWORD and p.kind != p.KEYWORD_ONLY]
        dfl = {p.name: p.default for p in s if p.default is not p.empty}
    if len(vals) > len(names):
        return None
    for n, v in zip(names, vals):
        if n in out:
            return None
        out[n] = v
    for n, v in dfl.items():
        if n in out:
            try:
                if isinstance(v, (int, float, str, bool, type(None))) and out[n] is const(v):
                    del out[n]
            except (ValueError, OverflowError):
                pass
    if d in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.empty', 'numpy.zeros', 'numpy.ones'):
        if out.get('dtype') is NONE:
            del out['dtype']
    if d in ('numpy.empty', 'numpy.zeros', 'numpy.ones') and out.get('dtype') is glob('builtins.float'):
        del out['dtype']
    return out
