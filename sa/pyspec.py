"""Comparison of the functions of the package with their reference definitions (specs/).

Each function is summarised by the value numbering engine (pyeng) on both sides and
the summaries are compared: outcome, final contents of the reachable locations,
external effects.  A difference is reported only if it is *definite*: the smallest
differing terms are built from the vocabulary of the reference definition (or from
primitives known to be distinct), so that no unknown identity can equate them.
"""
import ast
import functools
import math
import os
import random
import sys

from . import pyeng, pymod, pyt
from .ctx import REPO
from .pymod import Class, Func, Module, Repo
from .pyt import NONE, T, UNDEF, TooBig, ite, walk
from .report import ROOT

sys.setrecursionlimit(20000)
SPECS = os.path.join(ROOT, 'specs')


# ------------------------------------------------------------------ overlay
class Overlay(Repo):
    """The analysed package with its functions replaced by the reference definitions."""

    def __init__(self, actual, root=SPECS):
        Repo.__init__(self, root)
        spec = self.modules
        self.spec_quals = set()
        self.spec_classes = {}
        for m in spec.values():
            for n in m.funcs:
                self.spec_quals.add(f'{m.name}.{n}')
            m.own_assigns = {n: list(v) for n, v in m.assigns.items()}
            for n in m.classes:
                k = self._cls[f'{m.name}.{n}']
                k.own_assigns = set(k.assigns)
                self.spec_classes[k.qual] = k
                for x in k.methods:
                    self.spec_quals.add(f'{k.qual}.{x}')
                for x in k.setters:
                    self.spec_quals.add(f'{k.qual}.{x}=')
        # complete with what the specification does not define
        for mn, am in actual.modules.items():
            m = spec.get(mn)
            if m is None:
                spec[mn] = am
                for n in am.funcs:
                    self._fun[f'{mn}.{n}'] = actual._fun[f'{mn}.{n}']
                for n in am.classes:
                    self._cls[f'{mn}.{n}'] = actual._cls[f'{mn}.{n}']
                continue
            for n, v in am.imports.items():
                if n not in m.assigns and n not in m.funcs and n not in m.classes:
                    m.imports.setdefault(n, v)
            for n, v in am.assigns.items():
                if n not in m.imports:
                    m.assigns.setdefault(n, v)
            for n, v in am.funcs.items():
                if n not in m.funcs:
                    m.funcs[n] = v
                    self._fun[f'{mn}.{n}'] = actual._fun[f'{mn}.{n}']
            for n, v in am.classes.items():
                if n not in m.classes:
                    m.classes[n] = v
                    self._cls[f'{mn}.{n}'] = actual._cls[f'{mn}.{n}']
                else:
                    k, ak = self._cls[f'{mn}.{n}'], actual._cls[f'{mn}.{n}']
                    for x, f in ak.methods.items():
                        if x not in k.methods and self.lookup(k, x) is None:
                            k.methods[x] = f
                    for x, v2 in ak.assigns.items():
                        k.assigns.setdefault(x, v2)
        self._canon.clear()


# ------------------------------------------------------------------ vocabulary
LOOPS = {'fold', 'map', 'first', 'exists', 'foreach', 'while', 'recfold', 'mut', 'last', 'lastof',
         'unfold'}
FOLDS = {'fold', 'map', 'first', 'exists'}
STRUCT = {'fold', 'map', 'first', 'exists', 'foreach', 'while', 'lambda', 'zip', 'seq', 'range',
          'enumerate', 'product', 'last', 'filter', 'rev', 'unfold', 'opaque', 'undef', 'undefined',
          'loopval', 'cv', 'fn', 'clos', 'recfold', 'ref', 'eff', 'viewstore', 'mut', 'obj'}

# primitives whose meanings are known to differ from each other
BASE = set('''
numpy.sin numpy.cos numpy.tan numpy.exp numpy.log numpy.sqrt numpy.arctan2 numpy.arccos
numpy.arcsin numpy.abs numpy.deg2rad numpy.rad2deg numpy.floor numpy.ceil numpy.min numpy.max
numpy.sum numpy.zeros numpy.empty numpy.ones numpy.asarray numpy.argmin numpy.argmax
numpy.isfinite numpy.isnan numpy.any numpy.all numpy.float64 numpy.float32 numpy.int32 numpy.int64
builtins.float builtins.int builtins.bool builtins.str builtins.list builtins.tuple builtins.dict
copy.copy copy.deepcopy numpy.arctan numpy.rint builtins.round numpy.trunc numpy.median numpy.std numpy.var numpy.nansum numpy.nanmean
numpy.nanmin numpy.nanmax numpy.nanstd numpy.isinf numpy.argsort numpy.sort builtins.sorted numpy.roll
numpy.sinh numpy.cosh numpy.tanh numpy.sign numpy.fft.fft numpy.fft.ifft numpy.fft.fftfreq numpy.fft.fftshift
builtins.len builtins.min builtins.max builtins.sum builtins.any builtins.all
builtins.ValueError builtins.TypeError builtins.KeyError builtins.RuntimeError
builtins.NotImplementedError builtins.AttributeError builtins.IndexError builtins.NotImplemented
op:// builtins.isinstance numpy.pi numpy.mean numpy.prod numpy.cumsum numpy.arange numpy.copy numpy.array
'''.split())
SORTS = {'builtins.sorted', 'numpy.sort', 'numpy.argsort'}
PLAIN_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'T', 'comm', 'rank', 'data', 'index', 'value',
               'real', 'imag', 'itemsize', 'type', 'kind', 'name', 'names'}


def symbols(t):
    """Function, attribute and variable symbols of a term."""
    if t._syms is not None:
        return t._syms
    s = set()
    for x in walk(t):
        if x.op == 'glob':
            s.add(x.a[0])
        elif x.op == 'attr':
            s.add('.' + x.a[1])
        elif x.op == 'meth':
            s.add('.' + str(x.a[1]) + '()')
        elif x.op == 'arg':
            s.add('$' + x.a[0])
        elif x.op == 'call' and x.a[0].op not in ('glob', 'meth'):
            s.add('call')
        elif x.op in ('num', 'poly', 'str', 'const', 'tuple', 'list', 'ite', 'eq', 'eq0', 'pos', 'is',
                      'truth', 'index', 'call', 'ret', 'raise', 'store', 'dict', 'slice', 'bv', 'pow',
                      'cat', 'arg', 'isinstance', 'kwarg', 'guarded', 'effs',  'fstr', 'set', 'in'):
            pass
        elif x.op == 'binop':
            s.add('op:' + str(x.a[0]))
        elif x.op == 'obj':
            s |= {'.' + k for k, _ in x.a[1]}
        else:
            s.add('%' + x.op)
    t._syms = frozenset(s)
    return t._syms


# ------------------------------------------------------------------ differences
def shape_of(t):
    """Head symbol used to align two terms."""
    if t.op == 'call':
        f = t.a[0]
        h = f.a[0] if f.op == 'glob' else ('.' + str(f.a[1]) if f.op == 'meth' else f.op)
        return ('call', h, len(t.a[1]), tuple(k for k, _ in t.a[2]))
    if t.op == 'attr':
        return ('attr', t.a[1])
    if t.op in ('tuple', 'list', 'set'):
        return (t.op, len(t.a[0]))
    if t.op == 'dict':
        return (t.op, tuple(k for k, _ in t.a[0]))
    if t.op == 'ite':
        return (t.op, t.a[0])
    if t.op in ('num', 'str', 'const', 'glob', 'arg', 'bv', 'cv', 'pv', 'lv'):
        return (t.op, t)
    if t.op == 'poly':
        return ('poly', tuple(m for m, c in t.a[0]))
    if t.op == 'binop':
        return ('binop', t.a[0])
    if t.op in ('ref', 'opaque', 'undef'):
        return (t.op, t)
    return (t.op, len(t.a), tuple(str(x) for x in t.a if not isinstance(x, (T, tuple))))


def dimensions(t):
    """Items of a shape, those at the end of the shape of an array written one by one."""
    if t.op == 'tuple':
        r = []
        for x in t.a[0]:
            if x.op == 'star':
                return None
            r.append(x)
        return r
    if t.op == 'cat':
        r = []
        for x in t.a[0]:
            y = dimensions(x)
            if y is None:
                return None
            r += y
        return r
    if t.op == 'index' and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' and t.a[1].op == 'slice' and \
            t.a[1].a[0].op == 'num' and t.a[1].a[0].a[0] < 0 and t.a[1].a[1] is pyt.NONE is t.a[1].a[2]:
        return [pyt.index(t.a[0], pyt.num(i)) for i in range(int(t.a[1].a[0].a[0]), 0)]
    return None


def sized(a, b):
    """The same shapes, if the dimensions of an array are those that the other one states."""
    x, y = dimensions(a), dimensions(b)
    if x is None or y is None or len(x) != len(y) or x == y:
        return False
    return all(u is v or {u.op, v.op} == {'num', 'index'} and any(
        w.op == 'index' and w.a[0].op == 'attr' and w.a[0].a[1] == 'shape' for w in (u, v)) for u, v in zip(x, y))


def ranked(a, b):
    """The same elements of a local array, if it has as many dimensions as the key."""
    if a.op != b.op or a.op not in ('index', 'store') or a.a[0] is not b.a[0] or a.a[2:] != b.a[2:]:
        return False
    k, l = a.a[1], b.a[1]
    if k.op != 'tuple' or l.op != 'tuple' or k is l:
        return False
    r = a.a[0]
    while r.op in ('index', 'store', 'attr'):
        r = r.a[0]
    if r.op == 'arg':
        return False
    full = pyt.mk('slice', pyt.NONE, pyt.NONE, pyt.NONE)
    for x, y in ((k, l), (l, k)):
        x, y = x.a[0], y.a[0]
        if pyt.ELL in x and pyt.ELL not in y and len(y) >= len(x) - 1:
            i = x.index(pyt.ELL)
            if x[:i] + (full,) * (len(y) - len(x) + 1) + x[i + 1:] == y:
                return True
    return False


def diffs(a, b, out, seen, depth=0):
    """Smallest differing pairs of two terms."""
    if a is b or (a, b) in seen or len(out) > 40:
        return
    seen.add((a, b))
    if a.op == 'ite' and b.op == 'ite':
        if a.a[0] is b.a[0]:
            diffs(a.a[1], b.a[1], out, seen, depth + 1)
            diffs(a.a[2], b.a[2], out, seen, depth + 1)
            return
        # same leaves, one differing condition
        if a.a[1] is b.a[1] and a.a[2] is b.a[2]:
            diffs(a.a[0], b.a[0], out, seen, depth + 1)
            return
        at = a.a[0] if a.a[0].id < b.a[0].id else b.a[0]
        from .pyt import restrict
        n = len(out)
        sub = []
        for v in (True, False):
            x, y = restrict(a, {at: v}), restrict(b, {at: v})
            if (x is a and y is b):
                out.append((a, b))
                return
            diffs(x, y, sub, seen, depth + 1)
        if sub:
            out.extend(sub)
        else:
            out.append((a, b))
        return
    if a.op == 'poly' and b.op == 'poly':
        da, db = dict(a.a[0]), dict(b.a[0])
        if set(da) == set(db):
            out.append((a, b))
            return
        # align the monomials that differ
        xa = [m for m in da if m not in db or da[m] != db[m]]
        xb = [m for m in db if m not in da or da[m] != db[m]]
        if len(xa) == len(xb) == 1 and len(xa[0]) == len(xb[0]) and da[xa[0]] == db[xb[0]]:
            ra = [p for p in xa[0] if p not in xb[0]]
            rb = [p for p in xb[0] if p not in xa[0]]
            if len(ra) == len(rb) == 1 and ra[0][1] == rb[0][1]:
                diffs(ra[0][0], rb[0][0], out, seen, depth + 1)
                return
        out.append((a, b))
        return
    if ranked(a, b):
        out.append((a, b))
        return
    if a.op == 'zip' and b.op == 'zip':
        xa = [x for x in a.a[0] if x not in b.a[0]]
        xb = [x for x in b.a[0] if x not in a.a[0]]
        if len(xa) == len(xb) == 1:
            diffs(xa[0], xb[0], out, seen, depth + 1)
        else:
            out.append((a, b))
        return
    if shape_of(a) == shape_of(b) and a.op not in ('num', 'str', 'const', 'glob', 'arg', 'poly'):
        ca, cb = pyt.children(a), pyt.children(b)
        if len(ca) == len(cb):
            n = len(out)
            for x, y in zip(ca, cb):
                diffs(x, y, out, seen, depth + 1)
                if x is not y and {x.op, y.op} <= SPACES:
                    break         # not the same elements
            if len(out) > n or any(x is not y and (x, y) in seen for x, y in zip(ca, cb)):
                return            # reported, here or where they were met before
    if 'obj' in (a.op, b.op):
        # the attributes set on the object
        xa, fa = (a.a[0], dict(a.a[1])) if a.op == 'obj' else (a, {})
        xb, fb = (b.a[0], dict(b.a[1])) if b.op == 'obj' else (b, {})
        if xa is xb or a.op == b.op and shape_of(xa) == shape_of(xb):
            diffs(xa, xb, out, seen, depth + 1)
            for k in sorted(set(fa) | set(fb)):
                if xa is xb and xa.op == 'call' and k not in fa:
                    out.append((pyt.mk('kwarg', k, UNDEF), pyt.mk('kwarg', k, fb[k])))
                    continue
                diffs(fa.get(k) or pyt.mk('attr', xa, k), fb.get(k) or pyt.mk('attr', xb, k),
                      out, seen, depth + 1)
            return
    for x, y, sw in ((a, b, False), (b, a, True)):
        m, z = unwrapped(x), unwrapped(y)
        if m.op == 'map' and z.op != 'map' and m.a[1].op == 'seq' and m.a[1].a == (z,) and (
                m.a[3] is pyt.TRUE and m.a[2].op == 'lambda'):
            # the elements of a sequence and what they become
            e = pyt.index(z, pyt.mk('bv', m.a[2].a[0]))
            if e is not m.a[2].a[1]:
                diffs(*((e, m.a[2].a[1]) if sw else (m.a[2].a[1], e)), out, seen, depth + 1)
                return
    la, lb = outer_loops(a, b), outer_loops(b, a)
    if len(la) == len(lb) == 1 and la[0] is not a and lb[0] is not b and skeleton(la[0]) == skeleton(lb[0]):
        # the same computation on the results of two loops
        x, y = la[0], lb[0]
        if pyt.subst(a, lambda t: y if t is x else None) is b:
            diffs(x, y, out, seen, depth + 1)
            return
    if a.op == 'call' and b.op == 'call' and a.a[0] is b.a[0]:
        # keyword arguments added or removed
        ka, kb = dict(a.a[2]), dict(b.a[2])
        if len(a.a[1]) == len(b.a[1]):
            for x, y in zip(a.a[1], b.a[1]):
                diffs(x, y, out, seen, depth + 1)
            for k in sorted(set(ka) | set(kb)):
                if k in ka and k in kb:
                    diffs(ka[k], kb[k], out, seen, depth + 1)
                else:
                    out.append((pyt.mk('kwarg', k, ka.get(k, UNDEF)), pyt.mk('kwarg', k, kb.get(k, UNDEF))))
            return
    out.append((a, b))


SPACES = {'seq', 'zip', 'upto', 'rev', 'while'}


def outer_loops(a, b):
    """Outermost loops of a that are not in b."""
    y = set(walk(b))
    out, seen, st = [], set(), [a]
    while st:
        x = st.pop()
        if x in seen or x in y:
            continue
        seen.add(x)
        if x.op in LOOPS:
            out.append(x)
        else:
            st.extend(pyt.children(x))
    return out


def unwrapped(t):
    while t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('builtins.tuple', 'builtins.list') and (
            len(t.a[1]) == 1 and not t.a[2]):
        t = t.a[1][0]
    return t


def skeleton(t):
    """What two loops have in common when their bodies can be compared."""
    if t.op == 'fold':
        return (t.op, t.a[0], len(t.a[1]))
    return (t.op, t.a[0], len(t.a))


def bases(t):
    """The object t and what it was before each of its updates, with the loops that were made of them."""
    out, seqs = [], []
    while True:
        out.append((t, tuple(seqs)))
        if t.op in ('store', 'viewstore', 'obj'):
            t = t.a[0]
        elif t.op == 'mut':
            t = t.a[1]
        elif t.op == 'fold' and t.a[1]:
            seqs.append(t.a[0])
            t = t.a[1][0]
        elif unwrapped(t).op == 'map':
            seqs.append(unwrapped(t).a[1])
            t = pyt.mk('tuple', ()) if t.op == 'call' and t.a[0].a[0] == 'builtins.tuple' else pyt.mk('list', ())
        elif t.op == 'eff' and t.a[0].op == 'call':
            c, i = t.a
            if isinstance(i, int) and i < len(c.a[1]):
                t = c.a[1][i]
            elif i == 'out' and dict(c.a[2]).get('out'):
                t = dict(c.a[2])['out']
            else:
                return out
        else:
            return out


def updated(a, b, trail):
    """Is one the state of the other before updates?  (Those of a loop over a sequence that may be
    empty in the case considered do not count.)"""
    for x, y in ((a, b), (b, a)):
        for t, seqs in bases(y)[1:]:
            if t is x:
                terms = {z for s in seqs for z in walk(s) if z.op not in ('bv', 'cv', 'num', 'str', 'const', 'seq')}
                return not any(z in terms for c, _, _ in trail for z in walk(c))
    return False


def assume(t, at, v, memo):
    """t under the assumption that the atom has the given value."""
    const_ = pyt.TRUE if v else pyt.FALSE
    k = pyt.subject(at)

    def f(x):
        if x is at:
            return const_
        if not pyt.has_atom(x):
            return x
        if k is not None and x.op in pyt.ATOMS and pyt.subject(x) is k:
            w = pyt.implied(at, v, x)
            if w is not None:
                return pyt.TRUE if w else pyt.FALSE
        if x.op == 'isinstance' and at.op == 'is' and v and typed(at) == x.a[:2]:
            return pyt.TRUE
        if x.op == 'is' and at.op == 'isinstance' and not v and typed(x) == at.a[:2]:
            return pyt.FALSE
        return None
    return pyt.subst(t, f, memo)


def typed(at):
    """(x, C) of the condition type(x) is C."""
    for x, y in (at.a, at.a[::-1]):
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'builtins.type' and len(x.a[1]) == 1:
            return x.a[1][0], y
    return None


def simple_atom(a, b):
    """A condition decided in one of the terms, without conditions inside (innermost first)."""
    best = None
    for t in (a, b):
        for c in decided(t):
            if pyt.has_ite(c) and c.op != 'exists':
                continue
            k = (bvs(c), c.id)
            if best is None or k < best[0]:
                best = (k, c)
    return best and best[1]


@functools.lru_cache(100000)
def bvs(c):
    if c.op == 'exists' and c.a[1].op == 'lambda':
        return sum(1 for y in walk(c) if y.op == 'bv' and y.a[0] < c.a[1].a[0])
    return sum(1 for y in walk(c) if y.op == 'bv')


ELEMENTWISE = {'call', 'index', 'store', 'viewstore', 'binop', 'poly', 'pow', 'eff', 'view', 'mut'}


def decided(t):
    """Conditions that select a value; those inside a boolean argument, which may be an array,
    are not: they are not decided as a whole."""
    seen = set()
    st = [(t, False)]
    while st:
        y = x, arg = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if x.op == 'ite' and arg and pyt.is_bool(x):
            for c in pyt.support(x):
                st.extend((z, False) for z in pyt.children(c))
            continue
        if not pyt.has_ite(x):
            continue
        if x.op == 'ite':
            yield x.a[0]
        e = x.op in ELEMENTWISE
        st.extend((z, e) for z in pyt.children(x))


def by_bounds(trail, at):
    """Value of a condition on an integer by the bounds known of it (None: not known)."""
    if at.op not in ('eq0', 'pos'):
        return None
    d, iv = pyt.numpart(at)
    if d is None or not pyt.is_int(d):
        return None
    lo = hi = None
    excluded = set()
    if pyt.is_size(d):
        lo = 1 if pyt.is_commsize(d) else 0
    for t, v, _ in trail:
        if t.op not in ('eq0', 'pos'):
            continue
        d2, j = pyt.numpart(t)
        if d2 is not d:
            continue
        if not v:
            c = pyt._complement(j)
            if c is None:
                excluded.add(j[0])
                continue
            j = c
        a, ao, b, bo = j
        if a is not None:
            a = math.floor(a) + 1 if ao else math.ceil(a)
            lo = a if lo is None else max(lo, a)
        if b is not None:
            b = math.ceil(b) - 1 if bo else math.floor(b)
            hi = b if hi is None else min(hi, b)
    while lo is not None and lo in excluded and (hi is None or lo <= hi):
        lo += 1
    while hi is not None and hi in excluded and (lo is None or lo <= hi):
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return True            # unreachable: any value will do
    i = (lo, False, hi, False)
    if pyt._inside(i, iv):
        return True
    if pyt._apart(i, iv):
        return False
    return None


def cases(a, b, bud, out, trail=()):
    """Differing pairs of the two terms, by case analysis on all the conditions in them."""
    if a is b:
        return
    bud[0] -= 1
    if bud[0] < 0:
        raise TooBig()
    at = simple_atom(a, b)
    if at is None:
        d = valued(trail)
        if d:
            # the terms known to be equal to constants
            a, b = (pyt.subst(x, d.get, {}) for x in (a, b))
            if a is b:
                return
            at = simple_atom(a, b)
    if at is None:
        d = []
        diffs(a, b, d, set())
        out.extend((x, y, trail) for x, y in d or [(a, b)])
        if len(out) > 30:
            raise TooBig()
        return
    # the atom may have appeared in the course of the analysis: it may be known already
    known = known_value(trail, at)
    for v in (True, False) if known is None else (bool(known),):
        memo = {}
        cases(assume(a, at, v, memo), assume(b, at, v, memo), bud, out, extend(trail, at, v, a, b))


def valued(trail):
    """{term: constant} of the terms known to be constants."""
    out = {}
    for t, v, _ in trail:
        if not v:
            continue
        if t.op == 'eq0' and t.a[0].op == 'attr' and t.a[0].a[1] == 'ndim':
            out[pyt.mk('attr', t.a[0].a[0], 'shape')] = pyt.mk('tuple', ())
        if t.op in ('is', 'eq'):
            for x, y in (t.a, t.a[::-1]):
                if (x is pyt.NONE or x.op == 'str' or x.op == 'glob' and t.op == 'is') and not pyt.constant(y) and \
                        y.op != 'glob':
                    out[y] = x
                    break
    return out


def decides(t, at):
    return any(x is at for x in walk(t))


PATHS = 6
ORIGIN = [frozenset(), frozenset()]        # all the sub-terms of the terms being compared


def extend(trail, at, v, a, b):
    """Add a condition to the path, with the terms it comes from."""
    ina, inb = at in ORIGIN[0], at in ORIGIN[1]
    if not (ina and inb):
        ina, inb = decides(a, at), decides(b, at)
    return trail + ((at, v, 'both' if ina and inb else 'a' if ina else 'b'),)


def grounded(trail, vocab):
    """The conditions of the path that are found in one term only are not restatements of each
    other in terms that the normal form cannot compare."""
    side = {}
    for t, v, s in trail:
        side[t] = s if side.get(t, s) == s else 'both'
    only = {k: [t for t in side if side[t] == k] for k in 'ab'}
    st = {t: frozenset(x.op for x in walk(t) if x.op in STRUCT or x.op == 'exists') for t in side}
    if not integral(trail):
        return False
    for t in only['a']:
        if foreign(t, vocab) and not (t.op == 'is' and any(x.op == 'glob' and x.a[0].startswith(
                'operator.') for x in t.a) and any(u.op == 'is' and set(u.a) & set(t.a) for u in only['b'])):
            return False
    for k, o in (('a', 'b'), ('b', 'a')):
        for t in only[k]:
            if t.op == 'exists' and elements(t, side):
                return False
            if any(related(t, u) for u in only[o]):
                return False
            if t.op == 'exists' and any(restated(t, u, trail) for u in only[o] if u.op == 'exists'):
                return False
            if st[t] and only[o] and not any(st[u] == st[t] and u.op == t.op for u in only[o]):
                return False
    return True


RELATED = [{'in', 'eq'}, {'in', 'raises'}, {'hasattr', 'raises'}, {'isinstance', 'eq'},
           {'isinstance', 'hasattr'}, {'in', 'eq0'}, {'is', 'isinstance'}, {'truth', 'eq0'}, {'truth', 'in'}]


def related(t, u):
    """Two ways of testing the same thing?"""
    if t.op == u.op == 'raises':
        return t.a[0] is u.a[0] and (set(t.a[1:]) <= set(u.a[1:]) or set(u.a[1:]) <= set(t.a[1:]) or any(
            isinstance(x, tuple) and isinstance(y, tuple) and (set(x) <= set(y) or set(y) <= set(x))
            for x in t.a[1:] for y in u.a[1:]))
    if {t.op, u.op} not in RELATED:
        return False
    x, y = ({z for z in walk(c) if z.op not in ('num', 'str', 'const', 'glob', 'bv')} - {c} for c in (t, u))
    return bool(x & y)


def restated(t, u, trail):
    """Two quantified conditions on the same sequence that may be the same for integers."""
    if t.a[0] is not u.a[0] or t.a[1].op != 'lambda' or u.a[1].op != 'lambda':
        return False
    x, y = t.a[1].a[1], u.a[1].a[1]
    d = []
    old = ORIGIN[:]
    try:
        cases(ite(x, pyt.ONE, pyt.ZERO), ite(y, pyt.ONE, pyt.ZERO), [300], d, tuple(c for c in trail if bvs(c[0])))
    except (TooBig, RecursionError):
        return True
    finally:
        ORIGIN[:] = old
    return not any(integral(tr) for _, _, tr in d)


@functools.lru_cache(10000)
def same_condition(t, u):
    """Are the two quantified conditions the same, case by case?"""
    x, y = t.a[1].a[1], u.a[1].a[1]
    d = []
    old = ORIGIN[:]
    try:
        cases(ite(x, pyt.ONE, pyt.ZERO), ite(y, pyt.ONE, pyt.ZERO), [300], d)
    except (TooBig, RecursionError):
        return False
    finally:
        ORIGIN[:] = old
    return not d


def integral(trail):
    """Can the conditions hold if the numbers they compare are integers?"""
    e = eliminated(trail)
    if e is not None:
        trail = e[0]
    known = {}
    for t, v, _ in trail:
        if t is pyt.TRUE and not v or t is pyt.FALSE and v:
            return False
        if t.op not in ('eq0', 'pos'):
            continue
        d, j = pyt.numpart(t)
        if d is None or any(x is not None and x.denominator != 1 for x in (j[0], j[2])):
            continue
        k = known.setdefault(d, [None, None, set()])
        if not v:
            c = pyt._complement(j)
            if c is None:
                k[2].add(j[0])
                continue
            j = c
        a, ao, b, bo = j
        if a is not None:
            a = a + 1 if ao else a
            k[0] = a if k[0] is None else max(k[0], a)
        if b is not None:
            b = b - 1 if bo else b
            k[1] = b if k[1] is None else min(k[1], b)
    for lo, hi, ex in known.values():
        if lo is not None and hi is not None and all(
                x in ex for x in range(int(lo), int(min(hi, lo + 20)) + 1)):
            return False
    return True


def eliminated(trail):
    """The trail where the unknowns of its linear equalities are replaced by their values, or None
    if it is not changed."""
    eqs = [t.a[0] for t, v, _ in trail if v and t.op == 'eq0']
    if not eqs:
        return None
    rules = []
    for e in eqs:
        d = pyt.pdict(e)
        for a, r in rules:
            d = replaced(d, a, r)
        mons = [m for m in d if len(m) == 1 and m[0][1] == 1 and
                all(x is not m[0][0] for n in d if n is not m for x, _ in n)]
        if not mons:
            continue
        m = min(mons, key=lambda m: pyt.mono_key((m, d[m])))
        c = d[m]
        r = {n: -k / c for n, k in d.items() if n != m}
        rules = [(a, replaced(q, m[0][0], r)) for a, q in rules] + [(m[0][0], r)]
    if not rules:
        return None
    out = []
    for t, v, s in trail:
        out.append((reduced(t, rules), v, s))
    return tuple(out), rules


def replaced(d, a, r):
    """The polynomial d with the linear unknown a replaced by the polynomial r."""
    out = {}
    for m, c in d.items():
        e = dict(m).get(a, 0)
        if e != 1:
            out[m] = out.get(m, 0) + c
            continue
        rest = {n: c for n, c in ((tuple(x for x in m if x[0] is not a), c),)}
        p = pyt.pdict(pyt.mul(pyt.from_dict(rest), pyt.from_dict(r)))
        for n, k in p.items():
            out[n] = out.get(n, 0) + k
    return {m: c for m, c in out.items() if c}


def reduced(t, rules):
    """The condition t on a number with the unknowns replaced, as a condition or a constant."""
    if t.op not in ('eq0', 'pos'):
        return t
    d = pyt.pdict(t.a[0])
    for a, r in rules:
        d = replaced(d, a, r)
    x = pyt.from_dict(d)
    if t.op == 'eq0':
        return pyt.eq(x, pyt.ZERO)
    return pyt.lt(pyt.ZERO, x)


def elements(t, atoms):
    """Is an element of the sequence of the quantified condition the subject of another one?"""
    xs = {x for s in walk(t.a[0]) if s.op == 'seq' for x in s.a if isinstance(x, T)}
    return any(y.op == 'index' and y.a[0] in xs and y.a[1].op != 'bv'
               for u in atoms if u is not t for y in walk(u))


def foreign(t, vocab):
    """Symbols that the reference definition does not use and that may stand for something in it."""
    return {x for x in symbols(t) - vocab if x not in BASE and x[1:] not in PLAIN_ATTRS and not (
        '.' in x[1:] and x.rsplit('.', 1)[0] in vocab and (
            '.' + x.rsplit('.', 1)[1] in vocab or x.rsplit('.', 1)[1] in PLAIN_ATTRS))}


def head(t):
    """Function called."""
    f = t.a[0]
    return f.a[0] if f.op == 'glob' else '.' + str(f.a[1]) + '()' if f.op == 'meth' else '%call'


def known_value(trail, at):
    """Value of the condition at that follows from the conditions of the trail, or None."""
    k = pyt.subject(at)
    for t, v, _ in trail:
        if t is at:
            return v
    for t, v, _ in trail:
        if k is not None and pyt.subject(t) is k:
            w = pyt.implied(t, v, at)
            if w is not None:
                return w
    if at.op == 'is':
        for x, y in (at.a, at.a[::-1]):
            if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == 'builtins.type' and len(x.a[1]) == 1 and \
                    pyt.constant(x.a[1][0]) and y.op == 'glob' and not y.a[0].startswith('builtins.'):
                return False          # the type of a constant
    if at.op == 'truth' or at.op == 'eq0' and is_len(at.a[0]):
        # an empty container is false
        x = at.a[0] if at.op == 'truth' else at.a[0].a[1][0]
        for t, v, _ in trail:
            if at.op == 'truth' and t.op == 'eq0' and is_len(t.a[0]) and t.a[0].a[1][0] is x or \
                    at.op == 'eq0' and t.op == 'truth' and t.a[0] is x:
                return not v
    if at.op == 'exists' and at.a[1].op == 'lambda':
        for t, v, _ in trail:
            if t.op == 'exists' and t.a[0] is at.a[0] and t.a[1].op == 'lambda' and same_condition(t, at):
                return v
    if at.op in ('eq0', 'pos') and any(v and t.op == 'eq0' for t, v, _ in trail):
        e = eliminated(trail)
        if e is not None:
            r = reduced(at, e[1])
            if r in (pyt.TRUE, pyt.FALSE):
                return r is pyt.TRUE
            if r is not at and r.op in ('eq0', 'pos'):
                k = pyt.subject(r)
                for t, v, _ in e[0]:
                    if k is not None and pyt.subject(t) is k:
                        w = v if t is r else pyt.implied(t, v, r)
                        if w is not None:
                            return w
                v = by_bounds(e[0], r)
                return by_bounds(trail, at) if v is None else v
    return by_bounds(trail, at)


def copied(t):
    """Value of which t is a copy (of whatever type)."""
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in (
            'builtins.dict', 'builtins.list', 'builtins.set', 'builtins.tuple', 'copy.copy', 'numpy.copy'):
        v = t.a[1] + tuple(x for k, x in t.a[2])
        return v[0] if len(v) == 1 else None
    return None


def is_len(t):
    return t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'builtins.len' and len(t.a[1]) == 1


def follow(a, b, rnd, out):
    """Differing pairs of the two terms in one case where they differ."""
    trail = ()
    for _ in range(150):
        at = simple_atom(a, b)
        if at is None:
            d = valued(trail)
            if d:
                a, b = (pyt.subst(x, d.get, {}) for x in (a, b))
                if a is b:
                    return
                at = simple_atom(a, b)
        if at is None:
            d = []
            diffs(a, b, d, set())
            out.extend((x, y, trail) for x, y in d or [(a, b)])
            return
        v = known_value(trail, at)
        first = rnd.random() < .5
        for v in (first, not first) if v is None else (bool(v),):
            memo = {}
            x, y = assume(a, at, v, memo), assume(b, at, v, memo)
            if x is not y:
                break
        else:
            return
        a, b, trail = x, y, extend(trail, at, v, a, b)


def definite(a, b, vocab):
    """Can no identity outside the normal form equate a and b?"""
    return reason(a, b, vocab) is None


def sequence(t):
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in (
            'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1:
        return t.a[1][0]
    return t


def fields(t):
    return {x.a[1].a[0] for x in walk(t) if x.op in ('store', 'viewstore') and isinstance(x.a[1], T) and
            x.a[1].op == 'str' and x.a[0].op not in ('dict', 'kwargs')}


def structs(t, shared=()):
    """Structural operators of a term, but for the loops which the function and its definition share."""
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen or x.op in FOLDS and x in shared:
            continue
        seen.add(x)
        if x.op in STRUCT and not (x.op == 'mut' and x.a[0] == 'del'):
            out.add(x.op)
        todo.extend(pyt.children(x))
    return out


def loops_of(terms):
    seen = set()
    return {x for t in terms if isinstance(t, T) for x in walk(t, seen) if x.op in FOLDS}


def reason(a, b, vocab, trail=(), same=None):
    """Why an identity outside the normal form could equate a and b (None: none can)."""
    u = [0, 0]
    for i, x in enumerate((a, b)):
        for y in walk(x):
            if y.op == 'opaque':
                return 'opaque'
            if y.op == 'undefined':
                u[i] += 1
    if u[0] and not u[1]:
        return None           # an unbound variable is used
    if u != [0, 0]:
        return 'undefined'
    if copied(a) is not None and copied(a) is copied(b):
        return 'copy'
    if a.op == 'kwarg' and b.op == 'kwarg' and UNDEF in (a.a[1], b.a[1]):
        v = b.a[1] if a.a[1] is UNDEF else a.a[1]
        return None if v is not NONE and (v is b.a[1] or not (symbols(v) - vocab - BASE)) else 'kwarg'
    if same is NONE and b is NONE and a.op == 'call':
        # an effect where the definition has none
        f = {head(a)} - vocab - {None}
    else:
        f = foreign(a, vocab) | foreign(b, vocab)
    for x in ((symbols(a) | symbols(b)) - vocab) & SORTS:
        if any(y.op == 'set' or y.op == 'glob' and y.a[0].split('.')[-1] in ('set', 'unique', 'frozenset')
               or y.op == 'meth' and y.a[1] in ('keys', 'items', 'values') for t in (a, b) for y in walk(t)):
            f = f | {x}
    if f:
        return 'foreign ' + ' '.join(sorted(f)[:4])
    if a.op == 'undef' or b.op == 'undef':
        return None
    if a is NONE and b.op in ('cat', 'str', 'obj', 'poly', 'list', 'tuple', 'store', 'num'):
        return None
    if {a.op, b.op} == {'raise', 'ret'}:
        return None
    if updated(a, b, trail):
        return None
    if a.op == 'zip' and b.op == 'zip':
        return 'zip'
    if ranked(a, b):
        return 'rank'
    if {a.op, b.op} == {'cat', 'tuple'} and sized(a, b):
        return 'shape'
    if sequence(a) is sequence(b):
        return 'sequence'     # list or tuple
    if any('.' + k in vocab for k in fields(a) ^ fields(b)):
        return 'record'       # field of a record: attribute or item
    for x, y in ((a, b), (b, a)):
        while x.op == 'index' and y.op == 'index' and x.a[0] is y.a[0]:
            x, y = x.a[1], y.a[1]
        if x.op == 'index' and y.op == 'keyat' and x.a == y.a:
            return 'mapping'      # element of a sequence or of a mapping
    if same is not None and (a is same or b is same):
        return None           # not modified
    if loops(a, b) and loops(b, a):
        return 'loops'
    sa = structs(a, vocab)
    sb = structs(b, vocab)
    if sa != sb and (a.op in STRUCT or b.op in STRUCT or sa ^ sb):
        return 'struct ' + ' '.join(sorted(sa ^ sb))
    return None


def loops(a, b):
    """Loops of a that are not in b."""
    y = set(walk(b))
    return [x for x in walk(a) if x.op in LOOPS and x not in y]


# ------------------------------------------------------------------ functions
class Diff:
    loc = None
    why = None

    def __init__(self, kind, what, a, b, ok, when=()):
        self.when = when
        self.kind, self.what, self.a, self.b, self.definite = kind, what, a, b, ok

    def text(self):
        def s(x):
            x = pyt.show(x) if isinstance(x, T) else str(x)
            return x if len(x) < 220 else x[:100] + ' ... ' + x[-100:]
        w = ' and '.join(('' if v else 'not ') + s(c) for c, v, _ in self.when[:4])
        return f'{self.kind} {self.what}: {s(self.a)} instead of {s(self.b)}' + (f' when {w}' if w else '')


def summary(rp, f, selfcls, syms, inline_all=False):
    e = pyeng.Eng(rp, symbols=syms, inline_all=inline_all)
    e.root_cls = selfcls
    r = e.run(f, selfcls=selfcls)
    r.inlined = e.inlined
    return r


def returns(o):
    """Condition under which the function returns normally."""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'ite':
                r = ite(x.a[0], rec(x.a[1]), rec(x.a[2]))
            else:
                r = pyt.FALSE if x.op == 'raise' else pyt.TRUE
            memo[x] = r
        return r
    return rec(o)


def compare(ra, rb, thorough=0):
    """List of Diff between the summaries of the function (ra) and of its definition (rb)."""
    vocab = set()
    terms = [rb.out] + list(rb.heap) + list(rb.heap.values()) + [x for g, e in rb.effects for x in (g, e)]
    for t in terms:
        if isinstance(t, T):
            vocab |= symbols(t)
    vocab |= {'$' + n for n in getattr(rb, 'args', ())}
    vocab |= {'$self'}
    vocab |= loops_of(terms) & loops_of([ra.out] + list(ra.heap.values()) + [x for g, e in ra.effects for x in (g, e)])
    out = []

    def add(kind, what, a, b, loc=None):
        if a is b:
            return
        # what an operation that does nothing leaves
        same = NONE if kind == 'effect' else loc if kind == 'state' else None
        if kind != 'result' and any(loops(x, NONE) for _, x in ra.effects if (_, x) not in rb.effects) or any(
                k not in rb.heap for k in ra.heap):
            same = None
        d = None
        sure = True
        if thorough:
            ORIGIN[:] = [set(walk(a)), set(walk(b))]
            try:
                d = []
                pyt.BUDGET[0] = 100000
                cases(a, b, [thorough], d)
                if not d:
                    return
            except (TooBig, RecursionError):
                # too many cases: some of them
                d = []
                for i in range(1 if any(x.definite for x in out) else PATHS):
                    try:
                        pyt.BUDGET[0] = 50000
                        follow(a, b, random.Random(i), d)
                    except (TooBig, RecursionError):
                        pass
                    if any(grounded(t, vocab) and definite(x, y, vocab) for x, y, t in d):
                        break
                if not d:
                    d, sure = None, False
            pyt.BUDGET[0] = 1 << 60
        if d is None:
            d = []
            diffs(a, b, d, set())
        for x, y, *tr in d or [(a, b)]:
            why = reason(x, y, vocab, tr[0] if tr else (), same) or (None if sure else 'cases') or (
                'path' if tr and not grounded(tr[0], vocab) and not (
                    kind == 'state' and y is loc and modified(x, loc) and free(tr[0]) and not passed(terms, loc)) else None)
            out.append(Diff(kind, what, x, y, why is None, *tr))
            out[-1].loc = loc
            out[-1].why = why

    add('result', '', ra.out, rb.out)
    na, nb = returns(ra.out), returns(rb.out)
    keys = {}
    for k in list(rb.heap) + list(ra.heap):
        keys.setdefault(k, None)
    for k in keys:
        if k not in rb.heap and k.op == 'attr' and k.a[0] is pyt.mk('arg', 'self'):
            # new attribute of self: not an observable difference by itself
            if pyt.mk('attr', k.a[0], k.a[1]) not in vocab and '.' + str(k.a[1]) not in vocab:
                continue
        if pyt.is_kwargs(k):
            continue       # the dictionary is that of the call
        if k.op == 'attr' and k.a[1] == '*data':
            # the data of an argument, through another array that may share them
            if k in ra.heap and k not in rb.heap and k.a[0] not in rb.heap:
                out.append(Diff('state', pyt.show(k), pyt.mk('str', 'changed in place'), k.a[0], True))
                out[-1].loc = k.a[0]
            continue
        if k not in rb.heap and on_class(k) and k not in vocab:
            out.append(Diff('state', pyt.show(k), ra.heap[k], k, True))
            out[-1].loc = k
            continue
        add('state', pyt.show(k), ite(na, ra.heap.get(k, k), k), ite(nb, rb.heap.get(k, k), k), k)
    used = None
    for k in ra.heap:
        if k not in rb.heap and k.op == 'attr' and k.a[0] is SELF and k not in vocab and '.' + str(k.a[1]) not in vocab:
            # an attribute that the definition does not know, which this call leaves to the next ones
            if used is None:
                used = set(walk(ra.out)) | {x for g, e in ra.effects for t in (g, e) for x in walk(t)}
            if k in used:
                out.append(Diff('memory', pyt.show(k), ra.heap[k], k, True))
                out[-1].loc = k
    ea, eb = list(ra.effects), list(rb.effects)
    same = [x for x in ea if x in eb]
    if any(x not in eb and outside(x[1]) for x in ea):
        # modified by a function of a library
        for d in out:
            if d.kind == 'state' and d.loc is not None and root(d.loc) is SELF:
                d.definite, d.why = False, d.why or 'library'
    ua = [x for x in ea if x not in eb]
    ub = [x for x in eb if x not in ea]
    # pair the effects by head
    pairs = sorted(((-similar(ite(*x, NONE), ite(*y, NONE)), i, j) for i, x in enumerate(ua)
                    for j, y in enumerate(ub) if shape_of(x[1]) == shape_of(y[1])))
    da, db = set(), set()
    for _, i, j in pairs:
        if i not in da and j not in db:
            da.add(i)
            db.add(j)
            (g, e), (g2, e2) = ua[i], ub[j]
            add('effect', pyt.show(e)[:60], ite(g, e, NONE), ite(g2, e2, NONE))
    ua = [x for i, x in enumerate(ua) if i not in da]
    ub = [x for i, x in enumerate(ub) if i not in db]
    ua, ub = ([x for x in u if not private(x[1])] for u in (ua, ub))
    for g, e in ua:
        if g is pyt.FALSE:
            continue
        out.append(Diff('effect', 'extra', e, NONE, definite(e, NONE, vocab)))
    for g, e in ub:
        out.append(Diff('effect', 'missing', NONE, e, not (
            loops(e, NONE) and any(loops(x, NONE) for _, x in ua))))
    # order of the effects on the same object
    if not ua and not ub and len(ea) == len(eb):
        def proj(l):
            d = {}
            for g, e in l:
                r = receiver(e)
                d.setdefault(r, []).append(e)
            return d
        pa, pb = proj(ea), proj(eb)
        for r in pb:
            if r is not None and pa.get(r) != pb[r] and sorted(
                    x.id for x in pa.get(r, [])) == sorted(x.id for x in pb[r]):
                out.append(Diff('effect', 'order', pa[r][0], pb[r][0], True))
    return out


def on_class(k):
    """A location of a class or module: shared by the instances."""
    while k.op in ('attr', 'index') and k.a:
        if k.op == 'attr' and k.a[1] == '__class__':
            return True
        k = k.a[0]
    return k.op in ('glob', 'call')


SELF = pyt.mk('arg', 'self')


def root(t):
    while t.op in ('attr', 'index', 'deep') and t.a:
        t = t.a[0]
    return t


def outside(e):
    """A library function that is given the object itself?"""
    return e.op == 'call' and e.a[0].op == 'glob' and SELF in e.a[1] and not e.a[0].a[0].startswith('pysimulators.')


def private(e):
    """Does it only write to a stream made by the function?"""
    return e.op == 'call' and e.a[0].op == 'glob' and e.a[0].a[0] in ('pickle.dump', 'json.dump') and any(
        v.op == 'call' and v.a[0].op == 'glob' and v.a[0].a[0] in ('io.BytesIO', 'io.StringIO')
        for v in [*e.a[1], *(v for _, v in e.a[2])])


def modified(x, same):
    """Is it an object modified in place, which the definition does not modify?"""
    while x.op in ('store', 'viewstore'):
        x = x.a[0]
        if x is same:
            return True
    return False


def passed(terms, loc):
    """Does the definition give the object to another function of the package?"""
    return any(y.op == 'call' and y.a[0].op == 'glob' and y.a[0].a[0].startswith('pysimulators.') and any(
        z is loc for z in walk(y)) for t in terms if isinstance(t, T) for y in walk(t))


def free(trail):
    """The path is not conditioned by anything that only the definition looks at."""
    return integral(trail) and all(s != 'b' for _, _, s in trail)


def similar(a, b):
    """Fraction of the sub-terms that are common."""
    if a is b:
        return 2
    x, y = set(walk(a)), set(walk(b))
    return len(x & y) / len(x | y)


def receiver(e):
    if e.op == 'call' and e.a[0].op == 'meth':
        x = e.a[0].a[0]
        while x.op in ('attr', 'index', 'view') and x.a[0].op not in ('glob',):
            x = x.a[0]
        return x
    return None


class Check:
    """Comparison of all functions, with a cache of the summaries."""

    def __init__(self, actual=None, root=SPECS):
        self.actual = actual or pymod.repo()
        self.spec = Overlay(self.actual, root)
        pyt.PLAIN[0] = self.spec.plain
        self.syms = frozenset(q for q in self.spec.spec_quals if self.has(q))
        self._cache = {}
        self._cmp = {}
        self._verdict = {}

    def has(self, q):
        c, n = q.rsplit('.', 1)
        if n.endswith('='):
            k = self.actual._cls.get(c)
            return k is not None and n[:-1] in k.setters
        k = self.actual._cls.get(c)
        if k is not None:
            return self.actual.lookup(k, n) is not None
        return q in self.actual._fun

    def func(self, rp, q):
        c, n = q.rsplit('.', 1)
        k = rp._cls.get(c)
        if k is not None:
            if n.endswith('='):
                return rp.setter(k, n[:-1]), k
            return rp.lookup(k, n), k
        return rp._fun.get(q), None

    def summ(self, side, q, mode):
        key = (side, q, mode)
        r = self._cache.get(key)
        if r is None:
            rp = self.actual if side == 'a' else self.spec
            f, k = self.func(rp, q)
            if f is None:
                r = pyeng.Result()
                r.ok, r.why = False, 'missing'
            else:
                pyt.BUDGET[0] = 300000
                r = summary(rp, f, k, self.syms, mode == 'inline')
                pyt.BUDGET[0] = 1 << 60
            self._cache[key] = r
        return r

    def diff(self, q, mode='mod'):
        """None: undecided; list of differences otherwise (empty: equal)."""
        key = (q, mode)
        if key not in self._cmp:
            a, b = self.summ('a', q, mode), self.summ('s', q, mode)
            if not a.ok or not b.ok:
                self._cmp[key] = (None, a.why or b.why)
            else:
                pyt.BUDGET[0] = 1 << 60
                d = compare(a, b)
                if d:
                    pyt.BUDGET[0] = 100000
                    try:
                        d2 = compare(self.lifted(a), self.lifted(b))
                        if len(d2) == 0:
                            d = d2
                    except TooBig:
                        pass
                if d:
                    d = compare(a, b, 200)
                pyt.BUDGET[0] = 1 << 60
                self._cmp[key] = (d, None)
        return self._cmp[key]

    def lifted(self, r):
        o = pyeng.Result()
        bud = [8000]
        o.out = pyt.lift(r.out, bud)
        o.heap = {k: pyt.lift(v, bud) for k, v in r.heap.items()}
        o.effects = tuple((g, pyt.lift(e, bud)) for g, e in r.effects)
        o.args = r.args
        return o

    # ---------------------------------------------------------------- signatures
    def signature(self, rp, f):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and not f.is_static and names:
            names = names[1:]
            alla = (a.posonlyargs + a.args)[1:]
        else:
            alla = a.posonlyargs + a.args
        dn = [x.arg for x in alla][len(alla) - len(a.defaults):] if a.defaults else []
        d = dict(zip(dn, a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        ev = {n: self.value(rp, f.mod, v) for n, v in d.items()}
        return names, [x.arg for x in a.kwonlyargs], ev, bool(a.vararg), bool(a.kwarg)

    def value(self, rp, mod, node):
        """Term of an expression evaluated at the level of a module."""
        e = pyeng.Eng(rp, symbols=self.syms)
        try:
            st = pyeng.State({}, {}, pyt.TRUE, [])
            return e.val(node, st, pyeng.Frame(None, mod, None, 0))
        except (pyeng.Unsupported, TooBig, RecursionError) as x:
            return pyt.opaque(f'{type(x).__name__} {ast.dump(node)}')

    def decorators(self, rp, f):
        return [self.value(rp, f.mod, d) for d in f.node.decorator_list]

    def interface(self, q):
        """Differences of signature and decorators."""
        fa, _ = self.func(self.actual, q)
        fs, _ = self.func(self.spec, q)
        out = []
        if fa is None or fs is None or fa.node is fs.node:
            return out
        na, ka, da, va, wa = self.signature(self.actual, fa)
        nb, kb, db, vb, wb = self.signature(self.spec, fs)
        anames = set(na + ka)
        for i, n in enumerate(nb):
            if n not in anames and not wa:
                out.append(Diff('signature', n, 'no parameter', n, True))
            elif n in na and na.index(n) != i:
                out.append(Diff('signature', n, f'position {na.index(n)}', f'position {i}', True))
        for n in kb:
            if n not in anames and not wa:
                out.append(Diff('signature', n, 'no parameter', n, True))
        for n in set(na + ka) - set(nb + kb):
            if n not in da and not wb:
                out.append(Diff('signature', n, 'required parameter', 'none', True))
        for n in db:
            if n in anames and n not in da:
                out.append(Diff('signature', n, 'no default', db[n], True))
        for n in da:
            if n in nb + kb and n not in db:
                out.append(Diff('signature', n, da[n], 'no default', False))
            elif n in db and da[n] is not db[n]:
                out.append(Diff('default', n, da[n], db[n], definite(da[n], db[n], symbols(db[n]))))
        ca, cb = self.decorators(self.actual, fa), self.decorators(self.spec, fs)
        if ca != cb:
            for x in ca:
                if x not in cb:
                    out.append(Diff('decorator', '', x, 'none', x.op == 'glob' or (
                        x.op == 'call' and x.a[0].op == 'glob')))
            for x in cb:
                if x not in ca:
                    out.append(Diff('decorator', '', 'none', x, True))
            if not out:
                out.append(Diff('decorator', 'order', ca[0], cb[0], False))
        return out

    # ---------------------------------------------------------------- classes and modules
    def class_diffs(self, cq):
        """Differences of the bases, decorators and attributes of a class."""
        k, s = self.actual._cls.get(cq), self.spec.spec_classes[cq]
        if k is None:
            return [Diff('class', cq, 'missing', cq, True)]
        out = []
        ma = [x.qual if isinstance(x, Class) else x for x in self.actual.mro(k)]
        ms = [x.qual if isinstance(x, Class) else x for x in self.spec.mro(s)]
        if [x for x in ma if x in ms] != ms:
            out.append(Diff('class bases', cq, ', '.join(map(str, ma[1:])), ', '.join(map(str, ms[1:])), True))
        da = [self.value(self.actual, k.mod, d) for d in k.node.decorator_list]
        ds = [self.value(self.spec, s.mod, d) for d in s.node.decorator_list]
        for x in ds:
            if x not in da:
                out.append(Diff('class decorator', cq, 'none', x, True))
        for x in da:
            if x not in ds:
                out.append(Diff('class decorator', cq, x, 'none', x.op == 'glob' or (
                    x.op == 'call' and x.a[0].op == 'glob')))
        if da != ds and sorted(x.id for x in da) == sorted(x.id for x in ds):
            out.append(Diff('class decorator', 'order', da[0], ds[0], False))
        for n, v in s.assigns.items():
            if n not in s.own_assigns:
                continue
            if n in ('__slots__', '__doc__'):
                continue
            ra = self.actual.class_attr(k, n)
            if ra is None:
                if n in k.methods:
                    continue
                out.append(Diff('class attribute', f'{cq}.{n}', 'missing', n, not n.startswith('_')))
                continue
            x, y = self.value(self.actual, ra[0].mod, ra[1]), self.value(self.spec, s.mod, v)
            if x is not y:
                d = []
                diffs(x, y, d, set())
                for p, r in d:
                    out.append(Diff('class attribute', f'{cq}.{n}', p, r, definite(p, r, symbols(y))))
        return out

    def module_diffs(self, mn):
        """Differences of the module-level values of a module."""
        m, s = self.actual.modules.get(mn), self.spec.modules[mn]
        out = []
        if m is None or m is s:
            return out
        for n, vs in s.own_assigns.items():
            if n.startswith('__'):
                continue
            va = m.assigns.get(n)
            if va is None:
                if not n.startswith('_'):
                    out.append(Diff('module attribute', f'{mn}.{n}', 'missing', n, True))
                continue
            if len(va) != len(vs) or any(x is None for x in va + vs):
                continue
            for v, w in zip(va, vs):
                x, y = self.value(self.actual, m, v), self.value(self.spec, s, w)
                if x is not y:
                    d = []
                    diffs(x, y, d, set())
                    for p, r in d:
                        out.append(Diff('module attribute', f'{mn}.{n}', p, r,
                                        definite(p, r, symbols(y))))
        return out

    @functools.lru_cache(None)
    def callers(self):
        """qual -> quals of the specified functions whose definition mentions its name."""
        out = {}
        names = {}
        for q in self.syms:
            names.setdefault(q.rsplit('.', 1)[1], []).append(q)
        for q in self.syms:
            f, k = self.func(self.actual, q)
            if f is None:
                continue
            for x in ast.walk(f.node):
                n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                for t in names.get(n, ()):
                    if t != q:
                        out.setdefault(t, set()).add(q)
        return out

    @functools.lru_cache(None)
    def values(self):
        """Names of the functions that are mentioned other than by calling them."""
        out = set()
        for m in self.actual.modules.values():
            called = {id(x.func) for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
            for x in ast.walk(m.tree):
                if id(x) not in called and isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                    out.add(x.attr if isinstance(x, ast.Attribute) else x.id)
        return out

    def verdict(self, q):
        """('equal'|'diff'|'open'|'missing', details)."""
        if q not in self._verdict:
            if len(pyt._ite) > 200000:
                pyt._ite.clear()
            try:
                r = self.verdict_(q)
            except Exception as e:
                r = 'open', (f'{type(e).__name__}: {e}',)
            self._verdict[q] = r
        return self._verdict[q]

    def verdict_(self, q):
        n = q.rsplit('.', 1)[1]
        private = n.startswith('_') and not n.startswith('__')
        if q not in self.syms:
            if private:
                # removed: its users must agree with the definitions that use it
                return ('equal', ()) if self.public_equal(q) else ('open', ('removed',))
            return 'missing', (Diff('function', q, 'missing', n, True),)
        i = self.interface(q)
        if i and not (private and self.public_equal(q)):
            g = [x for x in i if x.definite]
            if g:
                return 'diff', g
            return 'open', [x.text() for x in i]
        d, why = self.diff(q)
        if d == []:
            return 'equal', ()
        d2, why2 = self.diff(q, 'inline')
        if d2 == [] and d and any(x.definite for x in d) and any(
                getattr(self.summ(w, q, 'inline'), 'lost', ()) for w in 'as'):
            d2 = None         # the inlined form does not show all the attributes that are set
        if d2 == []:
            shared = [x for x in d or () if x.kind == 'state' and x.what.endswith('.*data')]
            return ('diff', shared) if shared else ('equal', ())
        if d is None:
            d, why = d2, why2
        if d is None:
            return 'open', (why,)
        if private and self.public_equal(q):
            return 'equal', ()
        good = [x for x in d if x.definite]
        if not good and d2 is not None:
            good = [x for x in d2 if x.definite]
        if not good:
            return 'open', [f'[{x.why}] {x.text()}' for x in d]
        return 'diff', good

    def public_equal(self, q):
        """Do all functions that use the private function q agree once it is inlined?"""
        todo, seen, n = [q], {q}, 0
        while todo:
            x = todo.pop()
            if x.rsplit('.', 1)[1] in self.values():
                return False            # also used as a value: inlining does not reach it
            for c in sorted(self.callers().get(x, ())):
                if c in seen:
                    continue
                seen.add(c)
                got = getattr(self.summ('a', c, 'inline'), 'inlined', ())
                if x not in got:
                    if any(y.rsplit('.', 1)[-1] == x.rsplit('.', 1)[1] for y in got):
                        continue        # another function of this name
                    return False        # not resolved
                n += 1
                d, _ = self.diff(c, 'inline')
                if d == []:
                    continue
                m = c.rsplit('.', 1)[1]
                if m.startswith('_') and not m.startswith('__'):
                    todo.append(c)
                else:
                    return False
        return n > 0


@functools.lru_cache(None)
def check():
    return Check()


if __name__ == '__main__':
    import sys
    import time
    t0 = time.time()
    c = check()
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    n = {}
    for k in sorted(c.spec.spec_classes):
        for x in c.class_diffs(k):
            print('class', x.definite, x.text()[:400])
    for k in sorted(c.spec.modules):
        for x in c.module_diffs(k):
            print('module', x.definite, x.text()[:400])
    for q in sorted(c.spec.spec_quals):
        if pat not in q:
            continue
        v, d = c.verdict(q)
        n[v] = n.get(v, 0) + 1
        if v != 'equal':
            print(v, q)
            for x in list(d)[:5]:
                print('     ', x.text()[:500] if isinstance(x, Diff) else str(x)[:500])
    print(n, round(time.time() - t0, 1), 's')
