"""Canonical polynomials over opaque atoms: the value domain of the engines.

A term is a Poly; two terms are equal iff their canonical forms are.  Atoms are
hashable tuples.  Powers with integer or rational constant exponents of atoms
are kept as (atom, exponent) pairs so that x*x, x**2, sqrt(x)**4 and a/b/c,
a/(b*c) have the same form.
"""
from fractions import Fraction


class Poly:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        # m: dict {monomial: coef}; monomial: tuple of sorted (atom, exp)
        self.m = m
        self._h = None

    def key(self):
        return frozenset(self.m.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    # constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): Fraction(1)})

    # queries
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const_value(self):
        if not self.m:
            return Fraction(0)
        if self.is_const():
            return self.m[()]
        return None

    def atoms(self):
        s = set()
        for mono in self.m:
            for a, e in mono:
                s.add(a)
        return s

    def deep_atoms(self):
        seen = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for x in _polys_in(a):
                todo += list(x.atoms())
        return seen

    def single_atom(self):
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return None

    # arithmetic
    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mono_mul(k1, k2)
                s = r.get(k, 0) + v1 * v2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return Poly(r)

    def pow(self, e):
        """Power with a constant rational exponent; None if not representable."""
        e = Fraction(e)
        if e == 0:
            return Poly.const(1)
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if e.denominator == 1 or c == 1:
                try:
                    cc = c ** int(e) if e.denominator == 1 else Fraction(1)
                except ZeroDivisionError:
                    return None
                return Poly({tuple((a, x * e) for a, x in mono): cc})
            # rational power of a constant factor
            base = Poly({mono: Fraction(1)}).pow(e)
            return base * Poly.atom(('powc', c), e)
        if e.denominator == 1 and 0 < e <= 6:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        if not self.m:
            return Poly({}) if e > 0 else None
        # content-normalised sum atom
        c, prim = self.content()
        p = Poly.atom(('sum', prim), e)
        cp = Poly.const(c).pow(e)
        return None if cp is None else p * cp

    def content(self):
        """(c, primitive) with self == c*primitive and a canonical sign/scale."""
        items = sorted(self.m.items(), key=lambda kv: repr(kv[0]))
        c = items[0][1]
        return c, Poly({k: v / c for k, v in self.m.items()})

    def inv(self):
        return self.pow(-1)

    def subst(self, f):
        """Replace atoms: f(atom) -> Poly or None (keep)."""
        out = Poly({})
        for mono, c in self.m.items():
            t = Poly.const(c)
            for a, e in mono:
                r = f(a)
                if r is None:
                    t = t * Poly.atom(a, e)
                else:
                    q = r.pow(e)
                    t = t * (q if q is not None else Poly.atom(a, e))
            out = out + t
        return out

    def coef_of(self, a):
        """(coefficient poly of atom a at degree one, rest); None if not affine in a."""
        c, r = {}, {}
        for mono, v in self.m.items():
            d = dict(mono)
            if a in d:
                if d[a] != 1:
                    return None
                k = tuple(x for x in mono if x[0] != a)
                c[k] = v
            else:
                r[mono] = v
        c, r = Poly(c), Poly(r)
        if a in c.deep_atoms() or a in r.deep_atoms():
            return None
        return c, r

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for mono, c in sorted(self.m.items(), key=lambda kv: repr(kv[0])):
            f = []
            if c != 1 or not mono:
                f.append(str(c))
            for a, e in mono:
                s = show_atom(a)
                f.append(s if e == 1 else f'{s}^{e}')
            out.append('*'.join(f))
        return ' + '.join(out)


def show_atom(a):
    if isinstance(a, tuple) and a:
        if a[0] in ('sym', 'loop', 'phi'):
            return str(a[1])
        if a[0] == 'sum':
            return f'({a[1]!r})'
        return a[0] + '(' + ','.join(_sh(x) for x in a[1:]) + ')'
    return str(a)


def _sh(x):
    if isinstance(x, Poly):
        return repr(x)
    if isinstance(x, tuple):
        return '(' + ','.join(_sh(y) for y in x) + ')'
    return str(x)


def _polys_in(a):
    if isinstance(a, Poly):
        yield a
    elif isinstance(a, (tuple, frozenset)):
        for x in a:
            yield from _polys_in(x)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        s = d.get(k, 0) + e
        if s:
            d[k] = s
        else:
            d.pop(k)
    return tuple(sorted(d.items(), key=lambda x: _order(x[0])))


_ids = {}


def _order(a):
    # stable within a run; canonical because each atom has one id
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_ids)
    return i


ZERO = Poly.const(0)
ONE = Poly.const(1)
