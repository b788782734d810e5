"""Missing entries (negative index) of sparse and pointing matrices are ignored."""
from fractions import Fraction

from ..ctx import fortran, engines
from ..fortran import show
from ..poly import Poly
from ..race import family
from ..report import AnalysisError, Report

NEG = (-1, -2, -9)
POS = (0, 1, 2, 9)


def phi_name(a):
    return a[1].rsplit('#', 1)[0]


class Idx:
    """Recognises the atoms that are loaded element indices."""

    def __init__(self, prog, p, e):
        self.prog, self.p, self.e = prog, p, e
        self.ptrs = {}
        for b, (base, path) in e.ptr.items():
            n = b.split('.')[-1].split('#')[0]
            q = self.owner(b)
            d = q.decls.get(n) if q else None
            if d is not None and d.type == 'integer' and not d.dims:
                self.ptrs[b] = (base, path)

    def owner(self, b):
        if '.' not in b:
            return self.p
        pr = b.rsplit('.', 1)[0].split('.')[-1].split('#')[0]
        for q in self.prog.procs():
            if q.name == pr:
                return q
        return None

    def is_index(self, a):
        if a[0] == 'elem':
            return bool(a[2]) and a[2][-1] == ('mem', 'index')
        if a[0] in ('phi', 'sym'):
            n = phi_name(a) if a[0] == 'phi' else a[1]
            return n in self.ptrs
        return False

    def place(self, a):
        """(base, path without member) of the element that holds the index."""
        if a[0] == 'elem':
            return a[1], a[2][:-1]
        n = phi_name(a) if a[0] == 'phi' else a[1]
        return self.ptrs[n]

    def legacy(self, a):
        """Fixed-width pointing matrix (type PointingElement): padding is -1."""
        if a[0] != 'elem':
            return False
        q = self.owner(a[1])
        n = a[1].split('.')[-1].split('#')[0]
        d = q.decls.get(n) if q else None
        return d is not None and d.kind is not None and 'pointingelement' in str(d.kind).lower() \
            and not any(c in str(d.kind).lower() for c in ('_i4', '_i8', 'block'))

    def loop_of(self, a, loops):
        """Innermost loop that selects the element, and its parent."""
        base, path = self.place(a)
        atoms = set()
        for x in path:
            if x[0] == 'sub':
                for s in x[1]:
                    if isinstance(s, Poly):
                        atoms |= s.deep_atoms() if not isinstance(s.deep_atoms(), list) else set(s.deep_atoms())
        ls = [l for l in loops if l.atom in atoms]
        if not ls:
            return None, None
        i = loops.index(ls[-1])
        return ls[-1], (loops[i - 1] if i else None)


def holds(fact, a, v):
    """Truth of a fact on atom a alone when a == v (None: unknown)."""
    x = fact.single_atom()
    if x is None:
        return None
    if x[0] == 'rel':
        if set(x[2].atoms()) != {a}:
            return None
        t = Fraction(0)
        for mono, c in x[2].m.items():
            k = c
            for b, ex in mono:
                k *= Fraction(v) ** int(ex)
            t += k
        return {'<': t < 0, '>=': t >= 0, '==': t == 0, '/=': t != 0}[x[1]]
    if x[0] in ('or', 'and'):
        vals = [holds(f, a, v) for f in x[1]]
        if x[0] == 'or':
            if any(r is True for r in vals):
                return True
            return None if any(r is None for r in vals) else False
        if any(r is False for r in vals):
            return False
        return None if any(r is None for r in vals) else True
    if x[0] == 'not':
        r = holds(x[1], a, v)
        return None if r is None else not r
    return None


def admits(facts, a, v):
    """The facts do not exclude a == v."""
    return all(holds(f, a, v) is not False for f in facts or ())


def guarded(facts, a, legacy):
    return all(not admits(facts, a, v) for v in (NEG[:1] if legacy else NEG))


def hidden(facts, a):
    return [v for v in POS if not admits(facts, a, v)]


def run(prop):
    rep = Report(prop)
    rep.explanation = (
        'Every use of a loaded element index (component "index" of a matrix element, or integer '
        'pointer associated with an element) in the Fortran kernels is an obligation: the facts on '
        'the path exclude negative values before the index subscripts an array, do not exclude any '
        'non negative value, the subscript is the index relative to the declared lower bound; a '
        'branch taken on a negative index only skips that element (sparse formats) or the trailing '
        'padding of the sample (fixed-width pointing matrices); coefficients of an element are only '
        'used under the same guard. The Python fallbacks are held to the same obligations.')
    prog = fortran()
    if prog.errors:
        raise AnalysisError(str(prog.errors[:3]))
    for p, e in engines():
        check(rep, prog, p, e)
    rep.require('index subscripts', 200)
    rep.require('branches on a missing entry', 50)
    from . import spec
    spec.compare(rep, prop)
    return rep.finish()


def check(rep, prog, p, e):
    ix = Idx(prog, p, e)
    q = f'{p.module.name}.{family(p.name)}'
    for ev in e.events:
        if ev.kind in ('read', 'write', 'maywrite'):
            for path in ev.path or ():
                if path[0] != 'sub':
                    continue
                for k, s in enumerate(path[1]):
                    if not isinstance(s, Poly):
                        continue
                    for a in s.atoms():
                        if ix.is_index(a):
                            subscript(rep, q, p, e, ix, ev, k, s, a)
                    for a in set(s.deep_atoms()) - set(s.atoms()):
                        if ix.is_index(a) and ev.kind != 'read':
                            deep(rep, q, p, ix, ev, a)
            if ev.kind == 'read' and ev.path and ev.path[-1] == ('mem', 'index'):
                element_range(rep, q, p, e, ix, ev)
            if ev.kind != 'read' and ev.value is not None:
                values(rep, q, p, e, ix, ev)
        elif ev.kind in ('cycle', 'exit', 'return'):
            jump(rep, q, p, ix, ev)


def element_range(rep, q, p, e, ix, ev):
    """Loops over the elements of a matrix visit all of them."""
    if ev.path[0][0] != 'sub':
        return
    d = p.decls.get(ev.base)
    if d is None or not d.dims or len(ev.path[0][1]) != len(d.dims):
        return
    for k, s in enumerate(ev.path[0][1]):
        if not isinstance(s, Poly):
            continue
        la = [l for l in ev.loops if l.atom in s.atoms()]
        if len(la) != 1 or la[0].lo is None or la[0].hi is None:
            continue
        l = la[0]
        off = s - Poly.atom(l.atom)
        step = l.step.const_value() if l.step is not None else 1
        if off.const_value() is None or step not in (1, -1):
            continue
        lo, hi = (l.lo, l.hi) if step == 1 else (l.hi, l.lo)
        dlo, dhi = d.dims[k]
        want_lo = 1 if dlo is None else int(dlo[1]) if dlo[0] == 'num' else None
        rep.count('element loops')
        a = (lo + off).const_value()
        if want_lo is not None and a is not None and a != want_lo:
            rep.add('element-range', f'{q}:{ev.base}', f'{ev.proc.name} does not consider the first '
                    f'elements of {ev.base} along dimension {k + 1}', ev.proc.file, ev.stmt.line)
        h = hi + off
        at = [x for x in h.atoms()]
        c = h.m.get((), 0)
        full = dhi is not None and dhi[0] == 'name' or dhi is None
        if full and len(at) == 1 and len(h.m) == 2 and c < 0 and (
                at[0][0] == 'fn' and at[0][1] == 'size' or at[0][0] == 'sym' and dhi is not None
                and at[0][1] == dhi[1]):
            rep.add('element-range', f'{q}:{ev.base}', f'{ev.proc.name} does not consider the last '
                    f'elements of {ev.base} along dimension {k + 1}', ev.proc.file, ev.stmt.line)


def subscript(rep, q, p, e, ix, ev, k, s, a):
    rep.count('index subscripts')
    leg = ix.legacy(a)
    c = f'{q}:{ev.base.split(".")[-1]}'
    if not guarded(ev.facts, a, leg):
        rep.add('unguarded-index', c,
                f'{ev.base} is {"read" if ev.kind == "read" else "written"} at the index of an element '
                f'that may be missing (negative) in {ev.proc.name}', ev.proc.file, ev.stmt.line)
    h = hidden(ev.facts, a)
    if h:
        rep.add('hidden-index', c,
                f'{ev.proc.name} skips elements whose index is {h}, which are not missing entries',
                ev.proc.file, ev.stmt.line)
    off = s - Poly.atom(a)
    if '.' in ev.base or len(s.atoms()) != 1 or s.coef_of(a) is None:
        return
    d = p.decls.get(ev.base)
    if d is None or not d.dims or k >= len(d.dims) or off.const_value() is None:
        return
    first = ev.path[0]
    if first[0] != 'sub' or len(first[1]) != len(d.dims):
        return
    lo = d.dims[k][0]
    l = 1 if lo is None else (lo[1] if lo[0] == 'num' else None)
    if l is None:
        return
    rep.count('index offsets')
    if Fraction(int(l)) != off.const_value():
        rep.add('index-offset', c,
                f'subscript {s} of {ev.base}({show(lo) if lo else 1}:) in {ev.proc.name}: element index 0 '
                f'designates the first element, so the offset should be {l}', ev.proc.file, ev.stmt.line)


def deep(rep, q, p, ix, ev, a):
    """Index used inside a larger expression of a written subscript."""
    if ev.prot is None and not any(a in f.deep_atoms() for f in ev.facts or ()):
        rep.add('unguarded-index', f'{q}:{ev.base.split(".")[-1]}',
                f'{ev.base} is written at a place computed from the index of an element that may be '
                f'missing, in {ev.proc.name}', ev.proc.file, ev.stmt.line)


def values(rep, q, p, e, ix, ev):
    """Writes that use the coefficient of an element."""
    for a in ev.value.deep_atoms():
        if a[0] != 'elem' or not a[2] or a[2][-1][0] not in ('mem', 'sub'):
            continue
        # (base, (sub..), ('mem', value) [, sub])
        mems = [i for i, x in enumerate(a[2]) if x[0] == 'mem']
        if not mems or a[2][mems[0]] == ('mem', 'index'):
            continue
        if ev.base == a[1]:
            continue
        pre = a[2][:mems[0]]
        if not any(x[0] == 'sub' for x in pre):
            continue
        if any(not isinstance(s, Poly) for x in pre if x[0] == 'sub' for s in x[1]):
            continue
        q2 = ix.owner(a[1])
        n = a[1].split('.')[-1].split('#')[0]
        d = q2.decls.get(n) if q2 else None
        if d is None or d.type != 'type' or not has_index(ix.prog, q2, d):
            continue
        rep.count('coefficient uses')
        idx = ('elem', a[1], pre + (('mem', 'index'),))
        ok = False
        for f in ev.facts or ():
            for b in f.deep_atoms():
                if b[0] == 'elem' and b[:3] == idx and guarded(ev.facts, b, ix.legacy(b)):
                    ok = True
        if ok:
            continue
        # every product with the coefficient may be guarded by its own subscript
        rep.add('unguarded-value', f'{q}:{ev.base.split(".")[-1]}',
                f'{ev.base} is computed in {ev.proc.name} from the coefficient of an element that may '
                'be missing', ev.proc.file, ev.stmt.line)


def has_index(prog, p, d):
    t = prog.lookup_type(p, str(d.kind).lower())
    if t is None:
        return True
    return 'index' in [getattr(c, 'name', c) for c in t]


def jump(rep, q, p, ix, ev):
    for f in ev.facts or ():
        for a in f.deep_atoms():
            if not ix.is_index(a):
                continue
            leg = ix.legacy(a)
            if ev.kind == 'return' and holds(f, a, -1) is True and admits(ev.facts, a, -1) \
                    and f.single_atom()[0] == 'or':
                rep.add('missing-entry-returns', f'{q}:return',
                        f'{ev.proc.name} returns when it meets a missing entry', ev.proc.file,
                        ev.stmt.line)
                return
            if not admits(ev.facts, a, -1) or any(admits(ev.facts, a, v) for v in POS):
                continue
            rep.count('branches on a missing entry')
            L, parent = ix.loop_of(a, list(ev.loops))
            c = f'{q}:{ev.kind}'
            if L is None:
                continue
            t = ev.extra
            if ev.kind == 'return':
                bad = 'returns from the routine'
            elif t is L:
                bad = None
                if ev.kind == 'exit' and not leg:
                    bad = 'leaves the loop over the elements'
                if ev.kind == 'exit' and leg and not pixel_loop(ix, a, L):
                    bad = 'leaves the loop over the samples'
            elif t is not None and t in ev.loops and ev.loops.index(t) > ev.loops.index(L):
                bad = None
            elif t is parent and ev.kind == 'cycle' and leg and pixel_loop(ix, a, L):
                bad = None
            else:
                bad = 'leaves an enclosing loop'
            if bad:
                rep.add('missing-entry-hides-others', c,
                        f'on a missing entry {ev.proc.name} {bad}: the other elements are not '
                        'considered', ev.proc.file, ev.stmt.line)
            return


def pixel_loop(ix, a, L):
    """L is the loop over the trailing elements of a sample (first dimension)."""
    base, path = ix.place(a)
    subs = [s for x in path if x[0] == 'sub' for s in x[1]]
    if len(subs) < 2:
        return False
    return isinstance(subs[0], Poly) and L.atom in subs[0].atoms()
