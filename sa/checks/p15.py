"""Outputs assigned on every path; no read of an undefined variable (Fortran)."""
from ..ctx import fortran, engines
from ..fortran import show, walk
from ..poly import Poly
from ..race import family
from ..report import AnalysisError, Report


def local(base):
    return base.split('.')[-1].split('#')[0]


def is_optional(p, n):
    d = p.decls.get(n)
    return d is not None and 'optional' in (d.attrs or ())


def error_return(st, p):
    """Return on which a status argument is known to be non zero (or nothing was found)."""
    for k, v in st.env.items():
        if is_status(k) and v.const_value() not in (None, 0):
            return True
    return any(error_fact(f) for f in st.facts)


def error_fact(f):
    a = f.single_atom()
    if not a:
        return False
    if a[0] == 'rel':
        return mentions(a[2], is_status) and (
            (a[1] == '/=' and a[2].m.get((), 0) == 0) or a[1] == '<')
    if a[0] == 'or':
        return all(error_fact(x) for x in a[1])
    if a[0] == 'and':
        return any(error_fact(x) for x in a[1])
    if a[0] == 'not':
        return mentions(a[1], is_found)
    return False


STATUS = ('status', 'istat', 'stat', 'ierr', 'err', 'error', 'info')


def is_status(x):
    n = x.split('.')[-1].split('#')[0].split('@')[0].split('%')[0]
    return n in STATUS or n.endswith('status')


def is_found(x):
    return x.split('.')[-1].split('#')[0].rstrip('_') == 'found'


def mentions(poly, pred):
    def rec(x):
        if isinstance(x, str):
            return pred(x)
        if isinstance(x, Poly):
            return any(rec(a) for a in x.atoms())
        if isinstance(x, tuple):
            return any(rec(y) for y in x)
        return False
    return rec(poly)


def empty_extent(e, p, st, d):
    """The facts of st make a declared dimension of d zero."""
    if not d.dims:
        return False
    from ..feng import State, Frame
    save = e.st, e.frame
    e.st, e.frame = State(), Frame(p, '')
    try:
        for i in range(len(d.dims)):
            b = bounds(p, e, d, i)
            if b is None or b[0] is None or b[1] is None:
                continue
            n = b[1] - b[0] + Poly.const(1)
            for f in st.facts:
                a = f.single_atom()
                if a and a[0] == 'rel' and a[1] == '==' and (a[2] == n or -a[2] == n):
                    return True
    finally:
        e.st, e.frame = save
    return False


def run(prop):
    rep = Report(prop)
    rep.explanation = (
        'Forward definedness analysis of every procedure (repository callees inlined): scalars by '
        'must-analysis with the branch facts under which they are undefined; outputs (intent(out) '
        'arguments and function results) at every return except returns in a state known to be an '
        'error status; reductions need a value before the region; per loop, an output array that '
        'the routine never reads must be assigned at the loop index on every path through the '
        'iteration and over the declared extent.')
    rep.assumptions = ['an array is considered defined once one of its elements is, except for the '
                       'per-iteration coverage obligation']
    prog = fortran()
    if prog.errors:
        raise AnalysisError(str(prog.errors[:3]))
    for p, e in engines():
        rep.count('procedures')
        undefined(rep, p, e)
        outputs(rep, p, e)
        partial(rep, p, e)
        extents(rep, p, e)
    rep.require('procedures', 180)
    rep.require('outputs', 80)
    rep.require('output returns', 80)
    rep.require('per-iteration outputs', 50)
    #from . import p15py
    #p15py.check(rep)
    return rep.finish()


def undefined(rep, p, e):
    rep.count('tracked variables', len(e.tracked))
    post = {(id(r), b) for r, b in e.region_post}
    for proc, base, stmt, ex, region, loops in e.undef:
        n = local(base)
        q = f'{p.module.name}.{family(p.name)}'
        line = stmt.line if stmt is not None else p.line
        if proc is not p and base.split('.')[0] != n:
            # a local of an inlined callee: reported at the callee itself
            if n in proc.decls and n not in proc.args:
                continue
        rep.add('undefined-read', f'{q}:{n}',
                f'{n} may be read in {proc.name} before it is given a value', proc.file, line)


def outputs(rep, p, e):
    for a in list(p.args) + ([p.result] if p.result else []):
        d = p.decls.get(a)
        if a != p.result and (d is None or d.intent != 'out'):
            continue
        if is_optional(p, a):
            continue
        rep.count('outputs')
        for st in e.returns:
            rep.count('output returns')
            if e.surely_defined(st, a) or any((a + '%') in x for x in st.env):
                continue
            if error_return(st, p):
                continue
            if d is not None and empty_extent(e, p, st, d):
                continue
            rep.add('output-unassigned', f'{p.module.name}.{family(p.name)}:{a}',
                    f'output {a} of {p.name} is not assigned on a path that returns normally',
                    p.file, p.line)
            break


def whole_reads(e, base):
    return any(x.kind == 'read' and x.base == base for x in e.events)


def partial(rep, p, e):
    bad = {}
    seen = set()
    for b, a in e.allw:
        b = b.split('%')[0]
        if b in p.args and (b, a) not in seen and not whole_reads(e, b):
            seen.add((b, a))
            rep.count('per-iteration outputs')
    for proc, bm, loop, stmt, lack, exits in e.partial:
        b = bm.split('%')[0]
        if b not in p.args or whole_reads(e, b):
            continue
        d = p.decls.get(b)
        if d is None or d.intent == 'in' or is_optional(p, b):
            continue
        if bm in bad:
            continue
        bad[bm] = 1
        lk = lack or exits
        if all(error_return(s, p) for s in lk):
            continue
        why = 'a path through the loop body skips it' if lack else 'the loop may be left early'
        rep.add('output-element-unassigned', f'{p.module.name}.{family(p.name)}:{bm}',
                f'the elements of {bm} assigned in the loop over {loop.var} are not assigned for '
                f'every iteration ({why})', p.file, stmt.line)


def bounds(p, e, d, i):
    """Declared (lower, upper) of dimension i as polynomials, or None."""
    lo, hi = d.dims[i]
    try:
        l = e.ev(lo, None, quiet=True) if lo is not None else Poly.const(1)
        h = e.ev(hi, None, quiet=True) if hi is not None and hi[0] != 'star' else None
    except Exception:
        return None
    return l, h


def extents(rep, p, e):
    """Loops that fill an output cover its declared extent."""
    from ..feng import State, Frame
    outs = {}
    for ev in e.events:
        if ev.kind in ('write', 'maywrite') and ev.base in p.args:
            outs.setdefault(ev.base, []).append(ev)
    for b, evs in outs.items():
        d = p.decls.get(b)
        if d is None or not d.dims or d.intent == 'in' or is_optional(p, b) or whole_reads(e, b):
            continue
        for dim in range(len(d.dims)):
            cover = []
            ok = True
            for ev in evs:
                subs = [x for x in ev.path if x[0] == 'sub']
                if len(subs) != 1 or len(subs[0][1]) != len(d.dims):
                    ok = False
                    break
                s = subs[0][1][dim]
                if not isinstance(s, Poly):
                    ok = False
                    break
                la = [l for l in ev.loops if l.atom in s.atoms()]
                if len(la) != 1 or la[0].lo is None or la[0].hi is None \
                        or (la[0].step is not None and la[0].step.const_value() not in (1, -1)):
                    if not la and s.const_value() is not None:
                        cover.append((s, s))
                        continue
                    ok = False
                    break
                l = la[0]
                off = s - Poly.atom(l.atom)
                if off.const_value() is None:
                    ok = False
                    break
                lo, hi = l.lo, l.hi
                if l.step is not None and l.step.const_value() == -1:
                    lo, hi = hi, lo
                cover.append((lo + off, hi + off))
            if not ok or not cover:
                continue
            e.st = State()
            e.frame = Frame(p, '')
            bd = bounds(p, e, d, dim)
            if bd is None or bd[0] is None or bd[1] is None:
                continue
            rep.count('extent obligations')
            lo, hi = bd
            need_lo = need_hi = True
            for a, z in cover:
                dl = (a - lo).const_value()
                dh = (hi - z).const_value()
                if dl is None or dl <= 0:
                    need_lo = False
                if dh is None or dh <= 0:
                    need_hi = False
            if need_lo or need_hi:
                rep.add('output-extent', f'{p.module.name}.{family(p.name)}:{b}',
                        f'dimension {dim + 1} of {b} is {show(d.dims[dim][0]) if d.dims[dim][0] else 1}:'
                        f'{show(d.dims[dim][1])} but no assignment reaches its '
                        f'{"first" if need_lo else "last"} elements', p.file, evs[0].stmt.line)
