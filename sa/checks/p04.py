"""Sparse kernels compute the stored matrix / its transpose (symbolic coefficient tables)."""
import re
from fractions import Fraction

from ..ctx import fortran, engines
from ..poly import Poly
from ..race import family
from ..report import AnalysisError, Report

V = ('value',)
R2 = {1: {(1, ('r11',), 1), (2, ('r21',), -1)}, 2: {(1, ('r21',), 1), (2, ('r11',), 1)}}
R3 = {1: {(1, ('r11',), 1)},
      2: {(2, ('r22',), 1), (3, ('r32',), -1)},
      3: {(2, ('r32',), 1), (3, ('r22',), 1)}}


def transposed(t):
    out = {}
    for c, s in t.items():
        for d, m, k in s:
            out.setdefault(d, set()).add((c, m, k))
    return out


def table(fmt, block):
    """Row-oriented coefficient table of an element."""
    if fmt == '':
        return {None: {(None, V, 1)}}
    if fmt == 'homothety':
        return {'*': {('*', V, 1)}}
    if fmt == 'rot2d':
        return R2
    if fmt == 'rot3d':
        return R3
    m, n = block
    return {c: {(d, ('value', d, c), 1) for d in range(1, n + 1)} for c in range(1, m + 1)}


class Spec:
    """Expected effect of a kernel on one output argument."""

    def __init__(self, kind, matrix, inp, out, tab, assign=False):
        self.kind, self.matrix, self.inp, self.out = kind, matrix, inp, out
        self.tab = tab
        self.assign = assign       # the output is set, not accumulated


def specs(p):
    n = p.name
    a = p.args
    m = re.match(r'(fsc|fsr)_(?:(homothety|rot2d|rot3d)_)?matvec_i\d_r\d+_v\d+$', n)
    if m and p.module.name == 'sparse':
        t = table(m.group(2) or '', None)
        return [Spec(m.group(1), a[0], a[1], a[2], t if m.group(1) == 'fsr' else transposed(t))]
    m = re.match(r'(fsc|fsr)_block_(\d)_(\d)_matvec', n)
    if m:
        b1, b2 = int(m.group(2)), int(m.group(3))
        if m.group(1) == 'fsr':
            t = table('block', (b1, b2))
        else:
            # columns of the transposed block: value(c, d)
            t = {c: {(d, ('value', c, d), 1) for d in range(1, b1 + 1)} for c in range(1, b2 + 1)}
        return [Spec(m.group(1), None, a[1], a[2], t)]
    if p.module.name in ('module_pointingmatrix', 'pointingmatrix'):
        t = {None: {(None, V, 1)}}
        if n in ('pmatrix_direct', 'pmatrix_direct_one_pixel_per_sample', 'direct'):
            return [Spec('fsr', a[0], a[1], a[2], t, assign=True)]
        if n in ('pmatrix_transpose', 'pmatrix_transpose_one_pixel_per_sample', 'transpose'):
            return [Spec('fsc', a[0], a[1], a[2], t)]
        if n in ('backprojection_weight', 'backprojection_weight_mask'):
            o = [x for x in a if x.startswith('map') or x.startswith('weight')]
            if len(o) == 2:
                return [Spec('fsc', a[0], a[1], o[0], t), Spec('count', a[0], None, o[1], t)]
    return []


def subs_of(path):
    return [s for x in path if x[0] == 'sub' for s in x[1]]


def same_but_version(a, base, path):
    return a[0] == 'elem' and a[1] == base and a[2] == path


def comp_of(s):
    if s is None:
        return None
    if isinstance(s, Poly):
        c = s.const_value()
        if c is not None:
            return int(c)
        a = s.single_atom()
        return ('loop', a) if a and a[0] == 'loop' else s
    if isinstance(s, tuple) and s[0] == 'range' and s[1] is None and s[2] is None:
        return '*'
    return s


def run(prop):
    rep = Report(prop)
    rep.explanation = (
        'For each rendered matrix-vector kernel the value stored in the output is reduced to a '
        'polynomial over loads; minus the previous output it must be exactly the table of '
        'coefficient x input products that the element format defines (row-oriented formats: '
        'element (j,i) links input component d at its index to output component c at i; '
        'column-oriented ones the transpose), over the full ranges of both element loops, with no '
        'other condition than the presence of the element. Dispatchers must select the kernel of '
        'the block shape under which they test it. Python products, transposes and fallbacks are '
        'compared with the same tables.')
    rep.assumptions = ['floating-point addition order is irrelevant',
                       'kernels written in a form that does not reduce to single products '
                       '(e.g. matmul on sections) are reported as unresolved, not judged']
    prog = fortran()
    if prog.errors:
        raise AnalysisError(str(prog.errors[:3]))
    for p, e in engines():
        for sp in specs(p):
            rep.count('kernels')
            Kernel(rep, prog, p, e, sp).check()
        dispatch(rep, p, e)
        kernelmask(rep, p, e)
        normal(rep, p, e)
    rep.require('kernels', 100)
    rep.require('coefficients', 300)
    from . import spec
    spec.compare(rep, prop)
    return rep.finish()


class Kernel:
    def __init__(self, rep, prog, p, e, sp):
        self.rep, self.prog, self.p, self.e, self.sp = rep, prog, p, e, sp
        self.q = f'{p.module.name}.{family(p.name)}:{sp.out}'
        self.ok = True

    def bug(self, rule, msg, ev=None):
        self.ok = False
        self.rep.add(rule, self.q, f'{msg} (in {self.p.name})', self.p.file,
                     ev.stmt.line if ev is not None else self.p.line)

    def unres(self, why):
        self.ok = False
        self.rep.unresolved.append(f'{self.p.name}: {why}')

    def check(self):
        sp, p, e = self.sp, self.p, self.e
        writes = [ev for ev in e.events if ev.kind in ('write', 'maywrite') and ev.base == sp.out]
        if any(ev.kind == 'maywrite' for ev in writes):
            return self.unres('opaque write')
        if not writes:
            return self.bug('no-output', f'{sp.out} is never updated')
        groups = {}
        zeros = []
        for ev in writes:
            r = self.event(ev)
            if r is None:
                return
            if r == 'zero':
                zeros.append(ev)
                continue
            elt, comp, terms, old = r
            groups.setdefault(elt, []).append((ev, comp, terms, old))
        for elt, g in groups.items():
            self.group(elt, g, zeros)
        if self.ok:
            self.branches(groups)

    def event(self, ev):
        sp = self.sp
        osubs = subs_of(ev.path)
        if not osubs:
            if ev.value is not None and ev.value.const_value() == 0:
                return 'zero'
            return self.unres('output written as a whole')
        ocomp = osubs[0] if len(osubs) == 2 else None
        opos = osubs[-1]
        if not isinstance(opos, Poly):
            if ev.value.const_value() == 0:
                return 'zero'
            return self.unres('output position is a section')
        v = ev.value
        if v.const_value() == 0:
            return 'zero'
        old = None
        terms = []
        elts = set()
        for mono, k in v.m.items():
            if len(mono) == 1 and mono[0][1] == 1 and same_but_version(mono[0][0], sp.out, ev.path):
                old = k
                continue
            mats, ins, other = [], [], []
            for a, ex in mono:
                if ex != 1:
                    other.append(a)
                elif a[0] == 'elem' and self.is_coef(a):
                    mats.append(a)
                elif a[0] == 'elem' and sp.inp is not None and a[1] == sp.inp:
                    ins.append(a)
                else:
                    other.append(a)
            if any(a[0] == 'phi' or a[0] == 'fn' for a in other):
                return self.unres('the output is computed through an accumulator or a function')
            if other or len(mats) != 1 or len(ins) != (0 if sp.kind == 'count' else 1):
                return self.bug('extra-term', f'{sp.out} receives the term '
                                f'{Poly({mono: k})} which is not a product of a coefficient and an input',
                                ev)
            mem = [i for i, x in enumerate(mats[0][2]) if x[0] == 'mem'][0]
            elt = (mats[0][1], mats[0][2][:mem])
            elts.add(elt)
            coef = (mats[0][2][mem][1],) + tuple(
                comp_of(s) for x in mats[0][2][mem + 1:] if x[0] == 'sub' for s in x[1])
            if ins:
                isubs = subs_of(ins[0][2])
                icomp, ipos = (isubs[0] if len(isubs) == 2 else None), isubs[-1]
            else:
                icomp = ipos = None
            terms.append((coef, icomp, ipos, k))
        if len(elts) > 1:
            return self.bug('mixed-elements', 'one update combines several elements', ev)
        if not elts:
            return self.bug('extra-term', f'{sp.out} is set to {v}', ev)
        elt = elts.pop()
        return elt, (ocomp, opos), terms, old

    def is_coef(self, a):
        if self.sp.matrix is not None and a[1] != self.sp.matrix:
            return False
        mems = [x for x in a[2] if x[0] == 'mem']
        return len(mems) == 1 and mems[0][1] != 'index' and a[2][0][0] == 'sub'

    def group(self, elt, g, zeros):
        sp, p = self.sp, self.p
        base, path = elt
        ev0 = g[0][0]
        ss = subs_of(path)
        if not all(isinstance(s, Poly) for s in ss) or len(ss) not in (1, 2):
            return self.unres('element designated by a section')
        jsub, isub = (ss if len(ss) == 2 else (None, ss[0]))
        idx = ('elem', base, path + (('mem', 'index'),))
        got = {}
        for ev, (ocomp, opos), terms, old in g:
            if old != 1 and not (sp.assign and old is None):
                if old is None:
                    return self.bug('overwrite', f'{sp.out} is overwritten instead of accumulated', ev)
                return self.bug('scaled-output', f'the previous value of {sp.out} is multiplied by {old}', ev)
            if sp.assign and old is None and jsub is not None and jsub.const_value() is None:
                return self.bug('overwrite', f'{sp.out} only keeps the last element', ev)
            if sp.assign and old is not None and not self.zeroed(zeros, ev):
                return self.bug('not-initialised', f'{sp.out} is accumulated without being set to '
                                'zero first', ev)
            for coef, icomp, ipos, k in terms:
                self.rep.count('coefficients')
                major, minor = (opos, ipos) if sp.kind == 'fsr' else (ipos, opos)
                if major is not None:
                    if not isinstance(major, Poly) or not isinstance(minor, Poly):
                        return self.unres('position is a section')
                    if major != isub:
                        dm = (major - isub).const_value()
                        lo = self.lower_diff(sp.out if sp.kind == 'fsr' else sp.inp, base)
                        if dm is None or (lo is not None and dm != lo):
                            return self.bug('wrong-row', f'position {major} is used for the element '
                                            f'stored at {isub}', ev)
                if minor is not None:
                    at = [a for a in minor.atoms() if a[:3] == idx]
                    if len(at) != 1 or (minor - Poly.atom(at[0])).const_value() is None:
                        return self.bug('wrong-index', f'position {minor} is not the index of the '
                                        'element whose coefficient is used', ev)
                oc, ic = comp_of(ocomp), comp_of(icomp)
                if sp.kind == 'count':
                    ic = oc
                if isinstance(oc, tuple) and oc == ic:
                    oc = ic = '*'
                got.setdefault(oc, {})
                key = (ic, coef)
                got[oc][key] = got[oc].get(key, 0) + k
            self.conditions(ev, base, path)
            if not self.ok:
                return
        have = {c: {(d, m, int(k) if k.denominator == 1 else k) for (d, m), k in t.items() if k}
                for c, t in got.items()}
        if have != sp.tab:
            def sh(t):
                return '; '.join(f'out{c if c else ""}: ' + ' '.join(
                    f'{"+" if k > 0 else ""}{k}*{"".join(map(str, m))}*in{d if d else ""}'
                    for d, m, k in sorted(s, key=str)) for c, s in sorted(t.items(), key=str))
            return self.bug('coefficients', f'computes [{sh(have)}] where the format defines '
                            f'[{sh(sp.tab)}]', ev0)
        self.ranges(ev0, jsub, isub, base)

    def lower_diff(self, a, b):
        def lo(n):
            d = self.p.decls.get(n)
            if d is None or not d.dims:
                return None
            l = d.dims[-1][0]
            return 1 if l is None else (int(l[1]) if l[0] == 'num' else None)
        x, y = lo(a), lo(b)
        return None if x is None or y is None else Fraction(x - y)

    def zeroed(self, zeros, ev):
        """The output element is set to zero before the loop over the elements."""
        for z in zeros:
            if z.seq is not None and ev.seq is not None and z.seq > ev.seq:
                continue
            if any(x[0] == 'elem' and x[1] in (self.sp.matrix, self.sp.inp)
                   for f in z.facts or () for x in f.deep_atoms()):
                continue    # only for some samples, according to their elements
            if z.path == ev.path or not subs_of(z.path) or any(
                    not isinstance(s, Poly) for s in subs_of(z.path)):
                outer = len(z.loops) < len(ev.loops) or not subs_of(z.path)
                if outer:
                    return True
        return False

    def conditions(self, ev, base, path):
        """No condition other than the presence of the element."""
        for f in ev.facts or ():
            a = f.single_atom()
            if a is None or a[0] != 'rel':
                continue
            at = f.deep_atoms()
            dep = [x for x in at if x[0] == 'elem' and x[1] in (base, self.sp.inp, self.sp.out)
                   and not (x[2] and x[2][-1] == ('mem', 'index'))
                   and x in a[2].atoms()]
            if dep and a[1] in ('<', '>=', '=='):
                self.bug('condition', f'{self.sp.out} is only updated when {f}', ev)
                return

    def ranges(self, ev, jsub, isub, base):
        la = {l.atom: l for l in ev.loops}
        dims = self.extent_of(base)
        for pos, s in ((0, jsub), (len(dims) - 1 if dims else 1, isub)):
            if s is None:
                continue
            c = s.const_value()
            if c is not None:
                continue
            at = [a for a in s.atoms() if a in la]
            if len(at) != 1:
                self.unres(f'subscript {s}')
                return
            l = la[at[0]]
            off = s - Poly.atom(at[0])
            if off.const_value() is None or l.lo is None or l.hi is None:
                return
            step = l.step.const_value() if l.step is not None else 1
            if step not in (1, -1):
                self.bug('range', f'the loop over {l.var} has a step of {l.step}', ev)
                return
            lo, hi = (l.lo, l.hi) if step == 1 else (l.hi, l.lo)
            lo, hi = lo + off, hi + off
            if dims and dims[pos] is not None:
                dlo, dhi = dims[pos]
                self.rep.count('element ranges')
                for x, y, w in ((lo, dlo, 'first'), (hi, dhi, 'last')):
                    if x is None or y is None:
                        continue
                    diff = (x - y).const_value()
                    if diff is None and (x - y).atoms() and all(
                            a in la for a in (x - y).atoms()):
                        if self.triangular(ev, l, (x - y), w):
                            continue
                        diff = 1
                    if diff is not None and diff != 0:
                        self.bug('range', f'the loop over {l.var} does not run to the {w} element: '
                                 f'{x} instead of {y}', ev)
                        return

    def triangular(self, ev, loop, diff, which):
        """Symmetric completion: the swapped element is written for the other half."""
        subs = subs_of(ev.path)
        if len(subs) != 2 or not all(isinstance(s, Poly) for s in subs):
            return False
        pair = {loop.atom} | set(diff.atoms())

        def key(s):
            return [a[:3] if a[0] == 'elem' else a for a in s.atoms()]
        mine = [key(s) for s in subs]
        for o in self.e.events:
            if o.kind != 'write' or o.base != ev.base or o is ev:
                continue
            so = subs_of(o.path)
            if len(so) != 2 or not all(isinstance(s, Poly) for s in so):
                continue
            if [key(s) for s in so] != mine[::-1]:
                continue
            strict = [a[2] for f in o.facts or () for a in [f.single_atom()]
                      if a and a[0] == 'rel' and a[1] in ('/=', '<')
                      and set(a[2].atoms()) and set(a[2].atoms()) <= pair]
            lo = [l for l in o.loops if l.atom not in [m.atom for m in ev.loops]]
            off = [l for l in lo if l.lo is not None and l.hi is not None and (
                self.offdiag(l.lo) or self.offdiag(l.hi))]
            mine_off = [a[2] for f in ev.facts or () for a in [f.single_atom()]
                        if a and a[0] == 'rel' and a[1] in ('/=', '<')
                        and set(a[2].atoms()) and set(a[2].atoms()) <= pair]
            if strict or off or mine_off:
                return True
        return False

    @staticmethod
    def offdiag(b):
        return bool(b.atoms()) and b.m.get((), 0) in (1, -1)

    def extent_of(self, base):
        """[(lo, hi)] polynomials of the dimensions of the matrix of elements."""
        from ..feng import State, Frame
        n = base.split('.')[-1].split('#')[0]
        d = self.p.decls.get(n) if '.' not in base else None
        if d is None or not d.dims:
            return None
        save = self.e.st, self.e.frame
        self.e.st, self.e.frame = State(), Frame(self.p, '')
        out = []
        try:
            for k, (lo, hi) in enumerate(d.dims):
                if hi is None and lo is None:
                    out.append(self.shape_arg(n, k))
                    continue
                l = self.e.ev(lo, None, quiet=True) if lo is not None else Poly.const(1)
                h = self.e.ev(hi, None, quiet=True) if hi is not None and hi[0] != 'star' else None
                out.append((l, h))
        finally:
            self.e.st, self.e.frame = save
        return out

    def shape_arg(self, n, k):
        """Extent of a pointer given in its c_f_pointer association."""
        from ..fortran import walk
        for s in walk(self.p.body):
            if s.kind == 'call' and (getattr(s, 'name', None) or getattr(s, 'proc', None)) == 'c_f_pointer':
                args = s.args
                if len(args) == 3 and args[1][0] == 'name' and args[1][1] == n:
                    sh = args[2]
                    items = sh[1] if sh[0] in ('array', 'arr', 'list') else None
                    if items and k < len(items):
                        try:
                            # the last extent is only a bound: never smaller than the loop
                            if k == len(items) - 1:
                                return None
                            return (Poly.const(1), self.e.ev(items[k], None, quiet=True))
                        except Exception:
                            return None
        return (Poly.const(1), Poly.atom(('fn', 'size'))) if False else None

    def branches(self, groups):
        """Specialised branches (one element per row) do not replace the general case."""
        gen = [g for elt, g in groups.items()
               if len(subs_of(elt[1])) < 2 or subs_of(elt[1])[0].const_value() is None]
        one = [g for elt, g in groups.items() if g not in gen]
        if not gen:
            facts = one[0][0][0].facts
            if not self.single(facts):
                self.bug('range', 'only the first element of each row is considered', one[0][0][0])
            elif len(subs_of(next(iter(groups))[1])) == 2 and not self.p.name.endswith('per_sample'):
                self.bug('range', 'rows of several elements are not handled', one[0][0][0])
        for g in one:
            if gen and not self.single(g[0][0].facts):
                self.bug('range', 'only the first element of each row is considered', g[0][0])

    def single(self, facts):
        for f in facts or ():
            a = f.single_atom()
            if a and a[0] == 'rel' and a[1] == '==' and len(a[2].m) == 2:
                return True
        return False


def dispatch(rep, p, e):
    """(fsc|fsr)_block_matvec selects the kernel of the tested block shape."""
    m = re.match(r'(fsc|fsr)_block_matvec', p.name)
    if not m:
        return
    q = f'{p.module.name}.{family(p.name)}'
    seen = set()
    # block dimensions: the two arguments named in the matrix element size
    suffix = p.name.split('_matvec')[1]
    for ev in e.events:
        if ev.kind != 'call' or ev.chain and len(ev.chain) > 1:
            continue
        name = ev.extra if isinstance(ev.extra, str) else getattr(ev.extra, 'name', None)
        if name is None:
            continue
        k = re.match(r'(fsc|fsr)_block_(\d)_(\d)_matvec(.*)$', name)
        if not k:
            continue
        rep.count('dispatched block shapes')
        vals = {}
        for f in ev.facts or ():
            a = f.single_atom()
            if a and a[0] == 'rel' and a[1] == '==':
                at = list(a[2].atoms())
                if len(at) == 1:
                    co = a[2].coef_of(at[0])
                    c = a[2].m.get((), Fraction(0))
                    for mono, kk in a[2].m.items():
                        if mono:
                            vals[str(at[0][1])] = -c / kk
        b = sorted(vals)
        want = (int(k.group(2)), int(k.group(3)))
        if k.group(1) != m.group(1) or k.group(4) != suffix:
            rep.add('dispatch', f'{q}:{k.group(2)}x{k.group(3)}', f'{p.name} calls {name}', p.file,
                    ev.stmt.line)
        got = (vals.get('m'), vals.get('n'))
        if None in got:
            continue
        got = (int(got[0]), int(got[1]))
        if got != want:
            rep.add('dispatch', f'{q}:{got[0]}x{got[1]}',
                    f'{p.name} calls {name} for a block of shape {got}', p.file, ev.stmt.line)
        seen.add(got)
    if seen:
        for s in [(i, j) for i in (1, 2, 3) for j in (1, 2, 3) if (i, j) != (1, 1)]:
            if s not in seen:
                rep.add('dispatch-missing', f'{q}:{s[0]}x{s[1]}', f'{p.name} does nothing for blocks '
                        f'of shape {s}', p.file, p.line)


def kernelmask(rep, p, e):
    """fsr_kernel: a column is outside of the kernel iff it has a non-zero coefficient."""
    if re.match(r'fsr_restrict_i\d', p.name):
        pointer_range(rep, p, e, f'{p.module.name}.{family(p.name)}')
    if not re.match(r'fsr_kernel_i\d', p.name):
        return
    q = f'{p.module.name}.{family(p.name)}'
    rep.count('kernel masks')
    out = p.args[1]
    for ev in e.events:
        if ev.kind != 'write' or ev.base != out:
            continue
        a = ev.value.single_atom() if ev.value is not None else None
        if a != ('log', False):
            rep.add('kernel-mask', q, f'{out} is set to {ev.value} in {p.name}', p.file, ev.stmt.line)
        nz = [f for f in ev.facts or () if f.single_atom() and f.single_atom()[0] == 'fn'
              and f.single_atom()[1] in ('any', 'all')]
        if not nz and not any('rel(/=' in str(f) for f in ev.facts or ()):
            rep.add('kernel-mask', q, f'{p.name} removes a column without testing that a coefficient '
                    'is not zero', p.file, ev.stmt.line)
        for f in nz:
            x = f.single_atom()
            if x[1] == 'all' or 'rel(==' in str(f):
                rep.add('kernel-mask', q, f'{p.name} tests {f} instead of any coefficient not zero',
                        p.file, ev.stmt.line)
    pointer_range(rep, p, e, q)
    # the coefficients start right after the index
    ip = [b for b in e.ptr if p.decls.get(b) is not None and not p.decls[b].dims]
    vp = [b for b in e.ptr if p.decls.get(b) is not None and p.decls[b].dims]
    if len(ip) == 1 and len(vp) == 1:
        a = subs_of(e.ptr[ip[0]][1])
        b = subs_of(e.ptr[vp[0]][1])
        size = int(re.search(r'_i(\d)', p.name).group(1))
        if a and b and (b[0] - a[0]).const_value() not in (None, size):
            rep.add('kernel-mask', q, f'the coefficients are read {(b[0] - a[0])} bytes after the index, '
                    f'which has {size} bytes', p.file, p.line)


def pointer_range(rep, p, e, q):
    """Byte positions at which element pointers are associated span the whole matrix."""
    from ..feng import State, Frame
    loops = {}
    for ev in e.events:
        for l in ev.loops:
            loops[l.atom] = l
    for b, (base, path) in e.ptr.items():
        d = p.decls.get(b)
        dm = p.decls.get(base)
        ss = subs_of(path)
        if d is None or d.dims or dm is None or not dm.dims or len(ss) != 1 or len(dm.dims) != 1:
            continue
        pos = ss[0]
        la = [loops[a] for a in pos.atoms() if a in loops]
        if not la or any(l.lo is None or l.hi is None for l in la):
            continue
        save = e.st, e.frame
        e.st, e.frame = State(), Frame(p, '')
        lo = e.ev(dm.dims[0][0], None, quiet=True) if dm.dims[0][0] else Poly.const(1)
        hi = e.ev(dm.dims[0][1], None, quiet=True)
        e.st, e.frame = save

        def at(which):
            m = {l.atom: getattr(l, which) for l in la}
            return pos.subst(lambda a: m.get(a, None))
        rep.count('element ranges')
        first, last = at('lo'), at('hi')
        d1 = first - lo
        if d1.const_value() != 0:
            rep.add('range', q, f'{p.name}: the first element considered starts at byte {first}', p.file, p.line)
            continue
        # the last element ends the buffer: hi + 1 - last is the size of one element
        size = hi + Poly.const(1) - last
        if not (len(size.m) == 1 and size.single_atom() is not None):
            rep.add('range', q, f'{p.name}: the last element considered starts {size} bytes before the '
                    'end of the matrix', p.file, p.line)


def normal(rep, p, e):
    """P^T P kernels for one element per row."""
    n = p.name
    if n in ('pmatrix_ptp', 'ptp'):
        out, kind = p.args[1], 'full'
        tab = None
    elif n == 'ptp_one':
        out, tab = p.args[1], {None: {('value',)}}
    else:
        m = re.match(r'fsc_fsr_(?:(rot2d|rot3d)_)?ncolmax1', n)
        if not m:
            return
        out = p.args[1]
        tab = {None: {None: {('value',)}},
               'rot2d': {1: {('r11',), ('r21',)}, 2: {('r11',), ('r21',)}},
               'rot3d': {1: {('r11',)}, 2: {('r22',), ('r32',)}, 3: {('r22',), ('r32',)}}}[m.group(1)]
    q = f'{p.module.name}.{family(p.name)}:{out}'
    got = {}
    rep.count('normal-matrix kernels')
    sp = Spec('fsr', p.args[0], None, out, None)
    kk = Kernel(rep, None, p, e, sp)
    for ev in e.events:
        if ev.kind != 'write' or ev.base != out:
            continue
        osubs = subs_of(ev.path)
        if not osubs:
            continue
        if ev.value.const_value() == 0:
            continue
        if any(a[0] in ('phi', 'fn') for a in ev.value.atoms()):
            rep.unresolved.append(f'{n}: accumulator')
            return
        comp = comp_of(osubs[0]) if len(osubs) == 2 and tab is not None else None
        old = None
        for mono, k in ev.value.m.items():
            if len(mono) == 1 and same_but_version(mono[0][0], out, ev.path):
                old = k
                continue
            facs = [(a, int(ex)) for a, ex in mono]
            for a, _ in facs:
                if a[0] == 'elem' and a[1] == p.args[0] and a[2] and a[2][0][0] == 'sub':
                    ss = a[2][0][1]
                    if all(isinstance(x, Poly) for x in ss) and kk.ok:
                        kk.ranges(ev, ss[0] if len(ss) == 2 else None, ss[-1], a[1])
            mems = [(a, [x for x in a[2] if x[0] == 'mem'], ex) for a, ex in facs if a[0] == 'elem' and a[2]]
            good = k == 1 and len(mems) == len(facs) and all(mm for _, mm, _ in mems)
            if tab is None:
                # v(i) v(j) at (idx(i), idx(j))
                flat = [a for a, _, ex in mems for _ in range(ex)]
                want = []
                for a in flat:
                    i = [i for i, x in enumerate(a[2]) if x[0] == 'mem'][0]
                    want.append(('elem', a[1], a[2][:i] + (('mem', 'index'),)))
                have = [[b[:3] for b in s.atoms() if b[0] == 'elem'] for s in osubs if isinstance(s, Poly)]
                have = sorted([h[0] for h in have if len(h) == 1], key=repr)
                if not good or len(flat) != 2 or sorted(want, key=repr) != have:
                    rep.add('normal-matrix', q, f'{n} adds {Poly({mono: k})} at {osubs}', p.file, ev.stmt.line)
                continue
            if not good or len(facs) != 1 or facs[0][1] != 2:
                rep.add('normal-matrix', q, f'{n} adds {Poly({mono: k})}, which is not the square of a '
                        'coefficient', p.file, ev.stmt.line)
                continue
            for c in ([comp] if comp != '*' else list(tab)):
                got.setdefault(c, set()).add((mems[0][1][0][1],))
        if old != 1:
            rep.add('normal-matrix', q, f'{n} does not accumulate in {out}', p.file, ev.stmt.line)
    if tab is not None and got and got != tab:
        rep.add('normal-matrix', q, f'{n} accumulates {got} where the format defines {tab}', p.file, p.line)
