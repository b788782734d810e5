"""Data-race analysis of the OpenMP parallel regions (P01)."""
import re

from .poly import Poly, ONE, ZERO
from .fortran import Module, show, walk

COMB = re.compile(r'_(i\d|r\d|v\d)(?=_|$)')


def family(name):
    """Routine family: generated instances share a construct name."""
    return re.sub(r'(_(?:[irv]\d+))+$', '_*', name)


def varying_atoms(poly, region, inv):
    return [a for a in poly.deep_atoms() if not inv(a)]


class RegionCheck:
    def __init__(self, eng, region, events, report):
        self.eng, self.r, self.evs, self.rep = eng, region, events, report
        self.proc = region.proc
        self.patoms = [l.atom for l in region.ploops]
        self.written = {}
        self.loops = {}
        for e in events:
            for l in e.loops:
                self.loops[l.atom] = l
            if e.kind == 'loop':
                self.loops[e.extra.atom] = e.extra

    def loc(self):
        return f'{self.proc.file}', family(self.proc.name)

    def name(self, base):
        return self.r.names.get(base, base).split('.')[-1]

    def bug(self, rule, base, msg, line):
        c = f'{self.proc.module.name}.{family(self.proc.name)}:{self.name(base)}'
        self.rep.add(rule, c, f'{msg} (in {self.proc.name}, parallel region at line {self.r.stmt.line})',
                     self.proc.file, line)

    # -- invariance in the region
    def is_inv(self, a):
        """Atom whose value is the same for all iterations of the region."""
        k = a[0]
        if a in self.loops:
            l = self.loops[a]
            return not any(p is l for p in self.r.ploops) and False
        if k == 'loop':
            return False if a in self.loops else True
        if k == 'phi':
            return a not in self.region_phis
        if k == 'sym':
            return a[1].split('%')[0] not in self.written_bases
        if k == 'elem':
            return a[1] not in self.written_bases and all(self.inv_poly(x) for x in _polys(a[2]))
        return all(self.inv_poly(x) for x in _polys(a))

    def inv_poly(self, p):
        return all(self.is_inv(a) for a in p.atoms())

    def check(self):
        r = self.r
        evs = self.evs
        writes = [e for e in evs if e.kind in ('write', 'maywrite')]
        self.written_bases = {e.base for e in writes}
        # phis created inside the region: collect from first/last event numbers
        self.region_phis = self._phis()
        byb = {}
        for e in evs:
            if e.kind in ('read', 'write', 'maywrite'):
                byb.setdefault(e.base, []).append(e)
        self.rep.count('parallel regions')
        for b, acc in byb.items():
            self.base(b, acc)
        self.undefined_private()
        self.live_out()

    def _phis(self):
        s = set()
        for e in self.evs:
            for p in ([e.value] if e.value is not None else []) + list(_polys(e.path or ())):
                for a in p.deep_atoms():
                    if a[0] == 'phi':
                        n = int(a[1].rsplit('#', 1)[1])
                        if n > self.r.phi0:
                            s.add(a)
        return s

    def base(self, b, acc):
        r = self.r
        if b in r.pvars:
            # a pointer that is private may designate shared storage
            self.pointer(b, acc)
            return
        if self.is_local_of_inlined(b):
            return
        writes = [e for e in acc if e.kind in ('write', 'maywrite')]
        if not writes:
            return
        if b in r.reductions:
            self.reduction(b, acc)
            return
        if self.threadprivate(b):
            return
        self.rep.count('shared variables written in parallel')
        if all(e.prot and e.prot[0] == 'workshare' for e in writes):
            return
        prot = [e for e in writes if e.prot]
        unprot = [e for e in writes if not e.prot]
        if unprot:
            self.unprotected(b, acc, unprot)
        if prot:
            self.protected(b, acc, prot, unprot)

    def is_local_of_inlined(self, b):
        """Locals of a procedure called inside the region are private to the call."""
        return '#' in b and '.' in b and b not in self.r.names and self.eng_local(b)

    def eng_local(self, b):
        return b in self.r.inner_locals

    def threadprivate(self, b):
        if '::' in b:
            m, n = b.split('::', 1)
            mod = self.eng.prog.modules.get(m)
            return mod is not None and n in mod.threadprivate
        return False

    # -- unprotected writes
    def unprotected(self, b, acc, writes):
        w0 = writes[0]
        scal = [e for e in writes if not e.subs()]
        if scal:
            for e in scal:
                if self.idempotent(b, acc, writes):
                    return
                if e.extra == 'pointer' or (isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'c_f_pointer'):
                    self.bug('shared-pointer', b, f'pointer {self.name(b)} is associated by every thread but is shared', e.stmt.line)
                    return
                via = f', through {e.proc.name}' if e.proc is not self.proc else ''
                self.bug('shared-write', b, f'shared variable {self.name(b)} is written by every thread without '
                         f'private, reduction, atomic or critical{via}', e.stmt.line)
                return
        if self.idempotent(b, acc, writes):
            return
        # element writes: some access-path position must be injective in the
        # parallel loop and shared by all unprotected accesses
        others = [e for e in acc if e.subs() or e.kind == 'read']
        res = self.disjoint(b, others)
        if res is None:
            self.rep.unresolved.append(f'{self.proc.name}: {self.name(b)}: {show(writes[0].expr)}: extents not comparable')
            return
        if not res:
            e = next((w for w in writes if not self.disjoint(b, [w])), writes[0])
            if self.disjoint(b, [e]):
                self.bug('overlapping-access', b, f'element {show(e.expr)} is written by one iteration while another '
                         'iteration may access it through a different subscript', e.stmt.line)
            else:
                self.bug('overlapping-write', b, f'{show(e.expr)} may be the same element for different iterations '
                         'of the parallel loop and is not protected', e.stmt.line)
        else:
            self.rep.count('element-disjoint shared arrays')

    def inquiry(self, e):
        return False

    def idempotent(self, b, acc, writes):
        """All writes store the same constant and nobody reads the variable."""
        vals = {e.value for e in writes}
        if len(vals) != 1 or None in vals:
            return False
        v = next(iter(vals))
        a = v.single_atom()
        const = v.is_const() or (a is not None and a[0] == 'log')
        return const and not any(e.kind == 'read' for e in acc)

    def disjoint(self, b, accs):
        """All accesses of different parallel iterations touch different elements."""
        forms = []
        for e in accs:
            subs = []
            for p in e.path or ():
                if p[0] == 'sub':
                    subs.append(p[1])
                    break      # the first subscript list addresses the array
            if not subs:
                return False
            forms.append((e, subs[0]))
        n = min(len(f[1]) for f in forms)
        if len({len(f[1]) for f in forms}) != 1:
            return False
        need = list(self.patoms)
        if not need:
            return True   # region without work-sharing loop: handled elsewhere
        covered = set()
        maybe = set()
        for d in range(n):
            col = [f[1][d] for f in forms]
            for a in need:
                if a in covered:
                    continue
                res = self.injective(col, a, [f[0] for f in forms])
                if res:
                    covered.add(a)
                elif res is None:
                    maybe.add(a)
        if covered == set(need):
            return True
        if covered | maybe == set(need):
            return None
        return False

    def injective(self, col, a, evs):
        """Values taken by `col` in different iterations of loop atom a never meet."""
        lows, highs, coefs = [], [], []
        for s, e in zip(col, evs):
            if isinstance(s, tuple):          # section lo:hi
                if s[1] is None or s[2] is None or (s[3] is not None and s[3] != ONE):
                    return False
                lo = self.bounds(s[1], a)
                hi = self.bounds(s[2], a)
                if lo is None or hi is None or lo[0] != hi[0]:
                    return False
                coefs.append(lo[0])
                lows.append(lo[1])
                highs.append(hi[2])
            else:
                x = self.bounds(s, a)
                if x is None:
                    return False
                coefs.append(x[0])
                lows.append(x[1])
                highs.append(x[2])
        c = coefs[0]
        if any(x != c for x in coefs):
            return False
        if not c.m:
            return False
        step = ONE
        for l in self.r.ploops:
            if l.atom == a and l.step is not None:
                step = l.step
        sv = step.const_value()
        if sv is None or sv == 0:
            return False
        width = c if _nonneg(c) else -c
        if abs(sv) != 1:
            width = width * Poly.const(abs(sv))
        # every pair: hi - lo < width
        for hi in highs:
            for lo in lows:
                d = width - (hi - lo) - ONE
                if not _nonneg(d):
                    # not comparable (two unrelated extents) or really overlapping
                    return None if any(v > 0 for m, v in d.m.items() if m) else False
        return True

    def bounds(self, p, a):
        """(coef of a, low, high) with everything but a bounded over the other loops."""
        x = p.coef_of(a)
        if x is None:
            return None
        c, rest = x
        if not self.inv_poly(c):
            return None
        lo = hi = rest
        for _ in range(6):
            vary = [t for t in (lo.atoms() | hi.atoms()) if t in self.loops and not any(t == q for q in self.patoms)]
            if not vary:
                break
            t = vary[0]
            l = self.loops[t]
            if l.lo is None or l.hi is None or l.step is None:
                return None
            sv = l.step.const_value()
            if sv is None or sv == 0:
                return None
            llo, lhi = (l.lo, l.hi) if sv > 0 else (l.hi, l.lo)
            for which in (0, 1):
                q = lo if which == 0 else hi
                y = q.coef_of(t)
                if y is None:
                    return None
                k, r = y
                if not k.m:
                    continue
                if _nonneg(k):
                    ext = llo if which == 0 else lhi
                elif _nonneg(-k):
                    ext = lhi if which == 0 else llo
                else:
                    return None
                q = r + k * ext
                if which == 0:
                    lo = q
                else:
                    hi = q
        if not (self.inv_poly(lo) and self.inv_poly(hi)):
            return None
        return c, lo, hi

    # -- protected writes
    def protected(self, b, acc, prot, unprot):
        if all(e.prot and e.prot[0] == 'workshare' for e in prot):
            return
        kinds = {e.prot for e in prot}
        self.rep.count('protected shared updates', len(prot))
        if len(kinds) > 1:
            self.bug('mixed-protection', b, f'{self.name(b)} is updated under different kinds of mutual exclusion '
                     f'({", ".join(sorted("/".join(k) for k in kinds))})', prot[0].stmt.line)
            return
        kind = next(iter(kinds))
        outside = [e for e in acc if not e.prot and not self.same_safe(e, prot)]
        if outside:
            if not self.disjoint(b, [e for e in acc]):
                e = outside[0]
                self.bug('unprotected-access', b, f'{self.name(b)} is updated under {kind[0]} but accessed without it: '
                         f'{show(e.expr)}', e.stmt.line)
                return
        if kind[0] == 'atomic':
            for e in prot:
                if e.kind == 'write' and not self.is_update(e):
                    self.bug('atomic-not-update', b, f'atomic statement does not update {show(e.expr)} from its own value',
                             e.stmt.line)
        else:
            for e in prot:
                if e.kind == 'write' and not self.crit_update(e, acc):
                    self.bug('order-dependent', b, f'{show(e.expr)} is overwritten in a critical section with a value that '
                             'depends on which thread comes last', e.stmt.line)

    def same_safe(self, e, prot):
        return False

    def is_update(self, e):
        """value == old value op something (commutative)."""
        s = e.stmt
        if s.kind != 'assign':
            return True
        return _contains_expr(s.rhs, s.lhs)

    def crit_update(self, e, acc):
        s = e.stmt
        if s.kind != 'assign':
            return True
        if _contains_expr(s.rhs, s.lhs):
            return True
        # conditional replacement (maximum/minimum search) or write-disjoint
        if e.conds:
            return True
        return self.disjoint(e.base, [x for x in acc if x.base == e.base])

    # -- reductions
    def reduction(self, b, acc):
        op = self.r.reductions[b]
        self.rep.count('reductions')
        for e in acc:
            if e.kind != 'write':
                continue
            if not self.reduction_ok(e, op, b):
                self.bug('bad-reduction', b, f'{show(e.expr)} is declared reduction({op}) but is not combined with {op}',
                         e.stmt.line)

    def reduction_ok(self, e, op, b):
        s = e.stmt
        if s.kind != 'assign':
            return True
        if s.lhs[0] != 'name' and s.lhs[0] != 'ref':
            return True
        rhs = s.rhs
        n = s.lhs
        if op in ('+', '-', '*', '.or.', '.and.', '.eqv.', '.neqv.'):
            okops = {'+': ('+', '-'), '-': ('+', '-')}.get(op, (op,))
            if rhs[0] == 'bin' and _top_operand(rhs, okops, n):
                return True
            a = e.value.single_atom() if e.value is not None else None
            if op == '.or.':
                if a == ('log', True):
                    return True
            if op == '.and.':
                if a == ('log', False):
                    return True
            return False
        if op in ('max', 'min'):
            if rhs[0] == 'ref' and rhs[1] == ('name', op) and n in rhs[2]:
                return True
            # guarded replacement  if (x > v) v = x
            for c in e.conds:
                a = c.single_atom()
                if a and a[0] == 'rel':
                    return True
            return False
        return True

    # -- pointers
    def pointer(self, b, acc):
        tgt = self.eng.ptr.get(b)
        if tgt is None or tgt[0] == 'expr':
            return
        tb = tgt[0]
        writes = [e for e in acc if e.kind == 'write' and not (isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'c_f_pointer')]
        if not writes or tb in self.r.pvars:
            return
        self.rep.count('writes through private pointers')
        # address written: the target element designated in the last association
        evs = [e for e in acc if e.kind == 'write' and isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'c_f_pointer']
        forms = []
        for e in evs:
            f = type('E', (), {})()
            f.path = e.extra[1][1]
            f.expr = e.expr
            f.kind = 'write'
            forms.append(f)
        if forms and not self.disjoint(tb, forms):
            if all(w.prot for w in writes):
                return
            self.bug('overlapping-write', b, f'the storage designated by {self.name(b)} may be the same for different '
                     'iterations of the parallel loop', evs[0].stmt.line)

    # -- private variables
    def undefined_private(self):
        for proc, base, stmt, e, region, loops in self.eng.undef:
            if region is not self.r or base not in self.r.pvars:
                continue
            self.rep.count('private variables read before assignment')
            self.bug('private-undefined', base, f'private variable {self.name(base)} is read before it is assigned in the '
                     'iteration', stmt.line)

    def live_out(self):
        for proc, base, stmt, e, region, loops in self.eng.undef:
            if region is not None:
                continue
            for r, b in self.eng.region_post:
                if r is self.r and b == base:
                    self.bug('private-live-out', base, f'private variable {self.name(base)} is read after the parallel '
                             'region that computed it', stmt.line)
        p = self.proc
        if self.r.chain:
            return
        for b in self.r.written_private:
            if b in getattr(self.r, 'lastprivate', ()):
                continue
            d = p.decls.get(b)
            if (b in p.args and d is not None and d.intent in ('out', 'inout')) or b == p.result:
                self.bug('private-output', b, f'output argument {self.name(b)} is private in the parallel region: the '
                         'value computed there is lost', self.r.stmt.line)


def _top_operand(rhs, ops, n):
    """n is an operand of the top-level chain of `ops` (left of a minus)."""
    if rhs == n:
        return True
    if rhs[0] == 'bin' and rhs[1] in ops:
        if rhs[1] == '-':
            return _top_operand(rhs[2], ops, n)
        return _top_operand(rhs[2], ops, n) or _top_operand(rhs[3], ops, n)
    return False


def _contains_expr(e, x):
    if e == x:
        return True
    if isinstance(e, tuple):
        return any(_contains_expr(y, x) for y in e if isinstance(y, tuple))
    return False


def _polys(x):
    if isinstance(x, Poly):
        yield x
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            yield from _polys(y)


def _nonneg(p):
    """p >= 0 when all its symbols are at least one (extents, strides)."""
    # every negative monomial must be dominated by a positive one it divides
    pos = {m: c for m, c in p.m.items() if c > 0}
    neg = {m: -c for m, c in p.m.items() if c < 0}
    if any(a[0] in ('loop',) for m in p.m for a, _ in m):
        return False
    for m, c in neg.items():
        todo = c
        for q in sorted(pos, key=lambda k: len(k)):
            if pos[q] <= 0:
                continue
            dq, dm = dict(q), dict(m)
            if all(dq.get(a, 0) >= e for a, e in dm.items()) and all(e > 0 for e in dq.values()):
                t = min(pos[q], todo)
                pos[q] -= t
                todo -= t
                if not todo:
                    break
        if todo:
            return False
    return True


def check_proc(prog, proc, report, Engine):
    if not any(s.kind == 'omp_parallel' for s in walk(proc.body)):
        return None
    eng = Engine(prog, proc).run()
    for r in eng.regions:
        if r.chain:
            continue          # checked in its own procedure
        evs = [e for e in eng.events if e.region is r]
        RegionCheck(eng, r, evs, report).check()
    return eng
