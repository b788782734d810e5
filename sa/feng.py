"""Forward abstract interpreter over the Fortran AST producing an event stream.

Each procedure is interpreted once, structurally, with joins at merge points and
havoc at loop heads: scalar variables map to canonical polynomials (value
numbers), arrays to versions.  Calls to procedures of the repository are inlined
(bounded depth), so that a helper extracted from a kernel is analysed as the
kernel was.  Unknown constructs yield fresh opaque values.
"""
from fractions import Fraction

from .fortran import S, Proc, Module, base_name, show, walk, subexprs
from .poly import Poly, ZERO, ONE

MAXDEPTH = 6

INTRINSICS = set("""abs sqrt exp log log10 sin cos tan asin acos atan atan2 sinh cosh tanh mod modulo
min max floor ceiling nint int real dble aint anint sign size shape lbound ubound sum product minval maxval
minloc maxloc any all count merge matmul dot_product transpose reshape spread pack unpack cshift eoshift
present allocated associated kind selected_real_kind selected_int_kind precision huge tiny epsilon range
trim adjustl adjustr len len_trim index scan verify char ichar achar iachar repeat
c_loc c_f_pointer c_null_ptr c_sizeof iand ior ieor not ishft btest transfer null isnan ieee_is_nan
random_number cpu_time system_clock date_and_time omp_get_thread_num omp_get_max_threads omp_get_num_threads
move_alloc get_command_argument logical cmplx aimag conjg hypot erf gamma norm2 c_associated storage_size
ieee_value mvbits dim dprod floor new_line get_environment_variable""".split())


class Loop:
    """One textual loop instance, as reached through an inlining path."""

    def __init__(self, id, var, atom, lo, hi, step, stmt, parallel=None):
        self.id, self.var, self.atom = id, var, atom
        self.lo, self.hi, self.step = lo, hi, step
        self.stmt = stmt
        self.parallel = parallel

    def __repr__(self):
        return f'<loop {self.var}={self.lo}..{self.hi}>'


class Event:
    __slots__ = ('kind', 'base', 'path', 'value', 'stmt', 'proc', 'chain', 'loops',
                 'facts', 'prot', 'region', 'expr', 'rmw', 'scope', 'extra', 'seq',
                 'conds')

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in self.__slots__[1:]:
            setattr(self, k, kw.get(k))

    def subs(self):
        """All subscript terms of the access path."""
        out = []
        for p in self.path or ():
            if p[0] == 'sub':
                out += list(p[1])
        return out

    def __repr__(self):
        return f'<{self.kind} {self.base}{self.path} L{self.stmt.line}>'


class Region:
    def __init__(self, stmt, proc, loop=None):
        self.stmt, self.proc = stmt, proc
        self.clauses = stmt.clauses
        self.pvars = set()       # private bases
        self.reductions = {}     # base -> op
        self.ploops = []         # parallel Loop objects
        self.firstprivate = set()
        self.undef = {}
        self.written_private = set()

    def __repr__(self):
        return f'<region {self.proc.name} L{self.stmt.line}>'


class State:
    __slots__ = ('env', 'ver', 'facts', 'defd', 'dead', 'uf', 'w')

    def __init__(self):
        self.env = {}
        self.ver = {}
        self.facts = frozenset()
        self.defd = set()
        self.dead = False
        self.w = set()        # (base, loop atom or None) written so far
        self.uf = {}          # base -> facts that hold whenever it is undefined

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.ver = dict(self.ver)
        s.facts = self.facts
        s.defd = set(self.defd)
        s.dead = self.dead
        s.uf = self.uf
        s.w = set(self.w)
        return s


class Frame:
    """Name binding of one (possibly inlined) procedure activation."""

    def __init__(self, proc, prefix, parent=None):
        self.proc = proc
        self.prefix = prefix
        self.alias = {}     # local name -> location (base, path) or ('expr', Poly)
        self.parent = parent
        self.labels = []
        self.rets = []
        self.absent = set()


class Engine:
    def __init__(self, prog, proc, inline=True, track_def=True):
        self.prog = prog
        self.proc = proc
        self.events = []
        self.nphi = 0
        self.loops = []
        self.conds = []
        self.prot = None
        self.region = None
        self.regions = []
        self.inline = inline
        self.depth = 0
        self.ninst = 0
        self.jumps = []      # stack of dicts for loops: {'cycle': [], 'exit': [], label}
        self.unknown_calls = []
        self.kinds = {}
        self.returns = []
        self.undef = []
        self.partial = []
        self.allw = []
        self.chain = ()
        self.has_goto = any(s.kind == 'goto' for s in walk(proc.body))
        self.region_post = []
        self.tracked = set()
        self.arrays = set()
        self.ptr = {}

    # ---------------------------------------------------------------- helpers
    def phi(self, name):
        self.nphi += 1
        return Poly.atom(('phi', f'{name}#{self.nphi}'))

    def emit(self, kind, **kw):
        ev = Event(kind, proc=kw.pop('proc', None) or self.frame.proc, loops=tuple(self.loops),
                   facts=self.st.facts, prot=self.prot, region=self.region, chain=self.chain,
                   seq=len(self.events), conds=tuple(self.conds), **kw)
        self.events.append(ev)
        return ev

    # ---------------------------------------------------------------- running
    def run(self):
        self.st = State()
        self.frame = Frame(self.proc, '')
        p = self.proc
        for a in p.args:
            d = p.decls.get(a)
            if d is None or d.intent != 'out':
                self.st.defd.add(a)
        for n, d in p.decls.items():
            if d.init is not None or 'parameter' in d.attrs or 'save' in d.attrs:
                self.st.defd.add(n)
                if 'parameter' in d.attrs and d.init and d.init[0] != 'ptrinit':
                    try:
                        self.st.env[n] = self.ev(d.init, None, quiet=True)
                    except Exception:
                        pass
        self.track(p, '')
        # explicit bounds may name arguments; nothing to do
        self.block(p.body)
        if not self.st.dead:
            self.returns.append(self.st.copy())
        return self

    def track(self, p, prefix):
        """Local variables whose definedness is followed."""
        for n, d in p.decls.items():
            if d.init is not None or n in p.common or (n in p.args and prefix):
                continue
            if any(a in ('parameter', 'save', 'external', 'intrinsic') for a in d.attrs):
                continue
            if n in p.args and d.intent != 'out':
                continue
            if n not in p.args and n != p.result and self.prog.lookup_proc(p, n):
                continue
            if 'pointer' in d.attrs or 'allocatable' in d.attrs or (d.type in ('type', 'class')):
                self.arrays.add(prefix + n)
            if d.dims is not None or (d.type in ('type', 'class', 'character')):
                self.arrays.add(prefix + n)
            self.tracked.add(prefix + n)

    def block(self, stmts):
        for s in stmts:
            if self.st.dead:
                return
            self.stmt(s)

    # ------------------------------------------------------------- lvalues
    def decl(self, name):
        r = self.prog.lookup_var(self.frame.proc, name)
        return r

    def basename(self, name):
        """(base, path, declscope, decl) of a local name."""
        f = self.frame
        if name in f.alias:
            return f.alias[name]
        if name in f.proc.decls or name in f.proc.args or name == f.proc.result:
            if name in f.proc.common:
                return ('common/' + f.proc.common[name] + '/' + name, ())
            return (f.prefix + name, ())
        if name in f.proc.common:
            return ('common/' + f.proc.common[name] + '/' + name, ())
        if f.proc.parent is not None and f.parent is not None:
            g = f.parent
            # internal procedure: host association
            h = g
            while h is not None and h.proc is not f.proc.parent:
                h = h.parent
            if h is not None and (name in h.proc.decls or name in h.alias):
                save, self.frame = self.frame, h
                try:
                    return self.basename(name)
                finally:
                    self.frame = save
        r = self.decl(name)
        if r is not None and isinstance(r[0], Module):
            return (f'{r[0].name}::{name}', ())
        return (f.prefix + name, ())

    def is_array_decl(self, name):
        r = self.decl(name)
        return r is not None and r[1].dims is not None

    def is_function(self, name):
        if name in self.frame.alias:
            return False
        r = self.decl(name)
        if r is not None and (r[1].dims is not None):
            return False
        if r is not None and 'external' not in r[1].attrs and name not in INTRINSICS:
            if self.prog.lookup_proc(self.frame.proc, name):
                return r[0] is not self.frame.proc
            return r[1].type != 'character'
        return True

    def location(self, e, stmt, evaluate=True):
        """Resolve a designator to (base, path) with evaluated subscripts."""
        k = e[0]
        if k == 'name':
            b = self.basename(e[1])
            if b[0] == 'expr':
                return b
            return b
        if k == 'mem':
            b, p = self.location(e[1], stmt)
            if b == 'expr':
                return ('expr', self.phi('mem'))
            return (b, p + (('mem', e[2]),))
        if k == 'ref':
            loc = self.location(e[1], stmt)
            if loc[0] == 'expr':
                return ('expr', self.phi('sub'))
            b, p = loc
            subs = []
            for a in e[2]:
                if a[0] == 'range':
                    subs.append(('range', self.ev(a[1], stmt) if a[1] else None,
                                 self.ev(a[2], stmt) if a[2] else None,
                                 self.ev(a[3], stmt) if a[3] else None))
                else:
                    subs.append(self.ev(a, stmt))
            name = e[1][1] if e[1][0] == 'name' else None
            return (b, self.compose(p, tuple(subs), name))
        return ('expr', self.phi('loc'))

    def compose(self, p, subs, name):
        """Apply subscripts to a path that may be an array section (dummy binding)."""
        if p and p[-1][0] == 'sect':
            # p[-1] = ('sect', template subs, lower bounds of the dummy)
            _, tmpl, lows = p[-1]
            free = [i for i, t in enumerate(tmpl) if isinstance(t, tuple) and t[0] == 'free']
            if len(free) == len(subs):
                out = list(tmpl)
                for j, i in enumerate(free):
                    t = tmpl[i]
                    s = subs[j]
                    shift = t[1] - lows[j] if lows[j] is not None and t[1] is not None else None
                    if isinstance(s, tuple):
                        out[i] = ('range', None if s[1] is None else (s[1] + shift if shift is not None else self.phi('sh')),
                                  None if s[2] is None else (s[2] + shift if shift is not None else self.phi('sh')), s[3])
                    else:
                        out[i] = s + shift if shift is not None else self.phi('shift')
                return p[:-1] + (('sub', tuple(out)),)
            return p[:-1] + (('sub', tuple(self.phi('reshape') for _ in subs)),)
        return p + (('sub', subs),)

    def loc_whole(self, path):
        """Normalise a path that still has an unapplied section."""
        out = []
        for x in path:
            if x[0] == 'sect':
                out.append(('sub', tuple(
                    ('range', t[1] if len(t) > 2 else None, t[2] if len(t) > 2 else None, None)
                    if isinstance(t, tuple) and t[0] == 'free' else t
                    for t in x[1])))
            else:
                out.append(x)
        return tuple(out)

    def is_scalar_path(self, base, path):
        return not any(x[0] in ('sub', 'sect') for x in path)

    def skey(self, base, path):
        return base + ''.join('%' + x[1] for x in path if x[0] == 'mem')

    # ------------------------------------------------------------- expressions
    def ev(self, e, stmt, quiet=False):
        """Value number of an expression; emits read events."""
        k = e[0]
        if k == 'num':
            return Poly.const(e[1])
        if k == 'log':
            return Poly.atom(('log', e[1]))
        if k == 'str':
            return Poly.atom(('str', e[1]))
        if k == 'un':
            v = self.ev(e[2], stmt, quiet)
            if e[1] == '-':
                return -v
            return self.negate(v)
        if k == 'bin':
            return self.binop(e, stmt, quiet)
        if k == 'name':
            return self.read_name(e, stmt, quiet)
        if k == 'mem':
            return self.read_loc(e, stmt, quiet)
        if k == 'ref':
            b = e[1]
            if b[0] == 'name' and self.is_function(b[1]):
                return self.funcall(e, stmt, quiet)
            return self.read_loc(e, stmt, quiet)
        if k == 'kw':
            return self.ev(e[2], stmt, quiet)
        if k in ('arr', 'cplx'):
            return Poly.atom((k,) + tuple(self.ev(x, stmt, quiet) for x in e[1]))
        if k == 'implied':
            vs = []
            for x in e[1]:
                if x[0] == 'kw':
                    self.ev(x[2], stmt, quiet)
                elif base_name(x) is None or True:
                    pass
            return self.phi('implied')
        if k == 'range':
            return Poly.atom(('range',) + tuple(
                self.ev(x, stmt, quiet) if x else None for x in e[1:4]))
        if k == 'star':
            return self.phi('star')
        return self.phi('expr')

    def negate(self, v):
        a = v.single_atom()
        if a and a[0] == 'rel':
            inv = {'<': '>=', '>=': '<', '==': '/=', '/=': '==', '<=': '>', '>': '<='}
            return Poly.atom(('rel', inv[a[1]], a[2]))
        if a and a[0] == 'not':
            return a[1]
        if a and a[0] == 'log':
            return Poly.atom(('log', not a[1]))
        if a and a[0] in ('and', 'or'):
            return Poly.atom(('or' if a[0] == 'and' else 'and',
                              frozenset(self.negate(x) for x in a[1])))
        return Poly.atom(('not', v))

    def etype(self, e):
        """'int', 'real' or None (unknown): declared type of an expression."""
        k = e[0]
        if k == 'num':
            return 'int' if isinstance(e[1], int) else 'real'
        if k == 'un':
            return self.etype(e[2])
        if k == 'bin':
            a, b = self.etype(e[2]), self.etype(e[3])
            if 'real' in (a, b):
                return 'real'
            return 'int' if a == b == 'int' else None
        if k in ('name', 'ref', 'mem'):
            x = e
            comp = None
            while x[0] in ('ref', 'mem'):
                if x[0] == 'mem' and comp is None:
                    comp = x[2]
                x = x[1]
            if x[0] != 'name':
                return None
            if x[1] in ('int', 'size', 'floor', 'nint', 'ceiling', 'count', 'lbound', 'ubound', 'mod', 'len') and not self.decl(x[1]):
                return 'int' if x[1] != 'mod' else self.etype(e[2][0])
            if x[1] in ('real', 'dble', 'sqrt', 'sin', 'cos', 'exp', 'log') and not self.decl(x[1]):
                return 'real'
            if x[1] in ('abs', 'min', 'max', 'sum') and not self.decl(x[1]) and k == 'ref':
                return self.etype(e[2][0])
            r = self.decl(x[1])
            if r is None:
                return None
            d = r[1]
            if comp is not None:
                if d.type in ('type', 'class'):
                    comps = self.prog.lookup_type(self.frame.proc, d.kind)
                    for c in comps or ():
                        if c.name == comp:
                            return {'integer': 'int', 'real': 'real'}.get(c.type)
                return None
            return {'integer': 'int', 'real': 'real', 'double precision': 'real'}.get(d.type)
        return None

    def binop(self, e, stmt, quiet):
        o = e[1]
        l = self.ev(e[2], stmt, quiet)
        if o in ('.and.', '.or.'):
            # the right operand is evaluated whatever the left one is (no short
            # circuit in Fortran): no fact from the left is usable in it
            r = self.ev(e[3], stmt, quiet)
            k = 'and' if o == '.and.' else 'or'
            items = set()
            for v in (l, r):
                a = v.single_atom()
                if a and a[0] == k:
                    items |= a[1]
                else:
                    items.add(v)
            if len(items) == 1:
                return next(iter(items))
            return Poly.atom((k, frozenset(items)))
        r = self.ev(e[3], stmt, quiet)
        if o == '+':
            return l + r
        if o == '-':
            return l - r
        if o == '*':
            return l * r
        if o == '/':
            tl, tr = self.etype(e[2]), self.etype(e[3])
            if tl == 'int' and tr == 'int':
                c1, c2 = l.const_value(), r.const_value()
                if c1 is not None and c2:
                    q = abs(c1) // abs(c2)
                    return Poly.const(q if (c1 >= 0) == (c2 > 0) else -q)
                return Poly.atom(('idiv', l, r))
            q = r.inv()
            return l * q if q is not None else Poly.atom(('div', l, r))
        if o == '**':
            c = r.const_value()
            if c is not None:
                q = l.pow(c)
                if q is not None:
                    return q
            return Poly.atom(('pow', l, r))
        if o in ('<', '<=', '>', '>=', '==', '/='):
            d = l - r
            c = d.const_value()
            if c is not None:
                v = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '/=': c != 0}[o]
                return Poly.atom(('log', bool(v)))
            return Poly.atom(('rel',) + norm_rel(o, d))
        if o in ('.eqv.', '.neqv.'):
            return Poly.atom((o, frozenset([l, r])))
        return Poly.atom((o, l, r))

    def read_name(self, e, stmt, quiet):
        n = e[1]
        b = self.basename(n)
        if b[0] == 'expr':
            return b[1]
        if n not in self.frame.alias and self.decl(n) is None and n in INTRINSICS:
            return Poly.atom(('fn', n))
        base, path = b
        if base not in self.st.env and n in INTRINSICS and self.decl(n) is None:
            return Poly.atom(('fn', n))
        return self.load(base, path, e, stmt, quiet)

    def read_loc(self, e, stmt, quiet):
        loc = self.location(e, stmt)
        if loc[0] == 'expr':
            return loc[1]
        return self.load(loc[0], loc[1], e, stmt, quiet)

    def load(self, base, path, e, stmt, quiet):
        path = self.loc_whole(path)
        if not quiet:
            self.emit('read', base=base, path=path, stmt=stmt, expr=e)
            self.check_def(base, path, stmt, e)
        d = None
        if self.is_scalar_path(base, path):
            k = self.skey(base, path)
            if k in self.st.env:
                return self.st.env[k]
            if base in self.st.env and path:
                return Poly.atom(('mem', self.st.env[base]) + tuple(x[1] for x in path))
            d = self.const_param(base)
            if d is not None:
                return d
            return Poly.atom(('sym', k, self.st.ver.get(base, 0)))
        return Poly.atom(('elem', base, path, self.st.ver.get(base, 0)))

    def const_param(self, base):
        if '::' in base:
            m, n = base.split('::', 1)
            mod = self.prog.modules.get(m)
            d = mod.decls.get(n) if mod else None
            if d is not None and 'parameter' in d.attrs and d.init and d.init[0] in ('num', 'un'):
                try:
                    save = self.frame
                    return self.ev(d.init, None, quiet=True)
                except Exception:
                    return None
        return None

    def check_def(self, base, path, stmt, e):
        if base in self.st.defd or base not in self.tracked:
            return
        if self.surely_defined(self.st, base):
            return
        self.undef.append((self.frame.proc, base, stmt, e, self.region, tuple(self.loops)))
        self.st.defd.add(base)   # report once per path

    def funcall(self, e, stmt, quiet):
        name = e[1][1]
        targets = self.prog.lookup_proc(self.frame.proc, name)
        targets = [t for t in targets if t.kind == 'function']
        if targets:
            t = self.pick(targets, e[2])
            if t is not None:
                return self.call_proc(t, list(e[2]), stmt, quiet)
            for a in e[2]:
                self.ev(a, stmt, quiet)
            return self.phi(name)
        if name in ('present', 'size', 'shape', 'lbound', 'ubound', 'kind', 'allocated', 'associated',
                    'huge', 'tiny', 'epsilon', 'len', 'c_loc', 'precision'):
            # inquiry functions: do not read the contents
            if name == 'size' and e[2] and e[2][0][0] == 'name':
                q = self.size_of(e[2][0][1], e[2][1] if len(e[2]) > 1 else None, stmt)
                if q is not None:
                    return q
            args = []
            for a in e[2]:
                if a[0] == 'kw':
                    a = a[2]
                if a[0] in ('name', 'ref', 'mem') and base_name(a) is not None and not (
                    a[0] == 'ref' and a[1][0] == 'name' and self.is_function(a[1][1])):
                    loc = self.location(a, stmt)
                    if loc[0] == 'expr':
                        args.append(loc[1])
                    else:
                        args.append(Poly.atom(('loc', loc[0], self.loc_whole(loc[1]))))
                        if name == 'present' and a[0] == 'name':
                            return Poly.atom(('present', loc[0])) if a[1] not in self.frame.absent else Poly.atom(('log', False))
                else:
                    args.append(self.ev(a, stmt, quiet))
            return Poly.atom(('fn', name) + tuple(args))
        args = [self.ev(a, stmt, quiet) for a in e[2]]
        if name in ('real', 'dble', 'int') and args:
            if name == 'int':
                if self.etype(e[2][0]) == 'int':
                    return args[0]
                return Poly.atom(('fn', 'int', args[0]))
            if name in ('real', 'dble'):
                return args[0]
        if name == 'sqrt' and args:
            q = args[0].pow(Fraction(1, 2))
            if q is not None:
                return q
        if name in ('sum', 'product') and len(args) == 1:
            return Poly.atom(('fn', name, args[0]))
        if name in ('min', 'max'):
            return Poly.atom(('fn', name, frozenset(args)))
        if name not in INTRINSICS:
            self.unknown_calls.append((self.frame.proc.name, name))
        return Poly.atom(('fn', name) + tuple(args))

    def size_of(self, name, dim, stmt):
        """Extent of an array whose bounds are known here; None otherwise."""
        al = self.frame.alias.get(name)
        d = self.decl(name)
        if al is not None and al[0] != 'expr' and al[1] and al[1][-1][0] == 'sect':
            free = [t for t in al[1][-1][1] if isinstance(t, tuple)]
            k = 0
            if dim is not None:
                if dim[0] != 'num' or not 1 <= dim[1] <= len(free):
                    return None
                k = dim[1] - 1
            elif len(free) != 1:
                return None
            t = free[k]
            if len(t) > 2 and t[1] is not None:
                return t[2] - t[1] + ONE
            return None
        if al is None and d is not None and d[1].dims:
            dims = d[1].dims
            if dim is not None:
                if dim[0] != 'num' or not 1 <= dim[1] <= len(dims):
                    return None
                dims = [dims[dim[1] - 1]]
            tot = ONE
            for lo, hi in dims:
                if lo is None or hi is None or hi[0] == 'star' or d[0] is not self.frame.proc:
                    return None
                l = self.ev(lo, stmt, quiet=True)
                h = self.ev(hi, stmt, quiet=True)
                tot = tot * (h - l + ONE)
            return tot
        return None

    def pick(self, targets, args):
        """Resolve a generic by argument count/keywords/ranks/types."""
        if len(targets) == 1:
            return targets[0]
        best = []
        for t in targets:
            pos = [a for a in args if a[0] != 'kw']
            kws = [a[1] for a in args if a[0] == 'kw']
            if len(pos) > len(t.args):
                continue
            names = t.args[:len(pos)] + kws
            if any(k not in t.args for k in kws):
                continue
            req = [a for a in t.args if 'optional' not in (t.decls[a].attrs if a in t.decls else [])]
            if any(r not in names for r in req):
                continue
            score, ok = 0, True
            for n, a in zip(names, pos + [x[2] for x in args if x[0] == 'kw']):
                d = t.decls.get(n)
                if d is None:
                    continue
                rk = self.rank(a)
                if rk is not None:
                    if rk != d.rank and 'elemental' not in t.prefix:
                        ok = False
                    else:
                        score += 1
                dt = self.dtype(a)
                if dt is not None:
                    if dt[0] != d.type or (dt[1] != d.kind):
                        ok = ok and not (dt[0] != d.type)
                    else:
                        score += 1
            if ok:
                best.append((score, t))
        if not best:
            return None
        best.sort(key=lambda x: -x[0])
        if len(best) > 1 and best[0][0] == best[1][0]:
            return None
        return best[0][1]

    def rank(self, a):
        if a[0] == 'name':
            if a[1] in self.frame.alias:
                return None
            r = self.decl(a[1])
            return r[1].rank if r else None
        if a[0] in ('num', 'log'):
            return 0
        if a[0] == 'ref' and a[1][0] == 'name':
            r = self.decl(a[1][1])
            if r is None or r[1].dims is None:
                return None
            return sum(1 for s in a[2] if s[0] == 'range')
        return None

    def dtype(self, a):
        n = None
        x = a
        while x[0] == 'ref':
            x = x[1]
        if x[0] == 'name':
            r = self.decl(x[1])
            if r:
                return (r[1].type, r[1].kind)
        return None

    # ------------------------------------------------------------- calls
    def call_proc(self, t, args, stmt, quiet=False):
        """Bind and inline a procedure of the repository."""
        bound = {}
        for i, a in enumerate(args):
            if a[0] == 'kw' and a[1] in t.args:
                bound[a[1]] = a[2]
            elif i < len(t.args):
                bound[t.args[i]] = a
        if not self.inline or self.depth >= MAXDEPTH or t in [f for f in self.active()] or self.has_gotos(t):
            return self.opaque_call(t, bound, stmt)
        self.ninst += 1
        fr = Frame(t, f'{t.name}#{self.ninst}.', self.frame)
        elemental = 'elemental' in t.prefix
        for n in t.args:
            d = t.decls.get(n)
            if n not in bound:
                fr.absent.add(n)
                continue
            a = bound[n]
            isloc = a[0] in ('name', 'mem') or (
                a[0] == 'ref' and not (a[1][0] == 'name' and self.is_function(a[1][1])))
            if a[0] == 'name' and a[1] not in self.frame.alias and self.decl(a[1]) is None and a[1] not in self.frame.proc.args:
                isloc = a[1] not in INTRINSICS
            if isloc:
                loc = self.location(a, stmt)
                if loc[0] == 'expr':
                    fr.alias[n] = loc
                    continue
                base, path = loc
                if d is not None and d.dims is not None:
                    path = self.section(base, path, a, d, t)
                fr.alias[n] = (base, path)
                # arguments that the callee assigns: treat as maybe defined by it
            else:
                fr.alias[n] = ('expr', self.ev(a, stmt, quiet))
        saved = self.frame, self.jumps, self.chain
        self.jumps = []
        self.frame = fr
        self.chain = self.chain + ((t.name, stmt.line if stmt is not None else 0),)
        self.depth += 1
        self.track(t, fr.prefix)
        if self.region is not None:
            self.region.inner_locals |= {fr.prefix + n for n in t.decls if n not in t.args
                                         and 'save' not in t.decls[n].attrs
                                         and (t.decls[n].init is None or 'parameter' in t.decls[n].attrs)}
            if t.result:
                self.region.inner_locals.add(fr.prefix + t.result)
        # locals of the callee
        for n, d in t.decls.items():
            if n in t.args:
                continue
            b = fr.prefix + n
            if d.init is not None or 'parameter' in d.attrs:
                self.st.defd.add(b)
                if 'parameter' in d.attrs and d.init and d.init[0] != 'ptrinit':
                    self.st.env[b] = self.ev(d.init, None, quiet=True)
        self.block(t.body)
        st = self.st
        for r in fr.rets:
            st = self.join(st, r) if not st.dead else r
        self.st = st
        # an output of the callee counts as defined here: that it is, is checked in
        # the callee itself
        for n in t.args:
            d = t.decls.get(n)
            if n in fr.alias and fr.alias[n][0] != 'expr' and d is not None and d.intent in ('out', 'inout'):
                self.st.defd.add(fr.alias[n][0])
        res = None
        if t.kind == 'function':
            k = fr.prefix + t.result
            if k in self.st.env:
                res = self.st.env[k]
            else:
                res = Poly.atom(('elem', k, (), self.st.ver.get(k, 0)))
        self.depth -= 1
        self.frame, self.jumps, self.chain = saved
        return res

    def has_gotos(self, t):
        return any(s.kind == 'goto' for s in walk(t.body))

    def active(self):
        f = self.frame
        while f is not None:
            yield f.proc
            f = f.parent

    def section(self, base, path, a, d, t):
        """Path of an array dummy bound to designator a, as a 'sect' template."""
        low = []
        for lo, hi in d.dims:
            low.append(None if lo is None else self.try_const(lo))
        low = [ONE if l is None else l for l in low]
        if path and path[-1][0] == 'sect':
            # dummy passed on whole
            _, tmpl, lows = path[-1]
            free = [x for x in tmpl if isinstance(x, tuple) and x[0] == 'free']
            if len(free) == d.rank:
                return path[:-1] + (('sect', tmpl, tuple(low)),)
            return path[:-1] + (('sect', tuple(('free', None) for _ in range(d.rank)), tuple([None] * d.rank)),)
        if path and path[-1][0] == 'sub' and any(isinstance(s, tuple) for s in path[-1][1]):
            tmpl = []
            for i, s in enumerate(path[-1][1]):
                if isinstance(s, tuple):
                    lo = s[1]
                    if lo is None:
                        lo = self.actual_low(a, i)
                    if s[3] is not None and s[3].const_value() != 1:
                        tmpl.append(('free', None))
                    elif s[1] is not None and s[2] is not None:
                        tmpl.append(('free', lo, s[2]))
                    else:
                        tmpl.append(('free', lo))
                else:
                    tmpl.append(s)
            nfree = sum(1 for x in tmpl if isinstance(x, tuple))
            if nfree == d.rank:
                return path[:-1] + (('sect', tuple(tmpl), tuple(low)),)
            return path[:-1] + (('sect', tuple(('free', None) for _ in range(d.rank)), tuple([None] * d.rank)),)
        if path and path[-1][0] == 'sub':
            # element passed to an array dummy: sequence association
            return path[:-1] + (('sect', tuple(('free', None) for _ in range(d.rank)), tuple([None] * d.rank)),)
        # whole array
        r = self.rank_of_name(a)
        tmpl = []
        for i in range(d.rank):
            tmpl.append(('free', self.actual_low(a, i)))
        if r is not None and r != d.rank:
            return path + (('sect', tuple(('free', None) for _ in range(d.rank)), tuple([None] * d.rank)),)
        return path + (('sect', tuple(tmpl), tuple(low)),)

    def rank_of_name(self, a):
        x = a
        while x[0] == 'ref':
            x = x[1]
        if x[0] == 'name':
            r = self.decl(x[1])
            if r:
                return r[1].rank
        return None

    def actual_low(self, a, i):
        x = a
        while x[0] == 'ref':
            x = x[1]
        if x[0] == 'name':
            r = self.decl(x[1])
            if r and r[1].dims and i < len(r[1].dims):
                lo = r[1].dims[i][0]
                if lo is None:
                    return ONE
                return self.try_const(lo)
        return ONE

    def try_const(self, e):
        if e[0] == 'num':
            return Poly.const(e[1])
        if e[0] == 'un' and e[2][0] == 'num':
            return Poly.const(-e[2][1])
        return None

    def opaque_call(self, t, bound, stmt):
        for n in t.args:
            if n not in bound:
                continue
            d = t.decls.get(n)
            a = bound[n]
            intent = d.intent if d else None
            isloc = a[0] in ('name', 'mem', 'ref') and not (
                a[0] == 'ref' and a[1][0] == 'name' and self.is_function(a[1][1]))
            if not isloc:
                self.ev(a, stmt)
                continue
            if intent != 'out':
                if intent in ('in', 'inout'):
                    self.ev(a, stmt)
            if intent in ('out', 'inout', None):
                self.store(a, self.phi(f'{t.name}.{n}'), stmt)
        return self.phi(t.name)

    # ------------------------------------------------------------- stores
    def store(self, lhs, value, stmt, rmw=False, opaque=False):
        loc = self.location(lhs, stmt)
        if loc[0] == 'expr':
            return
        base, path = loc
        path = self.loc_whole(path)
        self.emit('write', base=base, path=path, value=value, stmt=stmt, expr=lhs, rmw=rmw)
        self.st.defd.add(base)
        self.mark_written(base, path)
        if self.region is not None and base in self.region.pvars:
            self.region.written_private.add(base)
        if self.is_scalar_path(base, path):
            d = self.decl(lhs[1]) if lhs[0] == 'name' else None
            k = self.skey(base, path)
            isarr = d is not None and d[1].dims is not None and lhs[1] not in self.frame.alias
            if isarr:
                self.st.ver[base] = self.newver()
                self.st.env.pop(k, None)
            else:
                self.st.env[k] = value
                if path:
                    self.st.env.pop(base, None)
                else:
                    for kk in [x for x in self.st.env if x.startswith(base + '%')]:
                        del self.st.env[kk]
        else:
            self.st.ver[base] = self.newver()

    def mark_written(self, base, path):
        base += ''.join('%' + x[1] for x in path or () if x[0] == 'mem')
        self.st.w.add((base, None))
        active = {l.atom for l in self.loops}
        for p in path or ():
            if p[0] == 'sub':
                for x in p[1]:
                    for q in ([x] if isinstance(x, Poly) else
                              [y for y in x if isinstance(y, Poly)] if isinstance(x, tuple) else []):
                        for a in q.atoms():
                            if a in active:
                                self.st.w.add((base, a))
                                self.allw.append((base, a))

    def newver(self):
        self.nphi += 1
        return self.nphi

    # ------------------------------------------------------------- facts
    def assume(self, st, cond, truth):
        """Add the facts implied by cond == truth to state st."""
        v = cond if truth else self.negate(cond)
        a = v.single_atom()
        if a is None:
            return
        if a[0] == 'log':
            if a[1] is False:
                st.dead = True
            return
        if a[0] == 'and':
            for x in a[1]:
                self.assume(st, x, True)
            return
        st.facts = st.facts | {v}

    # ------------------------------------------------------------- statements
    def stmt(self, s):
        m = getattr(self, 's_' + s.kind, None)
        if m is None:
            return
        m(s)

    def s_assign(self, s):
        v = self.ev(s.rhs, s)
        # lhs whole array with scalar etc: value kept as is
        rmw = False
        self.store(s.lhs, v, s)

    def s_ptrassign(self, s):
        # pointer association: the pointer becomes another name
        rhs = s.rhs
        if s.lhs[0] == 'name':
            if rhs[0] in ('name', 'ref', 'mem') and not (rhs[0] == 'ref' and rhs[1][0] == 'name' and self.is_function(rhs[1][1])):
                loc = self.location(rhs, s)
            else:
                loc = ('expr', self.ev(rhs, s))
            self.emit('write', base=self.basename(s.lhs[1])[0], path=(), value=Poly.atom(('ptr', str(loc))),
                      stmt=s, expr=s.lhs, extra='pointer')
            self.st.defd.add(self.basename(s.lhs[1])[0])
        else:
            self.location(s.lhs, s)

    def s_call(self, s):
        name = s.func[1] if s.func[0] == 'name' else None
        if name == 'c_f_pointer' and len(s.args) >= 2:
            src = s.args[0]
            if src[0] == 'ref' and src[1] == ('name', 'c_loc') and len(src[2]) == 1:
                loc = self.location(src[2][0], s)
            elif src[0] in ('name', 'mem', 'ref'):
                loc = self.location(src, s)
            else:
                loc = ('expr', self.phi('cptr'))
            shp = None
            for a in s.args[2:]:
                shp = self.ev(a[2] if a[0] == 'kw' else a, s)
            ptr = s.args[1]
            if ptr[0] == 'name':
                b = self.basename(ptr[1])
                if b[0] != 'expr':
                    self.emit('write', base=b[0], path=(), value=Poly.atom(('cptr', str(loc[0]))), stmt=s,
                              expr=ptr, extra=('c_f_pointer', loc, shp))
                    self.st.defd.add(b[0])
                    self.st.ver[b[0]] = self.newver()
                    self.ptr[b[0]] = loc
            return
        targets = self.prog.lookup_proc(self.frame.proc, name) if name else []
        targets = [t for t in targets if t.kind == 'subroutine']
        t = self.pick(targets, s.args) if targets else None
        if t is not None:
            self.emit('call', base=t.name, path=(), stmt=s, expr=s.func, extra=t)
            self.call_proc(t, s.args, s)
            return
        if targets:
            self.unknown_calls.append((self.frame.proc.name, name))
        elif name not in INTRINSICS:
            self.unknown_calls.append((self.frame.proc.name, name))
        outs = {'random_number': [0], 'cpu_time': [0], 'system_clock': [0, 1, 2]}.get(name)
        for i, a in enumerate(s.args):
            if a[0] == 'kw':
                a = a[2]
            isloc = a[0] in ('name', 'mem', 'ref') and not (
                a[0] == 'ref' and a[1][0] == 'name' and self.is_function(a[1][1]))
            if isloc:
                loc = self.location(a, s)
                if loc[0] != 'expr':
                    if outs is None or i in outs:
                        self.emit('maywrite', base=loc[0], path=self.loc_whole(loc[1]), stmt=s, expr=a)
                        self.st.defd.add(loc[0])
                        self.st.env.pop(self.skey(*loc), None)
                        self.st.ver[loc[0]] = self.newver()
            else:
                self.ev(a, s)

    def s_if(self, s):
        st0 = self.st
        outs = []
        ndep = len(self.conds)
        for cond, body in s.branches:
            v = self.ev(cond, s)
            st_t = self.st.copy()
            self.assume(st_t, v, True)
            st_f = self.st.copy()
            self.assume(st_f, v, False)
            self.st = st_t
            self.conds.append(v)
            self.block(body)
            self.conds.pop()
            outs.append(self.st)
            self.st = st_f
            self.conds.append(self.negate(v))
            if st_f.dead:
                break
        if s.orelse is not None and not self.st.dead:
            self.block(s.orelse)
        outs.append(self.st)
        del self.conds[ndep:]
        self.st = self.join_all(outs)

    def s_select(self, s):
        v = self.ev(s.expr, s)
        outs = []
        st0 = self.st
        default = False
        seen = []
        for c, body in s.cases:
            self.st = st0.copy()
            conds = []
            if c is None:
                default = True
                for x in seen:
                    self.assume(self.st, x, False)
            else:
                for x in c:
                    if x[0] == 'range':
                        continue
                    d = v - self.ev(x, s)
                    conds.append(Poly.atom(('rel',) + norm_rel('==', d)) if d.const_value() is None
                                 else Poly.atom(('log', d.const_value() == 0)))
                rng = [x for x in c if x[0] == 'range']
                for x in rng:
                    cs = []
                    if x[1] is not None:
                        cs.append(Poly.atom(('rel',) + norm_rel('>=', v - self.ev(x[1], s))))
                    if x[2] is not None:
                        cs.append(Poly.atom(('rel',) + norm_rel('<=', v - self.ev(x[2], s))))
                    conds.append(cs[0] if len(cs) == 1 else Poly.atom(('and', frozenset(cs))))
                cond = conds[0] if len(conds) == 1 else Poly.atom(('or', frozenset(conds)))
                seen.append(cond)
                self.assume(self.st, cond, True)
            self.conds.append(seen[-1] if c is not None else Poly.atom(('default', id(s))))
            self.block(body)
            self.conds.pop()
            outs.append(self.st)
        if not default:
            st = st0.copy()
            for x in seen:
                self.assume(st, x, False)
            outs.append(st)
        self.st = self.join_all(outs)

    def s_where(self, s):
        for c, body in s.branches:
            if c is not None:
                self.ev(c, s)
            self.conds.append(Poly.atom(('where', id(s))))
            self.block(body)
            self.conds.pop()

    def s_forall(self, s):
        self.phi('forall')
        self.block(s.body)

    def s_associate(self, s):
        saved = {}
        for n, e in s.pairs:
            if e[0] in ('name', 'mem', 'ref') and not (e[0] == 'ref' and e[1][0] == 'name' and self.is_function(e[1][1])):
                loc = self.location(e, s)
            else:
                loc = ('expr', self.ev(e, s))
            saved[n] = self.frame.alias.get(n)
            self.frame.alias[n] = loc
        self.block(s.body)
        for n, o in saved.items():
            if o is None:
                self.frame.alias.pop(n, None)
            else:
                self.frame.alias[n] = o

    def s_block(self, s):
        saved = {}
        self.ninst += 1
        for n in s.decls:
            saved[n] = self.frame.alias.get(n)
            b = f'{self.frame.prefix}block{self.ninst}.{n}'
            self.frame.alias[n] = (b, ())
            if self.region is not None:
                self.region.pvars.add(b)
        self.block(s.body)
        for n, o in saved.items():
            if o is None:
                self.frame.alias.pop(n, None)
            else:
                self.frame.alias[n] = o

    def s_return(self, s):
        if self.depth == 0:
            self.returns.append(self.st.copy())
        else:
            self.frame.rets.append(self.st.copy())
        self.emit('return', stmt=s)
        self.st.dead = True

    def s_stop(self, s):
        self.st.dead = True

    def s_goto(self, s):
        self.st.facts = frozenset()

    def s_cycle(self, s):
        self.jump('cycle', s)

    def s_exit(self, s):
        self.jump('exit', s)

    def jump(self, kind, s):
        for j in reversed(self.jumps):
            if s.target is None or j['label'] == s.target:
                j[kind].append(self.st.copy())
                self.emit(kind, stmt=s, extra=j['loop'])
                break
        self.st.dead = True

    def s_allocate(self, s):
        for a in s.args:
            if a[0] == 'kw':
                continue
            b = base_name(a)
            if b:
                base, path = self.basename(b)
                if base != 'expr':
                    self.st.ver[base] = self.newver()
                    self.emit('alloc', base=base, path=(), stmt=s, expr=a)
                    if a[0] == 'ref':
                        for x in a[2]:
                            self.ev(x, s)
                    # contents undefined, but element tracking is not attempted
                    self.st.defd.add(base)

    def s_deallocate(self, s):
        pass

    def s_nullify(self, s):
        for a in s.args:
            b = base_name(a)
            if b:
                self.st.defd.add(self.basename(b)[0])

    def s_io(self, s):
        for a in s.ctl:
            x = a[2] if a[0] == 'kw' else a
            if a[0] == 'kw' and a[1] in ('iostat', 'iomsg', 'exist', 'opened', 'number', 'size', 'newunit', 'form', 'access'):
                if x[0] in ('name', 'ref'):
                    if s.io in ('inquire', 'open', 'read', 'write', 'close') and (a[1] in ('iostat', 'iomsg', 'newunit') or s.io == 'inquire'):
                        self.store(x, self.phi('io'), s)
                        continue
            if x[0] in ('star',):
                continue
            if s.io == 'write' and a is s.ctl[0] and x[0] in ('name', 'ref'):
                # internal write to a character variable, or a unit number
                r = self.decl(base_name(x)) if base_name(x) else None
                if r and r[1].type == 'character':
                    self.store(x, self.phi('io'), s)
                    continue
            try:
                self.ev(x, s)
            except Exception:
                pass
        for a in s.items:
            if s.io == 'read' and a[0] in ('name', 'ref', 'mem'):
                self.store(a, self.phi('io'), s)
            else:
                self.ev(a, s)

    # loops
    def assigned(self, body, frame=None):
        """Names (of the current frame) possibly assigned in body."""
        out = set()
        for s in walk(body):
            if s.kind in ('assign', 'ptrassign'):
                b = base_name(s.lhs)
                if b:
                    out.add(b)
            elif s.kind == 'do':
                out.add(s.var)
            elif s.kind == 'call':
                ts = self.prog.lookup_proc(self.frame.proc, s.func[1]) if s.func[0] == 'name' else []
                for i, a in enumerate(s.args):
                    nm = None
                    if a[0] == 'kw':
                        nm, a = a[1], a[2]
                    b = base_name(a) if a[0] in ('name', 'ref', 'mem') else None
                    if b:
                        ins = True
                        for t in ts:
                            dn = nm or (t.args[i] if i < len(t.args) else None)
                            d = t.decls.get(dn)
                            if d is None or d.intent != 'in':
                                ins = False
                        if not ts or not ins:
                            out.add(b)
            elif s.kind == 'io':
                for a in s.items if s.io == 'read' else []:
                    b = base_name(a)
                    if b:
                        out.add(b)
                for a in s.ctl:
                    x = a[2] if a[0] == 'kw' else a
                    if x[0] in ('name', 'ref') and base_name(x):
                        out.add(base_name(x))
            elif s.kind == 'allocate':
                for a in s.args:
                    if a[0] != 'kw' and base_name(a):
                        out.add(base_name(a))
        return out

    def havoc(self, names):
        for n in sorted(names):
            loc = self.basename(n)
            if loc[0] == 'expr':
                continue
            b, p = loc
            if not self.is_scalar_path(b, p):
                self.st.ver[b] = self.newver()
                continue
            k = self.skey(b, p)
            d = self.decl(n) if n not in self.frame.alias else None
            if d is not None and d[1].dims is not None:
                self.st.ver[b] = self.newver()
                self.st.env.pop(k, None)
                continue
            self.st.env[k] = self.phi(k)
            self.st.ver[b] = self.newver()
            for kk in [x for x in self.st.env if x.startswith(k + '%')]:
                del self.st.env[kk]

    def run_loop(self, s, body, enter, parallel=None, infinite=False, exit_fact=None):
        """Generic loop: havoc, run the body once, join exits."""
        names = self.assigned(body)
        entry = self.st.copy()
        self.havoc(names)
        enter()
        nw = len(self.allw)
        j = {'cycle': [], 'exit': [], 'label': s.label, 'loop': self.loops[-1] if self.loops else None}
        self.jumps.append(j)
        self.block(body)
        self.jumps.pop()
        ends = ([self.st] if not self.st.dead else []) + j['cycle']
        exits = j['exit']
        if self.loops:
            la = self.loops[-1].atom
            un = set(self.allw[nw:])
            for b, a in sorted(un, key=repr):
                b0 = b.split('%')[0]
                if a != la or (b, None) in entry.w or (b0, None) in entry.w:
                    continue
                lack = [x for x in ends if (b, a) not in x.w and (b0, a) not in x.w]
                if lack or exits:
                    self.partial.append((self.frame.proc, b, self.loops[-1], s, lack, exits))
        else:
            un = set()
        # definedness after the loop
        cands = list(exits)
        if not infinite:
            cands.append(entry)
        defd = None
        facts = None
        for c in cands:
            defd = set(c.defd) if defd is None else defd & c.defd
            facts = c.facts if facts is None else facts & c.facts
        st = entry.copy()
        if not cands:
            st.dead = True
            self.st = st
            return
        # an array filled element by element in the loop counts as defined: the
        # loop that reads it back has the same extent
        for e in ends + exits:
            defd |= {b for b in e.defd if b in self.arrays}
        st.w = set(entry.w)
        if ends or exits:
            st.w |= set.intersection(*[x.w for x in ends + exits])
        st.facts = facts
        self.st = st
        self.havoc(names)
        d2, _ = self.join_defs(cands, st)
        st.defd = defd

    def s_do(self, s, region=None, collapse=1):
        lo, hi = self.ev(s.lo, s), self.ev(s.hi, s)
        step = self.ev(s.step, s) if s.step else ONE
        self.nphi += 1
        loc = self.basename(s.var)
        vb = loc[0]
        atom = ('loop', f'{s.var}@{self.nphi}')
        loop = Loop(self.nphi, s.var, atom, lo, hi, step, s, parallel=region)
        if region is not None:
            region.ploops.append(loop)
            region.pvars.add(vb)
        elif self.region is not None:
            self.region.pvars.add(vb)     # sequential loop variables are predetermined private
        self.emit('loop', base=vb, path=(), stmt=s, extra=loop)
        self.st.defd.add(vb)
        self.loops.append(loop)

        def enter():
            self.st.env[vb] = Poly.atom(atom)
            self.st.defd.add(vb)
            c = (hi - lo).const_value()
            self.st.facts = self.st.facts | {
                Poly.atom(('rel',) + norm_rel('>=', Poly.atom(atom) - (lo if step == ONE else lo if step.const_value() and step.const_value() > 0 else hi)))}

        nonempty = (hi - lo).const_value() is not None and (hi - lo).const_value() >= 0 and step == ONE
        entry_defd = None
        if region is not None and collapse > 1 and len(s.body) == 1 and s.body[0].kind == 'do':
            inner = s.body[0]
            orig = self.s_do

            def body_run():
                self.s_do(inner, region=region, collapse=collapse - 1)
            names = self.assigned(s.body)
            entry = self.st.copy()
            self.havoc(names)
            enter()
            j = {'cycle': [], 'exit': [], 'label': s.label, 'loop': loop}
            self.jumps.append(j)
            body_run()
            self.jumps.pop()
            d = entry.defd
            self.st = entry
            self.havoc(names)
        else:
            self.run_loop(s, s.body, enter, infinite=nonempty and False)
        self.loops.pop()
        self.st.env[vb] = self.phi(s.var)
        self.st.defd.add(vb)

    def s_dowhile(self, s):
        self.nphi += 1
        loop = Loop(self.nphi, None, ('loop', f'while@{self.nphi}'), None, None, None, s)
        v0 = self.ev(s.cond, s, quiet=True)
        self.loops.append(loop)

        def enter():
            v = self.ev(s.cond, s)
            self.assume(self.st, v, True)
            self.st.dead = False

        self.run_loop(s, s.body, enter)
        self.loops.pop()

    def s_doforever(self, s):
        self.nphi += 1
        loop = Loop(self.nphi, None, ('loop', f'forever@{self.nphi}'), None, None, None, s)
        self.loops.append(loop)
        self.run_loop(s, s.body, lambda: None, infinite=True)
        self.loops.pop()

    def s_doconcurrent(self, s):
        self.block(s.body)

    # OpenMP
    def s_omp_parallel(self, s):
        outer = self.region
        if outer is not None:
            # nested parallelism: analysed as part of the outer region
            self.block_omp_inner(s)
            return
        r = Region(s, self.frame.proc)
        r.names = {}
        r.phi0 = self.nphi
        r.inner_locals = set()
        r.chain = self.chain
        for n in s.clauses['private'] | s.clauses['lastprivate']:
            b = self.basename(n)
            if b[0] != 'expr':
                r.pvars.add(b[0])
                r.names[b[0]] = n
        for n in s.clauses['firstprivate']:
            b = self.basename(n)
            if b[0] != 'expr':
                r.pvars.add(b[0])
                r.firstprivate.add(b[0])
                r.names[b[0]] = n
        self.add_reductions(r, s.clauses)
        r.lastprivate = {self.basename(n)[0] for n in s.clauses['lastprivate']}
        self.reduction_entry(r, s)
        self.regions.append(r)
        self.region = r
        before = self.st.copy()
        for b in r.pvars - r.firstprivate:
            self.st.defd.discard(b)
            self.st.env.pop(b, None)
        self.block(s.body)
        self.region = None
        # after the region private variables are undefined (unless lastprivate)
        for b in r.pvars:
            if b in r.lastprivate:
                continue
            loopvars = {self.basename(l.var)[0] for l in r.ploops if l.var}
            if b in r.firstprivate or b in before.defd:
                # the outer value is restored: unchanged by the region; reading it is
                # legal but a value computed inside is lost
                if b in before.env:
                    self.st.env[b] = before.env[b]
            if b not in before.defd or b in r.written_private:
                self.st.defd.discard(b)
                self.region_post.append((r, b))

    def add_reductions(self, r, clauses):
        for n, op in clauses['reduction'].items():
            b = self.basename(n)
            if b[0] != 'expr':
                r.reductions[b[0]] = op
                r.names[b[0]] = n

    def reduction_entry(self, r, s):
        # the value before the region takes part in the reduction
        for b, op in r.reductions.items():
            if b in self.tracked and b not in self.st.defd:
                self.undef.append((self.frame.proc, b, s, ('name', r.names[b]), None, tuple(self.loops)))
            self.st.defd.add(b)

    def block_omp_inner(self, s):
        self.block(s.body)

    def s_omp_do(self, s):
        r = self.region
        if s.loop is None or s.loop.kind != 'do' or r is None:
            if s.loop is not None:
                self.stmt(s.loop)
            return
        cl = s.clauses
        for n in cl['private'] | cl['firstprivate'] | cl['lastprivate']:
            b = self.basename(n)
            if b[0] != 'expr':
                r.pvars.add(b[0])
                r.names[b[0]] = n
                if n not in cl['firstprivate']:
                    self.st.defd.discard(b[0])
        self.add_reductions(r, cl)
        self.reduction_entry(r, s)
        col = 1
        for n, a in list(cl['other']) + list(r.clauses['other']):
            if n == 'collapse' and a:
                try:
                    col = int(a)
                except ValueError:
                    pass
        if r.ploops:
            # nested/orphaned second loop in the same region
            pass
        self.s_do(s.loop, region=r, collapse=col)

    def s_omp_atomic(self, s):
        old, self.prot = self.prot, ('atomic',)
        if s.stmt is not None:
            self.stmt(s.stmt)
        self.prot = old

    def s_omp_critical(self, s):
        old, self.prot = self.prot, ('critical', s.name)
        self.block(s.body)
        self.prot = old

    def s_omp_workshare(self, s):
        old, self.prot = self.prot, ('workshare',)
        self.block(s.body)
        self.prot = old

    def s_omp_other(self, s):
        old, self.prot = self.prot, ('critical', '<' + s.directive + '>')
        self.block(s.body)
        self.prot = old

    # ------------------------------------------------------------- joins
    def join(self, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        r = State()
        for k in sorted(set(a.env) | set(b.env)):
            va, vb = a.env.get(k), b.env.get(k)
            if va is not None and va == vb:
                r.env[k] = va
            elif va is None or vb is None:
                # defined on one side only
                base = k.split('%')[0]
                r.env[k] = self.phi(k)
            else:
                r.env[k] = self.phi(k)
        for k in set(a.ver) | set(b.ver):
            va, vb = a.ver.get(k, 0), b.ver.get(k, 0)
            r.ver[k] = va if va == vb else self.newver()
        r.facts = a.facts & b.facts
        r.facts = r.facts | self.or_facts(a.facts - r.facts, b.facts - r.facts)
        defd, anyd = self.join_defs([a, b], r)
        r.defd = defd | (anyd & self.arrays)
        r.w = a.w & b.w
        return r

    def or_facts(self, fa, fb):
        return frozenset()

    def surely_defined(self, st, base):
        if base in st.defd:
            return True
        return any(self.negate(f) in st.facts for f in st.uf.get(base, ()))

    def flag_facts(self, st, env):
        """Facts on the merged values of constants (flags) of state st."""
        out = set()
        for k, v in env.items():
            old = st.env.get(k)
            if old is None or old == v:
                continue
            a = v.single_atom()
            if a is None or a[0] != 'phi':
                continue
            c = old.const_value()
            b = old.single_atom()
            if b is not None and b[0] == 'log':
                out.add(v if b[1] else self.negate(v))
            elif c is not None:
                out.add(Poly.atom(('rel',) + norm_rel('==', v - old)))
        return out

    def join_defs(self, states, r):
        """Definedness of the merge r of states."""
        defd = set.intersection(*[set(s.defd) for s in states])
        anyd = set.union(*[set(s.defd) for s in states])
        uf = {}
        flags = [None] * len(states)
        for b in (anyd - defd) | set().union(*[set(s.uf) for s in states]):
            if b in defd or b not in self.tracked:
                continue
            fs = None
            for i, s in enumerate(states):
                if self.surely_defined(s, b):
                    continue
                if flags[i] is None:
                    flags[i] = self.flag_facts(s, r.env)
                f = set(s.facts) | set(s.uf.get(b, ())) | flags[i]
                fs = f if fs is None else fs & f
            if fs:
                uf[b] = frozenset(fs)
        r.uf = uf
        return defd, anyd

    def join_all(self, sts):
        r = sts[0]
        for s in sts[1:]:
            r = self.join(r, s)
        return r


def norm_rel(o, d):
    """Canonical (op, poly) for d op 0, with op in <, <=, ==, /= (sign folded)."""
    if o == '>':
        return ('<', -d)
    if o == '>=':
        # d >= 0
        return ('>=', d)
    if o == '<=':
        return ('>=', -d)
    if o in ('==', '/='):
        items = sorted(d.m.items(), key=lambda kv: repr(kv[0]))
        if items and items[0][1] < 0:
            d = -d
        return (o, d)
    return (o, d)
