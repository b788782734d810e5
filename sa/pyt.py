"""Hash-consed value terms with canonical forms (arithmetic, conditions, decision diagrams).

A term is what the value numbering of a Python function attaches to an expression.
Two expressions get the same term if they compute the same value up to the
identities built in here: ring identities over exact rationals, powers, parity of
the elementary functions, degree/radian conversion, boolean algebra (reduced
ordered decision diagrams over atomic conditions), orientation of comparisons,
sequence concatenation.
"""
from fractions import Fraction
from math import isqrt

LIMIT = 4000


class TooBig(Exception):
    pass


BUDGET = [1 << 60]        # elementary operations left


def spend(n):
    BUDGET[0] -= n
    if BUDGET[0] < 0:
        raise TooBig()


class T:
    __slots__ = ('op', 'a', 'id', '_syms', '_r', '_ch', '_if', '_at')
    table = {}
    count = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op, t.a, t._syms, t._r = op, a, None, None
        t._ch = t._if = t._at = None
        T.count += 1
        t.id = T.count
        T.table[k] = t
    return t


# ------------------------------------------------------------------ constants
TRUE = mk('const', 'bool', True)
FALSE = mk('const', 'bool', False)
NONE = mk('const', 'None', None)
ELL = mk('const', 'ellipsis', '...')
UNDEF = mk('undef')


def num(v):
    return mk('num', Fraction(v))


ZERO, ONE = num(0), num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is Ellipsis:
        return ELL
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', 'float', repr(v))
        return num(Fraction(repr(v)))
    if isinstance(v, str):
        return mk('str', v)
    return mk('const', type(v).__name__, repr(v))


def is_num(t):
    return t.op == 'num'


def glob(name):
    return mk('glob', name)


PI = glob('numpy.pi')


def opaque(why, *a):
    return mk('opaque', why, *a)


# ------------------------------------------------------------------ polynomials
def pdict(t):
    """{mono: coef}; mono = tuple of (atom, exponent)."""
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def from_dict(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=mono_key)))


def mono_key(mc):
    return tuple((a.id, e) for a, e in mc[0])


def mmul_mono(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # a power with a symbolic exponent: x**n * x**m
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


SEQ_ATTRS = {'shape', 'shapein', 'shapeout', 'block_shape', 'names', 'strides'}


def is_seq(t):
    if t.op in ('tuple', 'list', 'str', 'fstr', 'cat', 'rep', 'map'):
        return True
    if t.op == 'attr':
        return t.a[1] in SEQ_ATTRS
    if t.op == 'index':
        return is_seq(t.a[0]) and t.a[1].op == 'slice' or t.a[0].op == 'str'
    if t.op == 'call':
        f = t.a[0]
        return f.op == 'glob' and f.a[0] in ('builtins.tuple', 'builtins.list', 'builtins.str',
                                             'builtins.repr', 'builtins.sorted',
                                             'pyoperators.utils.tointtuple',
                                             'pyoperators.utils.strenum',
                                             'pyoperators.utils.strshape')
    if t.op == 'ite':
        return is_seq(t.a[1]) and is_seq(t.a[2])
    if t.op == 'mut':
        return is_seq(t.a[1])
    return False


def is_oper(t):
    """Looks like a linear operator: products do not commute."""
    if t.op == 'call':
        f = t.a[0]
        n = ''
        if f.op == 'glob':
            n = f.a[0].split('.')[-1]
        elif f.op in ('meth', 'attr'):
            n = f.a[1]
        return n.endswith('Operator') or 'operator' in n.lower() and not n.startswith('is')
    if t.op == 'attr':
        return t.a[1] in ('T', 'I', 'C', 'H') and is_oper(t.a[0]) or 'operator' in t.a[1].lower()
    if t.op == 'mmul':
        return True
    if t.op == 'poly':
        return any(is_oper(a) for m, c in t.a[0] for a, e in m)
    if t.op == 'ite':
        return is_oper(t.a[1]) or is_oper(t.a[2])
    return False


def seq_items(t):
    if t.op == 'cat':
        return t.a[0]
    return (t,)


STR_CALLS = {'builtins.str', 'builtins.repr', 'builtins.chr', 'builtins.format', 'builtins.hex',
             'builtins.ascii', 'pyoperators.utils.strenum', 'pyoperators.utils.strshape',
             'pyoperators.utils.misc.strenum', 'pyoperators.utils.misc.strshape',
             'pyoperators.utils.strplural', 'pyoperators.utils.misc.strplural', 'os.getcwd',
             'os.path.join', 'os.path.basename', 'os.path.dirname'}
STR_METHS = {'join', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'format', 'casefold', 'title',
             'capitalize', 'as_posix', 'zfill', 'ljust', 'rjust', 'tostring_'}


def is_str(t):
    """The value is known to be a character string."""
    if t.op in ('str', 'fstr'):
        return True
    if t.op == 'cat':
        return any(is_str(i) for i in t.a[0])
    if t.op == 'ite':
        return is_str(t.a[1]) and is_str(t.a[2])
    if t.op == 'index':
        return is_str(t.a[0])
    if t.op == 'call':
        f = t.a[0]
        if f.op == 'glob':
            return f.a[0] in STR_CALLS
        return f.op == 'meth' and f.a[1] in STR_METHS and (f.a[1] != 'format' or is_str(f.a[0]))
    if t.op == 'attr':
        return t.a[1] in ('__name__', '__doc__', '__module__')
    return False


def tostr(x):
    """str(x)"""
    if is_str(x):
        return x
    if x.op == 'num' and x.a[0].denominator == 1:
        return mk('str', str(x.a[0]))
    if x is NONE or x is TRUE or x is FALSE:
        return mk('str', str(x.a[1]))
    if x.op == 'ite' and not is_bool(x):
        return ite(x.a[0], tostr(x.a[1]), tostr(x.a[2]))
    return mk('fstr', x, '')


def cat(x, y):
    items = []
    parts = seq_items(x) + seq_items(y)
    if any(is_str(i) for i in parts) and not all(is_str(i) for i in parts):
        parts = tuple(j for i in parts for j in seq_items(tostr(i)))
    for i in parts:
        if items and items[-1].op == i.op and i.op in ('tuple', 'list'):
            items[-1] = mk(i.op, items[-1].a[0] + i.a[0])
        elif items and i.op == 'str' and items[-1].op == 'str':
            items[-1] = mk('str', items[-1].a[0] + i.a[0])
        elif i.op in ('tuple', 'list') and not i.a[0] and (items or True) and len(items) > 0:
            continue
        elif i.op == 'str' and not i.a[0] and items:
            continue
        else:
            items.append(i)
    if len(items) > 1 and items[0].op in ('tuple', 'list', 'str') and not items[0].a[0]:
        items = items[1:]
    if len(items) == 1:
        return items[0]
    return mk('cat', tuple(items))


def add(x, y):
    if is_seq(x) or is_seq(y):
        return cat(x, y)
    d = pdict(x)
    for m, c in pdict(y).items():
        d[m] = d.get(m, 0) + c
    return from_dict(d)


def neg(x):
    return from_dict({m: -c for m, c in pdict(x).items()})


def sub(x, y):
    if x is y and x.op not in ('opaque',):
        return ZERO
    return add(x, neg(y)) if not is_seq(x) else mk('binop', '-', x, y)


def mul(x, y):
    if is_seq(x) or is_seq(y):
        if is_seq(y) and not is_seq(x):
            x, y = y, x
        if is_num(y) and x.op in ('tuple', 'list') and y.a[0].denominator == 1 and \
                0 <= y.a[0] * len(x.a[0]) < 64:
            return mk(x.op, x.a[0] * int(y.a[0]))
        if x.op == 'str' and y.op == 'num' and len(x.a[0]) * y.a[0] < 200:
            return mk('str', x.a[0] * int(y.a[0]))
        return mk('rep', x, y)
    if is_oper(x) and is_oper(y) or (is_oper(x) or is_oper(y)) and not (is_num(x) or is_num(y)):
        fx = x.a[0] if x.op == 'mmul' else (x,)
        fy = y.a[0] if y.op == 'mmul' else (y,)
        return mk('mmul', fx + fy)
    dx, dy = pdict(x), pdict(y)
    if len(dx) * len(dy) > 200:
        return mk('binop', '*', *sorted((x, y)))
    spend(len(dx) * len(dy))
    d = {}
    for m1, c1 in dx.items():
        for m2, c2 in dy.items():
            m = mmul_mono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_dict(d)


def content(d):
    """Leading coefficient and monic version of a polynomial dict."""
    items = sorted(d.items(), key=mono_key)
    c = items[0][1]
    return c, {m: k / c for m, k in items}


def exact_root(fr, q):
    """fr ** q as Fraction if exact (q = p/2^k...)."""
    if fr < 0:
        return None
    n, d = fr.numerator, fr.denominator
    e = q.denominator
    if e == 2:
        a, b = isqrt(n), isqrt(d)
        if a * a == n and b * b == d:
            return Fraction(a, b) ** q.numerator
    return None


def power(x, y):
    if y.op != 'num':
        if x.op == 'num' and x.a[0] == 1:
            return ONE
        # (a b)**n = a**n b**n is used only for numbers: keep the base as a whole
        return mk('pow', x, y)
    e = y.a[0]
    if is_oper(x):
        return mk('pow', x, y)
    if e == 0:
        return ONE
    if e == 1:
        return x
    if x.op == 'num':
        v = x.a[0]
        if e.denominator == 1 and (v or e > 0) and abs(e) < 400:
            return num(v ** int(e))
        r = exact_root(v, e)
        if r is not None:
            return num(r)
        if v > 0 and e.denominator == 2:
            # pull out square factors
            n, d = v.numerator * v.denominator, v.denominator
            # v**(1/2) = sqrt(n)/d
            out, k = 1, 2
            while k * k <= n and k < 2000:
                while n % (k * k) == 0:
                    n //= k * k
                    out *= k
                k += 1
            if e.numerator == 1:
                return from_dict({((num(n), Fraction(1, 2)),): Fraction(out, d)})
            return power(power(x, num(Fraction(1, 2))), num(e.numerator))
        return from_dict({((x, e),): Fraction(1)})
    d = pdict(x)
    if len(d) == 1:
        (m, c), = d.items()
        out = power(num(c), y) if c != 1 else ONE
        for a, k in m:
            if e.denominator != 1 and k.denominator == 1 and k.numerator % 2 == 0:
                a = call('numpy.abs', a)
                for mm, cc in pdict(a).items():
                    pass
            out = mul(out, from_dict({((a, k * e),): Fraction(1)}))
        return out
    if e.denominator == 1 and 0 < e <= 3 and len(d) ** int(e) <= 40:
        out = x
        for _ in range(int(e) - 1):
            out = mul(out, x)
        return out
    c, dm = content(d)
    if e.denominator != 1 and c < 0:
        c, dm = -c, {m: -k for m, k in dm.items()}
    base = from_dict(dm)
    return mul(power(num(c), y), from_dict({((base, e),): Fraction(1)}))


def div(x, y):
    if is_oper(y) or is_oper(x) and not is_num(y):
        return mk('binop', '/', x, y)
    return mul(x, power(y, num(-1))) if not is_seq(x) else mk('binop', '/', x, y)


ODD = {'numpy.sin', 'numpy.tan', 'numpy.arcsin', 'numpy.arctan', 'numpy.sinh', 'numpy.tanh',
       'numpy.sinc_'}
EVEN = {'numpy.cos', 'numpy.abs', 'numpy.cosh', 'numpy.sinc'}


def leading_negative(t):
    d = pdict(t)
    if t.op == 'num':
        return t.a[0] < 0
    if not d:
        return False
    return min(d.items(), key=mono_key)[1] < 0


def call(f, *args, **kw):
    """Call of a named function on terms, with the built-in identities."""
    return call_t(glob(f), args, tuple(sorted(kw.items())))


def call_t(f, args, kw=()):
    args = tuple(args)
    if any(x.op == 'star' and x.a[0].op in ('cat', 'tuple', 'list') for x in args):
        # the parts of a sequence of arguments
        out = []
        for x in args:
            for y in (x.a[0].a[0] if x.op == 'star' and x.a[0].op == 'cat' else (x.a[0],) if x.op == 'star' else (None,)):
                if y is None:
                    out.append(x)
                elif y.op in ('tuple', 'list'):
                    out += y.a[0]
                else:
                    out.append(mk('star', y))
        args = tuple(out)
    if f.op == 'glob':
        n = f.a[0]
        if not kw and len(args) == 1:
            x = args[0]
            if n == 'builtins.len' and x.op in ('tuple', 'list') and not any(y.op == 'star' for y in x.a[0]):
                return num(len(x.a[0]))
            if n == 'builtins.len' and x.op == 'attr' and x.a[1] == 'shape':
                return mk('attr', x.a[0], 'ndim')
            if n in ODD and x.op != 'ite':
                if leading_negative(x):
                    return neg(call_t(f, (neg(x),)))
                if x is ZERO:
                    return ZERO
                if n == 'numpy.arctan' and x is ONE:
                    return mul(PI, num(Fraction(1, 4)))
            elif n in EVEN:
                if leading_negative(x):
                    x = neg(x)
                if n == 'numpy.abs' and x.op == 'num':
                    return num(abs(x.a[0]))
                if n == 'numpy.cos' and x is ZERO:
                    return ONE
                args = (x,)
            elif n == 'numpy.exp' and x is ZERO:
                return ONE
    elif f.op == 'meth' and f.a[1] in ('view', 'astype') and args and args[0].op == 'str' and args[0].a[0] in DTYPES:
        args = (glob(DTYPES[args[0].a[0]]),) + args[1:]
    if kw:
        kw = tuple((k, glob(DTYPES[v.a[0]]) if k == 'dtype' and v.op == 'str' and v.a[0] in DTYPES else v)
                   for k, v in kw)
    return mk('call', f, args, tuple(kw))


DTYPES = {'float': 'builtins.float', 'float64': 'builtins.float', 'f8': 'builtins.float', 'd': 'builtins.float',
          'int': 'builtins.int', 'bool': 'builtins.bool', '?': 'builtins.bool', 'i8': 'numpy.int64',
          'i4': 'numpy.int32', 'f4': 'numpy.float32', 'u1': 'numpy.uint8', 'i1': 'numpy.int8',
          'complex': 'builtins.complex'}
DTYPES.update({n: 'numpy.' + n for n in (
    'uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float16', 'float32',
    'complex64')})


# ------------------------------------------------------------------ conditions
INT_ATTRS = {'ndim', 'size', 'itemsize', 'nbytes', 'rank'}


def is_size(t):
    """A number of elements."""
    return t.op == 'attr' and t.a[1] in INT_ATTRS or (
        t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'builtins.len')


def is_commsize(t):
    """The number of processes of a communicator: at least one."""
    if t.op == 'attr' and t.a[1] == 'size':
        o = t.a[0]
        return o.op == 'attr' and o.a[1] in ('comm', 'commin', 'commout') or o.op == 'arg' and \
            o.a[0] in ('comm', 'commin', 'commout') or o.op == 'glob' and '.COMM_' in o.a[0]
    return False


def is_int(t):
    if t.op == 'num':
        return t.a[0].denominator == 1
    if t.op == 'attr':
        return t.a[1] in INT_ATTRS
    if t.op == 'call':
        f = t.a[0]
        return f.op == 'glob' and f.a[0] in ('builtins.len', 'builtins.int')
    if t.op == 'index':
        return t.a[0].op == 'attr' and t.a[0].a[1] in SEQ_ATTRS and t.a[1].op != 'slice' \
            and t.a[0].a[1] != 'names'
    if t.op == 'bv':
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(is_int(a) and e.denominator == 1 and e > 0
                                              for a, e in m) for m, c in t.a[0])
    return False


def is_bool(t):
    """Boolean-valued term (decision diagram with boolean leaves or an atom)."""
    if t is TRUE or t is FALSE:
        return True
    if t.op in ATOMS:
        return True
    if t.op == 'ite':
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return False


ATOMS = {'eq', 'eq0', 'pos', 'is', 'isinstance', 'in', 'truth', 'hasattr', 'exists', 'raises',
         'issubclass', 'callable'}

_ite = {}


def top_atom(*ts):
    best = None
    for t in ts:
        if t.op == 'ite' and (best is None or t.a[0].id < best.id):
            best = t.a[0]
        elif t.op in ATOMS and (best is None or t.id < best.id):
            best = t
    return best


def cof(t, atom, val):
    if t is atom:
        return TRUE if val else FALSE
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    hi, lo = imply(atom, hi, lo)
    if hi is lo:
        return hi
    if atom.op == 'is' and NONE in atom.a and not is_bool(hi):
        # None where the value is None
        x = atom.a[1] if atom.a[0] is NONE else atom.a[0]
        if x.op in ('arg', 'attr', 'call', 'index'):
            hi = leafmap(hi, x, {})
            if leafmap(lo, x, {}) is hi:
                return lo
    return mk('ite', atom, hi, lo)


def leafmap(t, x, memo):
    """The alternatives x of t replaced by None."""
    if t is x:
        return NONE
    if t.op != 'ite' or is_bool(t):
        return t
    r = memo.get(t)
    if r is None:
        r = memo[t] = node(t.a[0], leafmap(t.a[1], x, memo), leafmap(t.a[2], x, memo))
    return r


_supp = {}


def support(t):
    """Atoms of the diagram at the root of t."""
    if t.op != 'ite':
        return frozenset((t,)) if t.op in ATOMS and t.op != 'ite' else frozenset()
    r = _supp.get(t)
    if r is None:
        r = _supp[t] = support(t.a[1]) | support(t.a[2]) | {t.a[0]}
    return r


def imply(atom, hi, lo):
    """Simplify the branches by the atoms that the value of the atom decides."""
    if subject(atom) is None:
        return hi, lo
    k = subject(atom)
    if hi.op in ATOMS or hi.op == 'ite':
        lits = {}
        for x in support(hi):
            if x is not atom and subject(x) is k:
                v = implied(atom, True, x)
                if v is not None:
                    lits[x] = v
        if lits:
            hi = restrict(hi, lits)
    if lo.op in ATOMS or lo.op == 'ite':
        lits = {}
        for x in support(lo):
            if x is not atom and subject(x) is k:
                v = implied(atom, False, x)
                if v is not None:
                    lits[x] = v
        if lits:
            lo = restrict(lo, lits)
    return hi, lo


_subj = {}


def subject(at):
    """The value that an atomic condition is about (None: not analysed)."""
    r = _subj.get(at, at)
    if r is not at:
        return r
    r = None
    if at.op in ('eq', 'is'):
        x, y = at.a
        if constant(y) or at.op == 'is' and y.op == 'glob' and is_function(y.a[0]):
            r = x
        elif constant(x) or at.op == 'is' and x.op == 'glob' and is_function(x.a[0]):
            r = y
    elif at.op in ('isinstance', 'truth'):
        r = at.a[0]
    elif at.op in ('eq0', 'pos'):
        d, c = numpart(at)
        r = d
        # a single atom: also the subject of isinstance, is None
    _subj[at] = r
    return r


def numpart(at):
    """(d, (lo, lo_open, hi, hi_open)) such that the atom holds iff d is in the interval."""
    dd = pdict(at.a[0])
    c0 = dd.get((), Fraction(0))
    rest = {m: c for m, c in dd.items() if m}
    if not rest:
        return None, None
    lead = rest[min(rest, key=lambda m: mono_key((m, rest[m])))]
    d = from_dict({m: c / lead for m, c in rest.items()})
    v = -c0 / lead
    if at.op == 'eq0':
        return d, (v, False, v, False)
    if lead > 0:
        return d, (v, True, None, True)
    return d, (None, True, v, True)


def _inside(i, j):
    """Interval i included in j."""
    (a, ao, b, bo), (c, co, d, do) = i, j
    lo = c is None or (a is not None and (a > c or a == c and (ao or not co)))
    hi = d is None or (b is not None and (b < d or b == d and (bo or not do)))
    return lo and hi


def _apart(i, j):
    (a, ao, b, bo), (c, co, d, do) = i, j
    if b is not None and c is not None and (b < c or b == c and (bo or co)):
        return True
    return d is not None and a is not None and (d < a or d == a and (do or ao))


def _complement(i):
    a, ao, b, bo = i
    if a is None:
        return (b, not bo, None, True)
    if b is None:
        return (None, True, a, not ao)
    return None


CLASS_REL = [None]


def implied(at, val, x):
    """Value of the atom x when the atom at (same subject) has the value val, or None."""
    if at.op in ('eq0', 'pos') and x.op in ('eq0', 'pos'):
        i, j = numpart(at)[1], numpart(x)[1]
        if not val:
            i = _complement(i)
            if i is None:
                return None
        if _inside(i, j):
            return True
        if _apart(i, j):
            return False
        return None
    if not val:
        return None
    sub_ = subject(at)
    if at.op == x.op == 'is':
        o = [[y for y in z.a if y is not sub_] for z in (at, x)]
        if all(len(z) == 1 and z[0].op == 'glob' for z in o) and o[0] != o[1] and distinct(o[0][0].a[0], o[1][0].a[0]):
            return False
    if at.op in ('eq', 'is') and x.op in ('eq', 'is'):
        c1 = at.a[1] if at.a[0] is sub_ else at.a[0]
        c2 = x.a[1] if x.a[0] is sub_ else x.a[0]
        if c1 is c2:
            return True if at.op == 'is' else None
        if at.op == 'is' and c1 is NONE or x.op == 'is' and c2 is NONE or at.op == x.op == 'eq':
            return False
        return None
    for p, q in ((at, x), (x, at)):
        if p.op == 'is' and q.op in ('isinstance', 'truth') and (p is at or q.op == 'isinstance'):
            k = [c for c in p.a if c.op == 'const' and c is not NONE]
            if k and q.op == 'truth':
                return k[0] is not FALSE
            if k and q.a[1].op == 'glob' and q.a[1].a[0] not in (
                    'builtins.object', 'builtins.bool', 'builtins.int', 'types.EllipsisType') and \
                    not q.a[1].a[0].startswith('numbers.'):
                return False
    if at.op == 'is' and (at.a[0] is NONE or at.a[1] is NONE):
        if x.op == 'truth':
            return False
        if x.op == 'isinstance':
            return truth_const(x.a[1], NONE)
    if x.op == 'is' and (x.a[0] is NONE or x.a[1] is NONE):
        if at.op == 'truth':
            return False
        if at.op == 'isinstance':
            return False if truth_const(at.a[1], NONE) is False else None
    if at.op == 'eq' and x.op == 'isinstance' and CLASS_REL[0] is not None:
        c1 = at.a[1] if at.a[0] is sub_ else at.a[0]
        r = CLASS_REL[0]('inst', c1, x.a[1])
        return r
    if at.op == 'isinstance' and x.op == 'isinstance' and CLASS_REL[0] is not None:
        return CLASS_REL[0]('sub', at.a[1], x.a[1])
    return None


def truth_const(c, v):
    if c.op == 'glob' and c.a[0] not in ('types.NoneType', 'builtins.object'):
        return False
    return None


def ite(c, a, b):
    """c must be boolean (decision diagram)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    spend(1)
    # value leaves are only split on the diagram at their root
    ts = [c]
    for x in (a, b):
        if x.op == 'ite' or x.op in ATOMS:
            ts.append(x)
    at = top_atom(*ts)
    r = node(at, ite(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1)),
             ite(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0)))
    _ite[k] = r
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def truth(t):
    """Condition under which a value is true."""
    if is_bool(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == 'num':
        return TRUE if t.a[0] else FALSE
    if t.op == 'str':
        return TRUE if t.a[0] else FALSE
    if t.op in ('tuple', 'list', 'set'):
        return TRUE if t.a[0] else FALSE
    if t.op == 'dict':
        return TRUE if t.a[0] else FALSE
    if t.op == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] == 'builtins.bool' and len(t.a[1]) == 1:
        return truth(t.a[1][0])
    if is_int(t) or t.op == 'poly':
        return not_(eq(t, ZERO))
    d = t
    while d.op == 'del':
        d = d.a[0]
    if d.op == 'arg' and d.a[0] == '**kw':
        return not_(eq(call_t(glob('builtins.len'), (t,)), ZERO))
    return mk('truth', t)


def restrict(t, lits):
    """Cofactor of the diagram at the root of t by known literals."""
    if t.op == 'ite':
        if not any(at in lits for at in support(t)):
            return t
        return restrict_(t, lits, {})
    if t in lits and t.op in ATOMS:
        return TRUE if lits[t] else FALSE
    return t


def restrict_(t, lits, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        v = lits.get(t.a[0])
        if v is None:
            hi, lo = restrict_(t.a[1], lits, memo), restrict_(t.a[2], lits, memo)
            r = t if hi is t.a[1] and lo is t.a[2] else node(t.a[0], hi, lo)
        else:
            r = restrict_(t.a[1] if v else t.a[2], lits, memo)
        memo[t] = r
        return r
    if t in lits and t.op in ATOMS:
        return TRUE if lits[t] else FALSE
    return t


def literals(pc):
    """Literals implied by a condition."""
    out = {}
    while pc.op == 'ite':
        if pc.a[2] is FALSE:
            out[pc.a[0]] = True
            pc = pc.a[1]
        elif pc.a[1] is FALSE:
            out[pc.a[0]] = False
            pc = pc.a[2]
        else:
            # implied by both sides
            l1, l2 = literals(pc.a[1]), literals(pc.a[2])
            for k, v in l1.items():
                if l2.get(k) == v:
                    out[k] = v
            return out
    if pc.op in ATOMS:
        out[pc] = True
    return out


def lift2(f, x, y):
    return f(x, y)


def distinct(x, y):
    """Are they different objects of the libraries? (set by pymod)"""
    return False


def is_function(name):
    """Is it the name of a library function? (set by pymod)"""
    return False


def eq(x, y):
    if x is y and x.op != 'opaque':
        return TRUE
    if x.op == 'ite' and x.op != y.op and leaves_const(x):
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == 'ite' and leaves_const(y):
        return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
    cx, cy = constant(x), constant(y)
    if cx and cy:
        return FALSE       # different constants
    if x.op == 'glob' and is_function(x.a[0]) or y.op == 'glob' and is_function(y.a[0]):
        return is_(x, y)   # the functions are compared by identity
    for s, o in ((x, y), (y, x)):
        if s.op == 'fstr' and s.a[1] == '' and o.op == 'str' and o.a[0] in DTYPES and \
                s.a[0].op == 'call' and s.a[0].a[0] is glob('numpy.dtype'):
            return eq(s.a[0], glob(DTYPES[o.a[0]]))
    if is_bool(x) and is_bool(y):
        return ite(x, y, not_(y))
    numeric = x.op in ('num', 'poly') or y.op in ('num', 'poly') or is_int(x) or is_int(y)
    if numeric and not (is_seq(x) or is_seq(y)) and x.op not in ('str', 'const') and \
            y.op not in ('str', 'const'):
        d = pdict(sub(x, y))
        if not d:
            return TRUE
        if len(d) > 1:
            # multiply out the denominators: they are not zero
            dn = {}
            for m in d:
                for a, e in m:
                    if e < 0:
                        dn[a] = min(dn.get(a, 0), e)
            if dn:
                z = ZERO
                for m, c in d.items():
                    k = dict(m)
                    for a, e in dn.items():
                        k[a] = k.get(a, 0) - e
                    x = num(c)
                    for a, e in k.items():
                        x = mul(x, power(a, num(e)))
                    z = add(z, x)
                d = pdict(z)
                if not d:
                    return TRUE
        c, dm = content(d)
        if dm.get((), 0) and len(dm) > 1 and len({x > 0 for x in dm.values()}) == 1 and all(
                y.op == 'bv' or is_size(y) for m in dm for y, _ in m):
            return FALSE          # of the same sign
        return mk('eq0', from_dict(dm))
    # the empty sequence
    for s, o in ((x, y), (y, x)):
        if s.op in ('tuple',) and not s.a[0] and is_seq(o) and o.op == 'attr' and o.a[1] == 'shape':
            return eq(mk('attr', o.a[0], 'ndim'), ZERO)
        if s.op == 'tuple' and not s.a[0] and o.op in ('call', 'meth', 'arg', 'index', 'cat', 'map', 'attr'):
            return eq(call_t(glob('builtins.len'), (o,)), ZERO)
    if x.op == y.op == 'tuple' and not any(z.op == 'star' for z in x.a[0] + y.a[0]):
        if len(x.a[0]) != len(y.a[0]):
            return FALSE
        r = TRUE
        for s, o in reversed(list(zip(x.a[0], y.a[0]))):
            r = and_(eq(s, o), r)
        return r
    for s, o in ((x, y), (y, x)):
        # the last element as a sequence
        if s.op == 'tuple' and len(s.a[0]) == 1 and s.a[0][0].op != 'star' and o.op == 'index' and \
                o.a[1].op == 'slice' and o.a[1].a == (num(-1), NONE, NONE):
            return and_(not_(eq(call_t(glob('builtins.len'), (o.a[0],)), ZERO)), eq(index(o.a[0], num(-1)), s.a[0][0]))
    a, b = sorted((x, y))
    return mk('eq', a, b)


def leaves_const(t):
    if t.op == 'ite':
        return leaves_const(t.a[1]) and leaves_const(t.a[2])
    return constant(t)


def constant(t):
    if t.op in ('num', 'str', 'const'):
        return True
    if t.op in ('tuple', 'list'):
        return all(constant(x) for x in t.a[0])
    if t.op == 'glob':
        return t.a[0] in CONST_GLOBS
    return False


def constkey(k):
    if k.op == 'slice':
        return all(constant(x) for x in k.a)
    if k.op == 'tuple':
        return all(constkey(x) for x in k.a[0])
    return constant(k)


CONST_GLOBS = set()      # members of the enumerations


def pos(d):
    """d > 0"""
    if d.op == 'num':
        return TRUE if d.a[0] > 0 else FALSE
    dd = pdict(d)
    if is_int(d):
        from math import gcd
        # leading coefficient positive, d > 0 <=> not (1 - d > 0)
        items = sorted(((m, c) for m, c in dd.items() if m), key=mono_key)
        if items and items[0][1] < 0:
            return not_(pos_(sub(ONE, d)))
        return pos_(d)
    c, dm = content(dd)
    return mk('pos', from_dict({m: k if c > 0 else -k for m, k in dm.items()}))


def pos_(d):
    dd = pdict(d)
    if is_size(d):
        return not_(eq(d, ZERO))       # a size is not negative
    if len(dd) == 2 and dd.get(()) == -1:
        (m, c), = [x for x in dd.items() if x[0]]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and is_commsize(m[0][0]):
            return not_(eq(d, ZERO))
    if d.op == 'num':
        return TRUE if d.a[0] > 0 else FALSE
    return mk('pos', from_dict(dd))


def lt(x, y):
    if is_seq(x) or is_seq(y) or x.op in ('str', 'const') or y.op in ('str', 'const'):
        return mk('truth', mk('cmp', '<', x, y))
    return pos(sub(y, x))


def le(x, y):
    if is_seq(x) or is_seq(y) or x.op in ('str', 'const') or y.op in ('str', 'const'):
        return mk('truth', mk('cmp', '<=', x, y))
    return not_(pos(sub(x, y)))


PLAIN = [None]


def plain_call(a):
    """Call of a function of the package that returns neither None nor a similar constant."""
    return a.op == 'call' and a.a[0].op == 'glob' and PLAIN[0] is not None and \
        a.a[0].a[0].startswith('pysimulators.') and PLAIN[0](a.a[0].a[0])


NOT_NONE = {'num', 'poly', 'str', 'fstr', 'tuple', 'list', 'dict', 'set', 'cat', 'rep', 'map',
            'lambda', 'pow', 'store', 'mut', 'binop', 'slice', 'bv', 'mmul'}


def is_(x, y):
    if x is y:
        return TRUE
    if x.op == 'ite' and (constant(y) or leaves_const(x)):
        return ite(x.a[0], is_(x.a[1], y), is_(x.a[2], y))
    if y.op == 'ite' and (constant(x) or leaves_const(y)):
        return ite(y.a[0], is_(x, y.a[1]), is_(x, y.a[2]))
    for a, b in ((x, y), (y, x)):
        if b is NONE and a.op == 'call' and a.a[0].op == 'glob' and a.a[0].a[0] == 'builtins.getattr' and \
                a.a[1] and a.a[1][0].op == 'glob' and a.a[1][0].a[0].startswith('pysimulators._flib'):
            return FALSE
        if b is ELL and (a.op in NOT_NONE or a.op == 'const' or plain_call(a)):
            return FALSE
        if b is NONE or b is TRUE or b is FALSE:
            if a.op in NOT_NONE:
                return FALSE
            if a.op == 'call' and a.a[0].op == 'glob' and (
                    a.a[0].a[0].startswith('numpy.') and a.a[0].a[0].split('.')[-1] not in (
                        'copyto', 'place', 'put')):
                return FALSE
            if a.op == 'call' and a.a[0].op == 'glob' and a.a[0].a[0] in (
                    'builtins.len', 'builtins.tuple', 'builtins.list', 'builtins.dict',
                    'builtins.int', 'builtins.float', 'builtins.str', 'builtins.set'):
                return FALSE
            if a.op == 'const':
                return FALSE
            if plain_call(a):
                return FALSE
            if a.op == 'glob' and '.' in a.a[0]:
                return FALSE
    if x.op == 'glob' and x.a[0] in CONST_GLOBS or y.op == 'glob' and y.a[0] in CONST_GLOBS:
        return eq(x, y)
    a, b = sorted((x, y))
    return mk('is', a, b)


def is_kwargs(t):
    return t.op == 'arg' and t.a[0] == '**kw' or t.op == 'pv' and t.a[1] == 101


ARRAYS = {'numpy.' + n for n in ('array', 'asarray', 'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'arange')}


def index(b, k):
    if b.op == 'index' and b.a[0].op == 'call' and b.a[0].a[0].op == 'glob' and b.a[0].a[0].a[0] in ARRAYS and \
            b.a[1].op == 'num' and k.op == 'num':
        return index(b.a[0], mk('tuple', (b.a[1], k)))
    if k.op == 'str' and is_kwargs(b):
        return mk('kwval', b, k)       # the value given by the caller
    if b.op == 'map' and b.a[3] is TRUE and b.a[1].op == 'seq' and (
            k.op == 'bv' or k.op == 'num' and k.a[0] >= 0):
        lvl, body = b.a[2].a
        return subst(body, lambda t: k if t.op == 'bv' and t.a[0] == lvl else None)
    if b.op in ('tuple', 'list') and k.op == 'num' and k.a[0].denominator == 1:
        i = int(k.a[0])
        if -len(b.a[0]) <= i < len(b.a[0]):
            return b.a[0][i]
    if b.op in ('tuple', 'list') and k.op == 'slice' and all(
            x is NONE or x.op == 'num' for x in k.a):
        s = slice(*(None if x is NONE else int(x.a[0]) for x in k.a))
        return mk(b.op, b.a[0][s])
    if b.op == 'dict' and constant(k):
        for kk, v in reversed(b.a[0]):
            if kk is k:
                return v
            if not constant(kk):
                break
    if b.op == 'dict' and k.op != 'slice' and not constant(k) and 0 < len(b.a[0]) <= 12 and all(
            constant(kk) or kk.op == 'glob' and is_function(kk.a[0]) for kk, _ in b.a[0]):
        r = mk('index', dict_([]), k)          # KeyError
        for kk, v in b.a[0]:
            r = ite(eq(k, kk), v, r)
        return r
    if b.op == 'str' and k.op == 'num':
        try:
            return mk('str', b.a[0][int(k.a[0])])
        except IndexError:
            pass
    if b.op in ('store',):
        # read back
        base, kk, v = b.a
        if kk is k and k is not ELL:
            return v
        if kk is ELL and v.op in ('num',):
            return v
        if apart(k, kk):
            return index(base, k)
    if b.op == 'del' and apart(k, b.a[1]):
        return index(b.a[0], k)
    if b.op == 'call' and b.a[0].op == 'glob' and b.a[0].a[0] in ('builtins.list', 'builtins.tuple') and \
            len(b.a[1]) == 1 and k.op in ('num', 'bv') and (is_seq(b.a[1][0]) or b.a[1][0].op == 'map'):
        return index(b.a[1][0], k)
    if b.op == 'index' and b.a[1].op == 'slice' and k.op in ('num', 'bv'):
        # an element of a slice
        lo, hi, step = b.a[1].a
        lo = ZERO if lo is NONE else lo
        if (step is NONE or step is ONE) and lo.op == 'num' and lo.a[0] >= 0 and (
                k.op == 'num' and k.a[0] >= 0 and (hi is NONE or hi.op == 'num' and (
                    hi.a[0] < 0 or k.a[0] < hi.a[0] - lo.a[0])) or k.op == 'bv'):
            return index(b.a[0], add(lo, k))
    if b.op == 'index' and k is ELL:
        return b
    if k.op == 'slice' and k.a[2] is NONE and b.op == 'call' and b.a[0] is glob('numpy.cumsum') and not b.a[1] and \
            [x for x, _ in b.a[2]] == ['a'] and b.a[2][0][1].op == 'cat':
        # sums preceded by zero
        h, *t = b.a[2][0][1].a[0]
        if h is mk('list', (ZERO,)) and len(t) == 1 and t[0].op in ('map', 'call'):
            s = mk('call', b.a[0], (), (('a', t[0]),))
            if k.a[:2] == (NONE, num(-1)):
                return sub(s, t[0])
            if k.a[:2] == (ONE, NONE):
                return s
    if b.op == 'attr' and b.a[1] in ('real', 'imag') and k is not ELL:
        return mk('attr', index(b.a[0], k), b.a[1])
    if k is ELL and b.op not in ('glob',):
        return b
    if b.op == 'ite' and (b.a[1].op == 'store' or b.a[2].op == 'store' or
                          b.a[1].op in ('tuple', 'list', 'dict') or
                          b.a[2].op in ('tuple', 'list', 'dict') or
                          k.op == 'str' and 'del' in (b.a[1].op, b.a[2].op)):
        return ite(b.a[0], index(b.a[1], k), index(b.a[2], k))
    return mk('index', b, k)


def apart(k, kk):
    """The keys never designate common elements."""
    return k is not ELL and kk is not ELL and (
        constkey(k) and constkey(kk) and disjoint(k, kk) or is_str(k) and is_str(kk) and disjoint(k, kk))


def prefix(k):
    """Literal start of a string."""
    if k.op == 'cat':
        k = k.a[0][0]
    return k.a[0] if k.op == 'str' else ''


def isin(k, d):
    """k in d, d a dictionary or a container of unknown type."""
    if d.op == 'ite':
        return ite(d.a[0], isin(k, d.a[1]), isin(k, d.a[2]))
    if d.op in ('tuple', 'list', 'set') and len(d.a[0]) <= 30 and not any(x.op == 'star' for x in d.a[0]):
        r = FALSE
        for x in d.a[0]:
            r = or_(r, eq(k, x))
        return r
    if d.op == 'dict' and constant(k) and all(constant(x) for x, _ in d.a[0]):
        return TRUE if any(x is k for x, _ in d.a[0]) else FALSE
    if d.op == 'dict' and len(d.a[0]) <= 12:
        r = FALSE
        for x, _ in d.a[0]:
            r = or_(r, eq(k, x))
        return r
    if d.op == 'str' and len(d.a[0]) <= 12 and k.op == 'attr' and k.a[1] in ('kind', 'char', 'byteorder'):
        r = FALSE
        for x in d.a[0]:
            r = or_(r, eq(k, mk('str', x)))
        return r
    if d.op == 'store':
        if d.a[1] is k:
            return TRUE
        if apart(k, d.a[1]):
            return isin(k, d.a[0])
        if is_str(k) or is_str(d.a[1]):
            return or_(eq(k, d.a[1]), isin(k, d.a[0]))
    if d.op == 'del':
        if d.a[1] is k:
            return FALSE
        if apart(k, d.a[1]):
            return isin(k, d.a[0])
    return mk('in', k, d)


def delete(d, k):
    """Contents of d after del d[k] (unchanged if the key is not in the dictionary)."""
    if d.op == 'ite':
        return ite(d.a[0], delete(d.a[1], k), delete(d.a[2], k))
    if d.op == 'dict' and constant(k) and all(constant(x) for x, _ in d.a[0]):
        return dict_([x for x in d.a[0] if x[0] is not k])
    if d.op == 'store':
        if d.a[1] is k:
            return delete(d.a[0], k)
        if apart(k, d.a[1]):
            return store(delete(d.a[0], k), d.a[1], d.a[2])
    if d.op == 'del':
        if d.a[1] is k:
            return d
        if apart(k, d.a[1]) and skey(k) < skey(d.a[1]):
            return mk('del', delete(d.a[0], k), d.a[1])
    return mk('del', d, k)


def disjoint(k1, k2):
    if is_str(k1) and is_str(k2) and not (k1.op == k2.op == 'str'):
        # the keys of the headers are not case sensitive
        p, q = prefix(k1).upper(), prefix(k2).upper()
        n = min(len(p), len(q))
        if p[:n] != q[:n]:
            return True
        if k1.op == k2.op == 'cat' and p == q and len(k1.a[0]) == len(k2.a[0]) == 2:
            x, y = k1.a[0][1], k2.a[0][1]
            return x.op == y.op == 'str' and x is not y
        return False
    if {k1.op, k2.op} == {'num', 'str'}:
        return True
    if k1.op == 'num' and k2.op == 'num':
        return k1.a[0] != k2.a[0] and (k1.a[0] >= 0) == (k2.a[0] >= 0)
    if k1.op == 'str' and k2.op == 'str':
        return k1.a[0] != k2.a[0]
    if k1.op == 'tuple' and k2.op == 'tuple' and len(k1.a[0]) == len(k2.a[0]):
        for x, y in zip(k1.a[0], k2.a[0]):
            if x is ELL or y is ELL:
                # the dimensions before the ellipsis correspond; those after it also do from the end
                if x is not y:
                    return False
                continue
            if {x.op, y.op} <= {'num', 'slice'} and disjoint(x, y):
                return True
    if {k1.op, k2.op} == {'num', 'slice'}:
        n, s = (k1, k2) if k1.op == 'num' else (k2, k1)
        a, b, c = (x if x is NONE else x.a[0] if x.op == 'num' else '?' for x in s.a)
        n = n.a[0]
        if c is not NONE and (c == '?' or c <= 0):
            return False
        if n >= 0:
            return a not in (NONE, '?') and a > n
        return b not in (NONE, '?') and b < 0 and b <= n
    if k1.op == k2.op == 'slice':
        for x, y in ((k1, k2), (k2, k1)):
            b, a = x.a[1], y.a[0]
            if all(z.a[2] is NONE or z.a[2].op == 'num' and z.a[2].a[0] > 0 for z in (x, y)) and \
                    a.op == b.op == 'num' and (a.a[0] >= 0) == (b.a[0] >= 0) and b.a[0] <= a.a[0]:
                return True
    return False


def store(b, k, v):
    if k.op == 'slice' and all(x is NONE for x in k.a):
        k = ELL
    if b.op == 'store' and b.a[1] is k:
        b = b.a[0]
    if b.op == 'store' and apart(b.a[1], k) and skey(k) < skey(b.a[1]):
        return mk('store', store(b.a[0], k, v), b.a[1], b.a[2])
    if b.op == 'dict' and constant(k):
        items = [(kk, vv) for kk, vv in b.a[0] if kk is not k]
        if all(constant(kk) for kk, _ in items):
            return dict_(items + [(k, v)])
    if k is ELL and b.op == 'store':
        # a complete assignment hides the previous partial ones
        return store(b.a[0], k, v)
    if b.op == 'list' and k.op == 'num' and k.a[0].denominator == 1 and -len(b.a[0]) <= k.a[0] < len(b.a[0]):
        l = list(b.a[0])
        l[int(k.a[0])] = v
        return mk('list', tuple(l))
    return mk('store', b, k, v)


def skey(k):
    return repr(k)


def dict_(items):
    items = list(items)
    if all(constant(k) for k, _ in items):
        d = {}
        for k, v in items:
            d[k] = v
        items = sorted(d.items(), key=lambda kv: skey(kv[0]))
    return mk('dict', tuple(items))


ALIASES = {}
SHAPE_ATTRS = {'shape', 'ndim', 'size', 'dtype', 'itemsize', 'nbytes', 'strides'}


def attr(o, n):
    if o.op == 'obj':
        for k, v in o.a[1]:
            if k == n:
                return v
        return attr(o.a[0], n)
    if o.op == 'ite' and any(x.op in ('obj',) for x in (o.a[1], o.a[2])):
        return ite(o.a[0], attr(o.a[1], n), attr(o.a[2], n))
    if o.op == 'glob':
        return glob(o.a[0] + '.' + n)
    if n in SHAPE_ATTRS:
        # assignments to the elements leave the shape and the type of an array unchanged
        while True:
            if o.op in ('store', 'viewstore'):
                o = o.a[0]
            elif o.op == 'eff' and o.a[0].op == 'call' and isinstance(o.a[1], int) and o.a[1] < len(o.a[0].a[1]):
                o = o.a[0].a[1][o.a[1]]
            else:
                break
        if o.op == 'ite' and any(x.op in ('store', 'viewstore', 'eff') for x in (o.a[1], o.a[2])):
            return ite(o.a[0], attr(o.a[1], n), attr(o.a[2], n))
    return mk('attr', o, n)


# ------------------------------------------------------------------ traversal
def has_ite(t):
    """Is there a condition inside?"""
    if t._if is None:
        t._if = t.op == 'ite' or any(has_ite(x) for x in children(t))
    return t._if


def has_atom(t):
    """Is there an atomic condition inside?"""
    if t._at is None:
        t._at = t.op in ATOMS or any(has_atom(x) for x in children(t))
    return t._at


def children(t):
    if t._ch is None:
        t._ch = tuple(children_(t))
    return t._ch


def children_(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for x in t.a:
        rec(x)
    return out


def subst(t, f, memo=None):
    """Rebuild t with f(sub) replacing sub-terms (f returns None to descend)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    spend(1)
    n = f(t)
    if n is None:
        def rec(x):
            if isinstance(x, T):
                return subst(x, f, memo)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        if not t.a or all(not isinstance(x, (T, tuple)) for x in t.a):
            n = t
        else:
            a = tuple(rec(x) for x in t.a)
            n = t if a == t.a else rebuild(t.op, a)
    memo[t] = n
    return n


def done(e):
    """Condition under which an effect, a diagram with None for its absence, takes place."""
    if e.op == 'ite':
        return ite(e.a[0], done(e.a[1]), done(e.a[2]))
    return FALSE if e is NONE else TRUE


def both(x, y):
    """Diagram of two effects that exclude each other."""
    if x.op == 'ite' or y.op == 'ite':
        at = min((z.a[0] for z in (x, y) if z.op == 'ite'), key=lambda z: z.id)
        return node(at, both(cof(x, at, 1), cof(y, at, 1)), both(cof(x, at, 0), cof(y, at, 0)))
    return y if x is NONE else x


def effseq(l):
    """Effects in sequence, each with its condition."""
    out = []
    for e in l:
        if e is NONE:
            continue
        if out and and_(done(out[-1]), done(e)) is FALSE:
            out[-1] = both(out[-1], e)
        else:
            out.append(e)
    return mk('effs', tuple(out))


def rebuild(op, a):
    """Re-normalising constructor."""
    if op == 'poly':
        out = ZERO
        for m, c in a[0]:
            term = num(c)
            for at, e in m:
                term = mul(term, power(at, num(e)))
            out = add(out, term)
        return out
    if op == 'ite':
        return ite(truth(a[0]), a[1], a[2])
    if op == 'index':
        return index(*a)
    if op == 'attr':
        return attr(*a)
    if op == 'store':
        return store(*a)
    if op == 'call':
        return call_t(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'obj':
        # attributes set to what they are
        fs = tuple(f for f in a[1] if f[1] is not mk('attr', a[0], f[0]))
        return mk('obj', a[0], fs) if fs else a[0]
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'pos':
        return pos(a[0])
    if op == 'is':
        return is_(*a)
    if op == 'in':
        return isin(*a)
    if op == 'del':
        return delete(*a)
    if op == 'truth':
        return truth(a[0])
    if op == 'pow':
        return power(*a)
    if op == 'fn':
        return mk('fn', a[0], a[1], a[2], effseq(a[3]).a[0])
    if op == 'effs':
        return effseq(a[0])
    if op == 'cat':
        out = a[0][0]
        for x in a[0][1:]:
            out = cat(out, x)
        return out
    if op == 'dict':
        return dict_(a[0])
    if op == 'isinstance':
        from .pyeng import isinst
        return isinst(*a)
    return mk(op, *a)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def size(t):
    return sum(1 for _ in walk(t))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ------------------------------------------------------------------ lifting of conditions
def lift(t, budget):
    """Move all conditions to the root: decision diagram with condition-free leaves."""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if budget[0] <= 0:
            raise TooBig()
        budget[0] -= 1
        if x.op == 'ite':
            r = ite(x.a[0], rec(x.a[1]), rec(x.a[2]))
        elif x.op in ('fold', 'map', 'lambda', 'while', 'foreach', 'first', 'exists') or x.op in ATOMS:
            r = x
        else:
            ch = [rec(c) for c in children(x)]
            at = None
            for c in ch:
                if c.op == 'ite' and not is_bool(c):
                    at = c.a[0] if at is None or c.a[0].id < at.id else at
            if at is None:
                r = replace_children(x, ch)
            else:
                hi = rec(replace_children(x, [cofr(c, at, 1) for c in ch]))
                lo = rec(replace_children(x, [cofr(c, at, 0) for c in ch]))
                r = ite(at, hi, lo)
        memo[x] = r
        return r
    return rec(t)


def cofr(t, at, v):
    return restrict(t, {at: bool(v)}) if t.op == 'ite' else t


def replace_children(t, new):
    it = iter(new)

    def rec(x):
        if isinstance(x, T):
            return next(it)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    return rebuild(t.op, tuple(rec(x) for x in t.a))


# ------------------------------------------------------------------ display
def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._r is not None:
        return t._r
    r = _show(t)
    if len(r) > 4000:
        r = r[:4000] + '...'
    t._r = r
    return r


def _show(t):
    o, a = t.op, t.a
    if o == 'num':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'const':
        return str(a[1])
    if o == 'glob':
        return a[0].replace('builtins.', '')
    if o == 'arg':
        return a[0]
    if o == 'poly':
        def mono(m, c):
            s = '*'.join(show(x) if e == 1 else f'{show(x)}^{e}' for x, e in m)
            if not s:
                return str(c)
            return s if c == 1 else ('-' + s if c == -1 else f'{c}*{s}')
        return '(' + ' + '.join(mono(m, c) for m, c in a[0]) + ')'
    if o in ('tuple', 'list', 'set'):
        return {'tuple': '(', 'list': '[', 'set': '{'}[o] + ', '.join(map(show, a[0])) + \
            {'tuple': ')', 'list': ']', 'set': '}'}[o]
    if o == 'dict':
        return '{' + ', '.join(f'{show(k)}: {show(v)}' for k, v in a[0]) + '}'
    if o == 'attr':
        return f'{show(a[0])}.{a[1]}'
    if o == 'index':
        return f'{show(a[0])}[{show(a[1])}]'
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x) for x in a)
    if o == 'call':
        f = a[0]
        return f'{show(f)}(' + ', '.join([show(x) for x in a[1]] + [
            f'{k}={show(v)}' for k, v in a[2]]) + ')'
    if o == 'meth':
        return f'{show(a[0])}.{a[1]}'
    if o == 'ite':
        return f'({show(a[1])} if {show(a[0])} else {show(a[2])})'
    if o == 'store':
        return f'{show(a[0])}{{{show(a[1])} := {show(a[2])}}}'
    if o == 'eq':
        return f'{show(a[0])} == {show(a[1])}'
    if o == 'eq0':
        return f'{show(a[0])} == 0'
    if o == 'pos':
        return f'{show(a[0])} > 0'
    if o == 'is':
        return f'{show(a[0])} is {show(a[1])}'
    if o == 'truth':
        return f'bool({show(a[0])})'
    return f'{o}<' + ', '.join(
        show(x) if isinstance(x, T) else
        ('(' + ', '.join(show(y) if isinstance(y, T) else str(y) for y in x) + ')'
         if isinstance(x, tuple) else str(x)) for x in a) + '>'
