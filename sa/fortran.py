"""Fortran front end: template rendering, preprocessing, parsing to an AST.

Only the source text of /repo is read; nothing is compiled or executed except
the repository's own jinja2 rendering of ``*.f90.j2`` (done with the variable
header that the template itself declares).
"""
import os
import re
from pathlib import Path


# --------------------------------------------------------------------------
# rendering and preprocessing
# --------------------------------------------------------------------------
def render_template(path):
    from jinja2 import Environment, FileSystemLoader, StrictUndefined

    text = Path(path).read_text()
    variables = {}
    m = re.search(r'\{#\s*variables:\s*(.*?)\s*#\}', text)
    if m:
        for d in m.group(1).split(';'):
            if '=' in d:
                n, v = d.split('=', 1)
                variables[n.strip()] = [x.strip() for x in v.split(',')]
    n = min([len(v) for v in variables.values()], default=0)
    combos = [{k: v[i] for k, v in variables.items()} for i in range(n)] or [{}]
    env = Environment(
        loader=FileSystemLoader(str(Path(path).parent)),
        undefined=StrictUndefined,
        trim_blocks=True,
        lstrip_blocks=True,
    )
    env.filters['fortran_type_size'] = lambda kind: {
        'int8': '1', 'int16': '2', 'int32': '4', 'int64': '8',
        'real32': '4', 'real64': '8', 'real128': '16'}.get(kind, '?')
    # the templates are rendered as the build does; a marker per loop iteration
    # is not needed: findings are located by routine name
    return env.from_string(text).render(
        combinations=combos, PRECISION_REAL=8, GFORTRAN=True
    )


CPP = {'GFORTRAN': 1, 'PRECISION_REAL': 8}


def _cpp_eval(expr):
    e = re.sub(r'defined\s*\(\s*(\w+)\s*\)', lambda m: str(int(m.group(1) in CPP)), expr)
    e = e.replace('||', ' or ').replace('&&', ' and ').replace('!', ' not ')
    e = re.sub(r'\b([A-Za-z_]\w*)\b',
               lambda m: m.group(1) if m.group(1) in ('or', 'and', 'not')
               else str(CPP.get(m.group(1), 0)), e)
    if not re.fullmatch(r'[\d\s()=<>ornadt]*', e):
        return False
    try:
        return bool(eval(e, {'__builtins__': {}}))
    except Exception:
        return False


def preprocess(text):
    out = []
    stack = []  # (active, taken)
    for line in text.split('\n'):
        if line.startswith('#'):
            d = line[1:].strip()
            w = d.split(None, 1)
            k = w[0] if w else ''
            a = w[1] if len(w) > 1 else ''
            act = all(s[0] for s in stack)
            if k == 'ifdef':
                v = a.strip() in CPP
                stack.append([v, v])
            elif k == 'ifndef':
                v = a.strip() not in CPP
                stack.append([v, v])
            elif k == 'if':
                v = _cpp_eval(a)
                stack.append([v, v])
            elif k == 'elif' and stack:
                v = (not stack[-1][1]) and _cpp_eval(a)
                stack[-1] = [v, stack[-1][1] or v]
            elif k == 'else' and stack:
                stack[-1] = [not stack[-1][1], True]
            elif k == 'endif' and stack:
                stack.pop()
            out.append('')
            continue
        out.append(line if all(s[0] for s in stack) else '')
    return '\n'.join(out)


# --------------------------------------------------------------------------
# logical lines
# --------------------------------------------------------------------------
def _strip_comment(line):
    """Return (code, comment or None) honouring strings; lower-case the code."""
    q = None
    for i, c in enumerate(line):
        if q:
            if c == q:
                q = None
        elif c in '"\'':
            q = c
        elif c == '!':
            return line[:i], line[i:]
    return line, None


def _lower(code):
    out, q = [], None
    for c in code:
        if q:
            out.append(c)
            if c == q:
                q = None
        else:
            if c in '"\'':
                q = c
            out.append(c.lower())
    return ''.join(out)


def logical_lines(text):
    """Yield (kind, text, line) with kind in stmt, omp, f2py."""
    lines = text.split('\n')
    buf, bufline, bufkind = '', 0, None
    for no, raw in enumerate(lines, 1):
        s = raw.strip()
        if not s:
            continue
        low = s.lower()
        kind = 'stmt'
        if low.startswith('!$omp'):
            kind, s = 'omp', s[5:].strip()
            s = _strip_comment(s)[0].strip()
        elif low.startswith('!f2py'):
            kind, s = 'f2py', s[5:].strip()
        elif s.startswith('!'):
            continue
        else:
            s = _strip_comment(s)[0].strip()
        if not s:
            continue
        if bufkind is not None:
            if kind != bufkind:
                if kind == 'stmt' and bufkind == 'omp':
                    yield bufkind, _lower(buf), bufline
                    buf, bufkind = '', None
                else:
                    # e.g. a directive inside a continued statement
                    continue
        if bufkind is None:
            buf, bufline, bufkind = '', no, kind
        if s.startswith('&'):
            s = s[1:].lstrip()
        if s.endswith('&'):
            buf += ' ' + s[:-1].rstrip()
            continue
        buf = (buf + ' ' + s).strip()
        if kind == 'stmt':
            for part in _split_semicolon(buf):
                if part.strip():
                    yield 'stmt', _lower(part.strip()), bufline
        else:
            yield kind, _lower(buf), bufline
        buf, bufkind = '', None
    if bufkind is not None and buf:
        yield bufkind, _lower(buf), bufline


def _split_semicolon(s):
    out, q, cur = [], None, ''
    for c in s:
        if q:
            cur += c
            if c == q:
                q = None
        elif c in '"\'':
            q = c
            cur += c
        elif c == ';':
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


# --------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------
TOK = re.compile(r"""
    (?P<ws>\s+)
  | (?P<str>(?:\w+_)?(?:"(?:[^"]|"")*"|'(?:[^']|'')*'))
  | (?P<dot>\.(?:eqv|neqv|and|or|not|eq|ne|lt|le|gt|ge|true|false)\.(?:_\w+)?)
  | (?P<num>(?:\d+\.\d*(?![a-z])|\.\d+|\d+)(?:[ed][+-]?\d+)?(?:_\w+)?|\d+\.(?=[ed]\d)[ed][+-]?\d+(?:_\w+)?)
  | (?P<name>[a-z_]\w*)
  | (?P<op>\*\*|//|==|/=|<=|>=|=>|\(/|/\)|::|[-+*/()=<>,:%\[\]])
""", re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    toks, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            # number followed by dotted operator, e.g. "1.and."
            raise ParseError(f'cannot tokenize {s[i:i+20]!r} in {s!r}')
        k = m.lastgroup
        t = m.group()
        if k == 'num':
            # "1.eq." style
            m2 = re.match(r'(\d+)\.(eq|ne|lt|le|gt|ge|and|or)\.', s[i:])
            if m2:
                t = m2.group(1)
                toks.append(('num', t))
                i += len(t)
                continue
            m3 = re.match(r'(\d+\.?\d*|\.\d+)([ed][+-]?\d+)?(_\w+)?', s[i:])
            t = m3.group(0)
        if k != 'ws':
            toks.append((k, t))
        i += len(t)
    return toks


def num_value(t):
    t = re.sub(r'_\w+$', '', t)
    t = t.replace('d', 'e')
    try:
        return int(t)
    except ValueError:
        from fractions import Fraction
        return Fraction(t if not t.endswith('.') else t + '0')


class ExprParser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('op', 'dot', 'name'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError(f'expected {v!r}, got {self.peek()} in {self.t}')

    # precedence climbing
    def expr(self):
        return self.eqv()

    def eqv(self):
        l = self.orx()
        while self.peek()[1] in ('.eqv.', '.neqv.'):
            o = self.next()[1]
            l = ('bin', o, l, self.orx())
        return l

    def orx(self):
        l = self.andx()
        while self.accept('.or.'):
            l = ('bin', '.or.', l, self.andx())
        return l

    def andx(self):
        l = self.notx()
        while self.accept('.and.'):
            l = ('bin', '.and.', l, self.notx())
        return l

    def notx(self):
        if self.accept('.not.'):
            return ('un', '.not.', self.notx())
        return self.rel()

    REL = {'==': '==', '/=': '/=', '<': '<', '<=': '<=', '>': '>', '>=': '>=',
           '.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>',
           '.ge.': '>='}

    def rel(self):
        l = self.cat()
        while self.peek()[1] in self.REL and self.peek()[0] != 'str':
            o = self.REL[self.next()[1]]
            l = ('bin', o, l, self.cat())
        return l

    def cat(self):
        l = self.add()
        while self.accept('//'):
            l = ('bin', '//', l, self.add())
        return l

    def add(self):
        if self.peek()[1] in ('+', '-') and self.peek()[0] == 'op':
            o = self.next()[1]
            l = self.mul()
            if o == '-':
                l = ('un', '-', l)
        else:
            l = self.mul()
        while self.peek()[1] in ('+', '-') and self.peek()[0] == 'op':
            o = self.next()[1]
            l = ('bin', o, l, self.mul())
        return l

    def mul(self):
        l = self.pow()
        while self.peek()[1] in ('*', '/') and self.peek()[0] == 'op':
            o = self.next()[1]
            l = ('bin', o, l, self.pow())
        return l

    def pow(self):
        if self.peek()[1] in ('+', '-') and self.peek()[0] == 'op':
            o = self.next()[1]
            e = self.pow()
            return ('un', '-', e) if o == '-' else e
        l = self.primary()
        if self.accept('**'):
            r = self.pow()
            return ('bin', '**', l, r)
        return l

    def arglist(self, close):
        args = []
        if self.accept(close):
            return args
        while True:
            args.append(self.arg())
            if self.accept(','):
                continue
            self.expect(close)
            return args

    def arg(self):
        # keyword, range or expr
        if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
            n = self.next()[1]
            self.next()
            return ('kw', n, self.arg())
        lo = None
        if self.peek() == ('op', ':'):
            pass
        elif self.peek() == ('op', '::'):
            self.next()
            st = self.expr()
            return ('range', None, None, st)
        elif self.peek() == ('op', '*') and self.peek(1)[1] in (',', ')'):
            self.next()
            return ('star',)
        else:
            lo = self.expr()
        if self.peek() == ('op', '::'):
            self.next()
            return ('range', lo, None, self.expr())
        if self.accept(':'):
            hi = st = None
            if self.peek()[1] not in (',', ')', ':', '/)', ']'):
                hi = self.expr()
                if hi is None:
                    raise ParseError('bad range')
            if self.accept(':'):
                st = self.expr()
            return ('range', lo, hi, st)
        return lo

    def primary(self):
        k, t = self.next()
        if k == 'num':
            e = ('num', num_value(t), t)
        elif k == 'str':
            e = ('str', t)
        elif k == 'dot' and t.startswith('.true.'):
            e = ('log', True)
        elif k == 'dot' and t.startswith('.false.'):
            e = ('log', False)
        elif t in ('[', '(/'):
            close = ']' if t == '[' else '/)'
            items = []
            # optional type-spec  real(p) ::
            save = self.i
            try:
                self.primary()
                if not self.accept('::'):
                    self.i = save
            except ParseError:
                self.i = save
            if not self.accept(close):
                while True:
                    items.append(self.arg())
                    if self.accept(','):
                        continue
                    self.expect(close)
                    break
            e = ('arr', tuple(items))
        elif t == '(':
            first = self.expr()
            if self.accept(','):
                items = [first]
                while True:
                    items.append(self.arg())
                    if self.accept(','):
                        continue
                    self.expect(')')
                    break
                # implied do or complex literal
                if len(items) >= 2 and any(
                    isinstance(x, tuple) and x[0] == 'kw' for x in items):
                    e = ('implied', tuple(items))
                else:
                    e = ('cplx', tuple(items))
            else:
                self.expect(')')
                e = ('par', first)
        elif k == 'name':
            e = ('name', t)
        else:
            raise ParseError(f'unexpected {t!r} in {self.t}')
        while True:
            if self.peek() == ('op', '('):
                self.next()
                e = ('ref', e, tuple(self.arglist(')')))
            elif self.peek() == ('op', '%'):
                self.next()
                e = ('mem', e, self.next()[1])
            else:
                break
        return strip_par(e)


def strip_par(e):
    return e[1] if e[0] == 'par' else e


def parse_expr(s):
    p = ExprParser(tokenize(s))
    e = p.expr()
    if p.i != len(p.t):
        raise ParseError(f'trailing tokens in {s!r}')
    return e


def show(e):
    """Readable rendering of an expression."""
    if e is None:
        return ''
    k = e[0]
    if k == 'num':
        return str(e[2]) if len(e) > 2 else str(e[1])
    if k == 'str':
        return e[1]
    if k == 'log':
        return '.true.' if e[1] else '.false.'
    if k == 'name':
        return e[1]
    if k == 'ref':
        return show(e[1]) + '(' + ','.join(show(a) for a in e[2]) + ')'
    if k == 'mem':
        return show(e[1]) + '%' + e[2]
    if k == 'bin':
        return f'({show(e[2])} {e[1]} {show(e[3])})'
    if k == 'un':
        return f'({e[1]}{show(e[2])})'
    if k == 'range':
        return f'{show(e[1])}:{show(e[2])}' + (':' + show(e[3]) if e[3] else '')
    if k == 'kw':
        return f'{e[1]}={show(e[2])}'
    if k in ('arr', 'cplx', 'implied'):
        return '[' + ','.join(show(a) for a in e[1]) + ']'
    if k == 'star':
        return '*'
    return str(e)


def subexprs(e):
    """All sub-expressions, including e."""
    if not isinstance(e, tuple) or not e:
        return
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in (
                'num', 'str', 'log', 'name', 'ref', 'mem', 'bin', 'un', 'range',
                'kw', 'arr', 'cplx', 'implied', 'star', 'par'):
                yield from subexprs(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from subexprs(y)


def base_name(e):
    while e[0] in ('ref', 'mem'):
        e = e[1]
    return e[1] if e[0] == 'name' else None


# --------------------------------------------------------------------------
# statements
# --------------------------------------------------------------------------
class S:
    """Statement node: kind + attributes."""

    def __init__(self, kind, line, **kw):
        self.kind = kind
        self.line = line
        self.label = None
        self.__dict__.update(kw)

    def __repr__(self):
        return f'<{self.kind} L{self.line}>'

    def blocks(self):
        """Child statement lists."""
        k = self.kind
        if k in ('do', 'dowhile', 'doforever', 'doconcurrent', 'associate',
                 'block', 'omp_parallel', 'omp_critical', 'omp_workshare',
                 'omp_other'):
            return [self.body]
        if k == 'if':
            return [b for _, b in self.branches] + ([self.orelse] if self.orelse else [])
        if k in ('select',):
            return [b for _, b in self.cases]
        if k == 'where':
            return [b for _, b in self.branches]
        if k == 'forall':
            return [self.body]
        if k in ('omp_do',):
            return [[self.loop]]
        if k == 'omp_atomic':
            return [[self.stmt]]
        return []


def walk(stmts):
    for s in stmts:
        yield s
        for b in s.blocks():
            yield from walk(b)


class Decl:
    def __init__(self, name, type_, kind, dims, attrs, intent, init, line):
        self.name, self.type, self.kind = name, type_, kind
        self.dims, self.attrs, self.intent = dims, attrs, intent
        self.init, self.line = init, line

    @property
    def rank(self):
        return len(self.dims) if self.dims else 0

    def __repr__(self):
        return f'<{self.type}({self.kind}) {self.name}{self.dims or ""} {self.intent or ""}>'


class Proc:
    def __init__(self, name, kind, args, module, line, prefix='', result=None):
        self.name, self.kind, self.args = name, kind, args
        self.module, self.line, self.prefix = module, line, prefix
        self.result = result
        self.decls = {}
        self.body = []
        self.f2py = []
        self.uses = []
        self.types = {}
        self.inner = {}
        self.common = {}
        self.parent = None
        self.file = module.file if module else None

    @property
    def threadsafe(self):
        return any(re.match(r'threadsafe\b', t) for t, _ in self.f2py)

    def __repr__(self):
        return f'<{self.kind} {self.module.name}.{self.name}>'


class Module:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.procs = {}
        self.decls = {}
        self.types = {}
        self.uses = []
        self.interfaces = {}
        self.access = {}
        self.default_private = False
        self.threadprivate = set()
        self.common = {}
        self.errors = []


TYPE_RE = re.compile(
    r'^(integer|real|logical|complex|character|double\s+precision|type|class)\b')


def split_commas(s):
    out, depth, cur, q = [], 0, '', None
    for c in s:
        if q:
            cur += c
            if c == q:
                q = None
            continue
        if c in '"\'':
            q = c
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def _balanced(s, i):
    """s[i] == '('; index just after the matching ')'."""
    d = 0
    while i < len(s):
        if s[i] == '(':
            d += 1
        elif s[i] == ')':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ParseError('unbalanced ' + s)


def parse_decl(text, line):
    """Parse a type declaration statement; None if it is not one."""
    m = TYPE_RE.match(text)
    if not m:
        return None
    t = re.sub(r'\s+', ' ', m.group(1))
    rest = text[m.end():].lstrip()
    kind = None
    if rest.startswith('('):
        j = _balanced(rest, 0)
        kind = rest[1:j - 1].strip()
        rest = rest[j:].lstrip()
    elif rest.startswith('*'):
        m2 = re.match(r'\*\s*(\d+|\(.*?\))', rest)
        kind = m2.group(1)
        rest = rest[m2.end():].lstrip()
    if t in ('type', 'class') and kind is None:
        return None
    if re.match(r'(recursive|pure|elemental)?\s*function\b', rest):
        return None
    attrs, dims0, intent = [], None, None
    if '::' in rest:
        # find top-level '::'
        depth = 0
        for i in range(len(rest) - 1):
            if rest[i] in '([':
                depth += 1
            elif rest[i] in ')]':
                depth -= 1
            elif rest[i:i + 2] == '::' and depth == 0:
                break
        else:
            i = None
        if i is not None:
            a, rest = rest[:i], rest[i + 2:]
            for at in split_commas(a.lstrip(', ')):
                at = at.strip()
                if at.startswith('dimension'):
                    dims0 = at[at.index('(') + 1:_balanced(at, at.index('(')) - 1]
                elif at.startswith('intent'):
                    intent = at[at.index('(') + 1:at.rindex(')')].replace(' ', '')
                elif at:
                    attrs.append(at)
    elif rest.startswith(','):
        return None
    decls = []
    for ent in split_commas(rest):
        m = re.match(r'([a-z_]\w*)', ent)
        if not m:
            return None
        name = m.group(1)
        r = ent[m.end():].lstrip()
        dims = dims0
        if r.startswith('('):
            j = _balanced(r, 0)
            dims = r[1:j - 1]
            r = r[j:].lstrip()
        if r.startswith('*'):
            m2 = re.match(r'\*\s*(\d+|\(.*?\))', r)
            r = r[m2.end():].lstrip() if m2 else ''
        init = None
        if r.startswith('=>'):
            init = ('ptrinit', r[2:].strip())
        elif r.startswith('='):
            try:
                init = parse_expr(r[1:].strip())
            except ParseError:
                init = ('str', r[1:].strip())
        elif r:
            return None
        dl = None
        if dims is not None:
            dl = []
            for d in split_commas(dims):
                dl.append(parse_dim(d))
        decls.append(Decl(name, t, kind, dl, list(attrs), intent, init, line))
    return decls


def parse_dim(d):
    """-> (lo, hi) expressions; ':' -> (None, None); '*' -> hi ('star',)."""
    d = d.strip()
    if d == ':':
        return (None, None)
    if d == '*':
        return (('num', 1, '1'), ('star',))
    depth = 0
    for i, c in enumerate(d):
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        elif c == ':' and depth == 0:
            lo, hi = d[:i].strip(), d[i + 1:].strip()
            return (parse_expr(lo) if lo else None,
                    ('star',) if hi == '*' else (parse_expr(hi) if hi else None))
    return (('num', 1, '1'), parse_expr(d))


LOOP_END = re.compile(r'^end\s*do\b')
NUMKIND = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'real32': 4,
           'real64': 8, 'real128': 16, 'p': 8, 'dp': 8, 'sp': 4, 'qp': 16,
           '1': 1, '2': 2, '4': 4, '8': 8, '16': 16}


class Parser:
    def __init__(self, text, file):
        self.file = file
        self.lines = list(logical_lines(text))
        self.i = 0
        self.errors = []
        self.modules = {}

    def peek(self):
        return self.lines[self.i] if self.i < len(self.lines) else (None, '', 0)

    # ---- program units
    def parse(self):
        while self.i < len(self.lines):
            k, t, ln = self.peek()
            m = re.match(r'module\s+([a-z_]\w*)$', t)
            if k == 'stmt' and m and m.group(1) != 'procedure':
                self.i += 1
                mod = Module(m.group(1), self.file)
                self.modules[mod.name] = mod
                self.module_body(mod)
            elif k == 'stmt' and re.match(r'program\b', t):
                while self.i < len(self.lines) and not re.match(r'end\s*program|end$', self.peek()[1]):
                    self.i += 1
                self.i += 1
            elif k == 'stmt' and self.is_proc(t):
                # external procedure
                mod = self.modules.setdefault('', Module('', self.file))
                self.proc(mod, None)
            else:
                self.i += 1
        return self.modules

    PROC = re.compile(
        r'^((?:(?:pure|elemental|recursive|impure|module|integer|real|logical|'
        r'complex|double\s+precision|character|type)\b(?:\s*\([^()]*\)|\s*\*\s*\d+)?\s*)*)'
        r'\b(subroutine|function)\s+([a-z_]\w*)\s*(\(.*)?$')

    def is_proc(self, t):
        if t.startswith('end'):
            return None
        m = self.PROC.match(t)
        return m

    def module_body(self, mod):
        incontains = False
        while self.i < len(self.lines):
            k, t, ln = self.peek()
            if k == 'stmt' and re.match(r'end\s*module\b', t) or t == 'end':
                self.i += 1
                return
            if k == 'omp' and t.startswith('threadprivate'):
                mod.threadprivate |= set(x.strip() for x in t[t.index('(') + 1:t.rindex(')')].split(','))
                self.i += 1
                continue
            if k != 'stmt':
                self.i += 1
                continue
            if t == 'contains':
                incontains = True
                self.i += 1
                continue
            if self.is_proc(t):
                self.proc(mod, None)
                continue
            if not incontains:
                self.spec_stmt(mod, t, ln)
            self.i += 1

    def spec_stmt(self, scope, t, ln):
        """Specification statement in a module or procedure; True if consumed."""
        mod = scope if isinstance(scope, Module) else scope.module
        if t.startswith('use ') or t.startswith('use,'):
            m = re.match(r'use\s*(?:,\s*(?:non_)?intrinsic\s*)?(?:::)?\s*([a-z_]\w*)\s*(?:,\s*(.*))?$', t)
            if m:
                only, ren = None, {}
                r = m.group(2)
                if r:
                    if re.match(r'only\s*:', r):
                        only = {}
                        for x in split_commas(r[r.index(':') + 1:]):
                            if '=>' in x:
                                a, b = [y.strip() for y in x.split('=>')]
                                only[a] = b
                            else:
                                only[x.strip()] = x.strip()
                    else:
                        for x in split_commas(r):
                            if '=>' in x:
                                a, b = [y.strip() for y in x.split('=>')]
                                ren[a] = b
                scope.uses.append((m.group(1), only, ren))
            return True
        if t.startswith('implicit'):
            return True
        if re.match(r'(private|public)\b', t):
            m = re.match(r'(private|public)\s*(?:::)?\s*(.*)$', t)
            names = [x.strip() for x in m.group(2).split(',') if x.strip()]
            if isinstance(scope, Module):
                if not names:
                    scope.default_private = m.group(1) == 'private'
                for n in names:
                    scope.access[n] = m.group(1)
            return True
        m = re.match(r'type\s*(?:,[^:]*)?(?:::)?\s*([a-z_]\w*)$', t)
        if m and not t.startswith('type('):
            self.i += 1
            comps = []
            while True:
                k, t2, l2 = self.peek()
                if re.match(r'end\s*type\b', t2):
                    break
                if k == 'stmt':
                    d = parse_decl(t2, l2)
                    if d:
                        comps += d
                self.i += 1
                if self.i >= len(self.lines):
                    break
            scope.types[m.group(1)] = comps
            return True
        m = re.match(r'(abstract\s+)?interface\b\s*(.*)$', t)
        if m:
            name = m.group(2).strip()
            procs = []
            while True:
                self.i += 1
                k, t2, l2 = self.peek()
                if k is None or re.match(r'end\s*interface\b', t2):
                    break
                m2 = re.match(r'module\s+procedure\s*(?:::)?\s*(.*)$', t2)
                if m2:
                    procs += [x.strip() for x in m2.group(1).split(',')]
            if isinstance(scope, Module) and name:
                scope.interfaces.setdefault(name, []).extend(procs)
            return True
        m = re.match(r'common\s*/\s*(\w*)\s*/\s*(.*)$', t)
        if m:
            for n in split_commas(m.group(2)):
                scope.common[re.match(r'\w+', n).group()] = m.group(1)
            return True
        d = parse_decl(t, ln)
        if d is not None:
            for x in d:
                if x.name in scope.decls:
                    # attribute given separately
                    pass
                scope.decls[x.name] = x
            return True
        m = re.match(r'(save|dimension|pointer|allocatable|target|intrinsic|external|parameter|optional|data)\b(.*)$', t)
        if m and '=' not in t.split('(')[0] and not re.match(r'\w+\s*\(.*\)\s*=', t):
            if m.group(1) == 'save' and not isinstance(scope, Module):
                names = [x.strip() for x in m.group(2).replace('::', '').split(',') if x.strip()]
                scope.f2py.append(('__save__ ' + ' '.join(names or ['*']), ln))
            if m.group(1) == 'data' and not isinstance(scope, Module):
                scope.f2py.append(('__save__ ' + ' '.join(re.findall(r'(\w+)[^/]*/[^/]*/', m.group(2))), ln))
            return True
        return False

    def proc(self, mod, parent):
        k, t, ln = self.peek()
        m = self.is_proc(t)
        prefix, kind, name, rest = m.group(1).strip(), m.group(2), m.group(3), m.group(4) or ''
        args, result = [], None
        if rest.startswith('('):
            j = _balanced(rest, 0)
            args = [x.strip() for x in rest[1:j - 1].split(',') if x.strip()]
            m2 = re.search(r'result\s*\(\s*(\w+)\s*\)', rest[j:])
            if m2:
                result = m2.group(1)
        p = Proc(name, kind, args, mod, ln, prefix, result or (name if kind == 'function' else None))
        p.parent = parent
        if parent is None:
            mod.procs[name] = p
        else:
            parent.inner[name] = p
        mt = re.match(r'(integer|real|logical|complex|character|double\s+precision|type)\s*(\([^()]*\)|\*\s*\d+)?', prefix)
        if kind == 'function' and mt:
            kd = (mt.group(2) or '').strip('()* ') or None
            p.decls[p.result] = Decl(p.result, mt.group(1), kd, None, [], None, None, ln)
        self.i += 1
        # specification part
        while self.i < len(self.lines):
            k, t, l2 = self.peek()
            if k == 'f2py':
                p.f2py.append((t, l2))
                self.i += 1
                continue
            if k == 'omp':
                if t.startswith('threadprivate'):
                    self.i += 1
                    continue
                break
            if self.spec_stmt(p, t, l2):
                self.i += 1
                continue
            break
        p.body = self.block(p, ('endproc', 'contains'))
        k, t, l2 = self.peek()
        if t == 'contains':
            self.i += 1
            while self.i < len(self.lines):
                k, t, l2 = self.peek()
                if k == 'stmt' and self.is_proc(t):
                    self.proc(mod, p)
                    continue
                if k == 'stmt' and re.match(r'end\b|end\s*(subroutine|function)', t):
                    break
                self.i += 1
        self.i += 1
        p.end = l2
        return p

    # ---- executable part
    def is_end(self, k, t, ends):
        if k == 'stmt':
            if 'endproc' in ends and re.match(r'end\s*(subroutine|function|procedure)\b|end$', t):
                return 'endproc'
            if 'contains' in ends and t == 'contains':
                return 'contains'
            if 'enddo' in ends and re.match(r'end\s*do\b', t):
                return 'enddo'
            if 'endif' in ends and re.match(r'end\s*if\b', t):
                return 'endif'
            if 'else' in ends and re.match(r'else\s*(if\b.*)?$', t):
                return 'else'
            if 'case' in ends and re.match(r'case\b', t):
                return 'case'
            if 'endselect' in ends and re.match(r'end\s*select\b', t):
                return 'endselect'
            if 'endwhere' in ends and re.match(r'end\s*where\b', t):
                return 'endwhere'
            if 'elsewhere' in ends and re.match(r'else\s*where\b', t):
                return 'elsewhere'
            if 'endforall' in ends and re.match(r'end\s*forall\b', t):
                return 'endforall'
            if 'endassociate' in ends and re.match(r'end\s*associate\b', t):
                return 'endassociate'
            if 'endblock' in ends and re.match(r'end\s*block\b', t):
                return 'endblock'
        if k == 'omp':
            for e in ends:
                if e.startswith('omp:') and re.match(r'end\s+' + re.escape(e[4:]) + r'\b', t):
                    return e
        return None

    def block(self, proc, ends):
        out = []
        while self.i < len(self.lines):
            k, t, ln = self.peek()
            if self.is_end(k, t, ends):
                return out
            s = self.statement(proc)
            if s is not None:
                out.append(s)
        return out

    def err(self, t, ln, why):
        self.errors.append((self.file, ln, t, str(why)))

    def statement(self, proc):
        k, t, ln = self.peek()
        if k == 'f2py':
            proc.f2py.append((t, ln))
            self.i += 1
            return None
        if k == 'omp':
            return self.omp(proc, t, ln)
        label = None
        m = re.match(r'([a-z_]\w*)\s*:\s*(do|if|select|associate|block|where|forall)\b', t)
        if m and not t[len(m.group(1)):].lstrip().startswith('::'):
            label = m.group(1)
            t = t[m.end(1):].lstrip()[1:].lstrip()
        m = re.match(r'(\d+)\s+(.*)$', t)
        numlabel = None
        if m:
            numlabel, t = m.group(1), m.group(2)
        try:
            s = self.exec_stmt(proc, t, ln, label)
        except (ParseError, IndexError, AttributeError) as e:
            self.err(t, ln, e)
            s = S('unknown', ln, text=t)
            self.i += 1
        if s is not None and label:
            s.label = label
        return s

    def exec_stmt(self, proc, t, ln, label):
        # constructs
        m = re.match(r'if\s*\(', t)
        if m:
            j = _balanced(t, t.index('('))
            cond, rest = t[t.index('(') + 1:j - 1], t[j:].strip()
            if rest == 'then':
                self.i += 1
                branches, orelse = [], None
                c = parse_expr(cond)
                while True:
                    body = self.block(proc, ('else', 'endif', 'endproc'))
                    if c is None:
                        orelse = body
                    else:
                        branches.append((c, body))
                    k2, t2, l2 = self.peek()
                    self.i += 1
                    m2 = re.match(r'else\s*if\s*\(', t2)
                    if m2:
                        jj = _balanced(t2, t2.index('('))
                        c = parse_expr(t2[t2.index('(') + 1:jj - 1])
                    elif t2.startswith('else'):
                        c = None
                    else:
                        break
                return S('if', ln, branches=branches, orelse=orelse)
            self.lines[self.i] = ('stmt', rest, ln)
            sub = self.statement(proc)
            return S('if', ln, branches=[(parse_expr(cond), [sub] if sub else [])],
                     orelse=None)
        m = re.match(r'do\b\s*(.*)$', t)
        if m and not re.match(r'do\s*=|do\w*\s*\(', t) or (m and re.match(r'do\s+(while|concurrent)\s*\(', t)):
            r = m.group(1)
            if r == '':
                self.i += 1
                b = self.block(proc, ('enddo', 'endproc'))
                self.i += 1
                return S('doforever', ln, body=b)
            mw = re.match(r'while\s*\(', r)
            if mw:
                j = _balanced(r, r.index('('))
                c = parse_expr(r[r.index('(') + 1:j - 1])
                self.i += 1
                b = self.block(proc, ('enddo', 'endproc'))
                self.i += 1
                return S('dowhile', ln, cond=c, body=b)
            if r.startswith('concurrent'):
                self.i += 1
                b = self.block(proc, ('enddo', 'endproc'))
                self.i += 1
                return S('doconcurrent', ln, body=b, header=r)
            ml = re.match(r'(\d+)\s*,?\s*([a-z_]\w*\s*=.*)$', r)
            if ml:
                r = ml.group(2)
            m2 = re.match(r'([a-z_]\w*)\s*=\s*(.*)$', r)
            parts = [parse_expr(x) for x in split_commas(m2.group(2))]
            self.i += 1
            if ml:
                b = []
                while self.i < len(self.lines):
                    last = re.match(ml.group(1) + r'\s', self.peek()[1])
                    sub = self.statement(proc)
                    if sub is not None:
                        b.append(sub)
                    if last:
                        break
                self.i -= 1
            else:
                b = self.block(proc, ('enddo', 'endproc'))
            self.i += 1
            return S('do', ln, var=m2.group(1), lo=parts[0], hi=parts[1],
                     step=parts[2] if len(parts) > 2 else None, body=b)
        m = re.match(r'select\s*case\s*\(', t)
        if m:
            j = _balanced(t, t.index('('))
            e = parse_expr(t[t.index('(') + 1:j - 1])
            self.i += 1
            cases = []
            while True:
                k2, t2, l2 = self.peek()
                if k2 is None:
                    break
                if re.match(r'end\s*select\b', t2):
                    self.i += 1
                    break
                if re.match(r'case\b', t2):
                    self.i += 1
                    if re.match(r'case\s+default', t2):
                        c = None
                    else:
                        jj = _balanced(t2, t2.index('('))
                        c = tuple(ExprParser(tokenize(x)).arg() for x in split_commas(t2[t2.index('(') + 1:jj - 1]))
                    cases.append((c, self.block(proc, ('case', 'endselect', 'endproc'))))
                else:
                    self.i += 1
            return S('select', ln, expr=e, cases=cases)
        m = re.match(r'where\s*\(', t)
        if m:
            j = _balanced(t, t.index('('))
            c, rest = parse_expr(t[t.index('(') + 1:j - 1]), t[j:].strip()
            if rest:
                self.lines[self.i] = ('stmt', rest, ln)
                sub = self.statement(proc)
                return S('where', ln, branches=[(c, [sub])])
            self.i += 1
            branches = []
            while True:
                body = self.block(proc, ('elsewhere', 'endwhere', 'endproc'))
                branches.append((c, body))
                k2, t2, l2 = self.peek()
                self.i += 1
                if re.match(r'else\s*where', t2):
                    mm = re.match(r'else\s*where\s*\((.*)\)', t2)
                    c = parse_expr(mm.group(1)) if mm else None
                else:
                    break
            return S('where', ln, branches=branches)
        m = re.match(r'forall\s*\(', t)
        if m:
            j = _balanced(t, t.index('('))
            hdr, rest = t[t.index('(') + 1:j - 1], t[j:].strip()
            if rest:
                self.lines[self.i] = ('stmt', rest, ln)
                sub = self.statement(proc)
                return S('forall', ln, header=hdr, body=[sub])
            self.i += 1
            b = self.block(proc, ('endforall', 'endproc'))
            self.i += 1
            return S('forall', ln, header=hdr, body=b)
        m = re.match(r'associate\s*\(', t)
        if m:
            j = _balanced(t, t.index('('))
            pairs = []
            for x in split_commas(t[t.index('(') + 1:j - 1]):
                a, b = x.split('=>')
                pairs.append((a.strip(), parse_expr(b.strip())))
            self.i += 1
            b = self.block(proc, ('endassociate', 'endproc'))
            self.i += 1
            return S('associate', ln, pairs=pairs, body=b)
        if re.match(r'block$', t):
            self.i += 1
            decls = {}
            while True:
                k2, t2, l2 = self.peek()
                d = parse_decl(t2, l2) if k2 == 'stmt' else None
                if d is None:
                    break
                for x in d:
                    decls[x.name] = x
                self.i += 1
            b = self.block(proc, ('endblock', 'endproc'))
            self.i += 1
            return S('block', ln, body=b, decls=decls)
        # simple statements
        self.i += 1
        m = re.match(r'call\s+(.*)$', t)
        if m:
            e = parse_expr(m.group(1))
            if e[0] == 'ref':
                return S('call', ln, func=e[1], args=list(e[2]))
            return S('call', ln, func=e, args=[])
        if re.match(r'return\b\s*$', t):
            return S('return', ln)
        m = re.match(r'(cycle|exit)\b\s*([a-z_]\w*)?$', t)
        if m:
            return S(m.group(1), ln, target=m.group(2))
        if re.match(r'(stop|error\s+stop)\b', t):
            return S('stop', ln)
        if re.match(r'continue$', t):
            return S('continue', ln)
        if re.match(r'go\s*to\b', t):
            return S('goto', ln, text=t)
        m = re.match(r'(allocate|deallocate|nullify)\s*\(', t)
        if m:
            j = t.index('(')
            args = [ExprParser(tokenize(x)).arg() for x in split_commas(t[j + 1:_balanced(t, j) - 1])]
            return S(m.group(1), ln, args=args)
        m = re.match(r'(write|read|open|close|inquire|rewind|flush)\s*\(', t)
        if m and not re.match(r'(write|read|open|close|inquire|rewind|flush)\s*\([^=]*\)\s*=[^=]', t):
            j = _balanced(t, t.index('('))
            ctl, items = [], []
            for x in split_commas(t[t.index('(') + 1:j - 1]):
                try:
                    ctl.append(ExprParser(tokenize(x)).arg())
                except ParseError:
                    pass
            for x in split_commas(t[j:]):
                try:
                    items.append(parse_expr(x))
                except ParseError:
                    pass
            return S('io', ln, io=m.group(1), ctl=ctl, items=items)
        m = re.match(r'(print)\s+(.*)$', t)
        if m:
            items = []
            for x in split_commas(m.group(2))[1:]:
                try:
                    items.append(parse_expr(x))
                except ParseError:
                    pass
            return S('io', ln, io='print', ctl=[], items=items)
        # assignment
        toks = tokenize(t)
        p = ExprParser(toks)
        lhs = p.primary()
        if p.accept('=>'):
            rhs = p.expr()
            return S('ptrassign', ln, lhs=lhs, rhs=rhs)
        p.expect('=')
        rhs = p.expr()
        if p.i != len(p.t):
            raise ParseError('trailing tokens')
        return S('assign', ln, lhs=lhs, rhs=rhs)

    # ---- OpenMP
    def omp(self, proc, t, ln):
        self.i += 1
        m = re.match(r'parallel\s+do\b\s*(.*)$', t)
        if m:
            cl = parse_clauses(m.group(1))
            loop = self.next_loop(proc)
            self.eat_omp_end('parallel do')
            return S('omp_parallel', ln, clauses=cl, combined='do',
                     body=[S('omp_do', ln, clauses=parse_clauses(''), loop=loop)])
        m = re.match(r'parallel\s+workshare\b\s*(.*)$', t)
        if m:
            b = self.block(proc, ('omp:parallel workshare', 'endproc'))
            self.eat_omp_end('parallel workshare')
            return S('omp_parallel', ln, clauses=parse_clauses(m.group(1)), combined='workshare',
                     body=[S('omp_workshare', ln, body=b)])
        m = re.match(r'parallel\b\s*(.*)$', t)
        if m:
            b = self.block(proc, ('omp:parallel', 'endproc'))
            self.eat_omp_end('parallel')
            return S('omp_parallel', ln, clauses=parse_clauses(m.group(1)), combined=None, body=b)
        m = re.match(r'do\b\s*(.*)$', t)
        if m:
            cl = parse_clauses(m.group(1))
            loop = self.next_loop(proc)
            nw = self.eat_omp_end('do')
            s = S('omp_do', ln, clauses=cl, loop=loop)
            s.nowait = bool(nw and 'nowait' in nw)
            return s
        m = re.match(r'workshare\b\s*(.*)$', t)
        if m:
            b = self.block(proc, ('omp:workshare', 'endproc'))
            self.eat_omp_end('workshare')
            return S('omp_workshare', ln, body=b)
        m = re.match(r'atomic\b\s*(.*)$', t)
        if m:
            sub = self.statement(proc)
            self.eat_omp_end('atomic')
            return S('omp_atomic', ln, stmt=sub, mode=m.group(1).strip())
        m = re.match(r'critical\b\s*(.*)$', t)
        if m:
            b = self.block(proc, ('omp:critical', 'endproc'))
            self.eat_omp_end('critical')
            return S('omp_critical', ln, body=b, name=m.group(1).strip('() '))
        m = re.match(r'(master|single|sections|section|task|ordered)\b\s*(.*)$', t)
        if m:
            b = self.block(proc, ('omp:' + m.group(1), 'endproc'))
            self.eat_omp_end(m.group(1))
            return S('omp_other', ln, body=b, directive=m.group(1))
        if re.match(r'(barrier|flush|threadprivate)', t):
            return S('omp_barrier', ln)
        if t.startswith('end'):
            return None  # stray end directive
        self.err(t, ln, 'unknown omp directive')
        return None

    def next_loop(self, proc):
        k, t, ln = self.peek()
        while k == 'f2py':
            self.i += 1
            k, t, ln = self.peek()
        return self.statement(proc)

    def eat_omp_end(self, what):
        k, t, ln = self.peek()
        if k == 'omp' and re.match(r'end\s+' + what.replace(' ', r'\s+') + r'\b', t):
            self.i += 1
            return t
        return None


def parse_clauses(s):
    """-> {'private': set, 'firstprivate':…, 'lastprivate', 'shared', 'reduction': {var: op}, 'default': str}"""
    cl = {'private': set(), 'firstprivate': set(), 'lastprivate': set(),
          'shared': set(), 'reduction': {}, 'default': None, 'other': [], 'if': None}
    i = 0
    for m in re.finditer(r'([a-z_]+)\s*(\(([^()]*(?:\([^()]*\)[^()]*)*)\))?', s):
        name, arg = m.group(1), m.group(3)
        if name in ('private', 'firstprivate', 'lastprivate', 'shared') and arg is not None:
            cl[name] |= {x.strip() for x in arg.split(',')}
        elif name == 'reduction' and arg is not None:
            op, vs = arg.split(':', 1)
            for v in vs.split(','):
                cl['reduction'][v.strip()] = op.strip()
        elif name == 'default':
            cl['default'] = (arg or '').strip()
        else:
            cl['other'].append((name, arg))
    return cl


# --------------------------------------------------------------------------
# program
# --------------------------------------------------------------------------
class Program:
    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}
        self.errors = []
        self.files = []
        d = Path(root) / 'src' / 'flib'
        for f in sorted(d.glob('*')):
            if f.name.endswith('.f90.j2'):
                text = render_template(f)
            elif f.suffix == '.f90':
                text = f.read_text()
            else:
                continue
            rel = str(f.relative_to(root))
            self.files.append(rel)
            p = Parser(preprocess(text), rel)
            mods = p.parse()
            for n, m in mods.items():
                self.modules[n or f'<{rel}>'] = m
            self.errors += p.errors

    def procs(self):
        for m in self.modules.values():
            for p in m.procs.values():
                yield p
                yield from p.inner.values()

    # --- name resolution
    def lookup_proc(self, proc, name, _seen=None):
        """Procedures (list) that `name` may denote when called in `proc`."""
        if proc.parent is not None and name in proc.parent.inner:
            return [proc.parent.inner[name]]
        if name in proc.inner:
            return [proc.inner[name]]
        for scope in (proc, proc.module):
            r = self._scope(scope, name, set())
            if r:
                return r
        if proc.parent is not None:
            r = self._scope(proc.parent, name, set())
            if r:
                return r
        return []

    def _scope(self, scope, name, seen):
        if isinstance(scope, Module):
            if name in scope.procs:
                return [scope.procs[name]]
            if name in scope.interfaces:
                out = []
                for n in scope.interfaces[name]:
                    out += self._scope(scope, n, seen)
                return out
        for mname, only, ren in scope.uses:
            m = self.modules.get(mname)
            if m is None:
                continue
            if only is not None:
                if name not in only:
                    continue
                n = only[name]
            else:
                n = ren.get(name, name)
            key = (mname, n)
            if key in seen:
                continue
            seen.add(key)
            r = self._scope(m, n, seen)
            if r:
                return r
        return []

    def lookup_var(self, proc, name):
        """(scope, Decl) for a variable visible in proc; None if unknown."""
        if name in proc.decls:
            return proc, proc.decls[name]
        if proc.parent is not None and name in proc.parent.decls:
            return proc.parent, proc.parent.decls[name]
        r = self._var(proc, name, set())
        if r:
            return r
        if proc.parent is not None:
            r = self._var(proc.parent, name, set())
            if r:
                return r
        return self._var(proc.module, name, set())

    def _var(self, scope, name, seen):
        if isinstance(scope, Module) and name in scope.decls:
            return scope, scope.decls[name]
        for mname, only, ren in scope.uses:
            m = self.modules.get(mname)
            if m is None:
                continue
            if only is not None:
                if name not in only:
                    continue
                n = only[name]
            else:
                n = ren.get(name, name)
            if (mname, n) in seen:
                continue
            seen.add((mname, n))
            r = self._var(m, n, seen)
            if r:
                return r
        return None

    def lookup_type(self, proc, name):
        for scope in (proc, proc.module):
            r = self._type(scope, name, set())
            if r is not None:
                return r
        return None

    def _type(self, scope, name, seen):
        if name in scope.types:
            return scope.types[name]
        for mname, only, ren in scope.uses:
            m = self.modules.get(mname)
            if m is None or (mname, name) in seen:
                continue
            seen.add((mname, name))
            n = name
            if only is not None:
                if name not in only:
                    continue
                n = only[name]
            r = self._type(m, n, seen)
            if r is not None:
                return r
        return None


if __name__ == '__main__':
    import sys
    P = Program(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    n = sum(1 for _ in P.procs())
    print(len(P.modules), 'modules', n, 'procedures', len(P.errors), 'errors')
    for e in P.errors:
        print(e)
    from collections import Counter
    c = Counter()
    for p in P.procs():
        for s in walk(p.body):
            c[s.kind] += 1
    print(c)
