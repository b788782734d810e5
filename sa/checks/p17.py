"""P17: no reachable path fails on a missing name, attribute or argument.

Rules on the syntax tree, independent of the reference definitions (which are compared as well):
  name       each name read in any scope is bound in that scope, an enclosing one, the module or builtins
  member     each attribute of an imported module (of the package, of the extension or of a library) exists
  arguments  each call of a function, class or method of the package binds to its signature
  attribute  each attribute of self that is read is set somewhere, or belongs to a base class
"""
import ast
import builtins
import glob
import importlib
import inspect
import os
import re
import symtable

from . import spec
from ..ctx import REPO
from ..pymod import Class, repo
from ..report import Report

FLIB = 'pysimulators._flib'
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__path__', '__spec__', '__package__', '__loader__', '__class__',
                '__builtins__', '__all__', '__qualname__', '__module__'}


# ------------------------------------------------------------------------------ names
def top_names(table):
    """Names bound in the scope of the module, also by "global" statements."""
    out = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

    def rec(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in t.get_children():
            rec(c)
    rec(table)
    return out


def check_names(rep, rp, mod):
    with open(mod.path) as fh:
        table = symtable.symtable(fh.read(), mod.path, 'exec')
    known = top_names(table)
    lines = {}
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            lines.setdefault(x.id, []).append(x.lineno)

    def rec(t, path):
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced() or not s.is_global() and t.get_type() != 'module':
                continue
            rep.count('names resolved')
            if n in known or n in MODULE_NAMES or hasattr(builtins, n) or rp.lookup_name(mod, n) is not None:
                continue
            ls = [x for x in lines.get(n, ()) if x >= t.get_lineno()]
            rep.add('name', f'{path}:{n}', f'the name {n!r} is not defined',
                    os.path.relpath(mod.path, REPO), ls[0] if ls else t.get_lineno())
        for c in t.get_children():
            rec(c, f'{path}.{c.get_name()}' if c.get_type() in ('function', 'class') else path)
    rec(table, mod.name)


# ------------------------------------------------------------------------------ members of modules
def flib_names():
    """Names and patterns of the compiled modules and routines."""
    mods, names, pats = set(), set(), []
    for p in sorted(glob.glob(os.path.join(str(REPO), 'src', 'flib', '*.f90*'))):
        with open(p) as fh:
            text = fh.read().lower()
        text = re.sub(r'!(?!\$)[^\n]*', '', text)
        for m in re.finditer(r'^\s*module\s+(?!procedure)([\w{}. ]+?)\s*$', text, re.M):
            mods.add(m[1])
        for m in re.finditer(r'^\s*(?:[\w() =*]*\s)?(?:subroutine|function)\s+([\w{}. ~+\[\]\'"]+?)\s*\(', text, re.M):
            n = m[1]
            if '{' in n:
                pats.append(re.compile(re.sub(r'\\?\{\\?\{.*?\\?\}\\?\}', r'\\w+', re.escape(n))))
            else:
                names.add(n)
    return mods, names, pats


def module_object(d):
    try:
        return importlib.import_module(d)
    except Exception:
        return None


def check_members(rep, rp, mod, flib):
    mods, names, pats = flib
    shadow = {}

    def bound(fn):
        r = shadow.get(fn)
        if r is None:
            a = fn.args
            r = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    r.add(x.id)
            shadow[fn] = r
        return r

    def visit(x, local, imports, path, guard):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            local = local | bound(x)
            imp = dict(imports)
            if not isinstance(x, ast.Lambda):
                path = f'{path}.{x.name}'
                for y in ast.walk(x):
                    if isinstance(y, (ast.Import, ast.ImportFrom)):
                        imp.update(mod.import_names(y) if hasattr(mod, 'import_names') else {})
            imports = imp
        elif isinstance(x, ast.ClassDef):
            path = f'{path}.{x.name}'
        if isinstance(x, ast.ImportFrom) and not guard:
            base = mod.absolute(x.module, x.level)
            for a in x.names:
                if a.name != '*':
                    member(base, a.name, x.lineno, path)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            parts, r = [x.attr], x.value
            while isinstance(r, ast.Attribute):
                parts.append(r.attr)
                r = r.value
            if isinstance(r, ast.Name) and r.id not in local and r.id in imports:
                if not guard and not asked & set(parts):
                    chain(imports[r.id], parts[::-1], x.lineno, path)
                return
        for y in ast.iter_child_nodes(x):
            visit(y, local, imports, path, guard or isinstance(x, ast.Try) and bool(x.handlers) and y in x.body)

    def chain(base, parts, line, path):
        d = base
        for i, n in enumerate(parts):
            r = member(d, n, line, path)
            if r is None:
                return
            d = r

    def member(d, n, line, path):
        """Dotted name of a member of the module d if it is a module, None otherwise."""
        rep.count('members of modules resolved')
        where = os.path.relpath(mod.path, REPO)
        if d == 'pysimulators' and n == '_flib':
            return FLIB
        if d == FLIB:
            if n not in mods and n not in names:
                rep.add('member', f'{path}:{d}.{n}', f'the extension has no module {n!r}', where, line)
                return None
            return f'{d}.{n}'
        if d.startswith(FLIB + '.'):
            if n not in names and not any(p.fullmatch(n) for p in pats):
                rep.add('member', f'{path}:{d}.{n}', f'the extension has no routine {n!r}', where, line)
            return None
        if d == 'pysimulators' or d.startswith('pysimulators.'):
            m = rp.modules.get(d)
            if m is None:
                return None
            if f'{d}.{n}' in rp.modules:
                return f'{d}.{n}'
            if n in MODULE_NAMES:
                return None
            q = rp.lookup_name(m, n)
            if q is None or q.startswith('builtins.') and n not in m.imports:
                with open(m.path) as fh:
                    if n not in top_names(symtable.symtable(fh.read(), m.path, 'exec')) and not m.star:
                        rep.add('member', f'{path}:{d}.{n}', f'{d} has no member {n!r}', where, line)
            return None
        o = module_object(d)
        if o is None:
            return None            # not a module, or not installed
        if hasattr(o, n):
            return f'{d}.{n}' if inspect.ismodule(getattr(o, n)) else None
        if module_object(f'{d}.{n}') is not None or hasattr(o, '__getattr__') and False:
            return f'{d}.{n}'
        rep.add('member', f'{path}:{d}.{n}', f'{d} has no member {n!r}', where, line)
        return None

    asked = {x.args[1].value for x in ast.walk(mod.tree) if isinstance(x, ast.Call) and isinstance(
        x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(
        x.args[1], ast.Constant)}
    for s in mod.tree.body:
        visit(s, frozenset(), mod.imports, mod.name, False)


# ------------------------------------------------------------------------------ calls
def signature(node, skip):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd][skip:]
    return dict(pos=pos[skip:], req=req, only={x.arg: d is None for x, d in zip(a.kwonlyargs, a.kw_defaults)},
                var=a.vararg is not None, kw=a.kwarg is not None, posonly={x.arg for x in a.posonlyargs})


def problem(call, sig):
    """Why the call cannot bind to the signature (None: it does)."""
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(sig['pos']) and not sig['var']:
        return f'{n} positional arguments for {len(sig["pos"])}'
    given = set(sig['pos'][:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in sig['pos'] and k.arg not in sig['only'] and not sig['kw']:
            return f'no parameter {k.arg!r}'
        if k.arg in given and not star and k.arg not in sig['posonly']:
            return f'two values for {k.arg!r}'
        given.add(k.arg)
    if not star and not dstar:
        for r in sig['req']:
            if r not in given:
                return f'no value for {r!r}'
        for r, need in sig['only'].items():
            if need and r not in given:
                return f'no value for {r!r}'
    return None


PLAIN = {'staticmethod', 'classmethod'}


def plain(f):
    return all(d in PLAIN for d in f.decorators())


def constructor(rp, c):
    """Signatures of the constructor of a class, None if it is not in the package."""
    out = []
    for k in rp.mro(c):
        if not isinstance(k, Class):
            break
        for n in ('__new__', '__init__'):
            if n in k.methods:
                f = k.methods[n]
                if not plain(f):
                    return None
                out.append(signature(f.node, 1))
        if out:
            return out
    return None


def check_calls(rep, rp, mod):
    where = os.path.relpath(mod.path, REPO)

    def visit(x, cls, fn, local, path):
        if isinstance(x, ast.ClassDef):
            cls = rp.cls(f'{mod.name}.{x.name}')
            path = f'{path}.{x.name}'
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
            a = x.args
            local = local | {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs} | {
                y.arg for y in (a.vararg, a.kwarg) if y} | {
                y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} | {
                y.name for y in ast.walk(x) if isinstance(y, ast.FunctionDef) and y is not x} | {
                (z.asname or z.name).split('.')[0] for y in ast.walk(x) if isinstance(
                    y, (ast.Import, ast.ImportFrom)) for z in y.names}
            if isinstance(x, ast.FunctionDef):
                path = f'{path}.{x.name}'
                fn = x if fn is None else fn
        elif isinstance(x, ast.Call):
            target(x, cls, fn, local, path)
        for y in ast.iter_child_nodes(x):
            visit(y, cls, fn, local, path)

    def target(x, cls, fn, local, path):
        f = x.func
        r = f
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name):
            return
        me = fn is not None and cls is not None and fn.args.args and fn.args.args[0].arg == r.id and fn in cls.node.body
        if me and isinstance(f, ast.Attribute) and f.value is r:
            # method of self: each definition that the call may reach
            g = []
            for k in {cls} | set(rp.subclasses(cls)):
                m = rp.lookup(k, f.attr)
                if m is None:
                    return
                g.append(m)
            if any(m.is_property or not plain(m) for m in g):
                return
            on_class = any(d == 'classmethod' for d in [ast.unparse(d) for d in fn.decorator_list]) or fn.name == '__new__'
            if on_class and not all(m.is_static or m.is_classmethod for m in g):
                return
            rep.count('calls bound to a signature')
            ps = [problem(x, signature(m.node, 0 if m.is_static else 1)) for m in g]
            if all(ps):
                rep.add('arguments', f'{path}:{ast.unparse(f)}', f'{ps[0]} in a call of {g[0].qual}', where, x.lineno)
            return
        if r.id in local:
            return
        d = rp.expr_name(mod, f)
        if d is None or not d.startswith('pysimulators.'):
            return
        g = rp.fun(d)
        if g is not None:
            if not plain(g):
                return
            skip = 1 if g.cls is not None and g.is_classmethod else 0
            rep.count('calls bound to a signature')
            p = problem(x, signature(g.node, skip))
            if p:
                rep.add('arguments', f'{path}:{ast.unparse(f)}', f'{p} in a call of {g.qual}', where, x.lineno)
            return
        c = rp.cls(d)
        if c is not None:
            sigs = constructor(rp, c)
            if sigs is None or any('metaclass' == k.arg for k in c.node.keywords):
                return
            rep.count('calls bound to a signature')
            ps = [problem(x, s) for s in sigs]
            if any(ps):
                rep.add('arguments', f'{path}:{ast.unparse(f)}', f'{[p for p in ps if p][0]} in a call of {c.qual}',
                        where, x.lineno)

    for s in mod.tree.body:
        visit(s, None, None, frozenset(), mod.name)


# ------------------------------------------------------------------------------ attributes of self
def pattern(x):
    """Regular expression of the values of an expression of strings."""
    if isinstance(x, ast.Constant):
        return re.escape(str(x.value))
    if isinstance(x, ast.JoinedStr):
        return ''.join(pattern(y) for y in x.values)
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        return pattern(x.left) + pattern(x.right)
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) or isinstance(
            x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Constant):
        s = (x.left if isinstance(x, ast.BinOp) else x.func.value).value
        return '.*'.join(re.escape(p) for p in re.split(r'%\w|\{[^}]*\}', str(s)))
    return '.*'


def computed(rp):
    """Patterns of the attributes set under a computed name."""
    out = set()
    for m in rp.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and ast.unparse(x.func).endswith(('setattr', '__setattr__')) and len(x.args) > 1:
                out |= {pattern(y) for y in x.args[:2] if not isinstance(y, (ast.Constant, ast.Name, ast.Attribute))}
    return [re.compile(p) for p in sorted(out) if p != '.*']


def vocabulary(rp):
    """Names that are attributes somewhere: stored, defined in a class, passed by name, or spelled in a string."""
    out = set()
    for m in rp.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                out.add(x.attr)
            elif isinstance(x, ast.keyword) and x.arg:
                out.add(x.arg)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                out.add(x.value)
            elif isinstance(x, ast.ClassDef):
                for y in x.body:
                    if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        out.add(y.name)
                    for z in ast.walk(y):
                        if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and not isinstance(
                                y, (ast.FunctionDef, ast.ClassDef)):
                            out.add(z.id)
    return out


def base_names(d):
    """Attributes of the instances of a class of a library."""
    m, _, n = d.rpartition('.')
    o = getattr(module_object(m), n, None) if m else None
    if o is None:
        return None
    out = set(dir(o))
    for k in getattr(o, '__mro__', ()):
        try:
            out |= set(re.findall(r'self\.(\w+)', inspect.getsource(inspect.getmodule(k))))
        except (OSError, TypeError):
            pass
    return out


def check_attributes(rep, rp, mod, vocab, bases, patterns):
    where = os.path.relpath(mod.path, REPO)
    for c in mod.classes:
        k = rp.cls(f'{mod.name}.{c}')
        if k is None:
            continue
        known = set(vocab)
        ok = True
        family = [k] + rp.subclasses(k)
        for e in {e for f in family for e in rp.ext_bases(f)}:
            if e not in bases:
                bases[e] = base_names(e)
            if bases[e] is None:
                ok = False
            else:
                known |= bases[e]
        if not ok or any('__getattr__' in z.methods for f in family for z in rp.mro(f) if isinstance(z, Class)):
            continue
        known |= set(dir(object))
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f.is_static or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            tried = {y for x in ast.walk(f.node) if isinstance(x, ast.Try) and any(
                h.type is None or 'AttributeError' in ast.unparse(h.type) or ast.unparse(h.type) == 'Exception'
                for h in x.handlers) for s in x.body for y in ast.walk(s)}
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and \
                        isinstance(x.ctx, ast.Load) and x not in tried:
                    rep.count('attributes of self resolved')
                    if x.attr not in known and not any(p.fullmatch(x.attr) for p in patterns) and not x.attr.startswith('__'):
                        rep.add('attribute', f'{f.qual}:{me}.{x.attr}',
                                f'the attribute {x.attr!r} is set nowhere', where, x.lineno)


def run(prop):
    rep = Report(prop)
    rep.explanation = ('Syntax-tree rules on every module (names, members of modules, arguments of the calls, attributes '
                       'of self), and comparison of every function with its reference definition, restricted to '
                       'unbound variables and to the functions of the property.')
    rp = repo()
    flib = flib_names()
    vocab = vocabulary(rp)
    bases = {}
    patterns = computed(rp)
    for m in rp.modules.values():
        check_names(rep, rp, m)
        check_members(rep, rp, m, flib)
        check_calls(rep, rp, m)
        check_attributes(rep, rp, m, vocab, bases, patterns)
    spec.compare(rep, prop)
    rep.require('names resolved', 1000)
    rep.require('members of modules resolved', 500)
    rep.require('calls bound to a signature', 100)
    rep.require('attributes of self resolved', 300)
    rep.require('functions compared with their definition', 250)
    return rep.finish()
