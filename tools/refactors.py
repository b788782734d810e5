"""Self-test: behaviour-preserving rewritings must leave the comparison quiet.

Each transformation is applied to each function in turn; the verdict of the rewritten
function against its reference definition must not be 'diff'.
"""
import ast
import copy
import collections
import random
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import pyspec, pyeng, pyt, pymod  # noqa
from sa.pymod import Func


class Tmp:
    n = 0


def fresh():
    Tmp.n += 1
    return f'tmp_{Tmp.n}'


def bodies(fn):
    for x in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(x, (ast.ClassDef,)):
                yield x, f, b


def r_invert_if(fn):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse:
            x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
            x.body, x.orelse = x.orelse, x.body
            n += 1
    return n


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def r_else_after_return(fn):
    """if c: return; rest  ->  if c: return else: rest"""
    n = 0

    def rec(b):
        nonlocal n
        for i, s in enumerate(b):
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(s, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, ast.ClassDef):
                    rec(v)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                n += 1
                break
    rec(fn.body)
    return n


def r_flatten_else(fn):
    n = 0

    def rec(b):
        nonlocal n
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                n += 1
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(s, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, ast.ClassDef):
                    rec(v)
            i += 1
    rec(fn.body)
    return n


def r_temp_return(fn):
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh()
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.value))
                out.append(ast.Return(value=ast.Name(id=t, ctx=ast.Load())))
                n += 1
            else:
                out.append(s)
        b[:] = out
    return n


def r_temp_args(fn):
    """f(a, g(b)) -> t = g(b); f(a, t) for the last argument of simple statements."""
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(
                    v.args[0], (ast.Call, ast.BinOp)) and isinstance(v.func, (ast.Name, ast.Attribute)):
                t = fresh()
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=v.args[0]))
                v.args[0] = ast.Name(id=t, ctx=ast.Load())
                n += 1
            out.append(s)
        b[:] = out
    return n


def r_temp_test(fn):
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = fresh()
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.test))
                s.test = ast.Name(id=t, ctx=ast.Load())
                n += 1
            out.append(s)
        b[:] = out
    return n


def r_flip_compare(fn):
    n = 0
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in m:
            x.left, x.comparators[0] = x.comparators[0], x.left
            x.ops[0] = m[type(x.ops[0])]()
            n += 1
    return n


def r_not_compare(fn):
    n = 0
    m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq,
         ast.NotEq: ast.Eq}

    class V(ast.NodeTransformer):
        def visit_If(self, x):
            nonlocal n
            self.generic_visit(x)
            t = x.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in m:
                x.test = ast.UnaryOp(op=ast.Not(), operand=ast.Compare(
                    left=t.left, ops=[m[type(t.ops[0])]()], comparators=t.comparators))
                n += 1
            return x
    V().visit(fn)
    return n


def r_rename(fn):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
        x.arg for x in (a.vararg, a.kwarg) if x}
    names = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            return 0
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            params |= {y.arg for y in x.args.args}
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            params |= {(y.asname or y.name).split('.')[0] for y in x.names}
    names -= params
    if not names:
        return 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in names:
            x.id += '_r'
    return 1


def r_enumerate(fn):
    """for x in s: body -> for i in range(len(s)): x = s[i]; body   (s a name of a list built here)"""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and \
                x.iter.func.id == 'zip' and all(isinstance(y, ast.Name) for y in x.iter.args) and \
                isinstance(x.target, ast.Tuple) and not x.orelse:
            i = fresh()
            pre = [ast.Assign(targets=[t], value=ast.Subscript(value=s, slice=ast.Name(id=i, ctx=ast.Load()),
                                                               ctx=ast.Load()))
                   for t, s in zip(x.target.elts, x.iter.args)]
            j = fresh()
            x.target = ast.Tuple(elts=[ast.Name(id=i, ctx=ast.Store()), x.target], ctx=ast.Store())
            x.iter = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[x.iter], keywords=[])
            n += 1
    return n


def r_ifexp(fn):
    """v = a if c else b -> if c: v = a else: v = b"""
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                v = s.value
                out.append(ast.If(test=v.test, body=[ast.Assign(targets=s.targets, value=v.body)],
                                  orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse)]))
                n += 1
            else:
                out.append(s)
        b[:] = out
    return n


def r_to_ifexp(fn):
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(
                    isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name)
                    for y in (s.body[0], s.orelse[0])) and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                out.append(ast.Assign(targets=s.body[0].targets, value=ast.IfExp(
                    test=s.test, body=s.body[0].value, orelse=s.orelse[0].value)))
                n += 1
            else:
                out.append(s)
        b[:] = out
    return n


def r_comp_to_loop(fn):
    """v = [e for x in s if c] -> loop with append"""
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            wrap = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('tuple', 'list') and \
                    len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
                wrap, v = v, v.args[0]
            if isinstance(v, (ast.ListComp, ast.GeneratorExp)) and len(v.generators) == 1 and (
                    wrap or isinstance(v, ast.ListComp)) and (isinstance(s, ast.Return) or len(s.targets) == 1):
                g = v.generators[0]
                t = fresh()
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())))
                st = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=t, ctx=ast.Load()), attr='append',
                                                          ctx=ast.Load()), args=[v.elt], keywords=[]))
                body = [st]
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                # protect the names
                ren = {y.id: y.id + '_l' for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                loop = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
                for y in list(ast.walk(g.target)) + [z for w in body for z in ast.walk(w)]:
                    if isinstance(y, ast.Name) and y.id in ren:
                        y.id = ren[y.id]
                out.append(loop)
                r = ast.Name(id=t, ctx=ast.Load())
                if wrap:
                    wrap.args = [r]
                    r = wrap
                s.value = r
                n += 1
            out.append(s)
        b[:] = out
    return n


def r_loop_to_comp(fn):
    return 0


def r_augassign(fn):
    """x += e -> x = x + e for plain integer counters (x = 0 before)"""
    n = 0
    ints = {t.id for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant)
            and isinstance(s.value.value, (int, str)) for t in s.targets if isinstance(t, ast.Name)}
    for x, f, b in list(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in ints:
                b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(
                    left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value))
                n += 1
    return n


def r_nop(fn):
    fn.body.insert(0, ast.Assign(targets=[ast.Name(id='_unused', ctx=ast.Store())], value=ast.Constant(value=0)))
    for x, f, b in list(bodies(fn)):
        b.insert(0, ast.Pass())
    return 1


def r_or_split(fn):
    """if a or b: X -> if a: X elif b: X (small X, no else)"""
    n = 0
    for x, f, b in list(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and \
                    len(s.test.values) == 2 and len(s.body) == 1 and ends(s.body):
                b[i] = ast.If(test=s.test.values[0], body=s.body, orelse=[
                    ast.If(test=s.test.values[1], body=copy.deepcopy(s.body), orelse=s.orelse)])
                n += 1
    return n


def r_and_nest(fn):
    n = 0
    for x, f, b in list(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and \
                    not s.orelse:
                v = s.test.values
                b[i] = ast.If(test=v[0], body=[ast.If(
                    test=v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:]), body=s.body, orelse=[])],
                    orelse=[])
                n += 1
    return n


def r_demorgan(fn):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp):
            op = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
            x.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[
                ast.UnaryOp(op=ast.Not(), operand=v) for v in x.test.values]))
            n += 1
    return n


def free_vars(nodes):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def r_extract(fn, mod, rp, pick=0):
    """Extract the tail of the function in a module-level helper."""
    if len(fn.body) < 2 or any(isinstance(x, (ast.Nonlocal, ast.Global, ast.Yield, ast.YieldFrom))
                               for x in ast.walk(fn)) or any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals')
            for x in ast.walk(fn)) or any(
            isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(fn)):
        return 0
    k = max(1, len(fn.body) // 2) if pick == 0 else len(fn.body) - 1
    tail = fn.body[k:]
    assigned = set()
    a = fn.args
    assigned |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
        x.arg for x in (a.vararg, a.kwarg) if x}
    for s in fn.body[:k]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned.add(x.id)
            if isinstance(x, (ast.FunctionDef,)):
                assigned.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for y in x.names:
                    assigned.add((y.asname or y.name).split('.')[0])
    # only the names that are certainly bound
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    sure = set(params)
    for s in fn.body[:k]:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        sure.add(x.id)
        if isinstance(s, ast.FunctionDef):
            sure.add(s.name)
    need = sorted((free_vars(tail)) & assigned)
    if any(v not in sure for v in need):
        # also bound in both branches: accept when simple
        return 0
    name = f'_helper_{fn.name}_{Tmp.n}'
    Tmp.n += 1
    h = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in need],
                                                      kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=tail, decorator_list=[], type_params=[])
    fn.body = fn.body[:k] + [ast.Return(value=ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[
        ast.Name(id=v, ctx=ast.Load()) for v in need], keywords=[]))]
    ast.fix_missing_locations(h)
    mod.funcs[name] = h
    rp._fun[f'{mod.name}.{name}'] = Func(mod, h)
    return 1


def r_extract_last(fn, mod, rp):
    return r_extract(fn, mod, rp, 1)


def r_swap(fn):
    """Swap adjacent independent assignments of simple names."""
    n = 0
    for x, f, b in list(bodies(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) for y in (s, t)):
                ns, nt = s.targets[0].id, t.targets[0].id
                fs, ft = free_vars([s.value]), free_vars([t.value])
                calls = any(isinstance(y, ast.Call) for z in (s, t) for y in ast.walk(z.value))
                if ns != nt and ns not in ft and nt not in fs and not calls:
                    b[i], b[i + 1] = t, s
                    n += 1
                    i += 1
            i += 1
    return n


def r_for_index(fn):
    """for x in S -> for i, x in enumerate(S)"""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and not (isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'enumerate'):
            i = fresh()
            x.target = ast.Tuple(elts=[ast.Name(id=i, ctx=ast.Store()), x.target], ctx=ast.Store())
            x.iter = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[x.iter], keywords=[])
            n += 1
    return n


def r_range_len(fn):
    """for i, x in enumerate(S) -> for i in range(len(S)): x = S[i]  (S a name)"""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and \
                x.iter.func.id == 'enumerate' and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Name) \
                and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name):
            s = x.iter.args[0]
            i, t = x.target.elts
            x.target = i
            x.iter = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Call(
                func=ast.Name(id='len', ctx=ast.Load()), args=[s], keywords=[])], keywords=[])
            x.body.insert(0, ast.Assign(targets=[t], value=ast.Subscript(
                value=s, slice=ast.Name(id=i.id, ctx=ast.Load()), ctx=ast.Load())))
            n += 1
    return n


def r_while(fn):
    """for i in range(n) -> while loop"""
    n = 0
    for x, f, b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and \
                    not s.orelse and not any(isinstance(y, (ast.Continue, ast.Break)) for y in ast.walk(s)):
                i, t = s.target.id, fresh()
                out.append(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=s.iter.args[0]))
                out.append(ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=ast.Constant(value=0)))
                out.append(ast.While(test=ast.Compare(left=ast.Name(id=i, ctx=ast.Load()), ops=[ast.Lt()], comparators=[
                    ast.Name(id=t, ctx=ast.Load())]), body=s.body + [ast.AugAssign(
                        target=ast.Name(id=i, ctx=ast.Store()), op=ast.Add(), value=ast.Constant(value=1))], orelse=[]))
                n += 1
            else:
                out.append(s)
        b[:] = out
    return n


def r_continue(fn):
    """for: if c: X (whole body) -> for: if not c: continue; X"""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For,)) and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            s = x.body[0]
            x.body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Continue()], orelse=[])] + s.body
            n += 1
    return n


def r_method(fn):
    """a.shape[0] <-> len(a): skipped"""
    return 0


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


def main():
    pats = sys.argv[1:]
    c = pyspec.check()
    rp = c.actual
    stat = collections.Counter()
    for q in sorted(c.syms):
        if pats and not any(p in q for p in pats):
            continue
        f, k = c.func(rp, q)
        if f is None or f.qual.rstrip('=') != q.rstrip('='):
            continue
        base = f.node
        if c.verdict(q)[0] != 'equal':
            continue
        for name, tr in ALL.items():
            node = copy.deepcopy(base)
            n = tr(node, f.mod, rp) if name.startswith('extract') else tr(node)
            if not n:
                continue
            ast.fix_missing_locations(node)
            f.node = node
            sav_c, sav_m = dict(c._cache), dict(c._cmp)
            c._cache = {k2: v for k2, v in c._cache.items() if k2[0] == 's'}
            c._cmp = {}
            c._verdict = {}
            try:
                v, d = c.verdict(q)
            except Exception as e:
                v, d = 'EXC', [f'{type(e).__name__} {e}']
            stat[name, v] += 1
            if v not in ('equal',):
                print(v, name, q)
                for x in list(d)[:3]:
                    print('      ', x.text()[:600] if hasattr(x, 'text') else x)
            f.node = base
            c._cache, c._cmp = sav_c, sav_m
    tot = collections.Counter()
    for (n, v), m in sorted(stat.items()):
        print(n, v, m)
        tot[v] += m
    print(tot)


if __name__ == '__main__':
    main()
