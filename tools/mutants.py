"""Self-test: how many small syntactic changes does the comparison report?

python tools/mutants.py [pattern...] [-v]   prints the verdict of every mutant.
"""
import ast
import collections
import copy
import random
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import pyspec  # noqa

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def docless(fn):
    for i, x in enumerate(fn.body):
        if i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            continue
        yield x


def nodes(fn):
    out = []
    for s in docless(fn):
        for x in ast.walk(s):
            out.append(x)
    return out


def mutants(fn):
    """(name, line, mutated copy)"""
    ns = nodes(fn)
    idx = {id(x): i for i, x in enumerate(ns)}

    def dup():
        f = copy.deepcopy(fn)
        return f, nodes(f)
    for i, x in enumerate(ns):
        l = getattr(x, 'lineno', 0)
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMP:
            f, m = dup()
            m[i].ops[0] = CMP[type(x.ops[0])]()
            yield 'cmp', l, f
        elif isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in BIN:
            if isinstance(getattr(x, 'left', None), (ast.JoinedStr, ast.Constant)) and isinstance(
                    getattr(x.left, 'value', ''), str):
                continue
            f, m = dup()
            m[i].op = BIN[type(x.op)]()
            yield 'binop', l, f
        elif isinstance(x, ast.BoolOp):
            f, m = dup()
            m[i].op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield 'bool', l, f
            f, m = dup()
            m[i].values.pop()
            yield 'boolpop', l, f
        elif isinstance(x, ast.Constant) and type(x.value) in (int, float):
            f, m = dup()
            m[i].value = x.value + 1
            yield 'const', l, f
        elif isinstance(x, ast.Constant) and type(x.value) is bool:
            f, m = dup()
            m[i].value = not x.value
            yield 'boolconst', l, f
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
            f, m = dup()
            m[i].op = ast.UAdd() if isinstance(x.op, ast.USub) else x.op
            if isinstance(x.op, ast.Not):
                m[i].operand = ast.UnaryOp(op=ast.Not(), operand=m[i].operand)
            yield 'unary', l, f
        elif isinstance(x, ast.Call):
            for j in range(len(x.keywords)):
                f, m = dup()
                del m[i].keywords[j]
                yield 'kwdrop', l, f
            if len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                f, m = dup()
                m[i].args[0], m[i].args[1] = m[i].args[1], m[i].args[0]
                yield 'argswap', l, f
                f, m = dup()
                m[i].args.pop()
                yield 'argdrop', l, f
            if isinstance(x.func, ast.Attribute) and x.func.attr in ('copy', 'view', 'ravel', 'reshape') or \
                    isinstance(x.func, ast.Attribute) and x.func.attr in ('array', 'asarray', 'asanyarray') and x.args:
                f, m = dup()
                v = m[i].func.value if x.func.attr in ('copy', 'view', 'ravel', 'reshape') else m[i].args[0]
                for p in ast.walk(f):
                    for fld, val in ast.iter_fields(p):
                        if val is m[i]:
                            setattr(p, fld, v)
                        elif isinstance(val, list) and any(y is m[i] for y in val):
                            val[[y is m[i] for y in val].index(True)] = v
                yield 'unwrap', l, f
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr == 'T':
            pass
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Pass, ast.Raise, ast.Import, ast.ImportFrom)):
                        continue
                    f, m = dup()
                    getattr(m[i], fld)[j] = ast.Pass()
                    yield 'stmt', s.lineno, f
    body = list(docless(fn))
    for s in body:
        if isinstance(s, (ast.Pass, ast.Raise, ast.Import, ast.ImportFrom)):
            continue
        f = copy.deepcopy(fn)
        f.body[fn.body.index(s)] = ast.Pass()
        yield 'stmt', s.lineno, f


def main():
    v_ = '-v' in sys.argv
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    step = 1
    for a in sys.argv:
        if a.startswith('-n'):
            step = int(a[2:])
        if a.startswith('-j'):
            return parallel(int(a[2:]))
    part, of = next((map(int, a[2:].split('/')) for a in sys.argv if a.startswith('-p')), (0, 1))
    c = pyspec.check()
    rp = c.actual
    stat = collections.Counter()
    k0 = 0
    for q in sorted(c.syms):
        if pats and not any(p in q for p in pats):
            continue
        f, k = c.func(rp, q)
        if f is None or f.qual.rstrip('=') != q.rstrip('=') or c.verdict(q)[0] != 'equal':
            continue
        base = f.node
        for name, line, node in mutants(base):
            k0 += 1
            if k0 % step or k0 // step % of != part:
                continue
            ast.fix_missing_locations(node)
            f.node = node
            sc, sm = dict(c._cache), dict(c._cmp)
            c._cache = {k2: v for k2, v in c._cache.items() if k2[0] == 's'}
            c._cmp = {}
            c._verdict = {}
            t0 = time.time()
            try:
                v, d = c.verdict(q)
            except Exception as e:
                v, d = 'EXC', [f'{type(e).__name__} {e}']
            stat[name, v] += 1
            if time.time() - t0 > 4 and '-t' in sys.argv:
                print('slow', round(time.time() - t0), name, q, line, v, file=sys.stderr, flush=True)
            if v in ('open', 'EXC') or v == 'equal' and v_:
                print(v, name, q, line, '|', ast.unparse(diffline(base, node))[:150].replace('\n', ' '))
                for x in list(d)[:2]:
                    print('      ', (x.text() if hasattr(x, 'text') else str(x))[:300])
            f.node = base
            c._cache, c._cmp = sc, sm
    tot = collections.Counter()
    for (n, v), m in sorted(stat.items()):
        print(n, v, m)
        tot[v] += m
    print(tot)


def parallel(n):
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if not a.startswith('-j')]
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda i: subprocess.run(
            [sys.executable, sys.argv[0], *args, f'-p{i}/{n}'], capture_output=True, text=True).stdout, range(n)))
    tot = collections.Counter()
    body = []
    for o in outs:
        l = o.splitlines()
        for k, v in eval(l[-1].replace('Counter', '')).items():
            tot[k] += v
        body += [x for x in l[:-1] if len(x.split()) != 3]
    blocks, cur = [], []
    for x in body:
        if x.startswith(' '):
            cur.append(x)
        else:
            cur = [x]
            blocks.append(cur)
    for b in sorted(blocks, key=lambda b: (b[0].split(' ')[2], b[0])):
        print('\n'.join(b))
    print(tot)


def diffline(a, b):
    x = ast.unparse(a).split('\n')
    y = ast.unparse(b).split('\n')
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return ast.Expr(ast.Name(id=f'{p.strip()} --> {q.strip()}', ctx=ast.Load()))
    return ast.Expr(ast.Name(id='?', ctx=ast.Load()))


if __name__ == '__main__':
    main()
