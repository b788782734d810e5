"""One-off helper: copy the package without docstrings and comments, as a starting point for specs/."""
import ast, os, sys
src, dst = sys.argv[1:3]
for d, _, fs in os.walk(src):
    for f in fs:
        if not f.endswith('.py'):
            continue
        p = os.path.join(d, f)
        t = ast.parse(open(p).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body:
                b = n.body
                if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                    n.body = b[1:] or [ast.Pass()]
        q = os.path.join(dst, os.path.relpath(p, src))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, 'w').write(ast.unparse(t) + '\n')
