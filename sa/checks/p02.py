"""Re-entrancy of the routines that run without the interpreter lock."""
from ..ctx import fortran
from ..feng import INTRINSICS
from ..fortran import Module, walk, show
from ..race import family
from ..report import AnalysisError, Report

STATEFUL = {'random_number', 'random_seed', 'random_init', 'date_and_time', 'system_clock',
            'cpu_time', 'get_environment_variable', 'rand', 'irand', 'srand'}


def exprs(s):
    """Expression tuples held by a statement node (not by its child statements)."""
    for k, v in s.__dict__.items():
        if k in ('kind', 'line', 'label'):
            continue
        yield from _tuples(v)


def _tuples(v):
    if isinstance(v, tuple):
        yield v
    elif isinstance(v, list):
        for x in v:
            if hasattr(x, 'kind') and hasattr(x, 'line'):
                continue
            yield from _tuples(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from _tuples(x)


def idents(e):
    """Identifiers evaluated by an expression (component names excluded)."""
    if isinstance(e, (list,)):
        for x in e:
            yield from idents(x)
        return
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == 'name' and len(e) > 1 and isinstance(e[1], str):
        yield e[1]
        return
    if e[0] == 'mem':
        yield from idents(e[1])
        return
    for x in e:
        if isinstance(x, (tuple, list)):
            yield from idents(x)


def uses(p):
    """(name, line) of every identifier mentioned in the body of p."""
    for s in walk(p.body):
        if s.kind == 'call':
            yield s.__dict__.get('name') or s.__dict__.get('proc'), s.line
        for v in exprs(s):
            for n in idents(v):
                yield n, s.line
    for d in p.decls.values():
        for x in (d.dims or []), (d.init or ()):
            for n in idents(x if isinstance(x, tuple) else tuple(y for y in x if isinstance(y, tuple))):
                yield n, d.line


def run(prop):
    rep = Report(prop)
    rep.explanation = (
        'For each routine that f2py compiles with "threadsafe" (interpreter lock released), the '
        'closure of the procedures reachable from it by calls and function references is computed '
        'over the resolved program. Obligation for each identifier used in the closure: it is not a '
        'module variable that is not a constant, a COMMON or EQUIVALENCE member, a local with SAVE '
        'or with an initial value (implicit SAVE), nor a stateful intrinsic; local variables are '
        'then fresh in each call.')
    rep.assumptions = ['gfortran places non-SAVE locals of these procedures on the stack or heap '
                       'per call (-frecursive or automatic storage; the build uses -fopenmp, which '
                       'implies -frecursive)']
    prog = fortran()
    if prog.errors:
        raise AnalysisError(str(prog.errors[:3]))
    roots = [p for p in prog.procs() if p.threadsafe]
    for r in roots:
        rep.count('lock-free routines')
        rep.sample(f'{r.module.name}.{r.name}')
        todo, seen = [(r, (r.name,))], {id(r)}
        while todo:
            p, chain = todo.pop()
            rep.count('procedures in closures')
            for n, line in uses(p):
                if n is None:
                    continue
                n = n.lower()
                rep.count('identifier uses')
                v = prog.lookup_var(p, n)
                if v is not None:
                    check_var(rep, prog, r, p, n, v, line, chain)
                    if n in p.decls and not is_func_decl(p, n):
                        continue
                ts = prog.lookup_proc(p, n)
                if ts:
                    for t in ts:
                        if id(t) not in seen:
                            seen.add(id(t))
                            todo.append((t, chain + (t.name,)))
                elif v is None and n in STATEFUL:
                    rep.add('stateful-intrinsic', f'{r.module.name}.{family(r.name)}:{n}',
                            f'{p.name} calls {n}, which keeps state between calls '
                            f'(reached through {" -> ".join(chain)})', p.file, line)
    rep.require('lock-free routines', 3)
    rep.require('identifier uses', 100)
    return rep.finish()


def is_func_decl(p, n):
    d = p.decls[n]
    return 'external' in (d.attrs or ()) or False


def check_var(rep, prog, root, p, n, v, line, chain):
    scope, d = v
    attrs = set(d.attrs or ())
    if 'parameter' in attrs:
        return
    c = f'{root.module.name}.{family(root.name)}:{n}'
    via = f'reached through {" -> ".join(chain)}'
    if isinstance(scope, Module):
        rep.add('module-variable', c,
                f'{p.name} uses {n}, a variable of module {scope.name} shared by all calls ({via})',
                p.file, line)
        return
    if n in (scope.common or {}):
        rep.add('common', c, f'{p.name} uses {n}, a member of a COMMON block ({via})', p.file, line)
        return
    if n in scope.args or n == scope.result:
        return
    saved = {x for t, _ in scope.f2py if t.startswith('__save__') for x in t.split()[1:]}
    if 'save' in attrs or d.init is not None or n in saved or '*' in saved:
        rep.add('saved-local', c,
                f'{n} of {p.name} keeps its value between calls (SAVE or initialised at its '
                f'declaration) ({via})', p.file, d.line)
