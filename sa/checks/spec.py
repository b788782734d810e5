"""Comparison with the reference definitions, restricted to what a property is about."""
import os

from .. import pyspec, pyt, tags
from ..ctx import REPO
from ..pyt import walk

RELEASE = {'close', 'Free', 'Disconnect', 'flush', 'Close', 'open', 'Open', '__exit__'}
COPIES = {'copy', 'astype', 'array', 'deepcopy'}


def root(t):
    while t.op in ('attr', 'index', 'view', 'viewstore') and isinstance(t.a[0], pyt.T):
        t = t.a[0]
    return t


def names(t):
    out = set()
    for x in walk(t):
        if x.op == 'glob':
            out.add(x.a[0].rsplit('.', 1)[-1])
        elif x.op == 'meth':
            out.add(str(x.a[1]))
    return out


def terms(d):
    return [x for x in (d.a, d.b) if isinstance(x, pyt.T)]


def is_raise(d):
    return any(x.op == 'raise' for x in terms(d))


def is_argstate(d):
    """Final contents of an argument (other than self), or a copy made on one side only."""
    if d.kind == 'state' and d.loc is not None:
        r = root(d.loc)
        if r.op == 'arg' and r.a[0] not in ('self', 'out', 'output', '**kw'):
            return True
    n = [names(x) & COPIES for x in terms(d)]
    if len(n) == 2 and n[0] != n[1]:
        return True
    for x in terms(d):
        if x.op == 'kwarg' and x.a[0] == 'copy':
            return True
    return False


def is_history(d):
    if d.kind == 'state' and d.loc is not None and pyspec.on_class(d.loc):
        return True
    if d.kind == 'decorator' and any('cache' in pyt.show(x) for x in terms(d)):
        return True
    if d.kind in ('default', 'memory'):
        return True
    return False


def is_release(d):
    return any(names(x) & RELEASE for x in terms(d))


def is_unbound(d):
    return isinstance(d.a, pyt.T) and any(x.op == 'undefined' for x in walk(d.a))


FACETS = {'P07': is_argstate, 'P08': is_history, 'P16': is_release, 'P17': is_unbound, 'P23': is_raise}


def compare(rep, prop, rule='definition'):
    """Add to the report the definite differences that concern the property."""
    c = pyspec.check()
    facet = FACETS.get(prop)
    mods, classes = set(), set()
    for q in sorted(c.spec.spec_quals):
        full = tags.tagged(prop, q)
        if not full and facet is None:
            continue
        verdict, d = c.verdict(q)
        if full:
            k, n = q.rsplit('.', 1)
            if k in c.spec.spec_classes:
                classes.add(k)
                mods.add(c.spec.spec_classes[k].mod.name)
            else:
                mods.add(k)
        rep.count('functions compared with their definition')
        if verdict == 'equal':
            continue
        if verdict == 'open':
            rep.unresolved.append(f'{q}: ' + '; '.join(str(x)[:200] for x in d[:2]))
            continue
        if not full:
            d = [x for x in d if facet(x)]
            if not d:
                continue
        f, _ = c.func(c.actual, q)
        file = line = None
        if f is not None:
            file, line = os.path.relpath(f.mod.path, REPO), f.node.lineno
        rep.add(rule, q, '; '.join(x.text() for x in d[:3]), file, line)
    for k in sorted(classes):
        for x in c.class_diffs(k):
            rep.count('class attributes differing')
            if x.definite:
                rep.add('class definition', f'{k} {x.what}', x.text())
            else:
                rep.unresolved.append(x.text())
    rep.count('classes compared with their definition', len(classes))
    for m in sorted(mods):
        for x in c.module_diffs(m):
            if x.definite:
                rep.add('module definition', x.what, x.text())
            else:
                rep.unresolved.append(x.text())
    if 'value-graph comparison' not in rep.explanation:
        rep.explanation += (
            ' value-graph comparison: each function is value-numbered symbolically (no execution, no '
            'solver) and its outcome, final state and effects are compared with those of the reviewed '
            'reference definition in specs/; a difference is a violation only if both terms are built '
            'from the vocabulary of the definition.')
