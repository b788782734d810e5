"""Write MANIFEST.json: claimed checks and not-applicable properties."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

CHECKS = {
    'P01': ('OpenMP data-race analysis: abstract interpretation of the rendered Fortran AST with '
            'inlining; ownership of every shared access by injectivity of its subscripts',
            'Every parallel region of every generated routine; trusted: no dummy-argument '
            'aliasing, no integer overflow in subscripts. Non-affine subscripts are reported '
            'only when they can be shown not to be injective.'),
    'P02': ('call-graph closure of the lock-free routines over the resolved Fortran program; '
            'storage-class query on every identifier used',
            'Every "threadsafe" routine. Trusted: external C/Fortran libraries are not reached '
            '(no unresolved call is in the closures today); -fopenmp implies recursive locals.'),
    'P03': ('path-fact obligations (guard before subscript, no hidden valid index, jump target) at '
            'every use of an element index in the Fortran kernels',
            'Every load of an element index in every generated kernel. Index values are only '
            'compared with constants in the guards; guards in another form are unresolved.'),
    'P04': ('symbolic reduction of the kernels to coefficient tables compared with the tables '
            'that the storage formats define; affine range check of the element loops',
            'Every matrix-vector kernel of every type combination. Kernels rewritten in a form '
            'that does not reduce to products of single loads are unresolved, not judged.'),
    'P15': ('forward definedness dataflow (with branch-correlated facts) over the Fortran '
            'procedures, per-iteration and extent coverage of output arrays',
            'Every procedure. Arrays are defined once an element is, except for outputs filled '
            'by loops over their index; optional outputs and error-status returns are exempt.'),
}

VG = ('symbolic value numbering of the Python functions (abstract syntax to normalised value graph, no '
      'execution, no solver) compared with reviewed reference definitions')
VN = ('Every function, class attribute and module table concerned; a difference that may be an identity '
      'outside the normal form is unresolved, not judged. An intended change of a definition needs the '
      'reference definition to be updated.')
for _p in ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P16', 'P17', 'P18', 'P19', 'P23'):
    CHECKS.setdefault(_p, (VG, VN))

NOT_BUILT = 'static check not built (yet)'
NA = {
    'P20': 'quantifies over real-valued polygon intersections; exactness of the areas is a '
           'numerical property of runtime geometry, with no structural necessary condition '
           'beyond those already claimed under P01, P03 and P15',
    'P21': 'a statement about the distribution of random draws',
    'P22': 'numerical integrals evaluated by healpy and by the kernels at runtime',
}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        if p in CHECKS:
            tech, note = CHECKS[p]
            cmd = f'{PY} -m sa.run {p}'
            checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, technique=tech,
                               level='other', level_note=note))
        else:
            na.append(dict(property=p, reason=NA.get(p, NOT_BUILT)))
    m = dict(version=1, setup_cmd=f'{PY} -c "import sa.run"', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
