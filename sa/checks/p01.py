from ..ctx import fortran
from ..feng import Engine
from ..race import check_proc
from ..report import AnalysisError, Report


def run(prop):
    rep = Report(prop)
    rep.explanation = (
        'Every OpenMP region of the rendered Fortran sources (templates expanded for all type '
        'combinations), with the repository procedures called in it inlined, is interpreted once '
        'abstractly. Obligations: each shared variable written in a region is written atomically, '
        'in a critical section, through a reduction, or at subscripts that are injective in the '
        'parallel loop index; critical/atomic protection covers every access; private variables '
        'and pointers are defined in the iteration before use; nothing private is live out.')
    rep.assumptions = [
        'distinct dummy arguments do not overlap (Fortran rule)',
        'integer subscripts do not overflow',
        'module data of external libraries (wcslib wrapper) is not touched in regions']
    prog = fortran()
    if prog.errors:
        raise AnalysisError(str(prog.errors[:3]))
    procs = list(prog.procs())
    for p in procs:
        check_proc(prog, p, rep, Engine)
    rep.count('procedures', len(procs))
    rep.require('procedures', 180)
    rep.require('parallel regions', 120)
    rep.require('shared variables written in parallel', 120)
    return rep.finish()
