"""Shared context of the checks: repository location and parsed sources."""
import functools
import os

REPO = os.environ.get('PYSIM_REPO', '/repo')


@functools.lru_cache(None)
def fortran():
    from .fortran import Program
    return Program(REPO)


@functools.lru_cache(None)
def engines():
    """Engine of each procedure after its run."""
    from .feng import Engine
    prog = fortran()
    out = []
    for p in prog.procs():
        e = Engine(prog, p)
        e.run()
        out.append((p, e))
    return out
