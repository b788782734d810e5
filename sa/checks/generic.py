"""Properties decided by comparison with the reference definitions only."""
from . import spec
from ..report import Report

MIN = {'P05': 60, 'P06': 18, 'P09': 40, 'P10': 40, 'P11': 70, 'P12': 20, 'P13': 30, 'P14': 40, 'P18': 45,
       'P19': 20}


def run(prop):
    rep = Report(prop)
    spec.compare(rep, prop)
    rep.require('functions compared with their definition', MIN.get(prop, 250))
    return rep.finish()
