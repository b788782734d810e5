"""Command line: python -m sa.run P01 [P02 ...] | all."""
import importlib
import os
import sys
import traceback

CHECKS = {
    'P01': 'p01', 'P02': 'p02', 'P03': 'p03', 'P04': 'p04', 'P05': 'generic', 'P06': 'generic',
    'P07': 'generic', 'P08': 'generic', 'P09': 'generic', 'P10': 'generic', 'P11': 'generic',
    'P12': 'generic', 'P13': 'generic', 'P14': 'generic', 'P15': 'p15', 'P16': 'generic',
    'P17': 'p17', 'P18': 'generic', 'P19': 'generic', 'P23': 'generic',
}


def main(argv):
    ids = sorted(CHECKS) if argv == ['all'] else argv
    rc = 0
    for p in ids:
        try:
            mod = importlib.import_module('sa.checks.' + CHECKS[p])
            r = mod.run(p)
        except Exception:
            traceback.print_exc()
            print(f'{p}: analysis broken')
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':       # the same answer at every run
        os.execve(sys.executable, [sys.executable, '-m', 'sa.run', *sys.argv[1:]],
                  dict(os.environ, PYTHONHASHSEED='0'))
    sys.exit(main(sys.argv[1:]))
