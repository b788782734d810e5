"""Behaviour-preserving edits written by hand: every check must stay quiet on each of them.

usage: hand_refactors.py [pattern ...]    (edits in tools/hand/*.py: R = [(id, file, [(old, new), ...]), ...])
"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYSIM_REPO', '/repo')
PY = '/opt/venv/bin/python'


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/hand/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        out += [(os.path.basename(f)[:-3] + '.' + i, a, b) for i, a, b in ns['R']]
    return out


def edit(s, old, new):
    """Replace the only occurrence of old, up to blank lines (None: not one)."""
    if s.count(old) == 1:
        return s.replace(old, new)
    ls = [re.escape(x) for x in old.split('\n') if x.strip()]
    m = list(re.finditer(r'\n(?:[ \t]*\n)*'.join(ls), s))
    if len(m) != 1:
        return None
    return s[:m[0].start()] + new.rstrip('\n') + s[m[0].end():]


def one(r, tests=False):
    i, f, edits = r
    d = tempfile.mkdtemp(prefix='hr')
    try:
        shutil.copytree(REPO + '/src', d + '/src', ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        for e in edits:
            g, o, n = e if len(e) == 3 else (f,) + tuple(e)
            p = f'{d}/src/pysimulators/{g}'
            s = open(p).read()
            s2 = edit(s, o, n)
            if s2 is None:
                return i, f'EDIT matches {s.count(o)} times: {o[:60]!r}'
            open(p, 'w').write(s2)
        env = dict(os.environ, PYSIM_REPO=d, PYSIM_EVIDENCE=d + '/ev')
        r1 = subprocess.run([PY, '-m', 'sa.pyspec'], cwd=HERE + '/..', env=env, capture_output=True, text=True)
        r2 = subprocess.run([PY, '-m', 'sa.run', 'all'], cwd=HERE + '/..', env=env, capture_output=True, text=True)
        bad = [x for x in r1.stdout.splitlines() if not x.startswith("{'equal'") or 'open' in x or 'diff' in x]
        vio = [x for x in r2.stdout.splitlines() if 'VIOLATION' in x]
        # anything but "all equal" deserves a look; only the violations and the breakages are failures
        st = 'ALARM' if vio or r2.returncode else ('open' if bad else 'quiet')
        if r2.returncode and not vio:
            bad += r2.stderr.splitlines()[-4:] + [x for x in r2.stdout.splitlines() if 'ok (' not in x and ' = ' not in x][:6]
        return i, st + ' ' + ' '.join(v.split()[1] for v in vio) + ('\n    ' + '\n    '.join(x[:600] for x in bad[:6]) if bad else '')
    finally:
        shutil.rmtree(d)


def main():
    rs = [r for r in load() if not sys.argv[1:] or any(p in r[0] for p in sys.argv[1:])]
    n = {}
    with ThreadPoolExecutor(6) as ex:
        for i, s in ex.map(one, rs):
            k = s.split()[0]
            n[k] = n.get(k, 0) + 1
            if k != 'quiet':
                print(i, s)
    print(n)


if __name__ == '__main__':
    main()
