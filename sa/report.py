"""Findings, known findings, evidence and exit codes."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class AnalysisError(Exception):
    pass


class Finding:
    def __init__(self, rule, construct, message, file=None, line=None):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.file = file
        self.line = line

    @property
    def key(self):
        return f'{self.rule}|{self.construct}'


class Report:
    def __init__(self, prop, level='other'):
        self.prop = prop
        self.level = level
        self.findings = []
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ''
        self.t0 = time.time()
        self.counts = {}
        self.unresolved = []

    def add(self, rule, construct, message, file=None, line=None):
        if any(f.key == f'{rule}|{construct}' for f in self.findings):
            return
        self.findings.append(Finding(rule, construct, message, file, line))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def require(self, name, minimum):
        """Instance counts below what was confirmed by hand: broken analysis."""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError(
                f'{self.prop}: only {self.counts.get(name, 0)} {name}, expected at least {minimum}')

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known: '):
                    # known: property=P01 key=<rule>|<construct> -- text
                    head, _, text = line[7:].partition(' -- ')
                    p, _, k = head.partition(' ')
                    if p == f'property={self.prop}' and k.startswith('key='):
                        out[k[4:].strip()] = text
        return out

    def finish(self):
        known = self.known()
        new = []
        for f in self.findings:
            if f.key in known:
                print(f'KNOWN-FINDING: property={self.prop} {f.key}: {known[f.key]}')
            else:
                new.append(f)
        ev = {
            'property': self.prop,
            'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': {
                'explanation': self.explanation,
                'counts': self.counts,
                'samples': self.samples,
                'unresolved': self.unresolved[:40],
                'unresolved_count': len(self.unresolved),
                **self.coverage,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        if ev['coverage'].get('unresolved_count') == 0:
            ev['coverage'].pop('unresolved')
        if ev['tier'] not in ('quick', 'thorough'):
            ev['tier'] = 'quick'
        d = os.environ.get('PYSIM_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, v in sorted(self.counts.items()):
            print(f'{self.prop}: {k} = {v}')
        if self.unresolved:
            print(f'{self.prop}: unresolved = {len(self.unresolved)}')
        replay = os.path.join(d, f'{self.prop}.violations.json')
        if new:
            with open(replay, 'w') as f:
                json.dump([dict(rule=x.rule, construct=x.construct, message=x.message,
                                file=x.file, line=x.line, key=x.key) for x in new],
                          f, indent=1)
            for x in new:
                loc = f'{x.file}:{x.line}' if x.file else ''
                print(f'  {loc} [{x.rule}] {x.construct}: {x.message}')
                print(f'VIOLATION property={self.prop} replay={replay}')
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        print(f'{self.prop}: ok ({ev["wall_s"]} s)')
        return 0
