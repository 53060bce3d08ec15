"""Findings, known findings and evidence."""

import json
import os
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
KNOWN = ROOT / 'known-findings.txt'
EVIDENCE = Path(os.environ.get('PSA_OUT') or str(ROOT)) / 'evidence'


def known_findings(prop):
    """{key: text} of the recorded, unrepaired findings of one property."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text(encoding='utf-8').splitlines():
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, text = line[len('known:'):].partition('::')
            fields = head.split('key=', 1)
            p = fields[0].strip()
            if p == 'property=' + prop:
                out[fields[1].strip()] = text.strip()
    return out


class Report:
    """What one check analysed and what it found."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.rule = ''
        self.t0 = time.time()

    def violation(self, rule, construct, message, **detail):
        """*construct*: file:qualified name (or call path) the violation is reported on."""
        key = '{} {} {}'.format(rule, construct, message)
        if key not in self.violations:
            self.violations[key] = dict(rule=rule, construct=construct, message=message, **detail)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def expect(self, name, minimum):
        """A check that no longer sees its subject gives no verdict."""
        from .program import AnalysisBroken
        if self.counts.get(name, 0) < minimum and not self.violations:
            raise AnalysisBroken('{}: only {} {} (at least {} expected)'.format(
                self.prop, self.counts.get(name, 0), name, minimum))

    def finish(self, seed):
        known = known_findings(self.prop)
        EVIDENCE.mkdir(exist_ok=True)
        replay_dir = EVIDENCE / 'replay'
        new, listed = [], []
        for key, v in sorted(self.violations.items()):
            (listed if key in known else new).append((key, v))
        for key, v in listed:
            print('KNOWN-FINDING: property={} {} ({})'.format(self.prop, known[key], key))
        stale = [k for k in known if k not in self.violations]
        for k in stale:
            self.notes.append('listed finding no longer present: ' + k)
        replay = None
        if new:
            replay_dir.mkdir(exist_ok=True)
            replay = replay_dir / (self.prop + '.json')
            replay.write_text(json.dumps([dict(v, key=k) for k, v in new], indent=1, default=str) + '\n')
            for key, v in new[:40]:
                print('{}: {}: {}{}'.format(v['rule'], v['construct'], v['message'],
                                            ' (line {})'.format(v['line']) if v.get('line') else ''))
                for p in v.get('path', ())[:6]:
                    print('    ' + str(p))
        evidence = {
            'property': self.prop, 'tier': self.tier, 'seed': seed, 'level': 'other',
            'coverage': dict({
                'explanation': self.rule, 'analysed': self.counts, 'samples': self.samples,
                'known_findings_present': len(listed)}),
            'wall_s': round(time.time() - self.t0, 2),
        }
        if self.notes:
            evidence['coverage']['notes'] = self.notes
        if self.assumptions:
            evidence['assumptions'] = self.assumptions
        evidence['violations'] = len(new)
        (EVIDENCE / (self.prop + '.json')).write_text(json.dumps(evidence, indent=1, default=str) + '\n')
        if new:
            print('VIOLATION property={} replay={}'.format(self.prop, replay))
            return 1
        print('{}: held on {}'.format(self.prop, ', '.join('{} {}'.format(n, k) for k, n in self.counts.items())))
        return 0
