#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/spec.py."""

import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / 'tools'))
import spec

na = dict(spec.NOT_APPLICABLE)
lines, checks = [], []
for p in sorted(spec.PROPERTIES, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]},
    }))
    if p['id'] not in na:
        cmd = 'python3 check.py {} --tier '.format(p['id'])
        checks.append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
(ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
(ROOT / 'MANIFEST.json').write_text(json.dumps({
    'version': 1, 'setup_cmd': 'python3 -m compileall -q psa check.py', 'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in spec.NOT_APPLICABLE],
    'notes': 'Static analysis of /repo by the abstract interpreter in psa/; nothing of /repo is imported or run.',
}, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
