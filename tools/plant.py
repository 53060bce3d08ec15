#!/usr/bin/env python3
"""Development driver for the planted changes in seeded/.

plant.py make ID EDITS.py   write seeded/ID/patch.diff from a list of textual edits, then verify it
plant.py verify ID...       confirm in a scratch copy of /repo: applies, tests pass, demo 0 without / nonzero with
plant.py catch ID...        run the check of its property on a scratch copy with the change
EDITS.py defines EDITS = [(path, old, new), ...], PROPERTY, NEEDS, BREAKS and DEMO (shell) or DEMO_PY (python).
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / 'seeded'
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = Path(tempfile.mkdtemp(prefix='plant'))
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run('git -C /repo archive HEAD | tar x -C {}'.format(d / '.'), shell=True, check=True)
    subprocess.run(['git', 'init', '-q'], cwd=d, check=True)
    subprocess.run(['git', 'add', '-A', '-f'], cwd=d, check=True)
    subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x'], cwd=d, check=True)
    return d


def tests(d):
    r = subprocess.run([PY, '-m', 'pytest', 'unit-test', '-q', '-p', 'no:cacheprovider', '-rA'], cwd=d,
                       capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=str(d)))
    return {l.split(' - ')[0] for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))}


def demo(d, folder):
    return subprocess.run(['bash', str(folder / 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300)


def verify(i):
    d = copy()
    try:
        folder = SEEDED / i
        r0 = demo(d, folder)
        base = tests(d)
        subprocess.run(['git', 'apply', str(folder / 'patch.diff')], cwd=d, check=True)
        failed = tests(d) - base
        r1 = demo(d, folder)
        ok = r0.returncode == 0 and r1.returncode != 0 and not failed
        print(i, 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, sorted(failed))
        if not ok:
            print(r0.stdout[-600:], r0.stderr[-900:], '---', r1.stdout[-300:], r1.stderr[-300:])
        else:
            print('   ', (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        return ok
    finally:
        shutil.rmtree(d)


def catch(i):
    d = copy()
    try:
        folder = SEEDED / i
        meta = json.loads((folder / 'meta.json').read_text())
        subprocess.run(['git', 'apply', str(folder / 'patch.diff')], cwd=d, check=True)
        r = subprocess.run([sys.executable, str(ROOT / 'check.py'), meta['property']], cwd=ROOT, capture_output=True,
                           text=True, env=dict(os.environ, PSA_REPO=str(d), PSA_OUT=str(d)))
        print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout
              else 'missed (rc %d)' % r.returncode)
        for l in r.stdout.splitlines()[:4]:
            print('   ', l[:220])
        if r.returncode > 1:
            print(r.stderr[-500:])
    finally:
        shutil.rmtree(d)


def make(i, edits):
    e = runpy.run_path(edits)
    folder = SEEDED / i
    d = copy()
    try:
        for path, old, new in e['EDITS']:
            f = d / path
            text = f.read_text()
            assert text.count(old) == 1, (path, text.count(old), old)
            f.write_text(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    base = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.split()
    base = os.environ.get('PSA_BASE') or base[0]
    for path, old, new in e['EDITS']:
        original = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + path], capture_output=True, text=True).stdout
        lines = original.splitlines()
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in lines:
                print('   not a line of the original repository:', l)
    folder.mkdir(parents=True, exist_ok=True)
    (folder / 'patch.diff').write_text(diff)
    (folder / 'demo.sh').write_text(e.get('DEMO', DEMO))
    if 'DEMO_PY' in e:
        (folder / 'demo.py').write_text(e['DEMO_PY'].lstrip('\n'))
    (folder / 'meta.json').write_text(json.dumps(
        {'property': e['PROPERTY'], 'needs': e['NEEDS'], 'what_it_breaks': e['BREAKS']}, indent=1) + '\n')
    return verify(i)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        if make(*args):
            catch(args[0])
    else:
        for i in args or sorted(p.name for p in SEEDED.iterdir()):
            globals()[cmd](i)
