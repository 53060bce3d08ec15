#!/usr/bin/env python3
"""Write psa/data/names.txt: the names defined by the libraries the package uses (run with its Python).

A line is a name, followed by libraries when only the modules importing one of them may meet it.
"""
import importlib
import re
import sys
from pathlib import Path

LIBS = 'numpy lxml ezdxf matplotlib reportlab sympy yaml rtree astunparse IntervalArithmetic'.split()
#: the parts of the larger ones whose objects any module may meet
PARTS = {'ezdxf': ('entities', 'layouts', 'document.py', 'math', 'colors.py'), 'sympy': ('core',), 'reportlab': ('pdfgen', 'lib'),
         'matplotlib': ('axes', 'figure', 'patches', 'lines', 'path', 'pyplot', 'text', 'artist', 'axis', 'colors', 'transforms'),
         'numpy': ('_core', 'lib', 'linalg', '__init__.pyi', 'ma', 'polynomial')}
STD = ('logging math pathlib enum typing os sys datetime threading argparse traceback subprocess re platform operator '
       'itertools inspect functools copy colorsys collections ast io string abc contextlib dataclasses json random time '
       'statistics bisect heapq weakref types textwrap shutil tempfile zipfile xml fractions decimal numbers hashlib').split()


def good(n):
    return n.isidentifier() and n.isascii() and not n.startswith('__') and len(n) > 1


anywhere, wide = set(), {}
for lib in LIBS + STD:
    m = importlib.import_module(lib)
    for x in [m] + [v for v in vars(m).values() if isinstance(v, type)]:
        anywhere |= set(dir(x))
    f = getattr(m, '__file__', None)
    if f is None:
        continue
    f = Path(f)
    files = [f] if f.name != '__init__.py' else [p for e in ('py', 'pyi') for p in f.parent.rglob('*.' + e)
                                                  if 'test' not in str(p.relative_to(f.parent))]
    for p in files:
        if p.suffix not in ('.py', '.pyi'):
            continue
        r = str(p.relative_to(f.parent)).split('/')[0]
        into = anywhere
        if lib in PARTS and not any(r == x or r.rsplit('.', 1)[0] == x for x in PARTS[lib]):
            into = wide.setdefault(lib, set())
        s = p.read_text(errors='replace')
        for r in (r'\bdef\s+(\w+)', r'\bclass\s+(\w+)', r'\bself\.(\w+)\s*=', r'^\s+(\w+)\s*[:=][^=]'):
            into.update(re.findall(r, s, re.M))
import lxml.etree
import numpy
for mod in (lxml.etree, numpy.linalg, numpy.ma, numpy.random):
    for v in vars(mod).values():
        anywhere |= set(dir(v))
lines = {n: '' for n in anywhere if good(n)}
for lib in sorted(wide):
    for n in wide[lib] - anywhere:
        if good(n):
            lines[n] = lines.get(n, '') + ' ' + lib
Path(sys.argv[1]).write_text(''.join(n + lines[n] + '\n' for n in sorted(lines)))
print(len(lines), len(anywhere))
