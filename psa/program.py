"""Program model: the modules, classes and functions of the analysed tree.

Everything here is read from the source text with :mod:`ast`; nothing of the analysed tree is imported.
"""

import ast
import hashlib
import os
import sys

from . import desugar

REPO = os.environ.get('PSA_REPO', '/repo')

# Pure Python dependency whose source is part of the analysed program (mutating interval operators).
_EXTRA_SEARCH = [
    '/opt/venv/lib/python3.12/site-packages',
    '/opt/venv/lib/python3.11/site-packages',
    '/opt/venv/lib/python3.10/site-packages',
]
EXTRA_PACKAGES = ('IntervalArithmetic',)


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: the check cannot answer."""


class FuncInfo:
    __slots__ = ('name', 'node', 'module', 'cls', 'qualname', 'is_generator', 'locals', 'kind')

    def __init__(self, node, module, cls=None, outer=''):
        self.node = node
        self.name = getattr(node, 'name', '<lambda>')
        self.module = module
        self.cls = cls
        prefix = (cls.name + '.') if cls is not None else outer
        self.qualname = prefix + self.name
        self.is_generator = False if isinstance(node, ast.Lambda) else _has_yield(node)
        self.locals = None

    def __repr__(self):
        return '<F {}:{}>'.format(self.module.name, self.qualname)

    @property
    def where(self):
        return '{}:{}'.format(self.module.relpath, self.qualname)


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class ModuleInfo:
    __slots__ = ('name', 'path', 'relpath', 'tree', 'source', 'is_package', 'syntax_error')

    def __init__(self, name, path, relpath, is_package):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_package = is_package
        with open(path, 'rb') as f:
            self.source = f.read()
        self.syntax_error = None
        try:
            self.tree = desugar.parse(self.source, path)
        except SyntaxError as e:
            self.tree = None
            self.syntax_error = e

    def __repr__(self):
        return '<M {}>'.format(self.name)


class Program:

    def __init__(self, repo=None, packages=('Patro',), standins=()):
        self.repo = repo or REPO
        self.modules = {}
        for package in packages:
            root = os.path.join(self.repo, package)
            if not os.path.isdir(root):
                raise AnalysisBroken('package {} not found in {}'.format(package, self.repo))
            self._scan(self.repo, root)
        self.extra = set()
        seeds = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds')
        for filename in sorted(os.listdir(seeds)):
            if filename.endswith('.py'):
                name = 'psa_seeds.' + filename[:-3]
                self.modules[name] = ModuleInfo(name, os.path.join(seeds, filename), 'seeds/' + filename, False)
                self.extra.add(name)
        # external libraries replaced by a small model
        standin = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standins')
        for name in tuple(standins) + ('psa_std',):
            path = os.path.join(standin, name.replace('.', '_') + '.py')
            self.modules[name] = ModuleInfo(name, path, 'standins/' + os.path.basename(path), '.' not in name)
            self.extra.add(name)
        for package in EXTRA_PACKAGES:
            for base in _EXTRA_SEARCH:
                path = os.path.join(base, package, '__init__.py')
                if os.path.exists(path):
                    self.modules[package] = ModuleInfo(package, path, package + '/__init__.py', True)
                    self.extra.add(package)
                    break

    def _scan(self, base, root):
        for dirpath, dirnames, filenames in os.walk(root):
            dirnames.sort()
            if '__pycache__' in dirnames:
                dirnames.remove('__pycache__')
            for filename in sorted(filenames):
                if not filename.endswith('.py'):
                    continue
                path = os.path.join(dirpath, filename)
                rel = os.path.relpath(path, base)
                parts = rel[:-3].split(os.sep)
                is_package = parts[-1] == '__init__'
                if is_package:
                    parts = parts[:-1]
                if not all(p.isidentifier() for p in parts):
                    continue
                name = '.'.join(parts)
                self.modules[name] = ModuleInfo(name, path, rel, is_package)

    def own_modules(self):
        return [m for n, m in sorted(self.modules.items()) if n not in self.extra]

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.modules):
            h.update(n.encode())
            h.update(self.modules[n].source)
        return h.hexdigest()[:16]

    def resolve_relative(self, module, level, target):
        """Absolute module name of a (possibly relative) import."""
        if level == 0:
            return target or ''
        parts = module.name.split('.')
        if not module.is_package:
            parts = parts[:-1]
        drop = level - 1
        if drop:
            parts = parts[:-drop] if drop < len(parts) else []
        if target:
            parts = parts + target.split('.')
        return '.'.join(parts)


_LOCALS_CACHE = {}


def function_locals(node):
    """Names bound in the function body (its local variables, parameters included)."""
    key = id(node)
    hit = _LOCALS_CACHE.get(key)
    if hit is not None and hit[0] is node:
        return hit[1]
    names = set()
    a = node.args
    for arg in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(arg.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    declared = set()

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # walrus inside a comprehension binds in the function
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    targets(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for item in n.items:
                if item.optional_vars is not None:
                    targets(item.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for alias in n.names:
                names.add((alias.asname or alias.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            declared.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if not isinstance(node, ast.Lambda):
        for stmt in node.body:
            walk(stmt)
    result = names - declared
    _LOCALS_CACHE[key] = (node, result)
    return result
