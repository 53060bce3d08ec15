"""Resolution of names, attributes and calls over the syntax tree of a whole package.

Every module gets a table of the names it binds, every class the members its methods, its class body and the stores
through *self* give it (its own, those of its bases and those of its subclasses).  A load, an attribute or a call is
*checked* when its target is known and *open* when it is not (external base class, dynamic attributes, ``**kwargs``
at the call site, decorators that may change the signature): an open construct is never reported.
"""

import ast
import builtins
import enum
import os
import re
import sys
from pathlib import Path

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__',
                                 '__module__', '__qualname__', '__builtins__', '__annotations__'}
#: members of every object
OBJECT = set(dir(object)) | {'__dict__', '__class__', '__name__', '__module__', '__weakref__', '__qualname__'}
TYPE = set(dir(type))
PLAIN = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'abc.abstractmethod', 'override'}


ENUMS = {'enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag'}


class Class:
    def __init__(self, module, node, name):
        self.module = module
        self.node = node
        self.name = name
        self.bases = []         # Class
        self.subclasses = []    # Class
        self.open = False       # a base or a hook that is not known
        self.foreign = False    # among which a base, a metaclass or a decorator
        self.members = {}       # name -> definition node or None (assigned)
        self.stored = set()     # names stored through self or cls

    def __repr__(self):
        return '{}:{}'.format(self.module.relpath, self.name)

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.bases)
        return out

    def family(self):
        """The classes *self* may be an instance of or share its attributes with."""
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            todo.extend(c.subclasses)
        for c in list(out):
            for b in c.mro():
                if b not in out:
                    out.append(b)
        return out


class Scope:
    def __init__(self, kind, node, parent):
        self.kind = kind        # module, class, function
        self.node = node
        self.parent = parent
        self.names = set()
        self.dynamic = False


def _targets(t, names):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)


class Bindings(ast.NodeVisitor):
    """The names bound directly in one scope."""

    def __init__(self):
        self.names = set()
        self.free = set()
        self.star = []

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                _targets(x.target, self.names)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == '*':
                self.star.append(n)
            else:
                self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.free.update(n.names)

    visit_Nonlocal = visit_Global

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)


def bindings(body):
    b = Bindings()
    for s in body:
        b.visit(s)
    return b


class Module:
    def __init__(self, info):
        self.info = info
        self.name = info.name
        self.relpath = info.relpath
        self.tree = info.tree
        self.names = set()
        self.defs = {}          # name -> [ast or ('import', module, attribute)]
        self.open = False
        self.classes = {}       # qualified name -> Class


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        x = dotted(n.value)
        return x and x + '.' + n.attr
    return None


class Package:
    """All the modules, and what their names stand for."""

    def __init__(self, program):
        self.program = program
        self.modules = {}
        for info in program.own_modules():
            if info.tree is not None:
                self.modules[info.name] = Module(info)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            self._stars(m)
        self.classes = []
        for m in self.modules.values():
            self._classes(m)
        for c in self.classes:
            self._link(c)
        for c in self.classes:
            for b in c.bases:
                b.subclasses.append(c)

    # -- modules ------------------------------------------------------------------------------------------------

    def _scan(self, m):
        b = bindings(m.tree.body)
        m.names = set(b.names)
        m.stars = b.star
        todo = list(m.tree.body)
        while todo:
            s = todo.pop(0)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                m.defs.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.defs.setdefault(a.asname, []).append(('import', a.name, None))
                    else:
                        m.defs.setdefault(a.name.split('.')[0], []).append(('import', a.name.split('.')[0], None))
            elif isinstance(s, ast.ImportFrom):
                base = self.program.resolve_relative(m.info, s.level, s.module)
                for a in s.names:
                    m.defs.setdefault(a.asname or a.name, []).append(('import', base, a.name))
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    todo.extend(getattr(s, f, ()))
                for h in getattr(s, 'handlers', ()):
                    todo.extend(h.body)
                if isinstance(s, ast.For):
                    names = set()
                    _targets(s.target, names)
                    for n in names:
                        m.defs.setdefault(n, []).append(s)
            else:
                names = set()
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                for n in names:
                    m.defs.setdefault(n, []).append(s)
        for x in ast.walk(m.tree):
            # names stored as globals, dynamic module attributes
            if isinstance(x, ast.Global):
                m.names.update(x.names)
            if isinstance(x, ast.Call) and dotted(x.func) in ('globals', 'setattr', 'exec'):
                if dotted(x.func) == 'exec' and len(x.args) > 1 and isinstance(x.args[1], ast.Dict):
                    continue        # in names of its own
                if dotted(x.func) != 'setattr' or not x.args or self._may_be_module(m, x.args[0]):
                    m.open = True
        if '__getattr__' in m.names:
            m.open = True

    def _may_be_module(self, m, target):
        """The target of a setattr may be this module: found in sys.modules, or imported by its name."""
        names = {target.id} if isinstance(target, ast.Name) else set()
        values = [target]
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in s.targets):
                values.append(s.value)
        for v in values:
            for x in ast.walk(v):
                if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('import_module', '__import__'):
                    return True
                if isinstance(x, ast.Attribute) and dotted(x) == 'sys.modules':
                    return True
        return False

    def _stars(self, m):
        for n in m.stars:
            base = self.program.resolve_relative(m.info, n.level, n.module)
            if base in self.modules:
                m.names |= self.modules[base].names
                for k, v in self.modules[base].defs.items():
                    m.defs.setdefault(k, []).extend([('import', base, k)])
            else:
                m.open = True

    def lookup(self, m, name, seen=()):
        """What *name* stands for in module *m*: a Class, a function node, a Module, None when it is not known."""
        defs = m.defs.get(name)
        if not defs or len(defs) != 1 or (m.name, name) in seen:
            return None
        d = defs[0]
        if isinstance(d, ast.ClassDef):
            return m.classes.get(d.name)
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return (m, d)
        if isinstance(d, tuple):
            _, base, attr = d
            if attr is None:
                return self.modules.get(base)
            if base in self.modules:
                b = self.modules[base]
                if attr in b.defs:
                    x = self.lookup(b, attr, seen + ((m.name, name),))
                    return x
                return self.modules.get(base + '.' + attr)
        return None

    def resolve(self, m, expr, local=()):
        """What an expression of dotted names stands for."""
        if isinstance(expr, ast.Name):
            if expr.id in local:
                return None
            return self.lookup(m, expr.id)
        if isinstance(expr, ast.Attribute):
            v = self.resolve(m, expr.value, local)
            if isinstance(v, Module):
                if v.open:
                    return None
                if expr.attr in v.defs:
                    return self.lookup(v, expr.attr)
                return self.modules.get(v.name + '.' + expr.attr)
            if isinstance(v, Class):
                return v.module.classes.get(v.name + '.' + expr.attr)
        return None

    # -- classes ------------------------------------------------------------------------------------------------

    def _classes(self, m):
        def walk(body, prefix):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    c = Class(m, s, prefix + s.name)
                    if c.name in m.classes:
                        c.open = m.classes[c.name].open = True
                    m.classes[c.name] = c
                    self.classes.append(c)
                    walk(s.body, c.name + '.')
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        walk(getattr(s, f, ()), prefix)
                    for h in getattr(s, 'handlers', ()):
                        walk(h.body, prefix)
        walk(m.tree.body, '')

    def origin(self, m, expr):
        """The full name of something imported from out of the package."""
        if isinstance(expr, ast.Name):
            defs = m.defs.get(expr.id) or ()
            if len(defs) == 1 and isinstance(defs[0], tuple):
                _, module, attr = defs[0]
                return module + '.' + attr if attr else module
        elif isinstance(expr, ast.Attribute):
            base = self.origin(m, expr.value)
            return base and base + '.' + expr.attr
        return None

    def _link(self, c):
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            r = self.resolve(c.module, b)
            if isinstance(r, Class):
                c.bases.append(r)
            elif isinstance(b, ast.Name) and b.id in ('Exception', 'ValueError', 'NameError', 'TypeError', 'KeyError'):
                c.stored |= set(dir(getattr(builtins, b.id)))
            elif self.origin(c.module, b) in ENUMS:
                c.stored |= set(dir(enum.Enum)) | {'name', 'value', '_name_', '_value_'}
                c.foreign = True
            else:
                c.open = c.foreign = True
        for k in c.node.keywords:
            # the hooks of a metaclass may add members, those of the package name them by texts of the class body
            if not (k.arg == 'metaclass' and isinstance(self.resolve(c.module, k.value), Class)):
                c.open = c.foreign = True
        for s in c.node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        c.members.setdefault(x.value, None)
        for d in c.node.decorator_list:
            c.open = c.foreign = True
        b = bindings(c.node.body)
        for n in b.names:
            c.members[n] = None
        count = {}
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                count.setdefault(s.name, []).append(s)
        for n, fs in count.items():
            c.members[n] = fs[0] if len(fs) == 1 else fs
        if c.members.keys() & {'__getattr__', '__getattribute__', '__slots__'}:
            c.open = True
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if isinstance(x.value, ast.Name):
                    c.stored.add(x.attr)
            if isinstance(x, ast.Call):
                f = dotted(x.func)
                if f in ('setattr', 'object.__setattr__', 'type'):
                    if f != 'type' or len(x.args) == 3:
                        c.open = True
            if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                c.open = True


def external_stores(package):
    """Attributes stored on an object other than *self*: any class may get them."""
    out = set()
    for m in package.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                if not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    out.add(x.attr)
            elif isinstance(x, ast.Call) and dotted(x.func) in ('setattr', 'hasattr', 'getattr') and len(x.args) > 1:
                a = x.args[1]
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.add(a.value)
    return out


def dynamic_targets(package):
    """Classes given attributes from outside: ``setattr(Cls, name, ...)`` or passed to a function that does it."""
    out = set()
    for m in package.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and dotted(x.func) == 'setattr' and x.args:
                a = x.args[0]
                r = package.resolve(m, a)
                if isinstance(r, Class):
                    out.add(r)
    return out


class Signature:
    """What a call may pass to a function."""

    def __init__(self, node, bound):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.required = pos[:len(pos) - len(a.defaults)]
        self.positional = pos
        self.only = {x.arg for x in a.posonlyargs}
        if bound and self.positional:
            first = self.positional.pop(0)
            if first in self.required:
                self.required.remove(first)
        self.varargs = a.vararg is not None
        self.kwonly = {x.arg for x in a.kwonlyargs}
        self.kwrequired = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.kwargs = a.kwarg is not None

    def problem(self, call):
        """Why the arguments of the call are refused, None when they may be accepted."""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
        given = [k.arg for k in call.keywords if k.arg is not None]
        if not self.varargs and n > len(self.positional):
            return 'is given {} positional arguments and accepts {}'.format(n, len(self.positional))
        if not self.kwargs:
            for k in given:
                if k in self.only or (k not in self.positional and k not in self.kwonly):
                    return 'has no parameter {!r}'.format(k)
        if not star:
            for k in given:
                if k in self.positional[:n] and k not in self.only:
                    return 'is given {!r} twice'.format(k)
        if not dstar:
            if not star:
                for k in self.required[n:] if n <= len(self.required) else ():
                    if k not in given:
                        return 'is not given {!r}'.format(k)
            for k in self.kwrequired:
                if k not in given:
                    return 'is not given {!r}'.format(k)
        return None


def method_of(cls, name, skip=False):
    """The definition of a member along the bases; False when it is not a plain function."""
    for c in cls.mro()[1 if skip else 0:]:
        if name in c.stored:
            return False
        if name in c.members:
            f = c.members[name]
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return False
            return c, f
        if c.open:
            return False
    return None


def decorators(f):
    return [dotted(d) or '?' for d in f.decorator_list]


def private(name):
    return name.startswith('_') and not (name.startswith('__') and name.endswith('__'))


def reachable_names(package):
    """The names and attributes used by the code that users can reach: everything but the private functions which
    only private functions out of reach use."""
    uses = {}       # private function name -> what its bodies use
    texts = set()
    todo = []

    def collect(n, into):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) and private(c.name):
                inner = uses.setdefault(c.name, set())
                collect(c, inner)
                for d in c.decorator_list:
                    collect(d, into)
                continue
            if isinstance(c, ast.Name):
                into.add(c.id)
            elif isinstance(c, ast.Attribute):
                into.add(c.attr)
            elif isinstance(c, ast.Constant) and isinstance(c.value, str):
                texts.add(c.value)
            elif isinstance(c, ast.ImportFrom):
                into.update(a.name for a in c.names)
            collect(c, into)

    reach = set()
    for m in package.modules.values():
        collect(m.tree, reach)
    # names made of a text: getattr(self, '_on_' + kind)
    prefixes = set()
    for t in texts:
        if '\n' not in t:      # not a docstring
            prefixes.update(w for w in re.findall(r'(?<![A-Za-z0-9])_\w+', t) if w.strip('_'))
    todo = [n for n in uses if n in reach or any(n.startswith(p) for p in prefixes)]
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        reach.add(n)
        reach |= uses[n]
        todo.extend(x for x in uses[n] if x in uses and x not in seen)
    return reach


def external_names():
    """({name anything may have}, {library: names}): members of the libraries the package uses and of builtins."""
    common, wide = set(), {}
    for line in (Path(__file__).parent / 'data' / 'names.txt').read_text().splitlines():
        name, *libs = line.split()
        for lib in libs:
            wide.setdefault(lib, set()).add(name)
        if not libs:
            common.add(name)
    for v in vars(builtins).values():
        if isinstance(v, type):
            common |= set(dir(v))
    for t in (type(lambda: 0), type(builtins), type(x for x in ()), type([].append), type(Resolver.run)):
        common |= set(dir(t))
    return common, wide


class Names:
    """What the package defines, by name: used when the class of a receiver is not known."""

    def __init__(self, package):
        self.common, self.wide = external_names()
        self.defined = set()        # any member, store or global
        self.methods = {}           # name -> [(class, function)]
        self.other = set()          # names which stand for something else than a method in some place
        for m in package.modules.values():
            self.defined |= m.names | set(m.defs)
            self.other |= m.names | set(m.defs)
            for c in m.classes.values():
                for n, d in c.members.items():
                    self.defined.add(n)
                    if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                            not set(decorators(d)) - {'staticmethod', 'classmethod'}:
                        self.methods.setdefault(n, []).append((c, d))
                    else:
                        self.other.add(n)
                self.other |= c.stored
                self.defined |= c.stored
            doc = set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    self.defined.add(x.attr)
                    self.other.add(x.attr)
                elif isinstance(x, ast.Expr):
                    doc.add(id(x.value))
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in doc:
                    words = re.findall(r'\w+', x.value) if len(x.value) < 80 else ()
                    self.defined.update(words)
                    if x.value.isidentifier():
                        self.other.add(x.value)
                elif isinstance(x, ast.keyword) and x.arg:
                    self.defined.add(x.arg)

    def imported(self, m):
        """(libraries a module imports, True when they are all known)."""
        libs = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                libs |= {a.name.split('.')[0] for a in x.names}
            elif isinstance(x, ast.ImportFrom) and not x.level:
                libs.add((x.module or '').split('.')[0])
        libs.discard('Patro')
        return libs, all(l in self.wide or l in KNOWN_LIBRARIES or l in sys.stdlib_module_names for l in libs)


KNOWN_LIBRARIES = {'numpy', 'lxml', 'ezdxf', 'matplotlib', 'reportlab', 'sympy', 'yaml', 'rtree', 'astunparse',
                   'IntervalArithmetic'}


class Resolver:
    """Reports on every name, attribute and call that cannot succeed."""

    def __init__(self, package):
        self.package = package
        self.outside = external_stores(package)
        self.findings = []      # (kind, where, message, line)
        self.counts = {}
        self._fields = {}
        for c in dynamic_targets(package):
            c.open = True

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def report(self, kind, message, node):
        self.findings.append((kind, self.where, message, getattr(node, 'lineno', 0)))

    def run(self):
        self.reachable = reachable_names(self.package)
        self.names = Names(self.package)
        for m in self.package.modules.values():
            self.module = m
            libs, known = self.names.imported(m)
            self.external = set(self.names.common)
            for l in libs:
                self.external |= self.names.wide.get(l, set())
            self.by_name = known and not m.open
            self.where = m.relpath
            broken = len(self.findings)
            self.order(m)
            if len(self.findings) > broken:
                continue        # the module cannot be imported
            self.imports(m)
            s = Scope('module', m.tree, None)
            s.names = m.names
            s.dynamic = m.open
            self.scope_body(m.tree.body, s, None, None)
        return self

    # -- imports ------------------------------------------------------------------------------------------------

    def imports(self, m):
        package = self.package
        guarded = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try) and any(
                    h.type is None or {'ImportError', 'ModuleNotFoundError', 'Exception'} & set(
                        dotted(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))
                    for h in x.handlers):
                for s in x.body:
                    guarded.update(id(y) for y in ast.walk(s))
        for x in ast.walk(m.tree):
            if id(x) in guarded:
                continue
            if isinstance(x, ast.ImportFrom):
                base = package.program.resolve_relative(m.info, x.level, x.module)
                if base.split('.')[0] not in self.roots():
                    continue
                self.count('imports')
                b = package.modules.get(base)
                if b is None:
                    if not self.namespace(base):
                        self.report('import', 'imports {} which does not exist'.format(base), x)
                        continue
                for a in x.names:
                    if a.name == '*' or base + '.' + a.name in package.modules or self.namespace(base + '.' + a.name):
                        continue
                    if b is None or (a.name not in b.names and not b.open):
                        self.report('import', 'imports {} which {} does not define'.format(a.name, base), x)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split('.')[0] in self.roots():
                        self.count('imports')
                        if a.name not in package.modules and not self.namespace(a.name):
                            self.report('import', 'imports {} which does not exist'.format(a.name), x)

    def roots(self):
        return {n.split('.')[0] for n in self.package.modules}

    def namespace(self, name):
        if any(n.startswith(name + '.') for n in self.package.modules):
            return True
        # the directory of a Qt resource holds a module made by the resource compiler
        path = os.path.join(self.package.program.repo, *name.split('.'))
        for p in (path, os.path.dirname(path)):
            if os.path.isdir(p) and any(x.endswith('.qrc') for x in os.listdir(p)):
                return True
        return False

    # -- order --------------------------------------------------------------------------------------------------

    def order(self, m):
        """Names the module uses while it is imported are defined before."""
        future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and
                     any(a.name == 'annotations' for a in s.names) for s in m.tree.body)
        if m.open:
            return

        def loads(e, seen, scope):
            if e is None:
                return
            if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                return
            if isinstance(e, ast.Name):
                if isinstance(e.ctx, ast.Load):
                    self.count('names used at import')
                    if not any(e.id in s for s in seen) and e.id not in BUILTINS:
                        if e.id in m.names:
                            self.report('order', 'the name {} is used before it is defined'.format(e.id), e)
                        elif scope:
                            self.report('name', 'the name {} is not defined'.format(e.id), e)
                return
            for c in ast.iter_child_nodes(e):
                loads(c, seen, scope)

        def block(body, seen):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                        loads(d, seen, False)
                    if not future:
                        a = s.args
                        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                            if x is not None:
                                loads(x.annotation, seen, False)
                        loads(s.returns, seen, False)
                    seen[-1].add(s.name)
                elif isinstance(s, ast.ClassDef):
                    for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                        loads(d, seen, False)
                    where = self.where
                    self.where = (where + '.' if ':' in where else where + ':') + s.name
                    block(s.body, seen + [set()])
                    self.where = where
                    seen[-1].add(s.name)
                elif isinstance(s, (ast.If, ast.While)):
                    loads(s.test, seen, False)
                    block(s.body, seen)
                    block(s.orelse, seen)
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    loads(s.iter, seen, False)
                    _targets(s.target, seen[-1])
                    block(s.body, seen)
                    block(s.orelse, seen)
                elif isinstance(s, ast.Try):
                    for b in (s.body, *[h.body for h in s.handlers], s.orelse, s.finalbody):
                        block(b, seen)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        loads(i.context_expr, seen, False)
                        if i.optional_vars is not None:
                            _targets(i.optional_vars, seen[-1])
                    block(s.body, seen)
                else:
                    if isinstance(s, ast.AnnAssign):
                        if not future:
                            loads(s.annotation, seen, False)
                        loads(s.value, seen, False)
                    elif isinstance(s, ast.AugAssign):
                        loads(s.value, seen, False)
                    else:
                        loads(s, seen, False)
                    b = bindings([s])
                    seen[-1] |= b.names
        block(m.tree.body, [set()])

    # -- names --------------------------------------------------------------------------------------------------

    def bound(self, name, scope):
        first = True
        while scope is not None:
            if scope.dynamic:
                return True
            # the names of a class are not seen from its methods
            if (scope.kind != 'class' or first) and name in scope.names:
                return True
            first = False
            scope = scope.parent
        return name in BUILTINS

    def scope_body(self, body, scope, cls, func):
        for s in body:
            self.visit(s, scope, cls, func)

    def function(self, n, scope, cls):
        for d in getattr(n, 'decorator_list', ()):
            self.visit(d, scope, cls, None)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d, scope, cls, None)
        s = Scope('function', n, scope)
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                s.names.add(x.arg)
        body = [n.body] if isinstance(n, ast.Lambda) else n.body
        b = bindings([ast.Expr(n.body)] if isinstance(n, ast.Lambda) else n.body)
        s.names |= b.names - b.free
        where = self.where
        if not isinstance(n, ast.Lambda):
            self.where = (where + '.' if ':' in where else where + ':') + n.name
        self.scope_body(body, s, cls, n)
        self.where = where

    def visit(self, n, scope, cls, func):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if private(n.name) and n.name not in self.reachable:
                self.count('functions out of reach')
                return
            self.count('functions')
            method = scope.kind == 'class'
            if method:
                names = decorators(n)
                first = n.args.args[0].arg if n.args.args else None
                kind = None
                if 'staticmethod' not in names and first is not None:
                    kind = 'cls' if 'classmethod' in names or n.name in ('__new__', '__init_subclass__') else 'self'
                self.function(n, scope, (cls, first, kind) if cls is not None and kind else None)
            else:
                # a nested function sees the receiver of the enclosing method unless it rebinds it
                keep = cls
                if keep is not None and not isinstance(keep, Class):
                    a = n.args
                    if keep[1] in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
                        keep = None
                self.function(n, scope, keep if scope.kind == 'function' else None)
            return
        if isinstance(n, ast.Lambda):
            keep = cls if not isinstance(cls, Class) else None
            if keep is not None and keep[1] in {x.arg for x in n.args.args}:
                keep = None
            self.function(n, scope, keep)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases:
                self.visit(d, scope, cls, func)
            for k in n.keywords:
                self.visit(k.value, scope, cls, func)
            c = None
            if scope.kind in ('module', 'class'):
                q = (cls.name + '.' if isinstance(cls, Class) else '') + n.name
                c = self.module.classes.get(q)
            s = Scope('class', n, scope)
            s.names = bindings(n.body).names
            where = self.where
            self.where = (where + '.' if ':' in where else where + ':') + n.name
            self.scope_body(n.body, s, c, None)
            self.where = where
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # the first iterable belongs to the enclosing scope, names of a class excepted
            s = Scope('function', n, scope)
            for g in n.generators:
                _targets(g.target, s.names)
            self.visit(n.generators[0].iter, scope, cls, func)
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, s, cls, func)
                for x in g.ifs:
                    self.visit(x, s, cls, func)
            for f in ('elt', 'key', 'value'):
                x = getattr(n, f, None)
                if x is not None:
                    self.visit(x, s, cls, func)
            return
        if isinstance(n, ast.AnnAssign):
            self.visit(n.target, scope, cls, func)
            if n.value is not None:
                self.visit(n.value, scope, cls, func)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.count('names')
                if not self.bound(n.id, scope):
                    self.report('name', 'the name {} is not defined'.format(n.id), n)
            return
        if isinstance(n, ast.Try):
            # a name or attribute whose absence is handled
            caught = set()
            for h in n.handlers:
                if h.type is None:
                    caught |= {'NameError', 'AttributeError', 'TypeError'}
                else:
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        caught.add(dotted(t))
            if caught & {'NameError', 'AttributeError', 'TypeError', 'Exception', 'BaseException'}:
                before = len(self.findings)
                self.scope_body(n.body, scope, cls, func)
                del self.findings[before:]
            else:
                self.scope_body(n.body, scope, cls, func)
            for h in n.handlers:
                self.visit(h, scope, cls, func)
            self.scope_body(n.orelse, scope, cls, func)
            self.scope_body(n.finalbody, scope, cls, func)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, scope, cls)
        if isinstance(n, ast.Call):
            self.call(n, scope, cls)
        for c in ast.iter_child_nodes(n):
            self.visit(c, scope, cls, func)

    # -- attributes ---------------------------------------------------------------------------------------------

    def local(self, scope):
        out = set()
        while scope is not None and scope.kind != 'module':
            if scope.kind == 'function':
                out |= scope.names
            scope = scope.parent
        return out

    def has(self, cls, name):
        """True when an instance (or the class) may have the attribute."""
        for c in cls.family():
            if c.open or name in c.members or name in c.stored or c.name + '.' + name in c.module.classes:
                return True
        return name in self.outside

    def receiver(self, n, cls, scope):
        """(class, 'self' or 'cls') when the node is the receiver of the method being visited."""
        if isinstance(cls, tuple) and isinstance(n, ast.Name) and n.id == cls[1]:
            # not rebound in the function
            s = scope
            while s is not None and s.kind == 'function':
                if not isinstance(s.node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    for x in ast.walk(s.node):
                        if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store):
                            return None
                s = s.parent
            return cls[0], cls[2]
        return None

    def fields(self, cls):
        """{attribute: values stored through self by the family of the class, None when some are not known}."""
        out = self._fields.get(cls)
        if out is not None:
            return out
        out = self._fields[cls] = {}
        for c in cls.family():
            for f in ast.walk(c.node):
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for x in ast.walk(f):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                                out.setdefault(t.attr, []).append((c, f, x.value))
                            else:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                        out.setdefault(y.attr, []).append(None)
                    elif isinstance(x, ast.AnnAssign):
                        if isinstance(x.target, ast.Attribute) and x.value is not None:
                            out.setdefault(x.target.attr, []).append((c, f, x.value))
                    elif isinstance(x, (ast.For, ast.With, ast.AugAssign, ast.Delete, ast.NamedExpr)):
                        for y in ast.walk(x.target if hasattr(x, 'target') else
                                          ast.Tuple([i.optional_vars for i in x.items if i.optional_vars], ast.Store())
                                          if isinstance(x, ast.With) else ast.Tuple([], ast.Load())):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                out.setdefault(y.attr, []).append(None)
        return out

    def made(self, module, call, local):
        """The class whose constructor the expression calls."""
        if not isinstance(call, ast.Call):
            return None
        v = self.package.resolve(module, call.func, local)
        if isinstance(v, Class) and not any(c.open for c in v.mro()) and method_of(v, '__new__') is None:
            return v
        return None

    def instance(self, n, scope, cls):
        """The class of the object an expression stands for."""
        if isinstance(n, ast.Call):
            return self.made(self.module, n, self.local(scope))
        if isinstance(n, ast.Name):
            s = scope
            while s is not None and not (s.kind == 'function' and n.id in s.names):
                s = s.parent
            if s is None or isinstance(s.node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                return None
            a = s.node.args
            if n.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None}:
                return None
            value = None
            for x in ast.walk(s.node):
                if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                    value = False if value is not None else True
            if value is not True or n.id in bindings(s.node.body).free:
                return None
            for x in ast.walk(s.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                        and x.targets[0].id == n.id:
                    return self.made(self.module, x.value, self.local(s))
            return None
        if isinstance(n, ast.Attribute):
            r = self.receiver(n.value, cls, scope)
            if r is None or r[1] != 'self' or n.attr in self.outside:
                return None
            for c in r[0].family():
                if c.open or n.attr in c.members:
                    return None
            found = None
            for x in self.fields(r[0]).get(n.attr, [None]):
                if x is None:
                    return None
                c, f, value = x
                if isinstance(value, ast.Constant) and value.value is None:
                    continue
                v = self.made(c.module, value, bindings(f.body).names)
                if v is None or found not in (None, v):
                    return None
                found = v
            return found
        return None

    def attribute(self, n, scope, cls):
        if not isinstance(n.ctx, ast.Load):
            return
        made = self.instance(n.value, scope, cls)
        if made is not None:
            if n.attr in OBJECT:
                return
            self.count('attributes of constructed objects')
            if not self.has(made, n.attr):
                self.report('attribute', '{} has no attribute {}'.format(made.name, n.attr), n)
            elif any(x.open for x in made.family()):
                self.anything(n)
            return
        r = self.receiver(n.value, cls, scope)
        if r is not None:
            c, kind = r
            if n.attr in OBJECT or (kind == 'cls' and n.attr in TYPE):
                return
            self.count('attributes')
            if not self.has(c, n.attr):
                self.report('attribute', '{} has no attribute {}'.format(c.name, n.attr), n)
            elif any(x.open for x in c.family()):
                self.anything(n)
            return
        v = self.package.resolve(self.module, n.value, self.local(scope))
        if isinstance(v, Module):
            self.count('attributes')
            if not v.open and n.attr not in v.names and v.name + '.' + n.attr not in self.package.modules \
                    and not n.attr.startswith('__'):
                self.report('attribute', 'the module {} has no attribute {}'.format(v.name, n.attr), n)
        elif isinstance(v, Class):
            if n.attr in TYPE or n.attr in OBJECT:
                return
            self.count('attributes')
            for c in v.mro():
                if c.open or n.attr in c.members or n.attr in c.stored:
                    return
            if n.attr not in self.outside:
                self.report('attribute', 'the class {} has no attribute {}'.format(v.name, n.attr), n)
        elif v is None and not self.library(n.value, scope):
            self.anything(n)

    def anything(self, n):
        """The attribute of an object of unknown class, or of a class with unknown attributes."""
        if self.by_name and len(n.attr) > 1 and not n.attr.startswith('__') and n.attr not in self.external:
            self.count('attributes of other objects')
            if n.attr not in self.names.defined:
                self.report('attribute', 'nothing has an attribute {}'.format(n.attr), n)

    def library(self, n, scope):
        """The expression comes from a module which is not of the package."""
        while isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
            n = n.func if isinstance(n, ast.Call) else n.value
        if not isinstance(n, ast.Name) or n.id in self.local(scope):
            return False
        for d in self.module.defs.get(n.id, ()):
            if isinstance(d, tuple) and d[0] == 'import':
                if d[1] not in self.package.modules:
                    return True
            elif not isinstance(d, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                return True
        return n.id not in self.module.defs

    # -- calls --------------------------------------------------------------------------------------------------

    def call(self, n, scope, cls):
        f = n.func
        target = None       # (name, function node, bound)
        if isinstance(f, ast.Attribute):
            r = self.receiver(f.value, cls, scope)
            if r is not None:
                c, kind = r
                target = self.method(c, f.attr, kind)
                if target:
                    # the receiver may be of a subclass
                    self.overrides(c, f.attr, kind, n)
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and not f.value.args and isinstance(cls, tuple):
                # the next class depends on the class of the instance
                c = cls[0]
                if not self.mixed(c):
                    target = self.method(c, f.attr, cls[2], skip=True)
                    if target is None and not any(x.open for x in c.mro()) and f.attr not in OBJECT:
                        self.count('calls')
                        self.report('call', 'no base of {} has the method {}'.format(c.name, f.attr), n)
            elif self.instance(f.value, scope, cls) is not None:
                target = self.method(self.instance(f.value, scope, cls), f.attr, 'self')
            else:
                v = self.package.resolve(self.module, f, self.local(scope))
                target = self.callee(v)
                if target is None:
                    w = self.package.resolve(self.module, f.value, self.local(scope))
                    if isinstance(w, Class):
                        target = self.method(w, f.attr, 'class')
        elif isinstance(f, ast.Name):
            r = self.receiver(f, cls, scope)
            if r is not None and r[1] == 'cls':
                target = self.constructor(r[0]) if not r[0].subclasses else None
            else:
                target = self.callee(self.package.resolve(self.module, f, self.local(scope)))
        if target is None:
            if isinstance(f, ast.Attribute):
                self.some_method(n, scope, cls)
            return
        name, node, bound = target
        self.count('calls')
        p = Signature(node, bound).problem(n)
        if p:
            self.report('call', '{} {}'.format(name, p), n)

    def some_method(self, n, scope, cls):
        """A method of an object of unknown class: one of the methods of this name must accept the arguments."""
        f = n.func
        name = f.attr
        found = self.names.methods.get(name)
        if not found or not self.by_name or name in self.external or name in self.names.other \
                or name in self.names.defined and name in self.outside or self.receiver(f.value, cls, scope) is not None \
                or self.library(f.value, scope) or (name.startswith('__') and name.endswith('__')):
            return
        v = self.package.resolve(self.module, f.value, self.local(scope))
        if v is not None or isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super':
            return
        self.count('calls of a method of an object')
        problems = []
        for c, d in found:
            p = Signature(d, 'staticmethod' not in decorators(d)).problem(n)
            if p is None:
                return
            problems.append('{}.{} {}'.format(c.name, name, p))
        self.report('call', problems[0], n)

    def mixed(self, c):
        """A class another class inherits from together with others: its super() is not its own base."""
        todo = [c]
        while todo:
            x = todo.pop()
            for s in x.subclasses:
                if len(s.bases) > 1 or s.open:
                    return True
                todo.append(s)
        return False

    def overrides(self, c, name, kind, n):
        todo = list(c.subclasses)
        while todo:
            s = todo.pop()
            todo.extend(s.subclasses)
            if name in s.members:
                target = self.method(s, name, kind)
                if target is not None:
                    self.count('calls of overridden methods')
                    p = Signature(target[1], target[2]).problem(n)
                    if p:
                        self.report('call', '{} {}'.format(target[0], p), n)

    def callee(self, v):
        if isinstance(v, Class):
            return self.constructor(v)
        if isinstance(v, tuple):
            m, node = v
            if node.decorator_list:
                return None
            return node.name, node, False
        return None

    def constructor(self, c):
        if any(x.foreign for x in c.mro()):
            return None
        r = None
        for x in c.mro():
            if '__new__' in x.members:
                return None
            if '__init__' in x.members and r is None:
                r = x, x.members['__init__']
        if r is None or not isinstance(r[1], ast.FunctionDef):
            return None
        if r[1].decorator_list:
            return None
        return c.name, r[1], True

    def method(self, c, name, kind, skip=False):
        r = method_of(c, name, skip)
        if not r:
            return None
        k, f = r
        names = decorators(f)
        if set(names) - {'staticmethod', 'classmethod'}:
            return None
        if kind == 'class' or kind == 'cls':
            # through the class: a plain function is not bound
            if 'classmethod' in names:
                bound = True
            elif 'staticmethod' in names:
                bound = False
            else:
                bound = False
        else:
            bound = 'staticmethod' not in names
        return '{}.{}'.format(k.name, name), f, bound
