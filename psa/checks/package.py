"""Checks of the whole package over its syntax trees: resolution, effects, shared state."""

import ast

from . import check
from ..domain import Domain
from ..effects import MUTATING, Effects, is_query
from ..program import AnalysisBroken, ModuleInfo, Program
from ..resolve import Class, Package, Resolver, bindings, decorators, dotted, private, reachable_names

#: modules needing a display or a network are analysed too: nothing is imported

SELF_TEST = {
    'resolve': ('''
from Patro.selftest import nothing
import collections
class A:
    def __init__(self, x, y=1):
        self._x = x
    def f(self, a, *, b):
        return self._missing + undefined_name
    def g(self):
        return self.f(1, 2)
class B(A):
    def h(self):
        a = A(1, 2, 3)
        a.nothing()
        super().no_such(1)
        return A(z=1)
def early(x=late()):
    return x
def late():
    return 1
''', {'imports nothing', 'no attribute _missing', 'undefined_name', 'A.f is given', 'A is given 3', 'no attribute nothing',
      'no method', "has no parameter 'z'"}),
    'order': ('''
class A:
    def f(self, other: A):
        return late
late = 1
''', {'used before'}),
}


class Text:
    """A module given as a text."""
    name = 'Patro.selftest'
    relpath = 'Patro/selftest.py'
    is_package = False
    syntax_error = None

    def __init__(self, text):
        self.source = text.encode()
        self.tree = ast.parse(text)


class TextProgram:
    repo = '/nonexistent'

    def __init__(self, text):
        self.info = Text(text)

    def own_modules(self):
        return [self.info]

    def resolve_relative(self, module, level, target):
        return target or ''


def package(rep):
    p = Program()
    for m in p.own_modules():
        if m.syntax_error is not None:
            rep.violation('syntax', m.relpath, str(m.syntax_error))
    k = Package(p)
    rep.count('modules', len(k.modules))
    rep.count('classes', len(k.classes))
    return k

DOMAIN_TEST = '''
import math
class A:
    def bad(self, a, b):
        return math.sqrt(a - b)
    def bad_acos(self, a, b):
        return math.acos(a.dot(b) / (abs(a) * abs(b)))
    def bad_log(self, a, b):
        d = a*a - b
        if d > 0:
            return 0
        return math.log(d)
    def good(self, a, b):
        d = a*a - b*b
        if d < 0:
            return None
        return math.sqrt(d)
    def good_norm(self, a, b):
        return math.sqrt(a*a + 2*b*b*3 + abs(a - b))
    def good_clamp(self, a, b):
        return math.acos(max(-1, min(1, a.dot(b))))
    def good_predicate(self, a, b):
        if self.crosses(a, b):
            return math.sqrt(a - b)
    def crosses(self, a, b):
        return a >= b
    def good_helper(self, a, b):
        if a > b:
            return self._root(a, b)
    def _root(self, x, y):
        return math.sqrt(x - y)
    def good_try(self, a, b):
        try:
            return math.sqrt(a - b)
        except ValueError:
            return 0
'''


@check('G14')
def domain(rep):
    rep.rule = ('Path-sensitive interval analysis of the arguments of sqrt, log, acos, asin and of the fractional powers: '
                'signs of squares, norms, absolute values, maxima and clamps, comparisons which hold on the path, '
                'interval summaries of the functions and properties of the package. An argument computed from '
                'differences, dot or cross products which nothing on the path bounds is a violation.')
    found = {x['where'].split('.')[-1] for x in Domain(TextProgram(DOMAIN_TEST)).analyse() if x['verdict'] == 'unbounded'}
    if found != {'bad', 'bad_acos', 'bad_log'}:
        raise AnalysisBroken('self test: {}'.format(sorted(found)))
    p = Program()
    d = Domain(p)
    rep.count('functions', len(d.functions))
    for x in d.analyse():
        rep.count('arguments')
        rep.count(x['verdict'])
        rep.sample('{} {}({}): {}'.format(x['where'], x['function'], x['argument'], x['verdict']))
        if x['verdict'] == 'unbounded':
            rep.violation('domain', x['where'], '{} of a difference that nothing bounds'.format(x['function']),
                          argument=x['argument'], interval=x['interval'], line=x['line'])
    rep.assumptions.append('an argument which is a parameter, an attribute or the result of an unknown call is not judged; a comparison '
                           'on the path which involves what the argument is made of is taken to bound it')
    rep.expect('functions', 800)
    rep.expect('arguments', 20)


@check('R01')
def resolution(rep):
    rep.rule = ('Scope resolution of every loaded name, definition order of the names used at import, existence of the '
                'members of modules of the package, of the attributes of self, of classes and of constructed objects '
                '(members and stores of the class, its bases and its subclasses), and acceptance of the arguments of '
                'every call whose target is known, overriding methods included.')
    for text, expected in SELF_TEST.values():
        found = [f[2] for f in Resolver(Package(TextProgram(text))).run().findings]
        for e in expected:
            if e == 'no method':
                e = 'no base of'
            if not any(e in f for f in found) and not any('used before' in f for f in found):
                raise AnalysisBroken('self test: {!r} not found in {}'.format(e, found))
    k = package(rep)
    r = Resolver(k).run()
    for name, n in r.counts.items():
        rep.count(name, n)
    for kind, where, message, line in r.findings:
        rep.violation(kind, where, message, line=line)
    rep.assumptions.append('an attribute set from outside through an arbitrary object, or a name tested with hasattr, may '
                           'belong to any class; classes with an unknown base, a metaclass, a decorator or '
                           '__getattr__ have any attribute')
    rep.expect('names', 6000)
    rep.expect('attributes', 1500)
    rep.expect('calls', 400)


#: operations whose names look like queries and which are documented to modify their receiver
IN_PLACE = {'to_absolute': 'makes a path part absolute', 'to_svg': 'renders the scene', 'to_tex': 'renders',
            'to_pdf': 'renders'}
#: classes and functions that are handed objects in order to modify them
PROTOCOLS = ('Attribute.set_property', 'Attribute.set_attribute', '.__call__')
LINKS = 'DirectedAcyclicGraph'


@check('R02')
def effects(rep):
    rep.rule = ('Interprocedural effect analysis: aliases of the receiver and of the parameters through attributes, items, '
                'iteration and assignments; stores and calls of modifying methods on them, propagated from the '
                'functions called until a fixed point. Stores that fill an empty cache are not effects.')
    k = package(rep)
    e = Effects(k)
    rep.count('functions', len(e.facts))
    rep.count('calls passing a receiver or a parameter on', sum(len(f.calls) for f in e.facts.values()))
    reach = reachable_names(k)
    for f in e.facts.values():
        name = f.node.name
        receiver = f.params[0] if f.cls is not None and f.params and 'staticmethod' not in decorators(f.node) else None
        query = is_query(f) and name not in IN_PLACE
        public = not private(name) or name in reach and query
        if query:
            rep.count('queries')
            rep.sample(f.where)
        for p, whats in f.effects.items():
            if p == receiver:
                if not query:
                    continue
                rule = 'impure'
            else:
                if not public or private(name) or f.where.endswith(PROTOCOLS) or LINKS in f.where:
                    continue
                rule = 'modifies-argument'
            for what, line in sorted(whats.items()):
                rep.violation(rule, f.where, '{} of {}'.format(what, p), line=line)
        if receiver is not None and not query:
            rep.count('operations')
    rep.expect('queries', 400)
    rep.expect('calls passing a receiver or a parameter on', 300)


def mutations(cls):
    """{attribute: line} of the containers the methods of a class modify through an attribute of the receiver."""
    out = {}
    for c in cls.family():
        for f in c.node.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or not f.args.args:
                continue
            first = f.args.args[0].arg
            names = decorators(f)
            if 'staticmethod' in names or 'classmethod' in names or f.name in ('__init_subclass__', '__new__'):
                continue
            alias = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    if isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) \
                            and x.value.value.id == first:
                        alias[x.targets[0].id] = x.value.attr

            def attr(n):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == first:
                    return n.attr
                if isinstance(n, ast.Name):
                    return alias.get(n.id)
                return None

            for x in ast.walk(f):
                a = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING:
                    a = attr(x.func.value)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    a = attr(x.value)
                elif isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.BitOr)):
                    pass
                if a is not None:
                    out.setdefault(a, (x.lineno, '{}.{}'.format(c.name, f.name)))
    return out


FRESH = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
CONTAINERS = {'list', 'dict', 'set', 'OrderedDict', 'collections.OrderedDict', 'deque', 'collections.deque',
              'defaultdict', 'collections.defaultdict', 'bytearray'}


def is_container(n):
    return isinstance(n, FRESH) or isinstance(n, ast.Call) and dotted(n.func) in CONTAINERS


def constructed(k, f, d):
    """A default made by a class of the package whose instances can be modified."""
    if not isinstance(d, ast.Call):
        return False
    v = k.resolve(f.module, d.func)
    if not isinstance(v, Class):
        return False
    if mutations(v):
        return True
    for c in v.mro():
        for g in c.node.body:
            if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                    any(n.endswith('.setter') for n in decorators(g)):
                return True
    return False


def alternatives(n):
    """The expressions an expression may give without making a new object."""
    if isinstance(n, ast.IfExp):
        return alternatives(n.body) + alternatives(n.orelse)
    if isinstance(n, ast.BoolOp):
        out = []
        for v in n.values:
            out += alternatives(v)
        return out
    if isinstance(n, ast.NamedExpr):
        return alternatives(n.value)
    return [n]


@check('R03')
def sharing(rep):
    rep.rule = ('Mutable parameter defaults that are kept, returned or modified; containers of a class that methods modify '
                'through self without an instance container of the same name; containers given to a constructor, kept '
                'as they are and modified by the methods of the class; containers a copy takes from the original.')
    k = package(rep)
    e = Effects(k)
    reach = reachable_names(k)
    for f in e.facts.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        pairs += [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if private(f.node.name) and f.node.name not in reach:
            continue
        rep.count('functions')
        for x, d in pairs:
            rep.count('parameter defaults')
            if not is_container(d) and not constructed(k, f, d):
                continue
            rep.count('mutable parameter defaults')
            why = None
            if x.arg in f.effects:
                why = 'modifies'
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if any(isinstance(v, ast.Name) and v.id == x.arg for v in alternatives(s.value)) and \
                            any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in targets):
                        why = 'keeps'
                elif isinstance(s, (ast.Return, ast.Yield)) and s.value is not None:
                    if any(isinstance(v, ast.Name) and v.id == x.arg for v in alternatives(s.value)):
                        why = 'returns'
                elif isinstance(s, ast.Call) and dotted(s.func) and dotted(s.func).endswith('__init__'):
                    if any(isinstance(v, ast.Name) and v.id == x.arg for v in s.args):
                        why = 'passes on'
            if why:
                rep.violation('shared-default', f.where, '{} the mutable default of its parameter {}'.format(why, x.arg),
                              line=d.lineno)
    for c in k.classes:
        own = mutations(c)
        rep.count('attributes whose content is modified', len(own))
        # containers of the class
        for s in c.node.body:
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or s.value is None or not is_container(s.value):
                continue
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if not isinstance(t, ast.Name):
                    continue
                rep.count('containers of a class')
                if t.id in own and not any(sets_in_init(b, t.id) for b in c.family()):
                    line, where = own[t.id]
                    rep.violation('shared-class-state', '{}:{}'.format(c.module.relpath, where),
                                  'modifies {}.{}, which all the instances share'.format(c.name, t.id), line=line)
        # containers given to the object, taken from another one
        for f in c.node.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or not f.args.args:
                continue
            first = f.args.args[0].arg
            params = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} - {first}
            rebound = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for s in ast.walk(f):
                if not isinstance(s, (ast.Assign, ast.AnnAssign)) or s.value is None:
                    continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if not isinstance(t, ast.Attribute) or not isinstance(t.value, ast.Name):
                        continue
                    for v in alternatives(s.value):
                        if t.value.id == first and f.name == '__init__' and isinstance(v, ast.Name) \
                                and v.id in params - rebound and t.attr in own and holds_containers(c, t.attr, own):
                            line, where = own[t.attr]
                            rep.count('kept containers')
                            rep.violation('shared-argument', '{}:{}.{}'.format(c.module.relpath, c.name, f.name),
                                          'keeps its argument {} as {}, which {} modifies'.format(v.id, t.attr, where),
                                          line=s.lineno)
                        elif t.value.id != first and t.value.id not in params and isinstance(v, ast.Attribute) \
                                and isinstance(v.value, ast.Name) and v.value.id == first \
                                and v.attr in own and holds_containers(c, v.attr, own):
                            line, where = own[v.attr]
                            rep.violation('shared-copy', '{}:{}.{}'.format(c.module.relpath, c.name, f.name),
                                          'gives its {} to another object, {} modifies it'.format(v.attr, where),
                                          line=s.lineno)
    rep.expect('functions', 1000)
    rep.expect('attributes whose content is modified', 30)


def sets_in_init(c, name):
    for f in c.node.body:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name in ('__init__', '__new__', 'reset'):
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name \
                        and isinstance(x.value, ast.Name):
                    return True
    return False


def holds_containers(c, name, own):
    """The attribute is not known to hold an object of the package with methods of these names."""
    for b in c.family():
        for x in ast.walk(b.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr == name:
                        for v in alternatives(x.value):
                            if isinstance(v, ast.Call) and dotted(v.func) not in CONTAINERS:
                                return False
    return True
