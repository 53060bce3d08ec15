"""Effects of the functions of a package on the objects they are given.

For each function: which parameters (the receiver included) have state, reached through attributes, items and local
aliases, that the function may modify, itself or through the functions it calls.  Objects made by the function are its
own.  A store into an attribute that is tested to be empty first (a cache filled on demand) is not an effect.
"""

import ast

from .resolve import Class, bindings, decorators, dotted, method_of

MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add',
            'discard', 'popitem', 'appendleft', 'popleft', 'extendleft', 'move_to_end', 'rotate',
            'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__'}
#: of these, names the package uses for methods of its own that make a new object
FRESH = (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)
#: modifying methods of the intervals of IntervalArithmetic
INTERVAL = {'enlarge'}
COMMON = {'rotate', 'add', 'remove', 'insert', 'reverse', 'update', 'pop', 'clear', 'sort', 'append', 'extend'}
GLOBAL = '<module>'


class Fact:
    """What is known of one function."""

    def __init__(self, module, cls, node):
        self.module = module
        self.cls = cls
        self.node = node
        self.params = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        if node.args.vararg:
            self.params.append(node.args.vararg.arg)
        if node.args.kwarg:
            self.params.append(node.args.kwarg.arg)
        self.effects = {}       # parameter -> {what: line}
        self.calls = []         # (callee Fact, {callee parameter: caller origins}, line, fills a cache)

    @property
    def where(self):
        return '{}:{}{}'.format(self.module.relpath, self.cls.name + '.' if self.cls else '', self.node.name)


class Effects:

    def __init__(self, package):
        self.package = package
        self.facts = {}         # id(node) -> Fact
        self._scratch = {}
        for m in package.modules.values():
            for n in m.tree.body:
                self._collect(m, None, n)
            for c in m.classes.values():
                for n in c.node.body:
                    self._collect(m, c, n)
        # names of the methods the classes of the package define
        self.by_name = {}
        for f in self.facts.values():
            if f.cls is not None:
                self.by_name.setdefault(f.node.name, []).append(f)
        for f in self.facts.values():
            Walker(self, f).run()
        changed = True
        while changed:
            changed = False
            for f in self.facts.values():
                for callee, binding, line, memo in f.calls:
                    for p, effects in list(callee.effects.items()):
                        for origin in binding.get(p, ()):
                            mine = f.effects.setdefault(origin, {})
                            for what in list(effects):
                                if memo and what.startswith('stores the attribute _'):
                                    continue
                                if what not in mine:
                                    mine[what] = '{} (through {})'.format(line, callee.where.split(':')[1])
                                    changed = True
        for f in self.facts.values():
            f.effects = {k: v for k, v in f.effects.items() if v}

    def scratch(self, cls, name):
        """An attribute only queries and private methods store, never initialised: each use computes it again."""
        key = id(cls), name
        if key not in self._scratch:
            ok = name.startswith('_')
            for c in cls.family():
                for f in c.node.body:
                    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and ok:
                        query = is_query(Fact(c.module, c, f))
                        for x in ast.walk(f):
                            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                                if not query and not (f.name.startswith('_') and not f.name.startswith('__')):
                                    ok = False
            self._scratch[key] = ok
        return self._scratch[key]

    def cache(self, cls, name):
        """A container that only queries and private methods fill: operations empty it at most."""
        key = id(cls), name, 'items'
        if key not in self._scratch:
            ok = name.startswith('_')
            for c in cls.family():
                for f in c.node.body:
                    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or not ok:
                        continue
                    if is_query(Fact(c.module, c, f)) or f.name.startswith('_') and not f.name.startswith('__'):
                        continue
                    alias = {t.id for x in ast.walk(f) if isinstance(x, ast.Assign) for t in x.targets
                             if isinstance(t, ast.Name) and any(isinstance(y, ast.Attribute) and y.attr == name
                                                                for y in ast.walk(x.value))}
                    for x in ast.walk(f):
                        at = None
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            at = x.value
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING \
                                and x.func.attr not in ('clear', 'pop', 'popitem'):
                            at = x.func.value
                        elif isinstance(x, (ast.Assign, ast.AnnAssign)) and f.name != '__init__':
                            # given from outside
                            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                if isinstance(t, ast.Attribute) and t.attr == name and x.value is not None and not (
                                        isinstance(x.value, (ast.Dict, ast.List, ast.Set, ast.Constant))
                                        or isinstance(x.value, ast.Call) and not x.value.args):
                                    ok = False
                        if isinstance(at, ast.Attribute) and at.attr == name or \
                                isinstance(at, ast.Name) and at.id in alias:
                            ok = False
            self._scratch[key] = ok
        return self._scratch[key]

    def _collect(self, m, cls, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.facts[id(n)] = Fact(m, cls, n)


class Walker:
    """Origins of the local variables and effects of one function."""

    def __init__(self, effects, fact):
        self.e = effects
        self.f = fact
        self.origins = {p: {p} for p in fact.params}
        names = decorators(fact.node)
        self.receiver = None
        self.memo = False       # in the part that fills a cache
        if fact.cls is not None and 'staticmethod' not in names and fact.params:
            self.receiver = fact.params[0]
        self.locals = bindings(fact.node.body).names | set(fact.params)

    def run(self):
        node = self.f.node
        if node.args.kwarg:
            # a dictionary made by the call
            self.origins[node.args.kwarg.arg] = set()
        self.block(node.body, frozenset())

    # -- aliases ------------------------------------------------------------------------------------------------

    def put(self, target, origins):
        if isinstance(target, ast.Name):
            self.origins[target.id] = set(origins)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.put(t, origins)
        elif isinstance(target, ast.Starred):
            self.put(target.value, ())

    def merge(self, *envs):
        out = {}
        for env in envs:
            for k, v in env.items():
                out.setdefault(k, set()).update(v)
        self.origins = out

    def bind(self, x):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) \
                        and len(t.elts) == len(x.value.elts):
                    for a, b in zip(t.elts, x.value.elts):
                        self.put(a, self.origin(b))
                else:
                    self.put(t, self.origin(x.value))
        elif isinstance(x, ast.AnnAssign) and x.value is not None:
            self.put(x.target, self.origin(x.value))
        elif isinstance(x, ast.NamedExpr):
            self.put(x.target, self.origin(x.value))
        elif isinstance(x, (ast.For, ast.AsyncFor)):
            self.put(x.target, self.inside(x.iter))
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                if i.optional_vars is not None:
                    self.put(i.optional_vars, self.origin(i.context_expr))
        elif isinstance(x, ast.comprehension):
            # the targets have a scope of their own, a name of the function keeps its origins
            before = dict(self.origins)
            self.put(x.target, self.inside(x.iter))
            for k in before:
                self.origins[k] = self.origins[k] | before[k]

    def inside(self, e):
        """Origins of the items of an iterable."""
        if isinstance(e, ast.Call):
            name = dotted(e.func)
            if name in ('enumerate', 'zip', 'reversed', 'sorted', 'list', 'tuple', 'iter', 'set', 'filter'):
                out = set()
                for a in e.args:
                    out |= self.inside(a)
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('values', 'items', 'keys'):
                return self.origin(e.func.value)
        return self.origin(e)

    def origin(self, e):
        """The parameters the object of an expression may belong to."""
        if isinstance(e, ast.Name):
            return set(self.origins.get(e.id, ()))
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
                return set()
            return self.origin(e.value)
        if isinstance(e, ast.IfExp):
            return self.origin(e.body) | self.origin(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.origin(v)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.origin(e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault'):
            return self.origin(e.func.value)
        return set()

    # -- effects ------------------------------------------------------------------------------------------------

    def effect(self, target, what, node):
        for p in self.origin(target):
            self.f.effects.setdefault(p, {}).setdefault(what, str(node.lineno))

    def stored(self, body, depth=0):
        """Attributes of the receiver the statements store, the methods they call included."""
        out = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.receiver:
                    if isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
                    elif depth < 3:
                        m = method_of(self.f.cls, x.attr)
                        if m and m[1] is not self.f.node:
                            out |= self.stored(m[1].body, depth + 1)
        return out

    def guards(self, test):
        out = {x.attr for x in ast.walk(test) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
               and x.value.id == self.receiver}
        for x in ast.walk(test):
            if isinstance(x, ast.Call) and dotted(x.func) in ('hasattr', 'getattr') and len(x.args) > 1 \
                    and dotted(x.args[0]) == self.receiver and isinstance(x.args[1], ast.Constant):
                out.add(x.args[1].value)
            elif isinstance(x, ast.Name):
                # x = self._x; if x is None: ...
                for y in ast.walk(self.f.node):
                    if isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name) and y.targets[0].id == x.id \
                            and isinstance(y.value, ast.Attribute) and dotted(y.value.value) == self.receiver:
                        out.add(y.value.attr)
        return out

    def block(self, body, empty):
        outer = self.memo
        for i, s in enumerate(body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If):
                self.expr(s.test)
                keep = self.memo
                guards = self.guards(s.test)
                before = dict(self.origins)
                self.memo = keep or bool(guards & self.stored(s.body))
                self.block(s.body, empty | self.tested(s.test, True))
                then = self.origins
                self.origins = before
                self.memo = keep or bool(guards & self.stored(s.orelse))
                self.block(s.orelse, empty | self.tested(s.test, False))
                self.memo = keep
                if s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    pass
                else:
                    self.merge(then, self.origins)
                if s.body and isinstance(s.body[-1], ast.Return) and not s.orelse \
                        and guards & self.stored(body[i + 1:]):
                    self.memo = True
                # if self._x is not None: return self._x
                if s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not s.orelse:
                    empty = empty | self.tested(s.test, False)
            elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                before = dict(self.origins)
                for _ in range(2):
                    self.expr(s.iter if not isinstance(s, ast.While) else s.test)
                    if not isinstance(s, ast.While):
                        self.store(s.target, empty)
                        self.bind(s)
                    self.block(s.body, empty)
                    self.merge(before, self.origins)
                self.block(s.orelse, empty)
            elif isinstance(s, ast.Try):
                before = dict(self.origins)
                self.block(s.body, empty)
                self.merge(before, self.origins)
                for h in s.handlers:
                    more = set()
                    names = {dotted(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} \
                        if h.type is not None else set()
                    if names & {'AttributeError', 'KeyError'}:
                        for x in ast.walk(ast.Module(s.body, [])):
                            k = self.key(x)
                            if k:
                                more.add(k)
                    self.block(h.body, empty | more)
                self.block(s.orelse, empty)
                self.block(s.finalbody, empty)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    self.expr(i.context_expr)
                self.bind(s)
                self.block(s.body, empty)
            else:
                self.simple(s, empty)
        self.memo = outer

    def key(self, e):
        """Text of an attribute or item of the receiver: a place that may be a cache."""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return e.value.id + '.' + e.attr
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute):
            return ast.dump(e.value)[:0] + ast.unparse(e.value) + '[' + ast.unparse(e.slice) + ']'
        return None

    def tested(self, test, positive):
        """Places known to be empty when the test is *positive*."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            if isinstance(test.operand, ast.Call) and dotted(test.operand.func) == 'hasattr' and positive:
                a = test.operand.args
                if len(a) == 2 and isinstance(a[1], ast.Constant):
                    return {'{}.{}'.format(dotted(a[0]), a[1].value)}
            return self.tested(test.operand, not positive)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            right = test.comparators[0]
            if isinstance(right, ast.Constant) and right.value is None:
                k = self.key(test.left)
                if k and isinstance(op, (ast.Is, ast.Eq)) == positive:
                    return {k}
                if isinstance(test.left, ast.Name) and isinstance(op, (ast.Is, ast.Eq)) == positive:
                    # x = self._x; if x is None: self._x = ...
                    out = set()
                    for x in ast.walk(self.f.node):
                        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) \
                                and x.targets[0].id == test.left.id:
                            for y in ast.walk(x.value):
                                if self.key(y):
                                    out.add(self.key(y))
                            if isinstance(x.value, ast.Call) and dotted(x.value.func) == 'getattr' \
                                    and len(x.value.args) > 1 and isinstance(x.value.args[1], ast.Constant):
                                out.add('{}.{}'.format(dotted(x.value.args[0]), x.value.args[1].value))
                            if isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                                    and x.value.func.attr == 'get' and x.value.args:
                                out.add('{}[{}]'.format(ast.unparse(x.value.func.value), ast.unparse(x.value.args[0])))
                    return out
            if isinstance(op, ast.NotIn) == positive and isinstance(op, (ast.In, ast.NotIn)):
                return {'{}[{}]'.format(ast.unparse(right), ast.unparse(test.left))}
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and positive or isinstance(test.op, ast.Or):
                parts = [self.tested(v, positive) for v in test.values]
                out = set()
                for p in parts:
                    out |= p
                return out
        k = self.key(test)
        if k and not positive:
            return {k}
        return set()

    def simple(self, s, empty):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.store(t, empty)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, (ast.Attribute, ast.Subscript)):
                self.store(s.target, frozenset())
            elif isinstance(s.target, ast.Name) and (
                    self.container(s.target) or isinstance(s.value, FRESH) and isinstance(s.op, (ast.Add, ast.BitOr))):
                # a list, a dictionary or a set is modified in place
                self.effect(s.target, 'adds to ' + s.target.id, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, empty)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.store(t, frozenset())
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x)
        self.bind(s)

    def store(self, t, empty):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, empty)
        elif isinstance(t, ast.Starred):
            self.store(t.value, empty)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            if isinstance(t, ast.Subscript):
                if self.caching(t.value):
                    return
            elif self.key(t) in empty:
                return
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.receiver \
                    and self.e.scratch(self.f.cls, t.attr):
                return
            if self.memo and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                    and t.value.id == self.receiver and t.attr.startswith('_'):
                return
            what = 'stores the attribute ' + t.attr if isinstance(t, ast.Attribute) else 'stores an item'
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                what += ' of ' + t.value.attr
            self.effect(t.value, what, t)

    def caching(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.receiver \
            and self.e.cache(self.f.cls, e.attr)

    def expr(self, e):
        for x in ast.walk(e):
            if isinstance(x, (ast.comprehension, ast.NamedExpr)):
                self.bind(x)
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x)

    def call(self, n):
        f = n.func
        e = self.e
        facts = []
        receiver = None
        if isinstance(f, ast.Attribute):
            r = f.value
            if isinstance(r, ast.Name) and r.id == self.receiver:
                for c in self.f.cls.family():
                    m = c.members.get(f.attr)
                    if m is not None and id(m) in e.facts:
                        facts.append(e.facts[id(m)])
                receiver = r
            elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'super' and self.receiver:
                m = method_of(self.f.cls, f.attr, skip=True)
                if m:
                    facts.append(e.facts.get(id(m[1])))
                receiver = ast.Name(self.receiver, ast.Load())
            else:
                v = e.package.resolve(self.f.module, f, self.locals)
                if isinstance(v, tuple):
                    facts.append(e.facts.get(id(v[1])))
                elif f.attr in INTERVAL and not e.by_name.get(f.attr) and self.kept(r):
                    self.effect(r, 'calls {} on {}'.format(f.attr, ast.unparse(r)), n)
                elif not isinstance(v, Class) and self.origin(r):
                    own = e.by_name.get(f.attr, ())
                    if own:
                        # every method of this name the package defines has the effect
                        facts.extend(own)
                        receiver = r
                        if not (f.attr in MUTATING and self.container(r)):
                            if len({bool(x.effects.get(x.params[0])) for x in own if x.params}) > 1 or len(own) > 4:
                                facts = []
                    if f.attr in MUTATING and self.caching(r):
                        return
                    if f.attr in MUTATING and (not own or self.container(r)):
                        facts = []
                        self.effect(r, 'calls {} on {}'.format(
                            f.attr, r.attr if isinstance(r, ast.Attribute) else 'an object'), n)
        elif isinstance(f, ast.Name):
            if f.id in ('setattr', 'delattr') and n.args:
                self.effect(n.args[0], 'calls ' + f.id, n)
                return
            if f.id in ('next',) and n.args:
                pass
            v = e.package.resolve(self.f.module, f, self.locals)
            if isinstance(v, tuple):
                facts.append(e.facts.get(id(v[1])))
        if isinstance(f, (ast.Name, ast.Attribute)):
            v = e.package.resolve(self.f.module, f, self.locals)
            if isinstance(v, Class):
                m = method_of(v, '__init__')
                if m:
                    facts.append(e.facts.get(id(m[1])))
        for g in facts:
            if g is None:
                continue
            params = list(g.params)
            binding = {}
            names = decorators(g.node)
            if g.cls is not None and 'staticmethod' not in names and params:
                first = params.pop(0)
                if receiver is not None:
                    binding[first] = self.origin(receiver)
            for p, a in zip(params, n.args):
                if isinstance(a, ast.Starred):
                    break
                binding[p] = self.origin(a)
            for k in n.keywords:
                if k.arg in params:
                    binding[k.arg] = self.origin(k.value)
            if any(binding.values()):
                self.f.calls.append((g, binding, n.lineno, self.memo))

    def kept(self, e):
        """A parameter as it was given, or a private attribute of the receiver: not the result of a property."""
        if isinstance(e, ast.Name):
            if e.id == self.receiver:
                return False
            values = [x.value for x in ast.walk(self.f.node) if isinstance(x, ast.Assign)
                      and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            if e.id in self.f.params:
                return bool(self.origins.get(e.id)) and not values
            return bool(values) and all(isinstance(v, ast.Attribute) and self.kept(v) for v in values)
        if isinstance(e, ast.Attribute) and e.attr in ('x', 'y'):
            return self.kept(e.value)
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.receiver \
            and e.attr.startswith('_')

    def container(self, e):
        """An attribute that only holds built-in containers."""
        if isinstance(e, ast.Name):
            values = [x.value for x in ast.walk(self.f.node) if isinstance(x, ast.Assign)
                      and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            return bool(values) and all(self.container(v) for v in values if v is not e)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.receiver:
            values = []
            for c in self.f.cls.family():
                for x in ast.walk(c.node):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                        for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                            if isinstance(t, ast.Attribute) and t.attr == e.attr:
                                values.append(x.value)
            return bool(values) and all(
                isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or
                (isinstance(v, ast.Constant) and v.value is None) or
                (isinstance(v, ast.Call) and dotted(v.func) in (
                    'list', 'dict', 'set', 'OrderedDict', 'collections.OrderedDict', 'deque', 'collections.deque',
                    'defaultdict', 'collections.defaultdict')) for v in values)
        return False


QUERY_NAMES = {'__len__', '__iter__', '__contains__', '__getitem__', '__str__', '__repr__', '__eq__', '__ne__', '__lt__',
               '__le__', '__gt__', '__ge__', '__hash__', '__bool__', '__float__', '__int__', '__add__', '__sub__',
               '__mul__', '__truediv__', '__neg__', '__pos__', '__abs__', '__reversed__', '__copy__', '__deepcopy__',
               'clone', 'copy'}
QUERY_PREFIXES = ('is_', 'has_', 'to_', 'number_of_', 'get_')
QUERY_SUFFIXES = ('_iter', '_iterator')


def is_query(fact):
    names = decorators(fact.node)
    name = fact.node.name
    if any(n.endswith(('.setter', '.deleter')) for n in names):
        return False
    if 'property' in names:
        return True
    if name in QUERY_NAMES:
        return True
    return fact.cls is not None and (name.startswith(QUERY_PREFIXES) or name.endswith(QUERY_SUFFIXES))
