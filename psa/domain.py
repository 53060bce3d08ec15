"""Arguments of square roots, logarithms, inverse sines and cosines and fractional powers.

A path-sensitive interval analysis of the syntax trees: the sign of a local value is computed from its definition
(squares, absolute values, maxima, norms, sums of such values, clamps, ...) and from the comparisons which hold on the
path; functions and properties of the package are summarised by the interval of what they return.  An argument which
is a difference, a dot or a cross product (or is made of them) and that nothing on the path bounds can leave the domain:
by its value, or by the rounding of a value which is mathematically at the limit.
"""

import ast
import copy
import math

INF = math.inf

# function -> (lower bound, is the bound excluded, upper bound)
SINKS = {
    'sqrt': (0, False, INF), 'log': (0, True, INF), 'log10': (0, True, INF), 'log2': (0, True, INF),
    'acos': (-1, False, 1), 'asin': (-1, False, 1), 'arccos': (-1, False, 1), 'arcsin': (-1, False, 1),
    'isqrt': (0, False, INF), 'acosh': (1, False, INF), 'atanh': (-1, True, 1),
}
MATH_MODULES = {'math', 'numpy', 'cmath'}
RANGES = {
    'sqrt': (0, INF), 'hypot': (0, INF), 'fabs': (0, INF), 'abs': (0, INF), 'cos': (-1, 1), 'sin': (-1, 1),
    'exp': (0, INF), 'len': (0, INF), 'acos': (0, math.pi), 'asin': (-math.pi / 2, math.pi / 2),
    'copysign': (-INF, INF), 'arccos': (0, math.pi), 'dist': (0, INF),
}


class V:
    """An interval, whether it was computed from operations of any sign, and the names it depends on."""
    __slots__ = ('lo', 'hi', 'open', 'kind', 'names')

    def __init__(self, lo=-INF, hi=INF, open=False, kind='unknown', names=frozenset()):
        self.lo, self.hi, self.open, self.kind, self.names = lo, hi, open, kind, frozenset(names)

    def named(self, *names):
        return V(self.lo, self.hi, self.open, self.kind, self.names | set(names))

    def __repr__(self):
        return '[{}{}, {}] {} {}'.format('>' if self.open else '', self.lo, self.hi, self.kind, sorted(self.names))


def point(x):
    return V(x, x, False, 'exact')


def join(a, b):
    lo = min(a.lo, b.lo)
    open_ = all(x.open for x in (a, b) if x.lo == lo)
    kind = 'computed' if 'computed' in (a.kind, b.kind) else 'unknown' if 'unknown' in (a.kind, b.kind) else 'exact'
    return V(lo, max(a.hi, b.hi), open_, kind, a.names | b.names)


def kinds(*values):
    ks = {v.kind for v in values}
    return 'computed' if 'computed' in ks else 'unknown' if 'unknown' in ks else 'exact'


def names_of(*values):
    out = frozenset()
    for v in values:
        out |= v.names
    return out


def mul(a, b):
    if a == b:
        return 0 if a == 0 else a * b
    if a == 0 or b == 0:
        return 0
    return a * b


class State:
    __slots__ = ('env', 'facts', 'relations', 'guards', 'dead')

    def __init__(self):
        self.env = {}
        self.facts = {}         # text -> (lo, open, hi)
        self.relations = set()  # (smaller text, larger text)
        self.guards = []        # sets of names which are compared on the path
        self.dead = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.relations = set(self.relations)
        s.guards = list(self.guards)
        s.dead = self.dead
        return s


def text_of(node):
    return ast.unparse(node)


def mentions(text, name):
    try:
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(ast.parse(text, mode='eval')))
    except SyntaxError:
        return True


def merge(states):
    states = [s for s in states if s is not None and not s.dead]
    if not states:
        s = State()
        s.dead = True
        return s
    out = states[0].copy()
    for s in states[1:]:
        for name in list(out.env):
            if name in s.env:
                out.env[name] = join(out.env[name], s.env[name])
            else:
                del out.env[name]
        facts = {}
        for t in out.facts:
            if t in s.facts:
                a, b = out.facts[t], s.facts[t]
                lo = min(a[0], b[0])
                facts[t] = (lo, all(x[1] for x in (a, b) if x[0] == lo), max(a[2], b[2]))
        out.facts = facts
        out.relations &= s.relations
        out.guards = [g for g in out.guards if g in s.guards]
    return out


class Domain:

    def __init__(self, program):
        self.p = program
        self.functions = []         # (module, class name or None, node)
        self.by_name = {}           # function, method and property name -> [(module, class, node)]
        self.imports = {}           # module -> {local name: (module, name)}
        for m in program.own_modules():
            if m.tree is None:
                continue
            table = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        table[a.asname or a.name.split('.')[0]] = (a.name, None)
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        table[a.asname or a.name] = (program.resolve_relative(m, n.level, n.module), a.name)
            self.imports[m.name] = table
            self._collect(m, m.tree, None)
        self.summaries = {}
        self.sites = []         # every argument judged
        self.calls = {}         # callee name -> [guarded]
        self.depth = 0

    def _collect(self, m, node, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                self._collect(m, n, n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.append((m, cls, n))
                self.by_name.setdefault(n.name, []).append((m, cls, n))
                self._collect(m, n, cls)
            elif not isinstance(n, ast.expr):
                self._collect(m, n, cls)

    # a call of a function of math or numpy -> its name
    def math_name(self, m, func):
        table = self.imports[m.name]
        if isinstance(func, ast.Name):
            if func.id in table:
                module, name = table[func.id]
                if module in MATH_MODULES and name:
                    return name
                return None
            if func.id in ('abs', 'len', 'max', 'min', 'sum', 'float', 'int', 'sorted', 'pow', 'round'):
                return func.id
            return None
        if isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) and func.value.id in table:
            module, name = table[func.value.id]
            if module in MATH_MODULES and name is None:
                return func.attr
        return None

    ################################################################################################

    def analyse(self):
        for m, cls, node in self.functions:
            Walk(self, m, cls, node, record=True).run()
        for site in self.sites:
            # a helper whose callers compare what they give it
            calls = self.calls.get(site['name'], ())
            if site['verdict'] == 'unbounded' and site['parameters'] and calls and all(calls):
                site['verdict'] = 'bounded'
        return self.sites

    def summary(self, name, caller, args=()):
        """Interval of what the functions, methods and properties of this name return."""
        found = self.by_name.get(name, [])
        if not found or len(found) > 6 or self.depth > 3:
            return None
        key = (name, tuple((v.lo, v.hi, v.open, v.kind) for v in args))
        if key in self.summaries:
            return self.summaries[key]
        self.summaries[key] = None      # recursion
        self.depth += 1
        out = None
        for m, cls, node in found:
            w = Walk(self, m, cls, node, record=False, args=args)
            v = w.run()
            if v is None:
                out = None
                break
            out = v if out is None else join(out, v)
        self.depth -= 1
        self.summaries[key] = out
        return out


class Walk:

    def __init__(self, domain, module, cls, node, record, args=()):
        self.d, self.m, self.cls, self.node, self.record = domain, module, cls, node, record
        self.returns = []
        self.safe = 0       # inside a try which handles ValueError
        self.args = args
        self.where = '{}:{}{}'.format(module.relpath, cls + '.' if cls else '', node.name)
        a = node.args
        self.parameters = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def run(self):
        s = State()
        names = [x for x in self.parameters if not (self.cls and x in ('self', 'cls'))]
        for i, name in enumerate(names):
            v = self.args[i] if i < len(self.args) else V()
            s.env[name] = v.named(name)
        if len(self.parameters) != len(names):
            s.env[self.parameters[0]] = V(names=[self.parameters[0]])
        self.block(self.node.body, s)
        if not self.returns:
            return None
        out = self.returns[0]
        for v in self.returns[1:]:
            out = join(out, v)
        return out

    ################################################################################################
    # statements

    def block(self, body, s):
        for n in body:
            if s.dead:
                return s
            s = self.statement(n, s)
        return s

    def forget(self, s, name):
        s.facts = {t: f for t, f in s.facts.items() if not mentions(t, name)}
        s.relations = {r for r in s.relations if not mentions(r[0], name) and not mentions(r[1], name)}

    def bind(self, s, target, value, node=None):
        if isinstance(target, ast.Name):
            self.forget(s, target.id)
            s.env[target.id] = value.named(target.id)
        elif isinstance(target, (ast.Tuple, ast.List)):
            values = [V(names=value.names)] * len(target.elts)
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(target.elts):
                values = [self.value(x, s) for x in node.elts]
            for t, v in zip(target.elts, values):
                self.bind(s, t, v)
            # the smaller and the larger of two values
            if (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'sorted' and not node.keywords
                    and all(isinstance(t, ast.Name) for t in target.elts)):
                ids = [t.id for t in target.elts]
                for a, b in zip(ids, ids[1:]):
                    s.relations.add((a, b))
                s.guards.append(frozenset(ids))
        elif isinstance(target, ast.Starred):
            self.bind(s, target.value, V(names=value.names))
        elif isinstance(target, (ast.Attribute, ast.Subscript)):
            t = text_of(target)
            base = target.value
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                base = base.value
            if isinstance(base, ast.Name):
                s.facts = {k: f for k, f in s.facts.items() if t not in k}
                s.env[t] = value
                s.relations = {r for r in s.relations if t not in r[0] and t not in r[1]}

    def statement(self, n, s):
        if isinstance(n, ast.Assign):
            v = self.value(n.value, s)
            for t in n.targets:
                self.bind(s, t, v, n.value)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.bind(s, n.target, self.value(n.value, s), n.value)
        elif isinstance(n, ast.AugAssign):
            load = copy.copy(n.target)
            load.ctx = ast.Load()
            v = self.value(ast.copy_location(ast.BinOp(load, n.op, n.value), n), s)
            self.bind(s, n.target, v)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                if isinstance(n.value, ast.Tuple):
                    for x in n.value.elts:
                        self.value(x, s)
                    self.returns.append(V())
                else:
                    self.returns.append(self.value(n.value, s))
            s.dead = True
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.value(n.exc, s)
            s.dead = True
        elif isinstance(n, (ast.Continue, ast.Break)):
            s.dead = True
        elif isinstance(n, ast.If):
            self.value(n.test, s)
            a, b = s.copy(), s.copy()
            self.assume(n.test, True, a)
            self.assume(n.test, False, b)
            a = self.block(n.body, a)
            b = self.block(n.orelse, b)
            return merge([a, b])
        elif isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            self.havoc(n, s)
            inner = s.copy()
            if isinstance(n, ast.While):
                self.value(n.test, s)
                self.assume(n.test, True, inner)
            else:
                self.value(n.iter, s)
                self.bind(inner, n.target, V())
            self.block(n.body, inner)
            after = s.copy()
            if isinstance(n, ast.While):
                breaks = any(isinstance(x, ast.Break) for x in ast.walk(n))
                if not breaks:
                    self.assume(n.test, False, after)
            return self.block(n.orelse, after)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.value(i.context_expr, s)
                if i.optional_vars is not None:
                    self.bind(s, i.optional_vars, V())
            return self.block(n.body, s)
        elif isinstance(n, ast.Try):
            caught = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ('ValueError', 'Exception', 'ArithmeticError', 'BaseException')
                                               for x in ast.walk(h.type)) for h in n.handlers)
            self.safe += caught
            start = s.copy()
            self.havoc(n, start)
            a = self.block(n.body, s)
            self.safe -= caught
            a = self.block(n.orelse, a)
            ends = [a]
            for h in n.handlers:
                ends.append(self.block(h.body, start.copy()))
            out = merge(ends)
            if n.finalbody:
                out = self.block(n.finalbody, out)
            return out
        elif isinstance(n, ast.Assert):
            self.value(n.test, s)
            self.assume(n.test, True, s)
        elif isinstance(n, ast.Expr):
            self.value(n.value, s)
        elif isinstance(n, ast.Delete):
            pass
        elif isinstance(n, ast.Match):
            ends = [s.copy()]
            for case in n.cases:
                ends.append(self.block(case.body, s.copy()))
            return merge(ends)
        return s

    def havoc(self, n, s):
        """Forget what a loop modifies."""
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.forget(s, x.id)
                s.env[x.id] = V(kind='unknown', names=[x.id])
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                s.env.pop(text_of(x), None)
                t = text_of(x)
                s.facts = {k: f for k, f in s.facts.items() if t not in k}

    ################################################################################################
    # conditions

    def assume(self, n, truth, s):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.assume(n.operand, not truth, s)
        elif isinstance(n, ast.BoolOp):
            if isinstance(n.op, ast.And) == truth:
                for x in n.values:
                    self.assume(x, truth, s)
            else:
                # one of them: what they compare is bounded, we do not say how
                for x in n.values:
                    if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in x.ops):
                        s.guards.append(self.value(x.left, s).names)
        elif isinstance(n, ast.Compare):
            sides = [n.left] + list(n.comparators)
            if len(n.ops) > 1 and not truth:
                s.guards.append(names_of(*[self.quiet(x, s) for x in sides]))
                return
            for a, op, b in zip(sides, n.ops, sides[1:]):
                self.compare(a, op, b, truth, s)
        elif isinstance(n, ast.Call):
            # a predicate of the package bounds its arguments
            values = [self.quiet(x, s) for x in n.args]
            if isinstance(n.func, (ast.Name, ast.Attribute)):
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if name in self.d.by_name and values:
                    s.guards.append(names_of(*values))
        elif isinstance(n, ast.Name):
            v = s.env.get(n.id)
            if v is not None and v.kind == 'test':
                s.guards.append(v.names)

    def quiet(self, n, s):
        record, self.record = self.record, False
        v = self.value(n, s)
        self.record = record
        return v

    def compare(self, a, op, b, truth, s):
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(op, (ast.Lt, ast.LtE)):
            if isinstance(op, ast.NotEq) and not truth or isinstance(op, ast.Eq) and truth:
                for x, y in ((a, b), (b, a)):
                    v = self.quiet(y, s)
                    if v.lo == v.hi:
                        self.fact(s, x, v.lo, False, v.hi)
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                # different from the limit
                for x, y in ((a, b), (b, a)):
                    v = self.quiet(y, s)
                    t = text_of(x)
                    w = self.quiet(x, s)
                    if v.lo == v.hi == w.lo and not w.open:
                        self.fact(s, x, w.lo, True, w.hi)
            return
        strict = isinstance(op, ast.Lt)
        if not truth:
            a, b = b, a
            strict = not strict
        # a < b
        va, vb = self.quiet(a, s), self.quiet(b, s)
        if va.lo > -INF:
            self.fact(s, b, va.lo, strict, INF)
        if vb.hi < INF:
            self.fact(s, a, -INF, False, vb.hi)
        s.relations.add((text_of(a), text_of(b)))
        if not (va.lo == va.hi or vb.lo == vb.hi):
            s.guards.append(va.names | vb.names)
        elif not (isinstance(a, (ast.Name, ast.Attribute)) or isinstance(b, (ast.Name, ast.Attribute))):
            s.guards.append(va.names | vb.names)
        else:
            # a name compared with a constant, it is known; what it was computed from is bounded too
            x = b if va.lo == va.hi else a
            v = vb if va.lo == va.hi else va
            own = {text_of(x)}
            if v.names - own:
                s.guards.append(v.names - own)

    def fact(self, s, n, lo, open_, hi):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            self.fact(s, n.operand, -hi, False, -lo)
            return
        if isinstance(n, ast.Call) and self.d.math_name(self.m, n.func) in ('abs', 'fabs') and n.args and hi < INF:
            self.fact(s, n.args[0], -hi, False, hi)
        t = text_of(n)
        old = s.facts.get(t, (-INF, False, INF))
        if lo > old[0] or lo == old[0] and open_:
            new = (lo, open_)
        else:
            new = old[:2]
        s.facts[t] = new + (min(hi, old[2]),)

    ################################################################################################
    # expressions

    def value(self, n, s):
        v = self.raw(n, s)
        if isinstance(n, (ast.Constant, ast.Tuple, ast.List)):
            return v
        f = s.facts.get(text_of(n)) if s.facts else None
        if f is not None:
            lo, open_, hi = f
            if lo > v.lo or lo == v.lo and open_:
                v = V(lo, min(v.hi, hi), open_, v.kind, v.names)
            else:
                v = V(v.lo, min(v.hi, hi), v.open, v.kind, v.names)
        return v

    def raw(self, n, s):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                return point(n.value)
            return V()
        if isinstance(n, ast.Name):
            if n.id in s.env:
                return s.env[n.id]
            if n.id == 'pi' or n.id == 'tau':
                return point(math.pi)
            return V(names=[n.id])
        if isinstance(n, ast.UnaryOp):
            v = self.value(n.operand, s)
            if isinstance(n.op, ast.USub):
                return V(-v.hi, -v.lo, False, v.kind, v.names)
            if isinstance(n.op, ast.Not):
                return V(0, 1, False, 'test', v.names)
            return v
        if isinstance(n, ast.BinOp):
            return self.binop(n, s)
        if isinstance(n, ast.IfExp):
            self.value(n.test, s)
            a, b = s.copy(), s.copy()
            self.assume(n.test, True, a)
            self.assume(n.test, False, b)
            return join(self.value(n.body, a), self.value(n.orelse, b))
        if isinstance(n, ast.BoolOp):
            a = s.copy()
            values = []
            for x in n.values:
                values.append(self.value(x, a))
                self.assume(x, isinstance(n.op, ast.And), a)
            out = values[0]
            for v in values[1:]:
                out = join(out, v)
            return out
        if isinstance(n, ast.Compare):
            vs = [self.value(x, s) for x in [n.left] + n.comparators]
            return V(0, 1, False, 'test', names_of(*vs))
        if isinstance(n, ast.Call):
            return self.call(n, s)
        if isinstance(n, ast.Attribute):
            t = text_of(n)
            v = self.value(n.value, s)
            if t in s.env:
                return s.env[t]
            if n.attr in ('pi', 'tau', 'e') and isinstance(n.value, ast.Name) and n.value.id in ('math', 'np', 'numpy'):
                return point(getattr(math, n.attr))
            if any(self.is_property(x[2]) for x in self.d.by_name.get(n.attr, ())):
                w = self.d.summary(n.attr, self)
                if w is not None:
                    return V(w.lo, w.hi, w.open, 'computed' if w.kind == 'computed' else 'unknown', v.names | {t})
            return V(names=v.names | {t})
        if isinstance(n, ast.NamedExpr):
            v = self.value(n.value, s)
            self.bind(s, n.target, v)
            return v
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            return V()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = s.copy()
            for g in n.generators:
                it = self.value(g.iter, inner)
                self.bind(inner, g.target, V(names=it.names))
                for test in g.ifs:
                    self.value(test, inner)
                    self.assume(test, True, inner)
            if isinstance(n, ast.DictComp):
                self.value(n.key, inner)
                return V(names=self.value(n.value, inner).names)
            # the elements
            return self.value(n.elt, inner)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.value(x, s) for x in n.elts]
            if not vs:
                return V()
            out = vs[0]
            for v in vs[1:]:
                out = join(out, v)
            return out
        out = V()
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                out = V(names=out.names | self.value(x, s).names)
        return out

    @staticmethod
    def is_property(node):
        return any(isinstance(x, ast.Name) and x.id in ('property', 'cached_property') or
                   isinstance(x, ast.Attribute) and x.attr == 'cached_property' for x in node.decorator_list)

    def binop(self, n, s):
        a, b = self.value(n.left, s), self.value(n.right, s)
        names = a.names | b.names
        op = n.op
        if isinstance(op, ast.Pow):
            return self.power(n, a, b, s)
        if isinstance(op, ast.Mult):
            # a product of squares and of what is never negative
            factors, rest = [], [n]
            while rest:
                x = rest.pop()
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
                    rest += [x.left, x.right]
                else:
                    factors.append(x)
            odd = {}
            for x in factors:
                t = text_of(x)
                if t in odd:
                    del odd[t]
                else:
                    odd[t] = x
            if len(odd) < len(factors):
                left = [self.quiet(x, s) for x in odd.values()]
                if all(x.lo >= 0 for x in left):
                    return V(0, INF, False, 'unknown', names)
        if isinstance(op, ast.Add):
            v = V(a.lo + b.lo, a.hi + b.hi, a.open or b.open, kinds(a, b), names)
            if v.lo >= 0 and (a.lo > 0 or b.lo > 0):
                v.open = v.open and v.lo == 0
            return v
        if isinstance(op, ast.Sub):
            v = V(a.lo - b.hi, a.hi - b.lo, False, 'computed', names)
            if a.kind == 'exact' and b.kind == 'exact':
                v.kind = 'exact'
            if (text_of(n.right), text_of(n.left)) in s.relations:
                v = V(max(v.lo, 0), v.hi, False, 'unknown', names)
            return v
        if isinstance(op, ast.Mult):
            return self.product(a, b, names)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if b.lo >= 0:
                inverse = V(1 / b.hi if b.hi not in (0, INF) else 0, 1 / b.lo if b.lo > 0 else INF, False, b.kind, b.names)
            elif b.hi <= 0:
                inverse = V(-INF, 0, False, b.kind, b.names)
            else:
                inverse = V(kind=b.kind, names=b.names)
            v = self.product(a, inverse, names)
            if (text_of(n.left), text_of(n.right)) in s.relations and a.lo >= 0:
                v = V(v.lo, min(v.hi, 1), v.open, v.kind, names)
            return v
        if isinstance(op, ast.Mod):
            if b.lo >= 0 and b.lo == b.hi:
                return V(0, b.hi, False, 'unknown', names)
            return V(names=names)
        return V(names=names)

    @staticmethod
    def product(a, b, names):
        ends = [mul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        open_ = (a.open or a.lo > 0) and (b.open or b.lo > 0) and a.lo >= 0 and b.lo >= 0
        return V(min(ends), max(ends), open_ and min(ends) == 0, kinds(a, b), names)

    def power(self, n, a, b, s):
        names = a.names | b.names
        if b.lo == b.hi:
            e = b.lo
            if e == int(e):
                if int(e) % 2 == 0 and e > 0:
                    m = max(abs(a.lo), abs(a.hi))
                    lo = 0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)) ** e
                    return V(lo, m ** e if m < INF else INF, a.open and a.lo == 0, 'unknown', names)
                if a.lo >= 0:
                    return V(0, INF, a.open, a.kind, names)
                return V(kind=a.kind, names=names)
            # a fractional power of a negative number is a complex number
            self.sink('power', n, a, (0, False, INF), s, n.left)
            return V(0, INF, a.open, 'unknown', names)
        if a.lo > 0:
            return V(0, INF, True, 'unknown', names)
        return V(names=names)

    def call(self, n, s):
        name = self.d.math_name(self.m, n.func)
        values = [self.value(x, s) for x in n.args]
        keyword = [self.value(k.value, s) for k in n.keywords]
        names = names_of(*(values + keyword)) if values or keyword else frozenset()
        if name is not None:
            if name in SINKS and n.args and not isinstance(n.args[0], ast.Starred):
                self.sink(name, n, values[0], SINKS[name], s, n.args[0])
            if name in ('max', 'min') and len(values) > 1:
                if name == 'max':
                    lo = max(v.lo for v in values)
                    return V(lo, max(v.hi for v in values), any(v.open for v in values if v.lo == lo), 'unknown', names)
                return V(min(v.lo for v in values), min(v.hi for v in values), False, 'unknown', names)
            if name in ('clip',) and len(values) == 3:
                return V(values[1].lo, values[2].hi, False, 'unknown', names)
            if name in ('float', 'int', 'round') and values:
                v = values[0]
                if name != 'float':
                    v = V(math.floor(v.lo) if v.lo > -INF else -INF, math.ceil(v.hi) if v.hi < INF else INF, False, v.kind, v.names)
                return v
            if name == 'sum' and values:
                v = values[0]
                return V(0 if v.lo >= 0 else -INF, INF, False, v.kind, v.names)
            if name in ('abs', 'fabs') and values:
                return V(0, max(abs(values[0].lo), abs(values[0].hi)), False, 'unknown', names)
            if name == 'sqrt' and values:
                return V(0, INF, values[0].lo > 0 or values[0].open, 'unknown', names)
            if name in RANGES:
                return V(RANGES[name][0], RANGES[name][1], False, 'unknown', names)
            if name in ('log', 'radians', 'degrees', 'atan', 'atan2', 'tan', 'floor', 'ceil'):
                v = values[0] if values else V()
                if name in ('radians', 'degrees'):
                    return V(0 if v.lo >= 0 else -INF, 0 if v.hi <= 0 else INF, v.open, v.kind, names)
                return V(names=names)
            return V(names=names)
        # functions and methods of the package
        callee = None
        if isinstance(n.func, ast.Name):
            callee = n.func.id
        elif isinstance(n.func, ast.Attribute):
            callee = n.func.attr
            names = names | self.value(n.func.value, s).names
            if callee in ('dot', 'inner', 'vdot') and len(n.args) == 1:
                if text_of(n.args[0]) == text_of(n.func.value):
                    return V(0, INF, False, 'unknown', names)
                return V(kind='computed', names=names)
            if callee == 'cross':
                return V(kind='computed', names=names)
        if callee is None:
            self.value(n.func, s)
            return V(names=names)
        if callee in self.d.by_name and self.record:
            given = names - {'self', 'cls'}
            guarded = any(g & given for g in s.guards) or any(f for t, f in s.facts.items() if any(text_of(x) == t for x in n.args))
            self.d.calls.setdefault(callee, []).append(bool(guarded) or self.safe > 0)
        if callee in self.d.by_name and not any(isinstance(x, ast.Starred) for x in n.args):
            v = self.d.summary(callee, self, tuple(V(x.lo, x.hi, x.open, x.kind) for x in values))
            if v is not None:
                return V(v.lo, v.hi, v.open, v.kind, names)
        return V(names=names)

    ################################################################################################

    def sink(self, name, n, v, domain, s, argument):
        if not self.record:
            return
        lo, open_, hi = domain
        ok = (v.lo > lo or v.lo == lo and (not open_ or v.open)) and v.hi <= hi
        if ok:
            verdict = 'proved'
        elif self.safe:
            verdict = 'handled'
        elif v.kind != 'computed':
            verdict = 'unknown'
        elif v.hi > lo and any(g & v.names for g in s.guards):
            verdict = 'bounded'
        else:
            verdict = 'unbounded'
        self.d.sites.append({
            'where': self.where, 'function': name, 'argument': text_of(argument), 'verdict': verdict,
            'line': n.lineno, 'interval': repr(v), 'parameters': sorted(v.names & set(self.parameters)),
            'name': self.node.name})
