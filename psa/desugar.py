"""Statements written with younger syntax are read as the older ones that mean the same.

``match`` is read as an assignment and a chain of tests, ``with suppress(E)`` as a ``try`` that ignores E.
"""

import ast

ONE_POSITIONAL = ('bool', 'bytearray', 'bytes', 'dict', 'float', 'frozenset', 'int', 'list', 'set', 'str', 'tuple')


class Unsupported(Exception):
    pass


def load(name):
    return ast.Name(name, ast.Load())


def both(tests):
    tests = [t for t in tests if t is not None]
    if not tests:
        return None
    return tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)


def instance(value, types):
    return ast.Call(load('isinstance'), [value, types], [])


def pattern(p, subject):
    """The test made by the pattern *p* of the expression *subject*, None when it always holds."""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subject, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchAs):
        test = pattern(p.pattern, subject) if p.pattern is not None else None
        return both([test, bound(p.name, subject) if p.name is not None else None])
    if isinstance(p, ast.MatchOr):
        tests = [pattern(q, subject) for q in p.patterns]
        if any(t is None for t in tests):
            return None
        return ast.BoolOp(ast.Or(), tests)
    if isinstance(p, ast.MatchClass):
        tests = [instance(subject, p.cls)]
        if p.patterns:
            if len(p.patterns) > 1 or not isinstance(p.cls, ast.Name) or p.cls.id not in ONE_POSITIONAL:
                raise Unsupported
            tests.append(pattern(p.patterns[0], subject))
        for name, q in zip(p.kwd_attrs, p.kwd_patterns):
            tests.append(ast.Call(load('hasattr'), [subject, ast.Constant(name)], []))
            tests.append(pattern(q, ast.Attribute(subject, name, ast.Load())))
        return both(tests)
    if isinstance(p, ast.MatchSequence):
        stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        size = ast.Call(load('len'), [subject], [])
        n = len(p.patterns) - len(stars)
        tests = [instance(subject, ast.Tuple([load('list'), load('tuple')], ast.Load())),
                 ast.Compare(size, [ast.GtE() if stars else ast.Eq()], [ast.Constant(n)])]
        for i, q in enumerate(p.patterns):
            if stars and i == stars[0]:
                if q.name is not None:
                    after = len(p.patterns) - 1 - i
                    upper = ast.UnaryOp(ast.USub(), ast.Constant(after)) if after else None
                    rest = ast.Subscript(subject, ast.Slice(ast.Constant(i), upper, None), ast.Load())
                    tests.append(bound(q.name, ast.Call(load('list'), [rest], [])))
                continue
            at = ast.Constant(i) if not stars or i < stars[0] else \
                ast.UnaryOp(ast.USub(), ast.Constant(len(p.patterns) - i))
            tests.append(pattern(q, ast.Subscript(subject, at, ast.Load())))
        return both(tests)
    raise Unsupported


def bound(name, value):
    # a list of one item is true, whatever the item
    return ast.List([ast.NamedExpr(ast.Name(name, ast.Store()), value)], ast.Load())


class Desugar(ast.NodeTransformer):

    def __init__(self):
        self.count = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        self.count += 1
        if isinstance(n.subject, ast.Name):
            # a capture may rebind the name
            name = n.subject.id
            names = {getattr(x, 'name', None) for c in n.cases for x in ast.walk(c.pattern)}
            first = [] if name not in names else None
        else:
            first = None
        if first is None:
            name = '_match_subject_{}'.format(self.count)
            first = [ast.Assign([ast.Name(name, ast.Store())], n.subject)]
        try:
            chain = []
            for c in reversed(n.cases):
                test = both([pattern(c.pattern, load(name)), c.guard])
                if test is None:
                    chain = c.body
                else:
                    chain = [ast.If(test, c.body, chain)]
                    ast.copy_location(chain[0], c.pattern)
        except Unsupported:
            return n
        out = first + chain
        for x in out:
            place(x, n)
        return out or ast.copy_location(ast.Pass(), n)

    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) != 1 or n.items[0].optional_vars is not None:
            return n
        c = n.items[0].context_expr
        if not isinstance(c, ast.Call) or c.keywords or not c.args:
            return n
        if isinstance(c.func, ast.Name) and c.func.id == 'suppress' or isinstance(c.func, ast.Attribute) and \
                c.func.attr == 'suppress' and isinstance(c.func.value, ast.Name) and c.func.value.id == 'contextlib':
            types = c.args[0] if len(c.args) == 1 else ast.Tuple(c.args, ast.Load())
            out = ast.Try(n.body, [ast.ExceptHandler(types, None, [ast.Pass()])], [], [])
            return place(ast.copy_location(out, n), n)
        return n


def place(tree, at):
    """Give a place to the new nodes of *tree*: that of the statement they were made of."""
    for x in ast.walk(tree):
        if 'lineno' in x._attributes and not hasattr(x, 'lineno'):
            ast.copy_location(x, at)
    return tree


def parse(source, filename='<unknown>'):
    return Desugar().visit(ast.parse(source, filename=filename))
