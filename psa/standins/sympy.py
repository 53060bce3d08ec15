"""Stand-in of sympy: the tree of an expression, which can be substituted and evaluated."""

import ast


class Expr:
    def __init__(self, kind, args, text=None):
        self.kind = kind        # name, number, neg, +, -, *, /, **
        self.args = args
        self.text = text

    @property
    def free_symbols(self):
        if self.kind == 'name':
            return {self.args[0]}
        if self.kind == 'number':
            return set()
        out = set()
        for x in self.args:
            out = out | x.free_symbols
        return out

    def subs(self, mapping):
        return self._replaced(mapping)

    def _replaced(self, mapping):
        if self.kind == 'number':
            return self
        if self.kind == 'name':
            if self.args[0] in mapping:
                return sympify(mapping[self.args[0]])
            return self
        return Expr(self.kind, [x._replaced(mapping) for x in self.args])

    def __eq__(self, other):
        if not isinstance(other, Expr) or self.kind != other.kind or len(self.args) != len(other.args):
            return False
        for a, b in zip(self.args, other.args):
            if a != b:
                return False
        return True

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.kind)

    def __float__(self):
        return float(self._value())

    def __str__(self):
        if self.text is not None:
            return self.text
        if self.kind == 'name':
            return self.args[0]
        if self.kind == 'neg':
            return '-(' + str(self.args[0]) + ')'
        return '(' + str(self.args[0]) + ')' + self.kind + '(' + str(self.args[1]) + ')'

    def _value(self):
        a = self.args
        if self.kind == 'number':
            return a[0]
        if self.kind == 'name':
            raise TypeError('Cannot convert expression to float')
        if self.kind == 'neg':
            return -a[0]._value()
        if self.kind == '+':
            return a[0]._value() + a[1]._value()
        if self.kind == '-':
            return a[0]._value() - a[1]._value()
        if self.kind == '*':
            return a[0]._value() * a[1]._value()
        if self.kind == '/':
            return a[0]._value() / a[1]._value()
        return a[0]._value() ** a[1]._value()


class Number(Expr):
    def __init__(self, value):
        Expr.__init__(self, 'number', [value], str(value))


class Integer(Number):
    def __int__(self):
        return self.args[0]


class Float(Number):
    pass


class _expr:
    Expr = Expr


class _core:
    expr = _expr


core = _core


def _tree(node):
    if isinstance(node, ast.Expression):
        return _tree(node.body)
    if isinstance(node, ast.Constant):
        return sympify(node.value)
    if isinstance(node, ast.Name):
        return Expr('name', [node.id])
    if isinstance(node, ast.UnaryOp):
        if isinstance(node.op, ast.USub):
            if isinstance(node.operand, ast.Constant):
                return sympify(-node.operand.value)
            return Expr('neg', [_tree(node.operand)])
        return _tree(node.operand)
    if isinstance(node, ast.BinOp):
        a = _tree(node.left)
        b = _tree(node.right)
        if isinstance(node.op, ast.Add):
            return Expr('+', [a, b])
        if isinstance(node.op, ast.Sub):
            return Expr('-', [a, b])
        if isinstance(node.op, ast.Mult):
            return Expr('*', [a, b])
        if isinstance(node.op, ast.Div):
            return Expr('/', [a, b])
        return Expr('**', [a, b])
    return psa_any('tree')


def sympify(value):
    if isinstance(value, Expr):
        return value
    if isinstance(value, int):
        return Integer(value)
    if isinstance(value, float):
        return Float(value)
    tree = _tree(psa_parse(str(value)))
    tree.text = str(value)
    return tree


REAL_ROOTS = []     # polynomials solved, with their variable


def Symbol(name, real=None):
    if real:
        return psa_scalar('symbol.' + name)     # the variable of a polynomial
    return Expr('name', [name], name)


class Root:
    def __init__(self, value):
        self.value = value

    def n(self):
        return self.value

    def evalf(self):
        return self.value

    def __float__(self):
        return self.value


def real_roots(expression, x=None):
    REAL_ROOTS.append((expression, x))
    return [Root(psa_scalar('root.0')), Root(psa_scalar('root.1'))]
