"""Stand-in of ast: psa_parse builds these nodes from a text with symbolic numbers."""


class AST:
    def __init__(self, **fields):
        self.fields = fields

    def __getattr__(self, name):
        if name in self.fields:
            return self.fields[name]
        raise AttributeError(name)


class Expression(AST):
    pass


class Constant(AST):
    pass


class Name(AST):
    pass


class Attribute(AST):
    pass


class Call(AST):
    pass


class BinOp(AST):
    pass


class UnaryOp(AST):
    pass


class Add(AST):
    pass


class Sub(AST):
    pass


class Mult(AST):
    pass


class Div(AST):
    pass


class Pow(AST):
    pass


class Mod(AST):
    pass


class FloorDiv(AST):
    pass


class USub(AST):
    pass


class UAdd(AST):
    pass


class Load(AST):
    pass


class keyword(AST):
    pass


def parse(source, filename='<unknown>', mode='exec'):
    return psa_parse(source)


def children(node):
    out = []
    for value in node.fields.values():
        if isinstance(value, AST):
            out.append(value)
        elif isinstance(value, list):
            for x in value:
                if isinstance(x, AST):
                    out.append(x)
    return out


def walk(node):
    out = [node]
    for x in children(node):
        out = out + walk(x)
    return out


class NodeVisitor:
    def visit(self, node):
        visitor = getattr(self, 'visit_' + node.__class__.__name__, None)
        if visitor is None:
            return self.generic_visit(node)
        return visitor(node)

    def generic_visit(self, node):
        for x in children(node):
            self.visit(x)


def evaluate(node, names):
    """Model of eval on the compiled node."""
    if isinstance(node, Expression):
        return evaluate(node.body, names)
    if isinstance(node, Constant):
        return node.value
    if isinstance(node, Name):
        if node.id in names:
            return names[node.id]
        if node.id == 'abs':
            return abs
        if node.id == 'min':
            return min
        if node.id == 'max':
            return max
        raise NameError(node.id)
    if isinstance(node, Attribute):
        return getattr(evaluate(node.value, names), node.attr)
    if isinstance(node, Call):
        function = evaluate(node.func, names)
        return function(*[evaluate(x, names) for x in node.args])
    if isinstance(node, UnaryOp):
        value = evaluate(node.operand, names)
        if isinstance(node.op, USub):
            return -value
        return value
    if isinstance(node, BinOp):
        a = evaluate(node.left, names)
        b = evaluate(node.right, names)
        if isinstance(node.op, Add):
            return a + b
        if isinstance(node.op, Sub):
            return a - b
        if isinstance(node.op, Mult):
            return a * b
        if isinstance(node.op, Div):
            return a / b
        if isinstance(node.op, Pow):
            return a ** b
    return psa_any('expression')
