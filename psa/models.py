"""Models of the built-in functions and methods and of the few library functions the tree uses."""

import posixpath as _posixpath
from collections import deque as _deque
import builtins as _b
import math
import string
from fractions import Fraction

from . import gate, algebra, numeric, strings
from .values import *
from .interp import (Args, F0, MAX_ITEMS, SliceV, all_const, boolnum, dict_key, show_key, strip, TYPE_ERRORS)

EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


def labels_of(args):
    out = NOLABELS
    for a in args.all():
        out = out | a.labels
    return out


def deep_labels(it, v, st, depth=3):
    """Labels of a value and of what a container holds."""
    out = v.labels
    for m in members(v):
        if m.__class__ is Ref and depth:
            o = it.get(st, m.oid)
            if o is not None:
                if o.kind in ('list', 'tuple', 'set', 'iter', 'ndarray', 'dict'):
                    for x in (o.items if o.items is not None else [o.elem]):
                        out = out | deep_labels(it, x, st, depth - 1)
                    if o.kind == 'dict':
                        for x in o.attrs.values():
                            out = out | deep_labels(it, x, st, depth - 1)
                elif o.kind == 'inst':
                    for x in o.attrs.values():
                        out = out | deep_labels(it, x, st, depth - 1)
    return out


def arity(it, name, args, lo, hi, n):
    if args.star is not None or args.kwstar is not None:
        return True
    k = len(args.pos)
    if k < lo or (hi is not None and k > hi):
        it.err('TypeError', '{}() takes {} arguments but {} were given'.format(
            name, lo if lo == hi else '{}-{}'.format(lo, hi), k), n)
        return False
    return True


ARITY = {'len': (1, 1), 'abs': (1, 1), 'iter': (1, 2), 'next': (1, 2), 'isinstance': (2, 2), 'issubclass': (2, 2),
         'hasattr': (2, 2), 'getattr': (2, 3), 'setattr': (3, 3), 'callable': (1, 1), 'reversed': (1, 1), 'id': (1, 1),
         'hash': (1, 1), 'ord': (1, 1), 'chr': (1, 1), 'divmod': (2, 2), 'any': (1, 1), 'all': (1, 1), 'repr': (1, 1),
         'range': (1, 3), 'sorted': (1, 1), 'bool': (0, 1), 'float': (0, 1), 'int': (0, 2), 'tuple': (0, 1),
         'list': (0, 1), 'set': (0, 1), 'frozenset': (0, 1), 'sum': (1, 2), 'round': (1, 2), 'map': (2, None),
         'filter': (2, 2), 'enumerate': (1, 2), 'min': (1, None), 'max': (1, None), 'zip': (0, None)}


def call_builtin(it, name, args, n, st):
    pos = args.pos
    labels = labels_of(args)
    if name in EXC:
        return it.alloc(st, n, HObj('exc', tag=name), 'exc')
    if name in ARITY:
        lo, hi = ARITY[name]
        if not arity(it, name, args, lo, hi, n):
            return TOP
    if args.star is not None and len(pos) < 1:
        pos = [args.star]
    if name.startswith('psa_'):
        return psa_value(it, name, pos, n, st)
    f = globals().get('b_' + name)
    if f is not None:
        return f(it, pos, args, n, st, labels)
    if name == 'object':
        return it.alloc(st, n, HObj('top'))
    if name == 'NotImplemented':
        it.err('TypeError', 'NotImplemented is not callable', n)
        return TOP
    if name in ('eval', 'compile') and pos and pos[0].__class__ is Ref:
        o = it.get(st, pos[0].oid)
        if o is not None and o.kind == 'inst' and o.cls.module == 'ast':
            # the stand-in of ast: the code is the tree
            if name == 'compile':
                return pos[0]
            return it.call(it.getattr(Mod('ast'), 'evaluate', n, st), Args(pos[:2]), n, st)
    if name in ('eval', 'exec', 'compile'):
        return TOP
    if name in ('print', 'delattr', 'exit', 'quit'):
        return NONE
    if name == 'id' and algebra.GENERIC[0] and pos and pos[0].__class__ is Ref:
        return Const(10**6 + it.ids.setdefault(pos[0].oid, len(it.ids)))
    if name in ('id', 'hash', 'ord'):
        return Num('int', labels=labels)
    if name in ('callable',):
        return Bool()
    if name in ('chr', 'bin', 'hex', 'oct', 'format', 'ascii', 'input'):
        return Str(None, labels)
    if name in ('staticmethod', 'classmethod'):
        v = pos[0] if pos else TOP
        return Func(v.f, v.defaults, v.kwdefaults, v.closure, 'static' if name[0] == 's' else 'class') \
            if v.__class__ is Func else v
    if name == 'property':
        kw = args.kw
        g = lambda i, k: pos[i] if len(pos) > i else kw.get(k)
        return Prop(g(0, 'fget'), g(1, 'fset'), g(2, 'fdel'))
    if name in ('divmod',):
        import ast
        if len(pos) == 2:
            q = it.binop(ast.FloorDiv(), pos[0], pos[1], n, st)
            r = it.binop(ast.Mod(), pos[0], pos[1], n, st) if not st.dead else BOTTOM
            return it.new_tuple(st, n, [q, r]) if not st.dead else BOTTOM
        return it.new_tuple(st, n, [Num('num'), Num('num')])
    if name in ('vars', 'globals', 'locals', 'dir'):
        return TOP
    if name in ('bytes', 'bytearray', 'memoryview', 'complex', 'slice'):
        return Top(None, labels)
    return Top(None, labels)


PSA = {
    # name: (kind, scale degree, parity x, parity y, translation weight, unit)
    'psa_x': ('float', 1, 1, 0, P1, None), 'psa_y': ('float', 1, 0, 1, P1, None),
    'psa_dx': ('float', 1, 1, 0, P0, None), 'psa_dy': ('float', 1, 0, 1, P0, None),
    'psa_ux': ('float', 0, 1, 0, P0, None), 'psa_uy': ('float', 0, 0, 1, P0, None),
    'psa_length': ('float', 1, 0, 0, P0, None), 'psa_scalar': ('float', 0, 0, 0, P0, None),
    'psa_degrees': ('float', 0, None, None, P1, 'deg'), 'psa_turn': ('float', 0, None, None, P0, 'deg'),
    'psa_int': ('int', 0, 0, 0, P0, None),
    # laws: a parameter strictly between 0 and 1, a positive length or number
    'psa_unit': ('float', 0, 0, 0, P0, None), 'psa_positive': ('float', 1, 0, 0, P0, None),
    'psa_positive_number': ('float', 0, 0, 0, P0, None),
}


def parsed(it, text, n, st):
    """The tree of an expression with symbolic numbers, made of the classes of psa/standins/ast.py."""
    import ast
    ps = strings.pieces(text) if strings.is_text(text) else None
    source, table = strings.encode(ps) if ps is not None else (None, None)
    if source is None:
        return TOP
    try:
        tree = ast.parse(source.strip(), mode='eval')
    except SyntaxError:
        it.do_raise('SyntaxError', st, n)
        return BOTTOM
    numbers = {}
    for key, p in table.items():
        numbers[key] = p[1] if p[0] == 'num' else None

    def value(x):
        if isinstance(x, ast.AST):
            cls = it.getattr(Mod('ast'), type(x).__name__, n, st)
            if cls.__class__ is not Cls:
                return TOP
            return it.call(cls, Args([], {k: value(v) for k, v in ast.iter_fields(x) if v is not None}), n, st)
        if isinstance(x, list):
            return it.new_list(st, n, [value(y) for y in x])
        if isinstance(x, str):
            return strings.build(strings.decode(x, table), NOLABELS)
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return numbers.get(str(x), Const(x))
        return Const(x)

    count = [0]

    def distinct(x):
        # one allocation per node
        count[0] += 1
        old = it.push_ctx(('node', count[0]))
        v = plain(x)
        it.ctx = old
        return v
    plain, value = value, distinct
    return value(tree)


def matches(it, pattern, text, n, st):
    """[(text, None) | ('', groups)] for the successive matches of a literal pattern."""
    import re
    ps = strings.pieces(text) if strings.is_text(text) else None
    source, table = strings.encode(ps) if ps is not None else (None, None)
    if source is None or pattern.__class__ is not Const:
        return TOP
    out = []
    at = 0

    def add(x, groups, i):
        old = it.push_ctx(('match', i))
        g = NONE
        if groups is not None:
            g = it.new_tuple(st, n, [NONE if y is None else strings.build(strings.decode(y, table), NOLABELS)
                                     for y in groups])
        it.ctx = old
        old = it.push_ctx(('part', i))
        out.append(it.new_tuple(st, n, [strings.build(strings.decode(x, table), NOLABELS), g]))
        it.ctx = old
    for i, m in enumerate(re.finditer(pattern.v, source)):
        add(source[at:m.start()], None, 2 * i)
        add('', (m.group(),) + m.groups(), 2 * i + 1)
        at = m.end()
    add(source[at:], None, -1)
    return it.new_list(st, n, out)


def psa_value(it, name, pos, n, st):
    """Unknown inputs of the analysis entry points (psa/seeds)."""
    tag = pos[0].v if pos and pos[0].__class__ is Const else name
    if name in PSA:
        k, d, px, py, w, u = PSA[name]
        algebra.BOUNDS.pop(tag, None)       # a name can be another quantity in another law
        algebra.SIGNED.discard(tag)
        if name == 'psa_unit':
            algebra.BOUNDS[tag] = (0, 1)
        elif name.startswith('psa_positive'):
            algebra.BOUNDS[tag] = (0, math.inf)
        elif name != 'psa_length':
            algebra.SIGNED.add(tag)
        return Num(k, g=(F0 + d, px, py), w=w, u=u, pv=Poly.var(tag), sym=tag, labels=frozenset([tag]))
    if name == 'psa_num':
        return Num('num', sym=tag, labels=frozenset([tag]))
    if name == 'psa_str':
        return Str(tag, frozenset([tag]))
    if name == 'psa_word':
        return Str(None, frozenset([tag]), (('word', tag),))
    if name == 'psa_bool':
        return Bool(frozenset([tag]), ('var', tag) if algebra.GENERIC[0] else None)
    if name == 'psa_any':
        return Top(tag, frozenset([tag]))
    if name == 'psa_union':
        return make_union(pos)
    if name == 'psa_derivative':
        v, var = numeric.as_num(pos[0]), numeric.as_num(pos[1])
        p = algebra.derivative(v.pv, var.pv)
        return Num('float', g=v.g, w=P0, pv=p)
    if name == 'psa_integral':
        v, var = numeric.as_num(pos[0]), numeric.as_num(pos[1])
        return Num('float', g=v.g, w=P0, pv=algebra.integral(v.pv, var.pv))
    if name == 'psa_positive_multiple':
        # found/reference is positive: decided at the samples only when found/reference is an identity of squares
        a, b = numeric.as_num(pos[0]), numeric.as_num(pos[1])
        status = algebra.same_sign(a.pv, b.pv)
        it.laws.append((pos[2].v, status, (short(a), short(b)), n.lineno if n is not None else 0))
        return NONE
    if name in ('psa_positive_value', 'psa_negative_value'):
        a = numeric.as_num(pos[0])
        good = 1 if name == 'psa_positive_value' else -1
        s = algebra.sign(a.pv) if a.pv is not None else None
        status = 'undecided' if s is None else ('equal' if s == good else 'different')
        if s is None and a.pv is not None:
            status = algebra.same_sign(a.pv, Poly.const(good))
        it.laws.append((pos[1].v, status, short(a), n.lineno if n is not None else 0))
        return NONE
    if name == 'psa_known':
        # the numbers are constants
        return Const(all(v.__class__ is Const or (v.__class__ is Num and v.pv is not None and v.pv.is_const)
                         for v in pos))
    if name == 'psa_parse':
        return parsed(it, pos[0], n, st)
    if name == 'psa_matches':
        return matches(it, pos[0], pos[1], n, st)
    if name == 'psa_stub':
        # calls of a function are recorded and give this value instead of being analysed
        f = pos[0].func if pos[0].__class__ is Bound else pos[0]
        if f.__class__ is Func:
            it.stubs[id(f.f.node)] = pos[1]
        return NONE
    if name == 'psa_args':
        f = pos[0].func if pos[0].__class__ is Bound else pos[0]
        calls = it.stub_calls.get(id(f.f.node)) if f.__class__ is Func else None
        if not calls:
            return TOP
        return it.new_tuple(st, n, calls[-1][1:] if pos[0].__class__ is Bound else calls[-1])
    if name in ('psa_equal', 'psa_true', 'psa_same_object', 'psa_other_object'):
        label = pos[-1].v if pos[-1].__class__ is Const else '?'
        if name == 'psa_equal':
            status, detail = deep_equal(it, st, pos[0], pos[1])
        elif name == 'psa_true':
            v = pos[0]
            status, detail = 'undecided', None
            if v.__class__ is Const:
                status, detail = ('equal', None) if v.v else ('different', 'the value is {!r}'.format(v.v))
        else:
            a, b = pos[0], pos[1]
            status, detail = 'undecided', None
            if a.__class__ is Ref and b.__class__ is Ref:
                same = a.oid == b.oid
                ok = same == (name == 'psa_same_object')
                status, detail = ('equal', None) if ok else ('different', 'the same object' if same else 'another object')
            elif None not in (kind_of(a), kind_of(b)) and kind_of(a) != kind_of(b):
                ok = name == 'psa_other_object'
                status, detail = ('equal', None) if ok else ('different', '{} and {}'.format(short(a), short(b)))
        it.laws.append((label, status, detail, n.lineno if n is not None else 0))
        return NONE
    raise ValueError(name)


def short(v):
    s = repr(v.pv) if v.__class__ is Num and v.pv is not None else repr(v)
    return s if len(s) < 160 else s[:157] + '...'


def kind_of(v):
    if v.__class__ is Const and v.v is None:
        return 'none'
    if is_numlike(v):
        return 'number'
    if strings.is_text(v):
        return 'text'
    return {Ref: 'object', Enum: 'enum', Cls: 'class'}.get(v.__class__)


def deep_equal(it, st, a, b, path='', depth=0):
    if is_numlike(a) and is_numlike(b):
        if a.__class__ is Const and b.__class__ is Const:
            if abs(a.v - b.v) <= 1e-9 * (1 + abs(a.v) + abs(b.v)):
                return 'equal', None
            return 'different', '{}: {} instead of {}'.format(path, a.v, b.v)
        status, witness = algebra.compare(numeric.as_num(a).pv, numeric.as_num(b).pv)
        if status == 'different':
            return status, '{}: {} instead of {}'.format(path, short(a), short(b))
        return status, (path, short(a), short(b))
    if Union in (a.__class__, b.__class__) or Top in (a.__class__, b.__class__) or depth > 6:
        return 'undecided', (path, repr(a)[:80], repr(b)[:80])
    if strings.is_text(a) and strings.is_text(b):
        pa, pb = strings.pieces(a), strings.pieces(b)
        if pa is None or pb is None:
            return 'undecided', (path, repr(a)[:80], repr(b)[:80])
        status = strings.compare(pa, pb, lambda x, y: algebra.compare(x.pv, y.pv)[0])
        return status, ('{}: {!r} instead of {!r}'.format(path, a, b) if status == 'different' else
                        (path, repr(a)[:80], repr(b)[:80]))
    if a.__class__ is Const and b.__class__ is Const:
        return ('equal', None) if a.v == b.v else ('different', '{}: {!r} instead of {!r}'.format(path, a.v, b.v))
    if a.__class__ is Ref and b.__class__ is Ref:
        if a.oid == b.oid:
            return 'equal', None
        x, y = it.get(st, a.oid), it.get(st, b.oid)
        if x is None or y is None:
            return 'undecided', path
        if x.kind == 'inst' and y.kind == 'inst':
            if x.cls is not y.cls and not (x.cls.isa(y.cls) or y.cls.isa(x.cls)):
                return 'different', '{}: a {} instead of a {}'.format(path, x.cls.name, y.cls.name)
            pairs = [('.' + k, x.attrs[k], y.attrs[k]) for k in x.attrs if k in y.attrs]
        elif x.kind in ('list', 'tuple', 'ndarray') and y.kind in ('list', 'tuple', 'ndarray'):
            if x.items is None or y.items is None:
                return 'undecided', path
            if len(x.items) != len(y.items):
                return 'different', '{}: {} items instead of {}'.format(path, len(x.items), len(y.items))
            pairs = [('[{}]'.format(i), p, q) for i, (p, q) in enumerate(zip(x.items, y.items))]
        else:
            return 'undecided', path
        out = 'equal', None
        for k, p, q in pairs:
            r = deep_equal(it, st, p, q, path + k, depth + 1)
            if r[0] == 'different':
                return r
            if r[0] == 'undecided':
                out = r
        return out
    if a.__class__ is Enum and b.__class__ is Enum:
        return ('equal', None) if a == b else ('different', '{}: {} instead of {}'.format(path, a, b))
    if a.__class__ is Cls and b.__class__ is Cls:
        return ('equal', None) if a == b else ('different', '{}: {} instead of {}'.format(path, a, b))
    kinds = {kind_of(a), kind_of(b)}
    if len(kinds) == 2 and None not in kinds and kinds not in ({'object', 'number'}, {'object', 'text'}):
        return 'different', '{}: {} instead of {}'.format(path, short(a), short(b))
    return 'undecided', (path, repr(a)[:80], repr(b)[:80])


def b_len(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Union:
        return it.distribute(v, lambda m, s: b_len(it, [m], args, n, s, labels), st)
    if v.__class__ is Const:
        if isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        it.err('TypeError', 'object of type {} has no len()'.format(type(v.v).__name__), n)
        return TOP
    if v.__class__ is Num:
        it.err('TypeError', 'object of type float has no len()', n)
        return TOP
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is None:
            return Num('int', g=(F0, 0, 0), w=P0)
        if o.kind == 'inst':
            cl, f = o.cls.lookup('__len__')
            if f is not None:
                return it.call(it.bind(f, v, cl, n, st), Args(), n, st)
            if not o.cls.has_external:
                it.err('TypeError', 'object of type {} has no len()'.format(o.cls.name), n)
            return TOP
        if o.kind == 'iter':
            it.err('TypeError', 'object of type iterator has no len()', n)
            return TOP
        if o.kind == 'dict':
            if o.elem is BOTTOM and not o.maybe:
                return Const(len(o.attrs))
        elif o.items is not None and (o.kind != 'set' or algebra.GENERIC[0] and not o.summary):
            return Const(len(o.items))
    if v.__class__ is Cls and v.c.is_enum:
        return Const(len(v.c.members))
    if v.__class__ in (Func, Bound, BBound):
        it.err('TypeError', 'object of type function has no len()', n)
    return Num('int', g=(F0, 0, 0), w=P0)


def b_range(it, pos, args, n, st, labels):
    vals = [boolnum(p) for p in pos]
    for v in vals:
        if v.__class__ is Num and v.k == 'float':
            it.err('TypeError', 'float object cannot be interpreted as an integer', n)
        if v.__class__ is Const and not isinstance(v.v, int):
            it.err('TypeError', '{} object cannot be interpreted as an integer'.format(type(v.v).__name__), n)
            return TOP
    if all(v.__class__ is Const for v in vals) and args.star is None:
        try:
            r = range(*[v.v for v in vals])
        except (TypeError, ValueError):
            return TOP
        if len(r) <= MAX_ITEMS:
            return it.new_list(st, n, [Const(i) for i in r])
    return it.alloc(st, n, HObj('list', elem=Num('int', g=(F0, 0, 0), w=P0, labels=labels)))


def seq_builtin(kind):
    def f(it, pos, args, n, st, labels):
        if not pos:
            if kind == 'dict':
                return it.alloc(st, n, HObj('dict'))
            return it.alloc(st, n, HObj(kind, items=()))
        k, items = it.iterate(pos[0], n, st)
        if st.dead:
            return BOTTOM
        if k and kind != 'set':
            return it.alloc(st, n, HObj(kind, items=tuple(items)))
        if k:
            return it.new_set(st, n, items)
        return it.alloc(st, n, HObj(kind, elem=items))
    return f


b_list = seq_builtin('list')
b_tuple = seq_builtin('tuple')
b_set = seq_builtin('set')
b_frozenset = seq_builtin('set')


def b_dict(it, pos, args, n, st, labels):
    attrs = {}
    elem = BOTTOM
    key = BOTTOM
    maybe = frozenset()
    if pos:
        v = pos[0]
        o = it.get(st, v.oid) if v.__class__ is Ref else None
        if o is not None and o.kind == 'dict':
            attrs, elem, key, maybe = dict(o.attrs), o.elem, o.key, o.maybe
        else:
            k, items = it.iterate(v, n, st)
            if k:
                for x in items:
                    kk, pair = it.iterate(x, n, st)
                    if kk and len(pair) == 2:
                        dk = dict_key(pair[0])
                        if dk is not None:
                            attrs[dk] = pair[1]
                        else:
                            elem = join(elem, pair[1])
                            key = join(key, pair[0])
                    else:
                        elem = TOP
            else:
                elem, key = TOP, TOP
                for m in members(items):
                    if m.__class__ is Ref:
                        kk, pair = it.iterate(m, n, st)
                        if kk and len(pair) == 2:
                            key, elem = pair
    for k, v in args.kw.items():
        attrs[Const(k)] = v
    if args.kwstar is not None:
        elem = join(elem, args.kwstar)
        key = join(key, Str())
    return it.alloc(st, n, HObj('dict', attrs=attrs, elem=elem, key=key, maybe=maybe))


def b_iter(it, pos, args, n, st, labels):
    if len(pos) == 2:
        f = pos[0]
        if f.__class__ in (Func, Bound, BBound, Cls, Top, Ext):
            return it.new_iter(st, n, None, TOP)
        it.err('TypeError', 'iter(v, w): v must be callable', n)
        return TOP
    v = pos[0]
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind == 'iter':
            return v
    k, items = it.iterate(v, n, st)
    if st.dead:
        return BOTTOM
    if k:
        return it.new_iter(st, n, items)
    return it.new_iter(st, n, None, items)


def b_next(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Union:
        return it.distribute(v, lambda m, s: b_next(it, [m] + pos[1:], args, n, s, labels), st)
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind == 'iter':
            if o.items is not None and not o.summary:
                if o.items:
                    it.write(st, v.oid, o, 'consume', v, n, o.replace(items=o.items[1:]))
                    return o.items[0]
                if len(pos) > 1:
                    return pos[1]
                it.do_raise('StopIteration', st, n)
                return BOTTOM
            e = o.all_elems()
            return join(e, pos[1]) if len(pos) > 1 else (e if e is not BOTTOM else TOP)
        if o is not None and o.kind in ('list', 'tuple', 'dict', 'set'):
            it.err('TypeError', '{} object is not an iterator'.format(o.kind), n)
            return TOP
        if o is not None and o.kind == 'inst':
            cl, f = o.cls.lookup('__next__')
            if f is not None:
                return it.call(it.bind(f, v, cl, n, st), Args(), n, st)
            if not o.cls.has_external:
                it.err('TypeError', '{} object is not an iterator'.format(o.cls.name), n)
    return TOP


def b_enumerate(it, pos, args, n, st, labels):
    k, items = it.iterate(pos[0], n, st)
    start = pos[1] if len(pos) > 1 else args.kw.get('start', Const(0))
    if k and start.__class__ is Const and isinstance(start.v, int):
        out = []
        for i, x in enumerate(items):
            out.append(it.new_tuple(st, n, [Const(i + start.v), x], ('en', i)))
        return it.new_iter(st, n, out)
    e = join_all(items) if k else items
    t = it.new_tuple(st, n, [Num('int', g=(F0, 0, 0), w=P0), e if e is not BOTTOM else TOP], 'en')
    return it.new_iter(st, n, None, t)


def b_zip(it, pos, args, n, st, labels):
    seqs = []
    shared = {}
    for i, p in enumerate(pos):
        old = it.push_ctx(('zip', i))
        o = it.get(st, p.oid) if p.__class__ is Ref else None
        if o is not None and o.kind == 'iter' and not o.summary and o.items is not None:
            if p.oid in shared:
                shared[p.oid][1] += 1
                it.ctx = old
                continue
            shared[p.oid] = [list(o.items), 1]
        seqs.append(it.iterate(p, n, st))
        it.ctx = old
    if any(c > 1 for _, c in shared.values()):
        if len(shared) != 1 or len(seqs) != 1:
            return TOP
        (items, c), = shared.values()
        return it.new_iter(st, n, [it.new_tuple(st, n, items[i:i + c], ('zip', i))
                                   for i in range(0, len(items) - c + 1, c)])
    if seqs and all(k for k, _ in seqs) and args.star is None:
        out = []
        for i, row in enumerate(zip(*[x for _, x in seqs])):
            out.append(it.new_tuple(st, n, row, ('zip', i)))
        return it.new_iter(st, n, out)
    if args.star is not None or not seqs:
        return it.new_iter(st, n, None, TOP) if seqs or args.star is not None else it.new_iter(st, n, [])
    t = it.new_tuple(st, n, [(join_all(x) if k else x) for k, x in seqs], 'zip')
    return it.new_iter(st, n, None, t)


def b_reversed(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind in ('iter', 'set'):
            it.err('TypeError', '{} object is not reversible'.format(o.kind), n)
            return TOP
        if o is not None and o.kind == 'inst':
            cl, f = o.cls.lookup('__reversed__')
            if f is not None:
                return it.call(it.bind(f, v, cl, n, st), Args(), n, st)
    k, items = it.iterate(v, n, st)
    if k:
        return it.new_iter(st, n, list(reversed(items)))
    return it.new_iter(st, n, None, items)


def call_each(it, f, elems, n, st):
    return it.call(f, Args(elems), n, st)


def b_map(it, pos, args, n, st, labels):
    seqs = [it.iterate(p, n, st) for p in pos[1:]]
    if seqs and all(k for k, _ in seqs):
        out = []
        for i, row in enumerate(zip(*[x for _, x in seqs])):
            old = it.push_ctx(('map', i))
            out.append(it.call(pos[0], Args(row), n, st))
            it.ctx = old
            if st.dead:
                return BOTTOM
        return it.new_iter(st, n, out)
    r = it.call(pos[0], Args([(join_all(x) if k else x) for k, x in seqs]), n, st)
    st.dead = False
    return it.new_iter(st, n, None, r)


def b_filter(it, pos, args, n, st, labels):
    k, items = it.iterate(pos[1], n, st)
    plain = pos[0].__class__ is Const and pos[0].v is None
    if k and len(items) <= 64:
        kept, exact = [], True
        for i, x in enumerate(items):
            r = x
            if not plain:
                old = it.push_ctx(('filter', i))
                r = it.call(pos[0], Args([x]), n, st)
                it.ctx = old
                if st.dead:
                    return BOTTOM
            t = it.truth(r, n, st)
            if t is not False:
                kept.append(x)
            if t is None:
                exact = False
        if exact:
            return it.new_iter(st, n, kept)
        if algebra.GENERIC[0]:
            return TOP
        return it.new_iter(st, n, None, join_all(kept))
    e = join_all(items) if k else items
    if e is not BOTTOM and not plain:
        it.call(pos[0], Args([e]), n, st)
        st.dead = False
    return it.new_iter(st, n, None, e)


def b_sorted(it, pos, args, n, st, labels):
    k, items = it.iterate(pos[0], n, st)
    e = join_all(items) if k else items
    key = args.kw.get('key')
    check_sortable(it, e, key, n, st)
    if k:
        out = ordered(it, items, args, n, st)
        if out is not None:
            return it.new_list(st, n, out)
        return it.new_list(st, n, [e] * len(items) if items else [])
    return it.alloc(st, n, HObj('list', elem=e))


def ordered(it, items, args, n, st):
    """The items in the order of their keys (stable), None when a comparison is not decided."""
    reverse = args.kw.get('reverse', Const(False))
    if reverse.__class__ is not Const:
        return None
    key = args.kw.get('key')
    keys = items
    if key is not None and not (key.__class__ is Const and key.v is None):
        keys = []
        for i, x in enumerate(items):
            old = it.push_ctx(('key', i))
            keys.append(it.call(key, Args([x]), n, st))
            it.ctx = old
            if st.dead:
                st.dead = False
                return None
    pairs = []
    for k, x in (reversed(list(zip(keys, items))) if reverse.v else zip(keys, items)):
        at = len(pairs)
        while at:
            r = less(it, k, pairs[at - 1][0], st)
            if r is None:
                return None
            if not r:
                break
            at -= 1
        pairs.insert(at, (k, x))
    out = [x for _, x in pairs]
    return out[::-1] if reverse.v else out


def less(it, a, b, st):
    if a.__class__ is Const and b.__class__ is Const:
        try:
            return bool(a.v < b.v)
        except TypeError:
            return None
    if a.__class__ in (Const, Num) and b.__class__ in (Const, Num):
        if a.__class__ is Const and not isinstance(a.v, (int, float)) or \
                b.__class__ is Const and not isinstance(b.v, (int, float)) or not algebra.GENERIC[0]:
            return None
        return algebra.decide('<', numeric.as_num(a).pv, numeric.as_num(b).pv)
    if a.__class__ is BBound and b.__class__ is BBound and a.name == b.name == 'cmp_to_key key':
        x, y = it.get(st, a.recv.oid).items, it.get(st, b.recv.oid).items
        r = it.call(x[0], Args([x[1], y[1]]), None, st)
        return less(it, r, Const(0), st)
    oa, ob = it.plain_sequence(a, st), it.plain_sequence(b, st)
    if oa is None or ob is None or oa.kind != ob.kind:
        return None
    for x, y in zip(oa.items, ob.items):
        r = it.simple_equal(x, y, st)
        if r is None:
            return None
        if not r:
            return less(it, x, y, st)
    return len(oa.items) < len(ob.items)


def check_sortable(it, e, key, n, st):
    if e is BOTTOM:
        return
    if key is not None and not (key.__class__ is Const and key.v is None):
        r = it.call(key, Args([e]), n, st)
        st.dead = False
        return r
    for m in members(e):
        if m.__class__ is Ref:
            o = it.get(st, m.oid)
            if o is not None and o.kind == 'inst' and not o.cls.has_external and o.cls.lookup('__lt__')[1] is None \
                    and o.cls.lookup('__gt__')[1] is None:
                it.err('TypeError', "'<' not supported between instances of {}".format(o.cls.name), n)


def b_sum(it, pos, args, n, st, labels):
    k, items = it.iterate(pos[0], n, st)
    start = pos[1] if len(pos) > 1 else args.kw.get('start', Const(0))
    import ast
    if k:
        acc = start
        for i, x in enumerate(items):
            old = it.push_ctx(('sum', i))
            acc = it.binop(ast.Add(), acc, x, n, st)
            it.ctx = old
            if st.dead:
                return BOTTOM
        return acc
    if items is BOTTOM:
        return start
    r = it.binop(ast.Add(), start, items, n, st)
    if r.__class__ is Num:
        r = r.replace(w=r.w if r.w is not None and r.w.is_zero else None, pv=None, sym=None)
        # summing once more must be consistent
    else:
        r2 = it.binop(ast.Add(), r, items, n, st)
        r = join(r, r2)
    return r


def minmax(name):
    def f(it, pos, args, n, st, labels):
        if len(pos) == 1 and args.star is None:
            k, items = it.iterate(pos[0], n, st)
            vals = items if k else [items]
            if k and not items and 'default' in args.kw:
                return args.kw['default']
        else:
            vals = list(pos) + ([args.star] if args.star is not None else [])
        key = args.kw.get('key')
        e = join_all(vals)
        if e is BOTTOM:
            return TOP
        if key is not None and not (key.__class__ is Const and key.v is None):
            if algebra.GENERIC[0] and len(vals) <= 64 and (k if len(pos) == 1 else True) and args.star is None:
                order = ordered(it, vals, Args([], {'key': key, 'reverse': Const(name == 'max')}), n, st)
                if order is not None:
                    return order[0]
            it.call(key, Args([e]), n, st)
            st.dead = False
            if 'default' in args.kw:
                e = join(e, args.kw['default'])
            return e
        if all(x.__class__ is Const and isinstance(x.v, (int, float)) for x in vals):
            return Const((min if name == 'min' else max)(x.v for x in vals), labels)
        nums = [m for x in vals for m in members(x) if is_numlike(m)]
        for a, b in zip(nums, nums[1:]):
            numeric.compare('<', a, b, it.reporter(n))
        check_sortable(it, e, None, n, st)
        if 'default' in args.kw:
            e = join(e, args.kw['default'])
        elif e.__class__ is Num and e.pv is None and len(vals) > 1 and all(is_numlike(x) for x in vals):
            e = e.replace(pv=extremum(name, [numeric.as_num(x).pv for x in vals]))
        return e
    return f


def extremum(name, ps):
    if not algebra.GENERIC[0] or None in ps or len(ps) > 5:
        return algebra.apply(name, *ps)
    out = ps[0]
    for p in ps[1:]:
        r = algebra.decide('<', out, p)
        if r is not None:
            out = out if r == (name == 'min') else p
            continue
        c = gate.comparison('<', out, p)
        if c is None:
            return None
        out = algebra.ite(c, out, p) if name == 'min' else algebra.ite(c, p, out)
    return out


b_min = minmax('min')
b_max = minmax('max')


def b_abs(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Union:
        return it.distribute(v, lambda m, s: b_abs(it, [m], args, n, s, labels), st)
    v = boolnum(v)
    if is_numlike(v):
        return numeric.absolute(v)
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind == 'inst':
            cl, f = o.cls.lookup('__abs__')
            if f is not None:
                return it.call(it.bind(f, v, cl, n, st), Args(), n, st)
            if not o.cls.has_external:
                it.err('TypeError', 'bad operand type for abs(): {}'.format(o.cls.name), n)
        if o is not None and o.kind == 'ndarray':
            return it.nd_map(v, lambda x: b_abs(it, [x], args, n, st, labels), n, st)
        if o is not None and o.kind in ('list', 'tuple', 'dict', 'iter', 'set'):
            it.err('TypeError', 'bad operand type for abs(): {}'.format(o.kind), n)
    if v.__class__ is Const or v.__class__ is Str:
        it.err('TypeError', 'bad operand type for abs(): {}'.format(it.type_name(v, st)), n)
    return Num('num', labels=labels)


def b_round(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Const and isinstance(v.v, (int, float)):
        if len(pos) == 1:
            return Const(round(v.v), labels)
        if pos[1].__class__ is Const and isinstance(pos[1].v, int):
            return Const(round(v.v, pos[1].v), labels)
        return Num('float', labels=labels)
    if v.__class__ is Num:
        if algebra.GENERIC[0] and len(pos) == 2 and pos[1].__class__ is Const and isinstance(pos[1].v, int) \
           and pos[1].v > (8 if v.pv is not None and v.pv.is_const else 3):
            return v.replace(sym=None, labels=labels)    # a guard against rounding errors
        digits = 0 if len(pos) == 1 else pos[1].v if pos[1].__class__ is Const and isinstance(pos[1].v, int) else None
        if algebra.GENERIC[0] and v.pv is not None and digits is not None:
            pv = algebra.integer_part('round', v.pv.scale(Fraction(10) ** digits))
            if pv is not None and pv.is_const:
                return v.replace(k='int' if len(pos) == 1 else v.k, sym=None, labels=labels,
                                 pv=pv.scale(Fraction(10) ** -digits))
        return v.replace(k='int' if len(pos) == 1 else v.k, sym=None, pv=None, labels=labels)
    return Num('num', labels=labels)


def recorded(f):
    def g(it, pos, args, n, st, labels):
        v = f(it, pos, args, n, st, labels)
        if not st.dead:
            it.conversions.append(v)
        return v
    return g


def number_ctor(kind):
    def f(it, pos, args, n, st, labels):
        if not pos:
            return Const(0 if kind == 'int' else 0.)
        v = pos[0]
        if v.__class__ is Union:
            return it.distribute(v, lambda m, s: f(it, [m] + pos[1:], args, n, s, labels), st)
        if v.__class__ is Const:
            if isinstance(v.v, (int, float, str)):
                if len(pos) > 1:
                    if pos[1].__class__ is Const and isinstance(pos[1].v, int) and isinstance(v.v, str):
                        try:
                            return Const(int(v.v, pos[1].v), labels)
                        except ValueError:
                            it.do_raise('ValueError', st, n)
                            return BOTTOM
                    return Num('int', labels=labels)
                try:
                    return Const((int if kind == 'int' else float)(v.v), labels)
                except (ValueError, OverflowError):
                    if isinstance(v.v, str):
                        it.do_raise('ValueError', st, n)
                        return BOTTOM
                    return Num(kind, labels=labels)
            it.err('TypeError', '{}() argument must be a string or a number, not {}'.format(
                kind, type(v.v).__name__), n)
            return TOP
        if v.__class__ is Num:
            if kind == 'int':
                if algebra.GENERIC[0] and v.pv is not None:
                    whole = algebra.integer_part('trunc', v.pv)
                    if whole is not None and whole.is_const and whole.value.denominator == 1:
                        return Const(int(whole.value), labels)
                return v.replace(k='int', pv=v.pv if v.k == 'int' else algebra.integer_part('trunc', v.pv)
                                 if algebra.GENERIC[0] else None, sym=('int:' + v.sym) if v.sym and v.k != 'int' else v.sym)
            return v.replace(k='float')
        if v.__class__ is Bool:
            return Num(kind, g=(F0, 0, 0), w=P0, labels=labels)
        if v.__class__ is Str and v.parts is not None and len(v.parts) == 1 and v.parts[0][0] == 'num':
            num = v.parts[0][1]
            if kind == 'float' or num.k == 'int':
                return num.replace(k=kind, labels=labels)
        if v.__class__ is Str and v.parts is not None and len(v.parts) == 2 and v.parts[0] in ('-', '+') \
           and v.parts[1][0] == 'num':
            num = v.parts[1][1]
            if kind == 'float' or num.k == 'int':
                return num.replace(k=kind, pv=num.pv.neg() if v.parts[0] == '-' else num.pv, labels=labels)
        if v.__class__ is Str and v.parts is not None and algebra.GENERIC[0] and all(
                p.__class__ is str or p[0] != 'sym' for p in v.parts):
            # in general position a word is no number, the text of a real number is no integer
            known = [p for p in v.parts if p.__class__ is not str and p[0] == 'num']
            if len(known) != 1 or (len(v.parts) == 1 and kind == 'int'):
                it.do_raise('ValueError', st, n)
                return BOTTOM
        if v.__class__ in (Str, Top):
            return Num(kind, sym='{}:{}'.format(kind, v.sym) if v.sym else None, labels=labels)
        if v.__class__ is Ref:
            o = it.get(st, v.oid)
            if o is not None and o.kind == 'inst':
                for d in ('__int__', '__index__') if kind == 'int' else ('__float__', '__index__'):
                    cl, g = o.cls.lookup(d)
                    if g is not None:
                        r = it.call(it.bind(g, v, cl, n, st), Args(), n, st)
                        if kind == 'float' and algebra.GENERIC[0] and r.__class__ is Const and type(r.v) in (int, str, type(None)):
                            it.do_raise('TypeError', st, n)
                            return BOTTOM
                        return r if kind == 'int' or r.__class__ is not Num else r.replace(k='float')
                if not o.cls.has_external:
                    it.err('TypeError', '{}() argument must be a string or a number, not {}'.format(
                        kind, o.cls.name), n)
                return TOP
            if o is not None and o.kind in ('list', 'tuple', 'dict', 'set', 'iter'):
                it.err('TypeError', '{}() argument must be a string or a number, not {}'.format(kind, o.kind), n)
                return TOP
        if v.__class__ in (Cls, Func, Bound, BBound):
            it.err('TypeError', '{}() argument must be a string or a number, not {}'.format(
                kind, it.type_name(v, st)), n)
        return Num(kind, labels=labels)
    return f


b_int = recorded(number_ctor('int'))
b_float = recorded(number_ctor('float'))


def b_bool(it, pos, args, n, st, labels):
    if not pos:
        return FALSE
    t = it.truth(pos[0], n, st)
    return Const(t, labels) if t is not None else Bool(labels)


def b_str(it, pos, args, n, st, labels):
    if not pos:
        return Const('')
    v = pos[0]
    if v.__class__ is Union:
        return it.distribute(v, lambda m, s: it.to_str(m, n, s), st)
    return it.to_str(v, n, st)


def b_repr(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind == 'inst':
            cl, f = o.cls.lookup('__repr__')
            if f is not None:
                return it.call(it.bind(f, v, cl, n, st), Args(), n, st)
    return strings.build(strings.piece_of(v, '', 'r'), labels)


def b_isinstance(it, pos, args, n, st, labels):
    if len(pos) < 2:
        return Bool()
    r = it.isinstance(pos[0], pos[1], st)
    return Bool(pos[0].labels) if r is None else Const(r)


def b_issubclass(it, pos, args, n, st, labels):
    a, b = pos[0], pos[1]
    if a.__class__ is Cls and b.__class__ is Cls:
        return Const(a.c.isa(b.c))
    if a.__class__ in (Const, Num, Str) or (a.__class__ is Ref):
        it.err('TypeError', 'issubclass() arg 1 must be a class', n)
    return Bool()


def b_hasattr(it, pos, args, n, st, labels):
    o, name = pos[0], pos[1]
    if name.__class__ is Const and not isinstance(name.v, str):
        it.err('TypeError', 'attribute name must be string', n)
        return TOP
    if name.__class__ is Const:
        rs = set()
        for m in members(o):
            if m.__class__ in (Top, Ext):
                rs.add(None)
                continue
            it.sink.append([])
            s = st.copy()
            handling, it.handling = it.handling, []
            it.getattr(m, name.v, n, s)
            it.handling = handling
            errs = it.sink.pop()
            if any(e[0] == 'AttributeError' for e in errs):
                rs.add(False)
            else:
                ob = it.get(st, m.oid) if m.__class__ is Ref else None
                rs.add(None if ob is not None and (name.v in ob.maybe or ob.open) else True)
        if len(rs) == 1:
            r = rs.pop()
            if r is not None:
                return Const(r)
    return Bool()


def b_getattr(it, pos, args, n, st, labels):
    o, name = pos[0], pos[1]
    default = pos[2] if len(pos) > 2 else None
    outs = []
    for m in members(name):
        if m.__class__ is Const and isinstance(m.v, str):
            if default is not None:
                it.sink.append([])
                handling, it.handling = it.handling, []
                v = it.getattr(o, m.v, n, st)
                it.handling = handling
                errs = it.sink.pop()
                if any(e[0] == 'AttributeError' for e in errs):
                    outs.append(default)
                else:
                    ob = it.get(st, o.oid) if o.__class__ is Ref else None
                    outs.append(join(v, default) if ob is not None and m.v in ob.maybe else v)
            else:
                outs.append(it.getattr(o, m.v, n, st))
        elif m.__class__ is Const:
            it.err('TypeError', 'attribute name must be string, not {}'.format(type(m.v).__name__), n)
            outs.append(TOP)
        else:
            ob = it.get(st, o.oid) if o.__class__ is Ref else None
            if m.__class__ in (Str, Top) and m.sym and ob is not None and ob.kind == 'inst' and ('@' + m.sym) in ob.attrs:
                outs.append(ob.attrs['@' + m.sym])
            else:
                outs.append(TOP)
    return join_all(outs)


def b_setattr(it, pos, args, n, st, labels):
    o, name, v = pos[:3]
    if name.__class__ is Const and isinstance(name.v, str):
        it.setattr(o, name.v, v, n, st)
    elif o.__class__ is Ref:
        ob = it.get(st, o.oid)
        if ob is not None and ob.kind == 'inst':
            if name.__class__ in (Str, Top) and name.sym:
                it.raw_setattr(o, ob, '@' + name.sym, v, n, st)
            ob = it.get(st, o.oid)
            it.put(st, o.oid, ob.replace(open=True))
    return NONE


def b_callable(it, pos, args, n, st, labels):
    v = pos[0]
    if v.__class__ in (Func, Bound, Cls, BBound, Builtin):
        return TRUE
    if v.__class__ in (Const, Num, Str):
        return FALSE
    return Bool()


def b_type(it, pos, args, n, st, labels):
    if len(pos) == 1:
        v = pos[0]
        if v.__class__ is Ref:
            o = it.get(st, v.oid)
            if o is not None and o.kind == 'inst':
                return Cls(o.cls)
            if o is not None and o.kind in ('list', 'tuple', 'dict', 'set'):
                return Builtin(o.kind)
        if v.__class__ is Const:
            return Builtin(type(v.v).__name__)
        if v.__class__ is Enum:
            return Cls(v.c)
        if v.__class__ is Cls and v.c.meta is not None:
            return v.c.meta
    return TOP


def b_super(it, pos, args, n, st, labels):
    if len(pos) == 2 and pos[0].__class__ is Cls:
        return Super(pos[0].c, pos[1])
    if len(pos) == 1 and pos[0].__class__ is Cls:
        # unbound super object
        return it.alloc(st, n, HObj('top', tag='unbound super'))
    return TOP


def anyall(name):
    def f(it, pos, args, n, st, labels):
        k, items = it.iterate(pos[0], n, st)
        if k:
            rs = [it.truth(x, n, st) for x in items]
            if name == 'all':
                if any(r is False for r in rs):
                    return FALSE
                if all(r is True for r in rs):
                    return TRUE
            else:
                if any(r is True for r in rs):
                    return TRUE
                if all(r is False for r in rs):
                    return FALSE
        return Bool()
    return f


b_any = anyall('any')
b_all = anyall('all')


def b_open(it, pos, args, n, st, labels):
    mode = pos[1] if len(pos) > 1 else args.kw.get('mode', Const('r'))
    m = mode.v if mode.__class__ is Const else '?'
    for o in it.observers:
        o.on_ext(it, st, 'open', args, n)
    return it.alloc(st, n, HObj('file', tag=m), 'file')


def b_print(it, pos, args, n, st, labels):
    for p in pos:
        for m in members(p):
            it.to_str(m, n, st)
    return NONE

####################################################################################################
# methods of built-in receivers


def call_method(it, f, args, n, st):
    recv, name = f.recv, f.name
    c = recv.__class__
    if name == 'itemgetter()':
        return it.getitem(args.pos[0], recv, n, st) if len(args.pos) == 1 else TOP
    if name == 'attrgetter()':
        return it.getattr(args.pos[0], recv.v, n, st) if len(args.pos) == 1 else TOP
    if name == 'cmp_to_key()':
        if len(args.pos) != 1:
            return TOP
        it.call(recv, Args([args.pos[0], args.pos[0]]), n, st)
        return BBound(it.new_tuple(st, n, [recv, args.pos[0]], 'cmp'), 'cmp_to_key key')
    if name.startswith('object.'):
        return NONE
    if c is Ref:
        o = it.get(st, recv.oid)
        if o is None:
            return TOP
        m = globals().get('m_{}_{}'.format(o.kind, name))
        if m is not None:
            return m(it, recv, o, args.pos, args, n, st)
        if o.kind == 'iter' and name == '__next__':
            return b_next(it, [recv], args, n, st, NOLABELS)
        if o.kind in ('file', 'lock'):
            return m_resource(it, recv, o, name, args, n, st)
        return Top(None, labels_of(args))
    if c is Const and isinstance(recv.v, str) or c is Str:
        return str_method(it, recv, name, args, n, st)
    if c is Builtin and recv.name == 'dict' and name == 'fromkeys':
        k, items = it.iterate(args.pos[0], n, st)
        v = args.pos[1] if len(args.pos) > 1 else NONE
        if k and all(dict_key(x) is not None for x in items):
            return it.alloc(st, n, HObj('dict', attrs={dict_key(x): v for x in items}))
        return it.alloc(st, n, HObj('dict', elem=v, key=join_all(items) if k else items))
    if name == 'maketrans' and (c is Builtin or c is Const or c is Str):
        vals = args.pos
        if not args.kw and args.star is None and len(vals) in (2, 3) and all(
                x.__class__ is Const and isinstance(x.v, str) for x in vals) and len(vals[0].v) == len(vals[1].v):
            table = str.maketrans(*[x.v for x in vals])
            return it.alloc(st, n, HObj('dict', attrs={Const(k): Const(v) for k, v in table.items()}))
        return TOP
    if c is Builtin and recv.name in ('list', 'dict', 'set', 'tuple') and args.pos and args.pos[0].__class__ is Ref:
        o = it.get(st, args.pos[0].oid)
        if o is not None and o.kind == recv.name:
            return call_method(it, BBound(args.pos[0], name), Args(args.pos[1:], args.kw, args.star, args.kwstar), n, st)
    if c is Builtin and recv.name == 'str' and args.pos:
        return str_method(it, args.pos[0], name, Args(args.pos[1:], args.kw), n, st)
    if c is Cls and name == '__subclasses__':
        return it.new_list(st, n, [Cls(x) for x in recv.c.sub])
    if c in (Num, Const) and name == 'is_integer':
        return Bool()
    return Top(None, recv.labels | labels_of(args))


def m_resource(it, recv, o, name, args, n, st):
    token = (o.kind, recv.oid)
    if o.kind == 'lock':
        if name == 'acquire':
            st.held = st.held + (token,)
            return TRUE
        if name == 'release':
            h = list(st.held)
            if token in h:
                h.remove(token)
            st.held = tuple(h)
            return NONE
        return TOP
    if name in ('read', 'readline'):
        return Str()
    if name == 'readlines':
        return it.alloc(st, n, HObj('list', elem=Str()))
    return NONE


def builtin_getattr(it, o, ob, name, n, st, default=None):
    kind = ob.kind
    t = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set}.get(kind)
    if kind == 'ndarray':
        return nd_attr(it, o, ob, name, n, st)
    if t is not None:
        if hasattr(t, name) or ob.tag == 'deque' and hasattr(_deque, name):
            if name == '__class__':
                return Builtin(kind)
            return BBound(o, name)
        # range objects and sets are modelled as lists
        if kind in ('list', 'set') and (hasattr(range, name) or hasattr(frozenset, name)):
            return TOP
        if default is not None:
            return default
        return it.lacks('{} object has no attribute {!r}'.format(kind, name), n, st)
    if kind == 'iter':
        if name in ('__next__', '__iter__', 'send', 'close', 'throw'):
            return BBound(o, name)
        if default is not None:
            return default
        return it.lacks('iterator has no attribute {!r}'.format(name), n, st)
    if kind in ('lock', 'file'):
        return BBound(o, name)
    return TOP


def _install(cls):
    cls.builtin_getattr = lambda self, o, ob, name, n, st, default=None: builtin_getattr(self, o, ob, name, n, st, default)


from . import interp as _interp
_install(_interp.Interp)

# -- list


def m_list_append(it, r, o, pos, args, n, st):
    if not arity(it, 'append', args, 1, 1, n):
        return NONE
    v = pos[0] if pos else args.star
    if o.items is not None and len(o.items) < MAX_ITEMS and not o.summary:
        new = o.replace(items=o.items + (v,))
    else:
        new = o.replace(items=None, elem=join(o.all_elems(), v))
    it.write(st, r.oid, o, ('add', v), v, n, new)
    return NONE


def m_list_extend(it, r, o, pos, args, n, st):
    if not arity(it, 'extend', args, 1, 1, n):
        return NONE
    k, items = it.iterate(pos[0], n, st)
    o = it.get(st, r.oid)
    if k and o.items is not None and len(o.items) + len(items) < MAX_ITEMS and not o.summary:
        new = o.replace(items=o.items + tuple(items))
    else:
        new = o.replace(items=None, elem=join(o.all_elems(), join_all(items) if k else items))
    it.write(st, r.oid, o, ('extend', pos[0]), pos[0], n, new)
    return NONE


def m_list_insert(it, r, o, pos, args, n, st):
    if len(pos) < 2:
        return NONE
    if o.items is not None and pos[0].__class__ is Const and isinstance(pos[0].v, int) and not o.summary:
        items = list(o.items)
        items.insert(pos[0].v, pos[1])
        new = o.replace(items=tuple(items))
    else:
        new = o.replace(items=None, elem=join(o.all_elems(), pos[1]))
    it.write(st, r.oid, o, ('add', pos[1]), pos[1], n, new)
    return NONE


def m_list_pop(it, r, o, pos, args, n, st):
    i = pos[0] if pos else Const(-1)
    if o.items is not None and i.__class__ is Const and not o.summary:
        if not o.items:
            it.err('IndexError', 'pop from empty list', n)
            return TOP
        if -len(o.items) <= i.v < len(o.items):
            items = list(o.items)
            v = items.pop(i.v)
            it.write(st, r.oid, o, ('del', i), v, n, o.replace(items=tuple(items)))
            return v
    it.doubts.append('IndexError')
    e = o.all_elems()
    it.write(st, r.oid, o, ('del', i), e, n, o.replace(items=None, elem=e))
    return e if e is not BOTTOM else TOP


def m_list_popleft(it, r, o, pos, args, n, st):
    return m_list_pop(it, r, o, [Const(0)], args, n, st)


def m_list_appendleft(it, r, o, pos, args, n, st):
    if len(pos) != 1:
        return NONE
    return m_list_insert(it, r, o, [Const(0), pos[0]], args, n, st)


def m_list_extendleft(it, r, o, pos, args, n, st):
    if len(pos) != 1:
        return NONE
    k, items = it.iterate(pos[0], n, st)
    o = it.get(st, r.oid)
    if k and o.items is not None and not o.summary:
        new = o.replace(items=tuple(reversed(items)) + o.items)
    else:
        new = o.replace(items=None, elem=join(o.all_elems(), join_all(items) if k else items))
    it.write(st, r.oid, o, ('extend', pos[0]), pos[0], n, new)
    return NONE


def m_list_rotate(it, r, o, pos, args, n, st):
    i = pos[0] if pos else Const(1)
    if o.items is not None and i.__class__ is Const and isinstance(i.v, int) and not o.summary:
        at = -i.v % len(o.items) if o.items else 0
        new = o.replace(items=o.items[at:] + o.items[:at])
    else:
        new = o.replace(items=None, elem=o.all_elems())
    it.write(st, r.oid, o, ('sort',), NONE, n, new)
    return NONE


def m_list_remove(it, r, o, pos, args, n, st):
    if o.items is not None and pos and not o.summary:
        same = [x for x in o.items if it.simple_equal(x, pos[0], st) is True]
        if len(same) == 1:
            items = list(o.items)
            items.remove(same[0])
            it.write(st, r.oid, o, ('del', pos[0]), pos[0], n, o.replace(items=tuple(items)))
            return NONE
        if algebra.GENERIC[0] and it.caught('ValueError') and all(
                it.simple_equal(x, pos[0], st) is False for x in o.items):
            it.do_raise('ValueError', st, n)
            return BOTTOM
    it.write(st, r.oid, o, ('del', pos[0] if pos else TOP), TOP, n, o.replace(items=None, elem=o.all_elems()))
    return NONE


def m_list_clear(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('clear',), NONE, n, o.replace(items=(), elem=BOTTOM))
    return NONE


def m_list_sort(it, r, o, pos, args, n, st):
    e = o.all_elems()
    check_sortable(it, e, args.kw.get('key'), n, st)
    items = None
    if o.items is not None:
        items = ordered(it, o.items, args, n, st)
        items = tuple([e] * len(o.items)) if items is None else tuple(items)
    o2 = it.get(st, r.oid)
    it.write(st, r.oid, o2, ('sort',), NONE, n, o2.replace(items=items, elem=e if items is None else BOTTOM))
    return NONE


def m_list_reverse(it, r, o, pos, args, n, st):
    new = o.replace(items=tuple(reversed(o.items))) if o.items is not None else o
    it.write(st, r.oid, o, ('sort',), NONE, n, new)
    return NONE


def m_list_copy(it, r, o, pos, args, n, st):
    return it.alloc(st, n, HObj(o.kind, attrs=dict(o.attrs), items=o.items, elem=o.elem, key=o.key, maybe=o.maybe, tag=o.tag))


def m_list_index(it, r, o, pos, args, n, st):
    if o.items is not None and pos:
        rs = [it.simple_equal(x, pos[0], st) for x in o.items]
        for i, x in enumerate(rs):
            if x is True:
                return Const(i)
            if x is None:
                break
        if algebra.GENERIC[0] and len(pos) == 1 and all(x is False for x in rs) and it.caught('ValueError'):
            it.do_raise('ValueError', st, n)
            return BOTTOM
    return Num('int', g=(F0, 0, 0), w=P0)


def m_list_count(it, r, o, pos, args, n, st):
    return Num('int', g=(F0, 0, 0), w=P0)


m_tuple_index, m_tuple_count = m_list_index, m_list_count

# -- set


def m_set_add(it, r, o, pos, args, n, st):
    if not arity(it, 'add', args, 1, 1, n):
        return NONE
    v = pos[0]
    if algebra.GENERIC[0] and o.items is not None and not o.summary:
        items = it.set_items(o.items + (v,), n, st)
        if items is None:
            new = o.replace(items=None, elem=join(o.all_elems(), v))
        else:
            new = o.replace(items=items)
    elif o.items is not None and not o.summary and len(o.items) < 64:
        new = o.replace(items=o.items if v in o.items else o.items + (v,))
    else:
        new = o.replace(items=None, elem=join(o.all_elems(), v))
    it.write(st, r.oid, o, ('add', v), v, n, new)
    return NONE


def _set_del(it, r, o, pos, args, n, st, remove):
    v = pos[0] if pos else TOP
    if algebra.GENERIC[0] and o.items is not None and not o.summary:
        rs = [it.equal_elements(v, x, n, st) for x in o.items]
        if True in rs:
            new = o.replace(items=tuple(x for x, r in zip(o.items, rs) if r is not True))
        elif None in rs:
            new = o.replace(items=None, elem=o.all_elems())
        elif remove:
            it.do_raise('KeyError', st, n)
            return BOTTOM
        else:
            return NONE
    elif o.items is not None and v in o.items and not o.summary:
        new = o.replace(items=tuple(x for x in o.items if x != v))
    else:
        new = o.replace(items=None, elem=o.all_elems())
    it.write(st, r.oid, o, ('del', v), v, n, new)
    return NONE


def m_set_remove(it, r, o, pos, args, n, st):
    return _set_del(it, r, o, pos, args, n, st, True)


def m_set_discard(it, r, o, pos, args, n, st):
    return _set_del(it, r, o, pos, args, n, st, False)


def m_set_pop(it, r, o, pos, args, n, st):
    if algebra.GENERIC[0] and o.items and not o.summary:
        it.write(st, r.oid, o, ('del', o.items[0]), o.items[0], n, o.replace(items=o.items[1:]))
        return o.items[0]
    e = o.all_elems()
    it.write(st, r.oid, o, ('del', TOP), e, n, o.replace(items=None, elem=e))
    return e if e is not BOTTOM else TOP


def m_set_update(it, r, o, pos, args, n, st):
    e = o.all_elems()
    exact = list(o.items) if algebra.GENERIC[0] and o.items is not None and not o.summary else None
    for p in pos:
        k, items = it.iterate(p, n, st)
        e = join(e, join_all(items) if k else items)
        exact = exact + list(items) if k and exact is not None else None
    if exact is not None:
        exact = it.set_items(exact, n, st)
    if exact is not None:
        it.write(st, r.oid, o, ('extend', pos[0] if pos else TOP), TOP, n, o.replace(items=exact, elem=BOTTOM))
        return NONE
    it.write(st, r.oid, o, ('extend', pos[0] if pos else TOP), TOP, n, o.replace(items=None, elem=e))
    return NONE


def m_set_clear(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('clear',), NONE, n, o.replace(items=(), elem=BOTTOM))
    return NONE


m_set_copy = m_list_copy


def _set_op(it, r, o, pos, args, n, st, sym):
    e = o.all_elems()
    if algebra.GENERIC[0] and o.items is not None and not o.summary:
        items = o.items
        for p in pos:
            k, others = it.iterate(p, n, st)
            items = it.set_operation(sym, items, others, n, st) if k and items is not None else None
        if items is not None:
            return it.alloc(st, n, HObj('set', items=tuple(items)))
    for p in pos:
        k, items = it.iterate(p, n, st)
        e = join(e, join_all(items) if k else items)
    return it.alloc(st, n, HObj('set', elem=e))


def _set_method(sym):
    return lambda it, r, o, pos, args, n, st: _set_op(it, r, o, pos, args, n, st, sym)


m_set_union, m_set_difference = _set_method('|'), _set_method('-')
m_set_intersection, m_set_symmetric_difference = _set_method('&'), _set_method('^')



def _set_update(sym):
    def method(it, r, o, pos, args, n, st):
        v = _set_op(it, r, o, pos, args, n, st, sym)
        new = it.get(st, v.oid)
        it.write(st, r.oid, o, ('extend', pos[0] if pos else TOP), TOP, n, o.replace(items=new.items, elem=new.elem))
        return NONE
    return method


m_set_intersection_update, m_set_difference_update = _set_update('&'), _set_update('-')
m_set_symmetric_difference_update = _set_update('^')


def _set_test(test):
    def method(it, r, o, pos, args, n, st):
        if algebra.GENERIC[0] and o.items is not None and not o.summary and len(pos) == 1:
            k, others = it.iterate(pos[0], n, st)
            if k:
                res = it.set_relation(test, o.items, others, n, st)
                if res is not None:
                    return Const(res)
        return Bool(o.labels if hasattr(o, 'labels') else NOLABELS)
    return method


m_set_issubset, m_set_issuperset, m_set_isdisjoint = _set_test('<='), _set_test('>='), _set_test('disjoint')

# -- dict


def m_dict_get(it, r, o, pos, args, n, st):
    if not pos:
        it.err('TypeError', 'get expected at least 1 argument, got 0', n)
        return TOP
    default = pos[1] if len(pos) > 1 else NONE
    outs = []
    for m in members(pos[0]):
        k = dict_key(m)
        if k is None:
            outs += [o.all_elems(), default]
        elif k in o.attrs:
            outs.append(o.attrs[k])
            if k in o.maybe:
                outs.append(default)
        elif o.elem is not BOTTOM:
            outs += [o.elem, default]
        elif not all_const(o.attrs):
            outs += [o.all_elems(), default]
        else:
            outs.append(default)
    return join_all(outs)


def m_dict_pop(it, r, o, pos, args, n, st):
    k = dict_key(pos[0]) if pos else None
    a = dict(o.attrs)
    if k is not None and k in a:
        v = a.pop(k)
        if k in o.maybe and len(pos) > 1:
            v = join(v, pos[1])
        new = o.replace(attrs=a, maybe=o.maybe - {k})
    elif o.elem is BOTTOM and k is not None and all_const(a):
        if len(pos) > 1:
            return pos[1]
        if algebra.GENERIC[0] and it.caught('KeyError'):
            it.do_raise('KeyError', st, n)
            return BOTTOM
        it.err('KeyError', 'key {} is not in the table'.format(show_key(k)), n)
        return TOP
    else:
        v = o.all_elems()
        if len(pos) > 1:
            v = join(v, pos[1])
        new = o.replace(maybe=o.maybe | frozenset(a))
    it.write(st, r.oid, o, ('del', pos[0] if pos else TOP), v, n, new)
    return v if v is not BOTTOM else TOP


def m_dict_setdefault(it, r, o, pos, args, n, st):
    default = pos[1] if len(pos) > 1 else NONE
    k = dict_key(pos[0]) if pos else None
    a = dict(o.attrs)
    if k is not None and k in a and k not in o.maybe:
        return a[k]
    if k is not None:
        v = join(a.get(k, BOTTOM), default)
        if o.elem is not BOTTOM:
            v = join(v, o.elem)
        a[k] = v
        it.write(st, r.oid, o, ('set', pos[0]), default, n, o.replace(attrs=a, maybe=o.maybe - {k}))
        return v
    v = join(o.all_elems(), default)
    it.write(st, r.oid, o, ('set', pos[0] if pos else TOP), default, n,
             o.replace(elem=join(o.elem, default), key=join(o.key, pos[0] if pos else TOP)))
    return v


def m_dict_update(it, r, o, pos, args, n, st):
    a = dict(o.attrs)
    elem, key = o.elem, o.key
    maybe = set(o.maybe)
    for p in pos:
        po = it.get(st, p.oid) if p.__class__ is Ref else None
        if po is not None and po.kind == 'dict':
            for k, v in po.attrs.items():
                if k in po.maybe:
                    if k in a:
                        a[k] = join(a[k], v)
                    else:
                        a[k] = v
                        maybe.add(k)
                else:
                    a[k] = v
                    maybe.discard(k)
            elem, key = join(elem, po.elem), join(key, po.key)
        else:
            known, items = it.iterate(p, n, st)
            pairs = []
            for x in items if known else ():
                k2, xs = it.iterate(x, n, st)
                key2 = dict_key(xs[0]) if k2 and len(xs) == 2 else None
                if key2 is None:
                    break
                pairs.append((key2, xs[1]))
            if known and len(pairs) == len(items):
                for k2, v in pairs:
                    a[k2] = v
                    maybe.discard(k2)
            else:
                elem, key = TOP, TOP
    for k, v in args.kw.items():
        a[Const(k)] = v
        maybe.discard(Const(k))
    if args.kwstar is not None:
        elem, key = join(elem, args.kwstar), join(key, Str())
    it.write(st, r.oid, o, ('update',), pos[0] if pos else NONE, n,
             o.replace(attrs=a, elem=elem, key=key, maybe=frozenset(maybe)))
    return NONE


def m_dict_clear(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('clear',), NONE, n, o.replace(attrs={}, elem=BOTTOM, key=BOTTOM, maybe=frozenset()))
    return NONE


m_dict_copy = m_list_copy


def _dict_exact(o):
    return o.elem is BOTTOM and not o.maybe and len(o.attrs) <= 2000


def m_dict_keys(it, r, o, pos, args, n, st):
    if _dict_exact(o):
        return it.new_list(st, n, list(o.attrs), 'keys')
    k = join(join_all(list(o.attrs)[:64]), o.key if o.key is not BOTTOM else (TOP if o.elem is not BOTTOM else BOTTOM))
    return it.alloc(st, n, HObj('list', elem=k), 'keys')


def m_dict_values(it, r, o, pos, args, n, st):
    if _dict_exact(o):
        return it.new_list(st, n, list(o.attrs.values()), 'values')
    return it.alloc(st, n, HObj('list', elem=o.all_elems()), 'values')


def m_dict_items(it, r, o, pos, args, n, st):
    if _dict_exact(o) and len(o.attrs) <= MAX_ITEMS:
        out = []
        for i, (k, v) in enumerate(o.attrs.items()):
            out.append(it.new_tuple(st, n, [k, v], ('item', i)))
        return it.new_list(st, n, out, 'items')
    key = join(join_all(list(o.attrs)[:64]), o.key if o.key is not BOTTOM else (TOP if o.elem is not BOTTOM else BOTTOM))
    t = it.new_tuple(st, n, [key if key is not BOTTOM else TOP, o.all_elems()], 'item')
    return it.alloc(st, n, HObj('list', elem=t), 'items')


def m_dict_popitem(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('del', TOP), TOP, n, o.replace(maybe=frozenset(o.attrs)))
    return it.new_tuple(st, n, [TOP, o.all_elems()], 'item')

# -- str

_fmt = string.Formatter()


def str_method(it, recv, name, args, n, st):
    pos = args.pos
    labels = recv.labels
    for a in args.all():
        labels = labels | a.labels
    if name == 'format' and recv.__class__ is Const:
        return str_format(it, recv.v, args, n, st, labels)
    if name == 'translate':
        o = it.get(st, pos[0].oid) if pos and pos[0].__class__ is Ref else None
        if recv.__class__ is Const and o is not None and o.kind == 'dict' and o.elem is BOTTOM and not o.maybe and all(
                k.__class__ is Const and v.__class__ is Const for k, v in o.attrs.items()):
            return Const(recv.v.translate({k.v: v.v for k, v in o.attrs.items()}), labels)
        return TOP
    if name == 'join':
        labels = recv.labels
        if pos:
            labels = labels | deep_labels(it, pos[0], st)
            k, items = it.iterate(pos[0], n, st)
            if not k:
                items = [items]
            for x in items:
                bad = [m for m in members(x) if m.__class__ is Num or (
                    m.__class__ is Const and not isinstance(m.v, str)) or (
                    m.__class__ is Ref and it.get(st, m.oid) is not None and it.get(st, m.oid).kind in ('inst', 'list', 'tuple', 'ndarray')
                    and not (it.get(st, m.oid).kind == 'inst' and it.get(st, m.oid).cls.has_external))]
                if bad and len(bad) == len(members(x)):
                    it.err('TypeError', 'join() expects str instances, {} found'.format(it.type_name(bad[0], st)), n)
                    break
            if k and recv.__class__ is Const and all(x.__class__ is Const and isinstance(x.v, str) for x in items):
                return Const(recv.v.join(x.v for x in items), labels)
            if k:
                out = []
                for i, x in enumerate(items):
                    out.extend(([recv] if i else []) + [x])
                return strings.concat(out, labels)
        return Str(None, labels)
    if recv.__class__ is Const and all(p.__class__ is Const for p in pos) and not args.kw and args.star is None:
        try:
            r = getattr(recv.v, name)(*[p.v for p in pos])
        except Exception as e:
            if isinstance(e, TypeError):
                it.err('TypeError', 'str.{}: {}'.format(name, e), n)
            else:
                it.do_raise(type(e).__name__, st, n)
                return BOTTOM
            return TOP
        if isinstance(r, (str, int, bool)):
            return Const(r, labels)
        if isinstance(r, (list, tuple)) and len(r) <= MAX_ITEMS:
            mk = it.new_list if isinstance(r, list) else it.new_tuple
            return mk(st, n, [Const(x, labels) for x in r])
        return TOP
    if recv.__class__ is Str or (recv.__class__ is Const and name == 'replace'):
        r = text_method(it, recv, name, args, n, st, labels)
        if r is not None:
            return r
    if name in ('startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isupper', 'islower', 'isidentifier',
                'isnumeric', 'isalnum', 'isdecimal', 'istitle'):
        return Bool(labels)
    if name == 'count' and len(pos) == 1:
        k = it.occurrences(recv, pos[0])
        if k is not None:
            return Const(k, labels)
    if name in ('find', 'rfind', 'index', 'rindex', 'count', '__len__'):
        return Num('int', g=(F0, 0, 0), w=P0, labels=labels)
    if name in ('split', 'rsplit', 'splitlines'):
        return it.alloc(st, n, HObj('list', elem=Str(None, labels)))
    if name in ('partition', 'rpartition'):
        return it.new_tuple(st, n, [Str(None, labels)] * 3)
    if name == 'encode':
        return Top(None, labels)
    if name in ('lower', 'upper', 'strip') and recv.__class__ is Str and recv.sym and not pos:
        return Str('{}:{}'.format(name, recv.sym), labels)
    for p in pos:
        if p.__class__ is Ref and name in ('replace',) and it.get(st, p.oid) is not None and \
                it.get(st, p.oid).kind == 'inst' and not it.get(st, p.oid).cls.has_external:
            it.err('TypeError', 'str.{} argument must be str, not {}'.format(name, it.type_name(p, st)), n)
    if name == 'replace':
        for p in pos[:2]:
            if p.__class__ is Num or (p.__class__ is Const and not isinstance(p.v, str)):
                it.err('TypeError', 'str.replace argument must be str, not {}'.format(it.type_name(p, st)), n)
    return Str(None, labels)


def text_method(it, recv, name, args, n, st, labels):
    """Methods of a text whose pieces are known; None when the result is not."""
    ps, pos = strings.pieces(recv), args.pos
    if ps is None or args.kw or args.star is not None:
        return None
    lit = [p.v if p.__class__ is Const else False for p in pos]
    if name == 'replace' and len(pos) == 2 and isinstance(lit[0], str) and strings.is_text(pos[1]):
        new = strings.pieces(pos[1])
        r = strings.replace(ps, lit[0], new) if new is not None else None
        return strings.build(r, labels) if r is not None else None
    if any(x is False for x in lit):
        return None
    if name in ('lower', 'upper') and not pos and recv.parts is not None:
        out = []
        for p in ps:
            if p.__class__ is str:
                out.append(getattr(p, name)())
            elif p[0] == 'num':
                out.append(p)
            else:
                out.append((p[0], '{}:{}'.format(name, p[1])))
        return strings.build(out, labels)
    if name in ('strip', 'lstrip', 'rstrip') and len(pos) <= 1:
        r = strings.strip(ps, name, lit[0] if lit else None)
        return strings.build(r, labels) if r is not None else None
    if name in ('isalpha', 'isdigit', 'isspace', 'isupper', 'islower', 'isalnum') and not pos:
        if name == 'isspace' and any(p.__class__ is not str and p[0] != 'sym' for p in ps):
            return FALSE
        if name == 'isalpha' and any(p.__class__ is not str and p[0] == 'num' for p in ps):
            return FALSE
    if name == 'split' and len(pos) <= 2:
        r = strings.split(ps, *lit)
        if r is not None and len(r) <= MAX_ITEMS:
            return it.new_list(st, n, [strings.build(f, labels) for f in r])
    if name == 'partition' and len(pos) == 1:
        r = strings.split(ps, lit[0], 1)
        if r is not None:
            if len(r) == 1:
                return it.new_tuple(st, n, [recv, Const(''), Const('')])
            return it.new_tuple(st, n, [strings.build(r[0], labels), pos[0], strings.build(r[1], labels)])
    if name in ('startswith', 'endswith') and len(pos) == 1 and isinstance(lit[0], str):
        r = strings.prefix(ps, name, lit[0])
        return Const(r, labels) if r is not None else None
    return None


def str_format(it, fmt, args, n, st, labels):
    try:
        fields = list(_fmt.parse(fmt))
    except ValueError as e:
        it.err('ValueError', 'invalid format string: {}'.format(e), n)
        return Str(None, labels)
    auto = 0
    parts = [] if args.star is None and args.kwstar is None else None
    for text, field, spec, conv in fields:
        if parts is not None:
            parts.append(text)
        if field is None:
            continue
        found = None
        todo = [field]
        if spec:
            try:
                todo += [f for _, f, _, _ in _fmt.parse(spec) if f is not None]
            except ValueError:
                pass
        for fld in todo:
            first = fld.split('.')[0].split('[')[0]
            rest = fld[len(first):]
            if first == '':
                idx = auto
                auto += 1
            elif first.isdigit():
                idx = int(first)
            else:
                if first not in args.kw:
                    if args.kwstar is None:
                        it.err('KeyError', 'format field {!r} has no argument'.format(first), n)
                    continue
                v = args.kw[first]
                idx = None
            if idx is not None:
                if idx >= len(args.pos):
                    if args.star is None:
                        it.err('IndexError', 'format field {} has no argument'.format(idx), n)
                    continue
                v = args.pos[idx]
            for part in rest.split('.'):
                if part and '[' not in part:
                    v = it.getattr(v, part, n, st)
            labels = labels | deep_labels(it, v, st)
            if fld is field:
                if v.__class__ is not Ref and v.__class__ is not Union and '[' not in rest:
                    found = v
                for m in members(v):
                    if m.__class__ is Ref:
                        if conv == 'r':
                            b_repr(it, [m], args, n, st, labels)
                        else:
                            r = it.to_str(m, n, st)
                            if v is m and '[' not in rest:
                                found = r
                    if spec and spec[-1:] in 'fgdexX%' and '{' not in spec:
                        bad = (m.__class__ is Const and m.v is None) or m.__class__ is Str or (
                            m.__class__ is Const and isinstance(m.v, str)) or (
                            m.__class__ is Ref and it.get(st, m.oid) is not None and (
                                it.get(st, m.oid).kind in ('list', 'tuple', 'ndarray', 'dict') or (
                                    it.get(st, m.oid).kind == 'inst' and not it.get(st, m.oid).cls.has_external
                                    and it.get(st, m.oid).cls.lookup('__format__')[1] is None)))
                        if bad and len(members(v)) == 1:
                            it.err('TypeError', 'format code {!r} cannot be used with {}'.format(
                                spec, it.type_name(m, st)), n)
        if parts is not None:
            ps = strings.piece_of(found, spec or '', conv) if found is not None and len(todo) == 1 else None
            parts = parts + list(ps) if ps is not None else None
    return strings.build(parts, labels)

####################################################################################################
# numpy, math and other libraries


def nd_attr(it, o, ob, name, n, st):
    if name == 'T':
        return nd_transpose(it, o, n, st)
    if name == 'shape':
        if ob.items is not None:
            dims = [Const(len(ob.items))]
            if ob.items and ob.items[0].__class__ is Ref:
                io = it.get(st, ob.items[0].oid)
                if io is not None and io.items is not None:
                    dims.append(Const(len(io.items)))
            return it.new_tuple(st, n, dims, 'shape')
        return TOP
    if name == 'size':
        return Num('int')
    if name == 'ndim':
        return Num('int')
    if name == 'flat':
        rows, flat = nd_rows(it, o, st), nd_flat(it, o, st)
        if rows is not None:
            flat = [x for row in rows for x in row]
        if flat is not None:
            return it.new_iter(st, n, flat, extra='flat')
        return TOP
    if name in ('dtype', 'real'):
        return TOP
    if name in ('transpose', 'dot', 'sum', 'copy', 'tolist', 'flatten', 'astype', 'reshape', 'min', 'max', 'all', 'any',
                'mean', 'ravel', 'round', 'argmin', 'argmax', 'fill', 'sort', 'item', 'prod', 'cumsum', 'squeeze',
                'clip', 'nonzero', 'diagonal', 'trace', 'argsort', 'swapaxes', 'conj', 'std'):
        return BBound(o, name)
    if name.startswith('__'):
        return TOP
    it.err('AttributeError', 'ndarray has no attribute {!r}'.format(name), n)
    return TOP


def nd_rows(it, v, st):
    """Exact rows of a two-dimensional array, or None."""
    if v.__class__ is not Ref:
        return None
    o = it.get(st, v.oid)
    if o is None or o.items is None or o.kind not in ('ndarray', 'list', 'tuple'):
        return None
    rows = []
    for r in o.items:
        if r.__class__ is not Ref:
            return None
        ro = it.get(st, r.oid)
        if ro is None or ro.items is None:
            return None
        rows.append(list(ro.items))
    if not rows or len({len(r) for r in rows}) != 1:
        return None
    return rows


def nd_flat(it, v, st):
    if v.__class__ is not Ref:
        return None
    o = it.get(st, v.oid)
    if o is None or o.items is None or o.kind not in ('ndarray', 'list', 'tuple'):
        return None
    if any(x.__class__ is Ref for x in o.items):
        return None
    return list(o.items)


def nd_sequence(it, v, n, st):
    flat = nd_flat(it, v, st)
    if flat is None and v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is not None and o.kind == 'inst':
            old = it.push_ctx(('sequence', v.oid))
            known, items = it.iterate(v, n, st)
            it.ctx = old
            if known and all(is_numlike(x) for x in items):
                return list(items)
    return flat


def mk_matrix(it, st, n, rows):
    out = []
    for i, r in enumerate(rows):
        out.append(it.alloc(st, n, HObj('ndarray', items=tuple(r)), ('row', i)))
    return it.alloc(st, n, HObj('ndarray', items=tuple(out)), 'mat')


def nd_transpose(it, o, n, st):
    rows = nd_rows(it, o, st)
    if rows is not None:
        return mk_matrix(it, st, n, [list(c) for c in zip(*rows)])
    if nd_flat(it, o, st) is not None:
        return o
    return it.alloc(st, n, HObj('ndarray', elem=TOP))


def _dot1(it, a, b, n, st):
    import ast
    acc = None
    for x, y in zip(a, b):
        p = it.binop(ast.Mult(), x, y, n, st)
        acc = p if acc is None else it.binop(ast.Add(), acc, p, n, st)
    return acc if acc is not None else Const(0)


def nd_dot(it, a, b, n, st):
    ra, rb = nd_rows(it, a, st), nd_rows(it, b, st)
    fa, fb = nd_flat(it, a, st), nd_flat(it, b, st)

    def bad(x, y):
        it.err('ValueError', 'shapes not aligned: {} and {}'.format(x, y), n)
        return TOP
    if fa is not None and fb is not None:
        if len(fa) != len(fb):
            return bad(len(fa), len(fb))
        return _dot1(it, fa, fb, n, st)
    if ra is not None and fb is not None:
        if len(ra[0]) != len(fb):
            return bad((len(ra), len(ra[0])), len(fb))
        return it.alloc(st, n, HObj('ndarray', items=tuple(_dot1(it, r, fb, n, st) for r in ra)), 'dot')
    if ra is not None and rb is not None:
        if len(ra[0]) != len(rb):
            return bad((len(ra), len(ra[0])), (len(rb), len(rb[0])))
        cols = [list(c) for c in zip(*rb)]
        return mk_matrix(it, st, n, [[_dot1(it, r, c, n, st) for c in cols] for r in ra])
    if fa is not None and rb is not None:
        if len(fa) != len(rb):
            return bad(len(fa), (len(rb), len(rb[0])))
        return it.alloc(st, n, HObj('ndarray', items=tuple(_dot1(it, fa, list(c), n, st) for c in zip(*rb))), 'dot')
    return TOP


def nd_array(it, v, n, st, depth=0):
    """np.array(v): a fresh array."""
    if v.__class__ is Union:
        return it.distribute(v, lambda m, s: nd_array(it, m, n, s, depth), st)
    if v.__class__ is Ref:
        o = it.get(st, v.oid)
        if o is None:
            return TOP
        if o.kind == 'iter':
            it.err('TypeError', 'numpy.array of an iterator makes a 0-d object array', n)
            return TOP
        if o.kind in ('list', 'tuple', 'ndarray') and o.items is not None:
            out = []
            for i, x in enumerate(o.items):
                if x.__class__ is Ref:
                    old = it.push_ctx(('nda', i))
                    out.append(nd_array(it, x, n, st, depth + 1))
                    it.ctx = old
                else:
                    out.append(x)
            return it.alloc(st, n, HObj('ndarray', items=tuple(out)), ('array', depth))
        if o.kind in ('list', 'tuple', 'ndarray'):
            e = o.elem
            if e.__class__ is Ref:
                e = nd_array(it, e, n, st, depth + 1)
            return it.alloc(st, n, HObj('ndarray', elem=e), ('array', depth))
        if o.kind == 'inst':
            k, items = it.iterate(v, n, st) if o.cls.lookup('__len__')[1] is not None or \
                o.cls.lookup('__getitem__')[1] is not None else (False, TOP)
            if k:
                return it.alloc(st, n, HObj('ndarray', items=tuple(items)), ('array', depth))
            return it.alloc(st, n, HObj('ndarray', elem=items), ('array', depth))
        return it.alloc(st, n, HObj('ndarray', elem=TOP), ('array', depth))
    if is_numlike(v):
        return v
    if v.__class__ in (Top, Ext):
        return it.alloc(st, n, HObj('ndarray', elem=Num('float', labels=v.labels), labels=v.labels), ('array', depth))
    return it.alloc(st, n, HObj('ndarray', elem=TOP), ('array', depth))


def m_ndarray_transpose(it, r, o, pos, args, n, st):
    return nd_transpose(it, r, n, st)


def m_ndarray_dot(it, r, o, pos, args, n, st):
    return nd_dot(it, r, pos[0], n, st) if pos else TOP


def m_ndarray_copy(it, r, o, pos, args, n, st):
    return nd_array(it, r, n, st)


def m_ndarray_sum(it, r, o, pos, args, n, st):
    if pos or args.kw:
        return TOP
    flat = nd_flat(it, r, st)
    if flat is not None:
        return b_sum(it, [r], Args(), n, st, NOLABELS)
    rows = nd_rows(it, r, st)
    if rows is not None:
        return b_sum(it, [it.new_list(st, n, [x for row in rows for x in row], 'flat')], Args(), n, st, NOLABELS)
    return Num('float')


def m_ndarray_tolist(it, r, o, pos, args, n, st):
    rows = nd_rows(it, r, st)
    if rows is not None:
        return it.new_list(st, n, [it.new_list(st, n, row, ('tl', i)) for i, row in enumerate(rows)])
    return it.alloc(st, n, HObj('list', items=o.items, elem=o.elem))


def m_ndarray_flatten(it, r, o, pos, args, n, st):
    rows = nd_rows(it, r, st)
    if rows is not None:
        return it.alloc(st, n, HObj('ndarray', items=tuple(x for row in rows for x in row)), 'flat')
    flat = nd_flat(it, r, st)
    if flat is not None:
        return it.alloc(st, n, HObj('ndarray', items=tuple(flat)), 'flat')
    return it.alloc(st, n, HObj('ndarray', elem=TOP))


def m_ndarray_astype(it, r, o, pos, args, n, st):
    return nd_array(it, r, n, st)


def nd_reshape(it, r, o, v, n, st):
    """array.shape = (rows, columns)"""
    known, dims = it.iterate(v, n, st) if v.__class__ is Ref else (True, [v])
    flat, rows = nd_flat(it, r, st), nd_rows(it, r, st)
    if rows is not None:
        flat = [x for row in rows for x in row]
    if flat is None or not known or not all(d.__class__ is Const for d in dims):
        st.heap[r.oid] = o.replace(items=None, elem=TOP)
        return
    dims = [d.v for d in dims]
    if len(dims) == 2 and dims[0] * dims[1] == len(flat):
        k = dims[1]
        items = tuple(it.alloc(st, n, HObj('ndarray', items=tuple(flat[i * k:i * k + k])), ('row', i))
                      for i in range(dims[0]))
    elif len(dims) == 1:
        items = tuple(flat)
    else:
        return
    it.write(st, r.oid, o, 'shape', v, n, o.replace(items=items))


def m_ndarray_reshape(it, r, o, pos, args, n, st):
    flat = nd_flat(it, r, st)
    dims = pos
    if len(pos) == 1:
        k, d = it.iterate(pos[0], n, st) if pos[0].__class__ is Ref else (False, None)
        if k:
            dims = d
    if flat is not None and len(dims) == 2 and all(d.__class__ is Const for d in dims):
        a, b = dims[0].v, dims[1].v
        if a * b == len(flat):
            return mk_matrix(it, st, n, [flat[i * b:(i + 1) * b] for i in range(a)])
    return it.alloc(st, n, HObj('ndarray', elem=join_all(flat) if flat else TOP), 'reshape')


m_ndarray_ravel = m_ndarray_flatten


def m_ndarray_min(it, r, o, pos, args, n, st):
    return call_numpy(it, 'min', Args([r]), n, st) if not pos else TOP


def m_ndarray_max(it, r, o, pos, args, n, st):
    return call_numpy(it, 'max', Args([r]), n, st) if not pos else TOP


def constant_of(x):
    """The value of a known number, None when it depends on the inputs."""
    if x.__class__ is Const:
        return x.v
    p = numeric.as_num(x).pv
    return p.value if p is not None and p.is_const else None


def nd_close(x, y, tolerances=(1e-5, 1e-8)):
    """Whether two numbers are close, in general position; None when unknown."""
    if not is_numlike(x) or not is_numlike(y):
        return None
    a, b = constant_of(x), constant_of(y)
    if a is not None and b is not None:
        if tolerances is None:
            # constants are compared up to the rounding of their computation
            return a == b or (False if abs(a - b) > 1e-12*max(abs(a), abs(b)) else None)
        if None in tolerances:
            return None
        gap = tolerances[1] + tolerances[0]*abs(float(b))
        return abs(a - b) <= gap
    status, _ = algebra.compare(numeric.as_num(x).pv, numeric.as_num(y).pv)
    return {'equal': True, 'different': False}.get(status)


def rounded_differently(x, y):
    """Whether equal numbers are computed with different divisions or roots."""
    p, q = numeric.as_num(x).pv, numeric.as_num(y).pv
    if p is None or q is None or p == q:
        return False
    f = lambda p: {(v, e) for m, c in p.terms for v, e in m if e < 0 or algebra.ATOMS.get(v, ('',))[0] == 'sqrt'}
    return f(p) != f(q)


def nd_anyall(it, r, name, st, labels):
    flat = nd_flat(it, r, st)
    rows = nd_rows(it, r, st)
    if rows is not None:
        flat = [x for row in rows for x in row]
    if flat is None:
        return Bool(labels)
    rs = []
    for x in flat:
        t = None
        if x.__class__ is Const:
            t = bool(x.v)
        elif x.__class__ is Num and algebra.GENERIC[0]:
            t = algebra.decide('!=', x.pv, algebra.ZERO)
        rs.append(t)
    if name == 'any':
        return Const(True) if True in rs else (Const(False) if None not in rs else Bool(labels))
    return Const(False) if False in rs else (Const(True) if None not in rs else Bool(labels))


def m_ndarray_any(it, r, o, pos, args, n, st):
    return nd_anyall(it, r, 'any', st, NOLABELS) if not pos and not args.kw else TOP


def m_ndarray_all(it, r, o, pos, args, n, st):
    return nd_anyall(it, r, 'all', st, NOLABELS) if not pos and not args.kw else TOP


def m_ndarray_fill(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('set', TOP), TOP, n, o.replace(items=None, elem=pos[0] if pos else TOP))
    return NONE


def m_ndarray_sort(it, r, o, pos, args, n, st):
    it.write(st, r.oid, o, ('sort',), NONE, n, o)
    return NONE


def shape_array(it, st, n, dims, v):
    if dims and all(d.__class__ is Const and isinstance(d.v, int) and d.v <= 64 for d in dims):
        if len(dims) == 1:
            return it.alloc(st, n, HObj('ndarray', items=(v,) * dims[0].v), 'fill')
        if len(dims) == 2:
            return mk_matrix(it, st, n, [[v] * dims[1].v for _ in range(dims[0].v)])
    return it.alloc(st, n, HObj('ndarray', elem=v), 'fill')


def call_numpy(it, name, args, n, st):
    pos = args.pos
    labels = labels_of(args)
    if name in ('array', 'asarray', 'copy', 'ascontiguousarray'):
        if not pos:
            return TOP
        dtype = args.kw.get('dtype', pos[1] if len(pos) > 1 else None)
        to_int = dtype.__class__ is Builtin and dtype.name == 'int' or \
            dtype.__class__ is Ext and dtype.path.split('.')[-1].rstrip('_3264') in ('int', 'intc', 'uint')
        if name in ('asarray', 'ascontiguousarray') and not to_int and pos[0].__class__ is Ref:
            o = it.get(st, pos[0].oid)
            if o is not None and o.kind == 'ndarray':
                return pos[0]           # no copy of an array of this type
        r = nd_array(it, pos[0], n, st)
        o = it.get(st, r.oid) if to_int and r.__class__ is Ref else None
        if o is not None and o.items is not None and all(is_numlike(x) for x in o.items):
            # the fractional part is lost
            return it.alloc(st, n, HObj('ndarray', items=tuple(
                b_int(it, [x], Args([x]), n, st, labels) for x in o.items)), 'int')
        return r
    if name in ('zeros', 'ones', 'full', 'empty'):
        if not pos:
            return TOP
        d = pos[0]
        dims = [d]
        if d.__class__ is Ref:
            k, dims = it.iterate(d, n, st)
            if not k:
                dims = []
        return shape_array(it, st, n, dims, Const(1. if name == 'ones' else 0.) if name != 'full' else (pos[1] if len(pos) > 1 else TOP))
    if name in ('identity', 'eye'):
        d = pos[0] if pos else None
        if d is not None and d.__class__ is Const and isinstance(d.v, int):
            return mk_matrix(it, st, n, [[Const(1. if i == j else 0.) for j in range(d.v)] for i in range(d.v)])
        return TOP
    if name in ('dot', 'matmul', 'inner'):
        if name == 'inner' and len(pos) >= 2 and nd_flat(it, pos[1], st) is None:
            return TOP
        return nd_dot(it, pos[0], pos[1], n, st) if len(pos) >= 2 else TOP
    if name == 'sum':
        if len(pos) == 1 and not args.kw and pos[0].__class__ is Ref:
            o = it.get(st, pos[0].oid)
            if o is not None and o.kind in ('ndarray', 'list', 'tuple'):
                return m_ndarray_sum(it, pos[0], o, [], Args(), n, st)
            if o is not None and o.kind == 'iter':
                it.err('TypeError', 'numpy.sum of an iterator', n)
        return Top(None, labels)
    if name == 'transpose':
        return nd_transpose(it, pos[0], n, st) if pos and pos[0].__class__ is Ref else TOP
    if name == 'cross':
        fa, fb = nd_flat(it, pos[0], st), nd_flat(it, pos[1], st)
        if fa is not None and fb is not None and len(fa) == len(fb) == 2:
            import ast
            return it.binop(ast.Sub(), it.binop(ast.Mult(), fa[0], fb[1], n, st),
                            it.binop(ast.Mult(), fa[1], fb[0], n, st), n, st)
        return Top(None, labels)
    if name == 'iterable':
        ms = members(pos[0]) if pos else []
        verdicts = set()
        for m in ms:
            if m.__class__ in (Num, Bool):
                verdicts.add(False)
            elif m.__class__ is Const:
                verdicts.add(isinstance(m.v, (str, bytes)))
            elif m.__class__ is Ref:
                o = it.get(st, m.oid)
                if o is not None and o.kind in ('list', 'tuple', 'ndarray', 'dict', 'set', 'iter'):
                    verdicts.add(True)
                elif o is not None and o.kind == 'inst' and not o.cls.has_external:
                    verdicts.add(any(o.cls.lookup(d)[1] is not None for d in ('__iter__', '__getitem__')))
                else:
                    verdicts.add(None)
            else:
                verdicts.add(None)
        if len(verdicts) == 1 and None not in verdicts:
            return Const(verdicts.pop())
        return Bool(labels)
    if name in ('float', 'float64', 'float32', 'float16'):
        return b_float(it, pos, args, n, st, labels)
    if name in ('int', 'int64', 'int32', 'int_', 'uint'):
        return b_int(it, pos, args, n, st, labels)
    if name in ('all', 'any') and len(pos) == 1 and pos[0].__class__ is Ref and not args.kw:
        return nd_anyall(it, pos[0], name, st, labels)
    if name in ('allclose', 'array_equal') and algebra.GENERIC[0] and len(pos) >= 2:
        a, b = nd_sequence(it, pos[0], n, st), nd_sequence(it, pos[1], n, st)
        rows = [nd_rows(it, p, st) if p.__class__ is Ref else None for p in pos[:2]]
        if None not in rows and [len(r) for r in rows[0]] == [len(r) for r in rows[1]]:
            a, b = [[x for row in r for x in row] for r in rows]
        if a is not None and b is not None:
            if len(a) != len(b):
                return Const(False)
            tolerances = None
            if name == 'allclose':
                given = [pos[i] if len(pos) > i else args.kw.get(k) for i, k in ((2, 'rtol'), (3, 'atol'))]
                tolerances = [t if v is None else (constant_of(v) if is_numlike(v) else None) for v, t in zip(given, (1e-5, 1e-8))]
            rs = [nd_close(x, y, tolerances) for x, y in zip(a, b)]
            if name == 'array_equal' and None not in rs and False not in rs:
                if any(rounded_differently(x, y) for x, y in zip(a, b)):
                    it.err('rounding-equality', 'tests the exact equality of quantities that only agree up to rounding', n)
            return Const(False) if False in rs else (Const(True) if None not in rs else Bool(labels))
    if name == 'isclose' and len(pos) >= 2:
        a, b = [nd_sequence(it, p, n, st) for p in pos[:2]]
        if a is not None and b is not None and len(a) == len(b):
            given = [pos[i] if len(pos) > i else args.kw.get(k) for i, k in ((2, 'rtol'), (3, 'atol'))]
            tolerances = [t if v is None else (constant_of(v) if is_numlike(v) else None) for v, t in zip(given, (1e-5, 1e-8))]
            rs = [nd_close(x, y, tolerances) if algebra.GENERIC[0] else None for x, y in zip(a, b)]
            return it.alloc(st, n, HObj('ndarray', items=tuple(Bool(labels) if r is None else Const(r) for r in rs)))
        return Bool(labels) if is_numlike(pos[0]) and is_numlike(pos[1]) else Top(None, labels)
    if name in ('allclose', 'array_equal', 'isclose', 'all', 'any'):
        return Bool(labels)
    if name in ('min', 'max', 'amin', 'amax') and len(pos) == 1 and not args.kw:
        flat = nd_flat(it, pos[0], st)
        if flat and all(is_numlike(x) for x in flat):
            return minmax(name[-3:])(it, [it.new_list(st, n, flat, 'mm')], Args(), n, st, labels)
    if name == 'diff' and len(pos) == 1:
        flat = nd_flat(it, pos[0], st)
        if flat is not None and all(is_numlike(x) for x in flat):
            import ast
            return it.alloc(st, n, HObj('ndarray', items=tuple(
                it.binop(ast.Sub(), y, x, n, st) for x, y in zip(flat, flat[1:]))))
    if name == 'concatenate' and len(pos) == 1 and pos[0].__class__ is Ref:
        k, parts = it.iterate(pos[0], n, st)
        flats = [nd_flat(it, x, st) for x in parts] if k else [None]
        if None not in flats:
            return it.alloc(st, n, HObj('ndarray', items=tuple(x for f in flats for x in f)))
    if name == 'linalg.det' and pos:
        rows = nd_rows(it, pos[0], st)
        if rows is not None and len(rows) == len(rows[0]) == 2:
            import ast
            return it.binop(ast.Sub(), it.binop(ast.Mult(), rows[0][0], rows[1][1], n, st),
                            it.binop(ast.Mult(), rows[0][1], rows[1][0], n, st), n, st)
    if name in ('abs', 'fabs', 'absolute', 'rint', 'sqrt', 'floor', 'ceil'):
        v = pos[0] if pos else TOP
        if v.__class__ is Ref:
            o = it.get(st, v.oid)
            if o is not None and o.kind == 'ndarray':
                fn = {'absolute': 'fabs', 'abs': 'fabs', 'rint': 'rint'}.get(name, name)
                return it.nd_map(v, lambda x: numeric.math_call(fn, [x], it.reporter(n)) if is_numlike(x) else TOP, n, st)
        if is_numlike(v):
            return numeric.math_call('fabs' if name in ('abs', 'absolute') else name, [v], it.reporter(n))
        return Top(None, labels)
    if name in ('linalg.norm',):
        flat = nd_flat(it, pos[0], st) if pos else None
        if flat is not None:
            return numeric.math_call('sqrt', [_dot1(it, flat, flat, n, st)], it.reporter(n))
        return Num('float', labels=labels)
    if name in ('linalg.det',):
        return Num('float', labels=labels)
    if name in ('linalg.inv',):
        return it.alloc(st, n, HObj('ndarray', elem=TOP))
    if name in ('arange', 'linspace', 'diff', 'concatenate', 'append', 'repeat'):
        return it.alloc(st, n, HObj('ndarray', elem=Num('float', labels=labels)))
    if name in ('min', 'max', 'amin', 'amax', 'mean', 'argmin', 'argmax'):
        return Top(None, labels)
    return Top(None, labels)


MATH_ARITY = {'atan2': 2, 'hypot': None, 'copysign': 2, 'pow': 2, 'log': (1, 2), 'isclose': None, 'gcd': None,
              'fmod': 2, 'ldexp': 2, 'comb': 2, 'perm': (1, 2)}


def call_math(it, name, args, n, st):
    want = MATH_ARITY.get(name, 1)
    if want is not None and args.star is None:
        lo, hi = want if isinstance(want, tuple) else (want, want)
        if not arity(it, 'math.' + name, args, lo, hi, n):
            return TOP
    vals = []
    for p in args.pos:
        if p.__class__ is Union:
            return it.distribute(p, lambda m, s: call_math(it, name, Args([m if q is p else q for q in args.pos]), n, s), st)
        p = boolnum(p)
        if not is_numlike(p):
            if p.__class__ in (Top, Ext):
                vals.append(Num('float', labels=p.labels))
                continue
            if p.__class__ is Ref:
                o = it.get(st, p.oid)
                if o is not None and o.kind == 'inst' and (o.cls.has_external or o.cls.lookup('__float__')[1] is not None):
                    vals.append(Num('float'))
                    continue
                if o is not None and o.kind == 'top':
                    vals.append(Num('float'))
                    continue
                if o is not None and o.kind == 'ndarray':
                    return TOP
            it.err('TypeError', 'math.{} requires a number, not {}'.format(name, it.type_name(p, st)), n)
            return TOP
        vals.append(p)
    if name in ('isclose', 'isnan', 'isinf', 'isfinite'):
        if algebra.GENERIC[0]:
            if name != 'isclose':
                return Const(name == 'isfinite')
            if len(vals) == 2:
                given = [args.kw.get(k) for k in ('rel_tol', 'abs_tol')]
                r = nd_close(vals[0], vals[1], [t if v is None else (constant_of(v) if is_numlike(v) else None)
                                                for v, t in zip(given, (1e-9, 0))])
                return Bool() if r is None else Const(r)
        return Bool()
    if all(v.__class__ is Const for v in vals) and vals and name not in ('radians', 'degrees', 'atan2', 'acos', 'asin', 'atan') and not (
            name == 'sqrt' and algebra.GENERIC[0] and vals[0].v > 0):
        try:
            r = getattr(math, name)(*[v.v for v in vals])
            if isinstance(r, (int, float)):
                return Const(r, labels_of(args))
        except (ValueError, OverflowError):
            it.do_raise('ValueError', st, n)
            return BOTTOM
        except Exception:
            return TOP
    if not vals:
        return Num('float')
    try:
        return numeric.math_call(name, vals, it.reporter(n))
    except IndexError:
        return Num('float')


def call_ext(it, path, args, n, st):
    top = path.split('.')[0]
    rest = path[len(top) + 1:]
    labels = labels_of(args)
    if top == 'math':
        return call_math(it, rest, args, n, st)
    if top == 'numpy':
        return call_numpy(it, rest, args, n, st)
    if path in ('threading.Lock', 'threading.RLock', 'multiprocessing.Lock', 'threading.Semaphore'):
        return it.alloc(st, n, HObj('lock', tag=path), 'lock')
    if path == 'itertools.tee':
        k, items = it.iterate(args.pos[0], n, st)
        cnt = args.pos[1] if len(args.pos) > 1 else args.kw.get('n', Const(2))
        if cnt.__class__ is Const:
            outs = []
            for i in range(cnt.v):
                outs.append(it.new_iter(st, n, items if k else None, BOTTOM if k else items, ('tee', i)))
            return it.new_tuple(st, n, outs)
        return TOP
    if path in ('itertools.chain', 'itertools.chain.from_iterable'):
        srcs = args.pos
        if path.endswith('from_iterable'):
            k, srcs = it.iterate(args.pos[0], n, st)
            if not k:
                return it.new_iter(st, n, None, TOP)
        seqs = [it.iterate(p, n, st) for p in srcs]
        if all(k for k, _ in seqs) and args.star is None:
            return it.new_iter(st, n, [x for _, s in seqs for x in s])
        return it.new_iter(st, n, None, join_all([join_all(x) if k else x for k, x in seqs]))
    if path in ('os.path.dirname', 'os.path.basename', 'os.path.join', 'os.path.splitext') and args.pos and not args.kw \
            and args.star is None and all(p.__class__ is Const and isinstance(p.v, str) for p in args.pos):
        r = getattr(_posixpath, path.rsplit('.', 1)[1])(*[p.v for p in args.pos])
        return Const(r) if isinstance(r, str) else it.new_tuple(st, n, [Const(x) for x in r])
    if path == 'inspect.isclass':
        v = args.pos[0] if args.pos else TOP
        if v.__class__ is Top:
            return Bool()
        return Const(v.__class__ is Cls)
    if path == 'enum.auto':
        return Num('int')
    if path == 'copy.deepcopy' and args.pos:
        return deep_copy(it, args.pos[0], n, st, {})
    if path == 'copy.copy' and args.pos and args.pos[0].__class__ is Ref:
        o = it.get(st, args.pos[0].oid)
        if o is not None:
            return it.alloc(st, n, o.replace(attrs=dict(o.attrs), summary=False), 'copy')
    if path == 'operator.itemgetter' and len(args.pos) == 1 and not args.kw:
        return BBound(args.pos[0], 'itemgetter()')
    if path == 'operator.attrgetter' and len(args.pos) == 1 and args.pos[0].__class__ is Const and \
            isinstance(args.pos[0].v, str) and '.' not in args.pos[0].v:
        return BBound(args.pos[0], 'attrgetter()')
    if path == 'functools.cmp_to_key' and len(args.all()) == 1:
        return BBound(args.all()[0], 'cmp_to_key()')
    if algebra.GENERIC[0] and 'psa_std' in it.program.modules:
        it.load_module('psa_std', st)
        f = it.module_env('psa_std').get(path.replace('.', '_'))
        if f is not None:
            return it.call(f, args, n, st)
    if path == 'functools.partial':
        return TOP
    if path in ('collections.OrderedDict',):
        return b_dict(it, args.pos, args, n, st, labels)
    if path in ('collections.defaultdict',):
        if not args.pos or args.star is not None or not algebra.GENERIC[0]:
            return it.alloc(st, n, HObj('dict', elem=TOP, key=TOP))
        r = b_dict(it, args.pos[1:], args, n, st, labels)
        o = it.get(st, r.oid) if r.__class__ is Ref else None
        if o is not None and args.pos[0] != NONE:
            st.heap[r.oid] = o.replace(tag=('default', args.pos[0]))
        return r
    if path in ('collections.deque',):
        if args.kw or len(args.pos) > 1:
            return TOP
        r = b_list(it, args.pos, args, n, st, labels)
        o = it.get(st, r.oid) if r.__class__ is Ref else None
        if o is not None:
            st.heap[r.oid] = o.replace(tag='deque')
        return r
    if path.startswith('logging.'):
        return Ext('logging.Logger')
    if path in ('sys.exit', 'os._exit'):
        it.do_raise('SystemExit', st, n)
        return BOTTOM
    if path in ('sympy.N',):
        return Num('float', labels=labels)
    for o in it.observers:
        r = getattr(o, 'model_ext', lambda *a: None)(it, st, path, args, n)
        if r is not None:
            return r
    deep = labels
    for a in args.all():
        deep = deep | deep_labels(it, a, st)
    return Top(None, deep)


def deep_copy(it, v, n, st, memo):
    if v.__class__ is Ref:
        if v.oid in memo:
            return memo[v.oid]
        o = it.get(st, v.oid)
        if o is None:
            return TOP
        r = it.alloc(st, n, HObj(o.kind), ('deep', len(memo)))
        memo[v.oid] = r
        st.heap[r.oid] = o.replace(
            attrs={k: deep_copy(it, x, n, st, memo) for k, x in o.attrs.items()},
            items=tuple(deep_copy(it, x, n, st, memo) for x in o.items) if o.items is not None else None,
            elem=deep_copy(it, o.elem, n, st, memo) if o.elem is not BOTTOM else BOTTOM, summary=False)
        return r
    if v.__class__ is Union:
        return make_union([deep_copy(it, m, n, st, memo) for m in members(v)])
    return v
