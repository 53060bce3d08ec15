"""Arithmetic on graded numbers."""

import math
from fractions import Fraction

from . import algebra
from .values import (Const, Num, P0, P1, Poly, NOLABELS, is_number_const)

F0 = Fraction(0)
PI = 'pi'


def frac(x):
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return None
    f = Fraction(x).limit_denominator(10**9)
    # what remains below 1e-15 is the rounding error of a vanishing constant
    return f if f or abs(x) < 1e-15 else None


def as_num(v):
    """Promote a numeric constant."""
    if v.__class__ is Num:
        return v
    f = frac(v.v)
    return Num('int' if type(v.v) is int else 'float', g=(F0, 0, 0), w=P0,
               pv=Poly.const(f) if f is not None else None, labels=v.labels)


def _k(a, b, op):
    ka = a.k if a.__class__ is Num else ('int' if type(a.v) is int else 'float')
    kb = b.k if b.__class__ is Num else ('int' if type(b.v) is int else 'float')
    if op == '/':
        return 'float' if 'num' not in (ka, kb) else 'num'
    if ka == kb:
        return ka
    if 'num' in (ka, kb):
        return 'float' if 'float' in (ka, kb) else 'num'
    return 'float'


_PY = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    '//': lambda a, b: a // b, '%': lambda a, b: a % b,
    '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
    '<<': lambda a, b: a << b if b < 64 else None, '>>': lambda a, b: a >> b,
}


def binop(op, a, b, report):
    """a, b: Num or numeric Const; report(kind, detail)."""
    labels = a.labels | b.labels
    if a.__class__ is Const and b.__class__ is Const:
        try:
            if op == '**':
                if abs(b.v) > 64:
                    return Num('num')
                r = a.v ** b.v
            else:
                r = _PY[op](a.v, b.v)
            if type(r) in (int, float):
                return Const(r, labels)
        except ZeroDivisionError:
            report('ZeroDivisionError', 'division by the constant zero')
            return Num('float')
        except Exception:
            pass
        return Num('num', labels=labels)
    k = _k(a, b, op)
    ca, cb = is_number_const(a), is_number_const(b)
    if op in ('+', '-'):
        sign = 1 if op == '+' else -1
        if cb and b.v == 0:
            return a.replace(k=k, sym=a.sym, labels=labels)
        if ca and a.v == 0:
            return b.with_labels(labels) if sign == 1 else neg(b).with_labels(labels)
        if ca or cb:
            n, c = (b, a) if ca else (a, b)
            g = n.g
            if n.u in ('deg', 'rad'):
                w = n.w if (cb or sign == 1) else (n.w.neg() if n.w is not None else None)
                pa, pb = as_num(a).pv, as_num(b).pv
                return Num(k, g=(F0, None, None), w=w, u=n.u, labels=labels,
                           pv=pa.add(pb, sign) if pa is not None and pb is not None else None)
            if g is not None and g[0] is not None and g[0] != 0:
                report('grade', 'the non-zero constant {!r} is {} a quantity of degree {}'.format(
                    c.v, 'added to' if sign == 1 else 'subtracted from', g[0]))
                return Num(k, labels=labels, u=n.u)
            if g is not None:
                # parity of a dimensionless odd quantity is lost
                g = (g[0], g[1] if g[1] == 0 else None, g[2] if g[2] == 0 else None)
            f = frac(c.v)
            pv = None
            if n.pv is not None and f is not None:
                pc = Poly.const(f)
                pv = n.pv.add(pc, sign) if cb else pc.add(n.pv, sign)
            w = n.w if n.w is not None and n.w.is_zero else None
            return Num(k, g=g, w=w, u=n.u, pv=pv, labels=labels)
        # both Num
        g = None
        if a.u and b.u and a.u != b.u:
            report('unit', 'mixes {} and {}'.format(a.u, b.u))
        u = a.u or b.u
        if a.g is not None and b.g is not None:
            comps = []
            for i, (x, y) in enumerate(zip(a.g, b.g)):
                if x is not None and y is not None:
                    if x != y:
                        # parities only steer the translation weight of atan2; a sum of both parities has none
                        if i == 0:
                            report('grade', describe_mismatch(i, x, y, op))
                        x = None
                    comps.append(x)
                else:
                    comps.append(None)
            g = tuple(comps)
        elif a.g is not None or b.g is not None:
            g = None
        w = a.w.add(b.w, sign) if a.w is not None and b.w is not None else None
        pv = a.pv.add(b.pv, sign) if a.pv is not None and b.pv is not None else None
        return Num(k, g=g, w=w, u=u, pv=pv, labels=labels)
    if op == '*':
        if (ca and a.v == 0) or (cb and b.v == 0):
            return Const(0 if k == 'int' else 0., labels)
        na, nb = as_num(a), as_num(b)
        g = None
        if na.g is not None and nb.g is not None:
            g = (None if na.g[0] is None or nb.g[0] is None else na.g[0] + nb.g[0],
                 _par(na.g[1], nb.g[1]), _par(na.g[2], nb.g[2]))
        u = _angular(mul_unit(a, b), g)
        return Num(k, g=g, w=mul_w(na, nb), u=u,
                   pv=na.pv.mul(nb.pv) if na.pv is not None and nb.pv is not None else None, labels=labels,
                   sym='pi*' if False else None)
    if op in ('/', '//', '%'):
        na, nb = as_num(a), as_num(b)
        if cb and b.v == 0:
            report('ZeroDivisionError', 'division by the constant zero')
        if op == '%':
            if na.u in ('deg', 'rad'):
                return Num(k, g=(F0, None, None), w=na.w, u=na.u, labels=labels, pv=algebra.mod(na.pv, nb.pv))
            g = na.g
            if (not cb and na.g is not None and nb.g is not None and None not in (na.g[0], nb.g[0])
                    and na.g[0] != nb.g[0]):
                report('grade', 'remainder of a quantity of degree {} by one of degree {}'.format(na.g[0], nb.g[0]))
            return Num(k, g=(g[0], None, None) if g else None, labels=labels, u=na.u, pv=algebra.mod(na.pv, nb.pv))
        g = None
        if na.g is not None and nb.g is not None:
            g = (None if na.g[0] is None or nb.g[0] is None else na.g[0] - nb.g[0],
                 _par(na.g[1], nb.g[1]), _par(na.g[2], nb.g[2]))
        w = None
        pv = None
        fb = frac(b.v) if cb else None
        if op in ('/', '//') and na.pv is not None and nb.pv is not None:
            pv = algebra.inverse(nb.pv)
            if pv is not None:
                pv = na.pv.mul(pv)
            if op == '//':
                pv = algebra.integer_part('floor', pv) if algebra.GENERIC[0] else None
        if fb:
            w = na.w.scale(1 / fb) if na.w is not None else None
        elif na.w is not None and na.w.is_zero and nb.w is not None and nb.w.is_zero:
            w = P0
        u = _angular(div_unit(a, b), g)
        return Num(k, g=g, w=w, u=u, pv=pv, labels=labels)
    if op == '**':
        na = as_num(a)
        if cb:
            e = b.v
            if isinstance(e, int) and 0 <= e <= 12:
                out = Const(1)
                for _ in range(e):
                    out = binop('*', out, a, report)
                return out.with_labels(labels)
            fe = frac(e)
            if fe is not None and na.g is not None:
                g = (na.g[0] * fe if na.g[0] is not None else None,
                     0 if na.g[1] == 0 else None, 0 if na.g[2] == 0 else None)
                if isinstance(e, int):
                    g = (g[0], na.g[1] * (e % 2) if na.g[1] is not None else None,
                         na.g[2] * (e % 2) if na.g[2] is not None else None)
                return Num(k, g=g, w=P0 if na.w is not None and na.w.is_zero else None, labels=labels,
                           pv=power(na.pv, e))
        nb = as_num(b)
        if (na.g is not None and na.g[0] not in (None, 0) and nb.__class__ is Num):
            return Num(k, labels=labels)
        return Num(k, g=(F0, None, None) if na.g and na.g[0] == 0 else None, labels=labels)
    return Num(k, labels=labels)


def power(p, e):
    if p is None:
        return None
    if e == 0.5:
        return algebra.sqrt(p)
    if isinstance(e, int) and -6 <= e < 0:
        i = algebra.inverse(p)
        out = i
        for _ in range(-e - 1):
            out = out.mul(i) if out is not None else None
        return out
    f = frac(e)
    return algebra.apply('pow', p, Poly.const(f)) if f is not None else None


def _par(x, y):
    return None if x is None or y is None else (x + y) % 2


def mul_w(a, b):
    if a.w is None or b.w is None:
        # a unknown translation behaviour times zero stays unknown
        return None
    za, zb = a.w.is_zero, b.w.is_zero
    if za and zb:
        return P0
    if not za and not zb:
        return None
    n, o = (a, b) if not za else (b, a)
    if o.pv is not None and o.g is not None and o.g[0] == 0:
        return n.w.mul(o.pv)
    return None


def _angular(u, g):
    """An angle unit survives only on a dimensionless result."""
    if u in ('mm', 'in', 'pt') or u is None:
        return u
    return u if g is not None and g[0] == 0 else None


def _is_pi(v):
    return v.__class__ is Num and v.u == PI


def mul_unit(a, b):
    ua = a.u if a.__class__ is Num else None
    ub = b.u if b.__class__ is Num else None
    for x, y, vy in ((ua, ub, b), (ub, ua, a)):
        if x == 'deg':
            if y == PI:
                return 'deg*pi'
            if y == 'pi/180':
                return 'rad'
        if x == 'rad':
            if y == '180/pi':
                return 'deg'
            if vy.__class__ is Const and vy.v == 180:
                return 'rad*180'
        if x == PI and y is None:
            return 'rad'       # a multiple of pi
    if ua and ub:
        return None
    return ua or ub


def div_unit(a, b):
    ua = a.u if a.__class__ is Num else None
    ub = b.u if b.__class__ is Num else None
    if ub is None:
        if b.__class__ is Const and b.v == 180:
            if ua == 'deg*pi':
                return 'rad'
            if ua == PI:
                return 'pi/180'
            if ua == 'deg':
                return 'deg/180'
        if ua == PI:
            return 'rad'
        if ua == 'rad' and a.__class__ is Num and b.__class__ is Const:
            return 'rad'
        return ua if b.__class__ is Const else (ua if ua in ('deg', 'rad') else None)
    if ub in (PI,):
        if ua == 'rad*180':
            return 'deg'
        if a.__class__ is Const and a.v == 180:
            return '180/pi'
    return None


AXIS = {0: 'scale degree', 1: 'sign under x -> -x', 2: 'sign under y -> -y'}


def describe_mismatch(i, x, y, op):
    verb = {'+': 'adds', '-': 'subtracts'}.get(op, op)
    if i == 0:
        return '{} quantities of scale degree {} and {}'.format(verb, x, y)
    return '{} quantities that differ in their {} ({} and {})'.format(
        verb, AXIS[i], 'odd' if x else 'even', 'odd' if y else 'even')


def neg(v):
    if v.__class__ is Const:
        return Const(-v.v, v.labels)
    return v.replace(w=v.w.neg() if v.w is not None else None, pv=v.pv.neg() if v.pv is not None else None, sym=None)


def absolute(v):
    if v.__class__ is Const:
        return Const(abs(v.v), v.labels)
    g = v.g
    if g is not None:
        g = (g[0], 0, 0)
    return v.replace(g=g, w=v.w if v.w is not None and v.w.is_zero else None, sym=None,
                     pv=algebra.apply('abs', v.pv) if v.pv is not None else None)


def compare(op, a, b, report):
    if a.__class__ is Num and b.__class__ is Num:
        if a.u and b.u and a.u != b.u and {a.u, b.u} <= {'deg', 'rad', 'mm', 'in', 'pt'}:
            report('unit', 'compares {} and {}'.format(a.u, b.u))
        if a.g is not None and b.g is not None:
            if None not in (a.g[0], b.g[0]) and a.g[0] != b.g[0]:
                report('grade', 'compares quantities of scale degree {} and {}'.format(a.g[0], b.g[0]))
        if (a.w is not None and b.w is not None and a.w != b.w and a.w.is_const and b.w.is_const
                and a.u not in ('deg', 'rad') and b.u not in ('deg', 'rad')):
            report('affine', 'compares a coordinate (translation weight {}) with a quantity of weight {}'.format(
                a.w, b.w))
    if a.__class__ is Const and b.__class__ is Const:
        try:
            return Const({'<': a.v < b.v, '<=': a.v <= b.v, '>': a.v > b.v, '>=': a.v >= b.v,
                          '==': a.v == b.v, '!=': a.v != b.v}[op], a.labels | b.labels)
        except Exception:
            return None
    if algebra.GENERIC[0]:
        r = algebra.decide(op, as_num(a).pv, as_num(b).pv)
        if r is not None:
            return Const(r, a.labels | b.labels)
    if a.__class__ is Num and b.__class__ is Num and a.sym and a.sym == b.sym:
        if op in ('==', '<=', '>='):
            return Const(True, a.labels | b.labels)
        return Const(False, a.labels | b.labels)
    return None


def math_call(name, args, report):
    """Model of a function of the math module on numbers; None when not modelled."""
    labels = frozenset().union(*[a.labels for a in args]) if args else NOLABELS
    pvs = [as_num(a).pv for a in args]
    if name == 'sqrt':
        a = args[0]
        if a.__class__ is Const:
            if a.v < 0:
                return Num('float', labels=labels)
            r = math.sqrt(a.v)
            if algebra.GENERIC[0] and not r.is_integer() and pvs[0] is not None:
                p = algebra.sqrt(pvs[0])
                if p is not None and not p.is_const:
                    return Num('float', g=(F0, 0, 0), w=P0, pv=p, labels=labels)
            return Const(r, labels)
        g = a.g
        if g is not None:
            g = (g[0] / 2 if g[0] is not None else None, 0 if g[1] == 0 else None, 0 if g[2] == 0 else None)
        return Num('float', g=g, w=P0 if a.w is not None and a.w.is_zero else None, labels=labels,
                   pv=algebra.sqrt(pvs[0]))
    if name in ('fabs', 'abs'):
        return absolute(args[0])
    if name in ('floor', 'ceil', 'trunc', 'rint'):
        pv = algebra.integer_part('round' if name == 'rint' else name, pvs[0]) if algebra.GENERIC[0] else None
        if pv is not None and pv.is_const:
            return Const(int(pv.value), labels)
        return Num('int', g=(F0, 0, 0), labels=labels, pv=pv)
    if name == 'radians':
        a = args[0]
        if a.__class__ is Num and a.u == 'rad':
            report('unit', 'an angle in radians is converted as if it were in degrees')
        return Num('float', g=(F0, None, None), w=a.w if a.__class__ is Num else P0, u='rad', labels=labels,
                   pv=pvs[0].mul(algebra.PI).scale(Fraction(1, 180)) if pvs[0] is not None else None)
    if name == 'degrees':
        a = args[0]
        if a.__class__ is Num and a.u == 'deg':
            report('unit', 'an angle in degrees is converted as if it were in radians')
        return Num('float', g=(F0, None, None), w=a.w if a.__class__ is Num else P0, u='deg', labels=labels,
                   pv=pvs[0].mul(algebra.inverse(algebra.PI)).scale(180) if pvs[0] is not None else None)
    if name in ('sin', 'cos', 'tan'):
        a = args[0]
        if a.__class__ is Num and a.u == 'deg':
            report('unit', 'math.{} is given an angle in degrees'.format(name))
        if a.__class__ is Num and a.g is not None and a.g[0] not in (None, 0):
            report('grade', 'math.{} is given a quantity of scale degree {}'.format(name, a.g[0]))
        g = (F0, None, None)
        if a.__class__ is Num and a.w is not None and a.w.is_const and a.u == 'rad':
            if a.w.value == 1:
                g = {'cos': (F0, 1, 0), 'sin': (F0, 0, 1), 'tan': (F0, 1, 1)}[name]
        return Num('float', g=g, w=P0, labels=labels, pv=algebra.trig(name, pvs[0]))
    if name in ('acos', 'asin', 'atan'):
        a = args[0]
        if a.__class__ is Num:
            if a.g is not None and a.g[0] not in (None, 0):
                report('grade', 'math.{} is given a quantity of scale degree {}'.format(name, a.g[0]))
            if a.u in ('deg', 'rad'):
                report('unit', 'math.{} is given an angle'.format(name))
        return Num('float', g=(F0, None, None), w=P0 if name != 'atan' else None, u='rad', labels=labels,
                   pv=algebra.apply(name, pvs[0]))
    if name == 'atan2':
        y, x = args[0], args[1]
        w = None
        if y.__class__ is Num and x.__class__ is Num and y.g is not None and x.g is not None:
            if None not in (y.g[0], x.g[0]) and y.g[0] != x.g[0]:
                report('grade', 'math.atan2 of quantities of scale degree {} and {}'.format(y.g[0], x.g[0]))
            if y.g[1:] == (0, 1) and x.g[1:] == (1, 0):
                w = P1
            elif y.g[1:] == (1, 1) and x.g[1:] == (0, 0):
                w = P0
        return Num('float', g=(F0, None, None), w=w, u='rad', labels=labels, pv=algebra.apply('atan2', *pvs))
    if name in ('hypot',):
        g = None
        gs = [a.g for a in args if a.__class__ is Num]
        if gs and all(x is not None for x in gs):
            if len({x[0] for x in gs}) > 1:
                report('grade', 'math.hypot of quantities of different scale degrees')
            else:
                g = (gs[0][0], 0, 0)
        ws = [a.w for a in args if a.__class__ is Num]
        sq = None
        if None not in pvs:
            sq = algebra.ZERO
            for p in pvs:
                m = p.mul(p)
                sq = sq.add(m) if sq is not None and m is not None else None
        return Num('float', g=g, w=P0 if all(w is not None and w.is_zero for w in ws) else None, labels=labels,
                   pv=algebra.sqrt(sq))
    if name == 'copysign':
        r = absolute(args[0]).with_labels(labels)
        if r.__class__ is Num:
            return r.replace(pv=algebra.apply('copysign', *pvs))
        pv = algebra.apply('copysign', *pvs) if algebra.GENERIC[0] else None
        if pv is not None and pv.is_const:
            return Const(float(pv.value), labels)
        if args[1].__class__ is Const:
            return Const(math.copysign(r.v, args[1].v), labels)
        return Num('float', g=(F0, 0, 0), labels=labels, pv=pv)
    if name in ('log', 'log10', 'exp'):
        a = args[0]
        if a.__class__ is Num and a.g is not None and a.g[0] not in (None, 0) and name == 'exp':
            report('grade', 'math.{} is given a quantity of scale degree {}'.format(name, a.g[0]))
        return Num('float', labels=labels)
    if name in ('pow',):
        return binop('**', args[0], args[1], report)
    if name in ('isclose', 'isnan', 'isinf', 'isfinite'):
        return None
    return Num('float', labels=labels)
