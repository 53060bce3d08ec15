"""Normal forms of the numeric expressions: polynomials over inputs and interned applications.

A value number is a polynomial with rational coefficients whose indeterminates are the unknown inputs
and *atoms*: interned applications of sqrt, cos, sin, abs, ... to value numbers, and the inverses of
value numbers.  Two value numbers are equal when their difference, multiplied out and reduced by the
defining equation of the atoms (sqrt(p)^2 = p, sin^2 + cos^2 = 1, d * d^-1 = 1), is the zero
polynomial.  They are different when an assignment of the inputs tells the normal forms apart.
Anything else is undecided.
"""

import hashlib
import math
from fractions import Fraction
from math import gcd

from .values import Poly

ATOMS = {}          # name -> (function, args: tuple of Poly)
_by_def = {}
ZERO = Poly.const(0)
ONE = Poly.const(1)
LIMIT = 4000


def atom(fn, *args):
    key = (fn, args)
    name = _by_def.get(key)
    if name is None:
        name = '{}#{}'.format(fn, len(ATOMS))
        _by_def[key] = name
        ATOMS[name] = key
    return Poly.var(name)


def content(p):
    """(c, q) with p = c*q, q primitive with a positive leading coefficient."""
    if p.is_zero:
        return Fraction(1), p
    num = den = 0
    for m, c in p.terms:
        num = gcd(num, c.numerator)
        den = c.denominator if den == 0 else den * c.denominator // gcd(den, c.denominator)
    c = Fraction(num, den)
    lead = min(p.terms, key=lambda t: (repr(t[0])))[1]
    if lead < 0:
        c = -c
    return c, p.scale(1 / c)


def power_of_monomial(p, n):
    (m, c), = p.terms
    return Poly({tuple((v, e * n) for v, e in m): c ** n})


def inverse(p):
    if p is None or p.is_zero:
        return None
    if len(p.terms) == 1:
        return power_of_monomial(p, -1)
    c, q = content(p)
    d = atom('den', q)
    (m, _), = d.terms
    return Poly({((m[0][0], -1),): 1 / c})


def _isqrt(f):
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None


def sqrt(p):
    if p is None:
        return None
    if p.is_zero:
        return p
    if p.is_const:
        r = _isqrt(p.value) if p.value > 0 else None
        return Poly.const(r) if r is not None else (atom('sqrt', p) if p.value > 0 else None)
    if GENERIC[0]:
        r = _generic_sqrt(p)
        if r is not None:
            return r
    c, q = content(p)
    if c < 0:
        c, q = -c, q.neg()
    # keep square factors out
    num, den = _square(c.numerator), _square(c.denominator)
    r = Fraction(num[0], den[0])
    return atom('sqrt', q.scale(Fraction(num[1], den[1]))).scale(r)


def _root(p):
    c, q = content(p)
    if c < 0:
        c, q = -c, q.neg()
    num, den = _square(c.numerator), _square(c.denominator)
    r = Fraction(num[0], den[0])
    return atom('sqrt', q.scale(Fraction(num[1], den[1]))).scale(r)


def _generic_sqrt(p):
    """Square root with the even factors taken out, None when there are none."""
    q = _expand(p)
    if q is None:
        return None
    if q.is_zero or q.is_const:
        return sqrt(q) if q != p else None
    low = {}
    for i, (m, _) in enumerate(q.terms):
        d = dict(m)
        for v in list(low) if i else d:
            low[v] = min(low.get(v, 0), d.get(v, 0)) if i else d[v]
        for v, e in m:
            if v not in low and e < 0:
                low[v] = e
    out = ONE
    factor = {}
    for v, e in low.items():
        if e < 0 and e % 2:
            e -= 1
        e -= e % 2
        if e:
            factor[v] = e
            out = out.mul(power_of_monomial(apply('abs', Poly.var(v)), e // 2))
    if factor:
        q = q.mul(Poly({tuple(sorted((v, -e) for v, e in factor.items())): Fraction(1)}), LIMIT)
        q = _expand(q) if q is not None else None
        if q is None:
            return None
    if q.is_const:
        r = sqrt(q)
        return out.mul(r) if r is not None else None
    r = square_root(q)
    if r is not None:
        return out.mul(apply('abs', r))
    c, primitive = content(q)
    if c > 0 and len(q.terms) > 1:
        r = square_root(primitive)
        if r is not None:
            return out.mul(sqrt(Poly.const(c))).mul(apply('abs', r))
    if not factor and q == p:
        return None
    return out.mul(_root(q))


def square_root(p):
    """q with q*q == p, None when *p* is not a perfect square of a polynomial."""
    if p.is_zero:
        return p
    names = sorted({v for m, _ in p.terms for v, _ in m})
    key = lambda t: [dict(t[0]).get(v, 0) for v in names]
    m, c = max(p.terms, key=key)
    r = _isqrt(c) if c > 0 else None
    if r is None or any(e % 2 for _, e in m) or any(e < 0 for t, _ in p.terms for _, e in t):
        return None
    lead = {v: e // 2 for v, e in m}
    q = Poly({tuple(sorted(lead.items())): r})
    for _ in range(len(p.terms) + 1):
        rest = p.add(q.mul(q, LIMIT), -1, LIMIT)
        if rest is None:
            return None
        if rest.is_zero:
            return q
        m, c = max(rest.terms, key=key)
        d = dict(m)
        for v, e in lead.items():
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = Poly({tuple(sorted((v, e) for v, e in d.items() if e)): c / (2 * r)})
        n = len(q.terms)
        q = q.add(t, 1, LIMIT)
        if q is None or len(q.terms) <= n:
            return None
    return None


def _square(n):
    out, i = 1, 2
    while i * i <= n and i < 1000:
        while n % (i * i) == 0:
            n //= i * i
            out *= i
        i += 1
    return out, n


PI = Poly.var('pi')


def trig(fn, p):
    """cos, sin, tan of an angle in radians."""
    if p is None:
        return None
    if fn == 'tan':
        s, c = trig('sin', p), trig('cos', p)
        i = inverse(c) if c is not None else None
        return s.mul(i) if i is not None else None
    if p.is_zero:
        return ZERO if fn == 'sin' else ONE
    # multiples of a quarter turn
    turn = None
    rest = {}
    for m, c in p.terms:
        if m == (('pi', 1),):
            turn = c
        else:
            rest[m] = c
    if turn is not None and (turn * 2).denominator == 1:
        k = int(turn * 2) % 4
        r = Poly(rest)
        if fn == 'cos':
            f, s = (('cos', 1), ('sin', -1), ('cos', -1), ('sin', 1))[k]
        else:
            f, s = (('sin', 1), ('cos', 1), ('sin', -1), ('cos', -1))[k]
        v = trig(f, r)
        return v if s == 1 else v.neg()
    if turn is not None and (turn * 24).denominator == 1:
        c, s = _exact_cos(turn), _exact_cos(turn - Fraction(1, 2))
        if c is not None and s is not None and not rest:
            return c if fn == 'cos' else s
        if c is not None and s is not None and GENERIC[0]:
            cr, sr = trig('cos', Poly(rest)), trig('sin', Poly(rest))
            if cr is not None and sr is not None:
                return c.mul(cr).add(s.mul(sr), -1) if fn == 'cos' else s.mul(cr).add(c.mul(sr))
    if len(p.terms) == 1:
        (m, c), = p.terms
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ATOMS and abs(c) == 1:
            v = _of_inverse(fn, *ATOMS[m[0][0]])
            if v is not None:
                return v.neg() if fn == 'sin' and c < 0 else v
    c, q = content(p)
    if c < 0:
        c = -c
        v = atom(fn, q.scale(c))
        return v.neg() if fn == 'sin' else v
    return atom(fn, p)


def _exact_cos(t):
    """cos of *t* half turns, for multiples of 15 or 22.5 degrees (else None)."""
    t = t % 2
    if t > 1:
        t = 2 - t
    if t > Fraction(1, 2):
        v = _exact_cos(1 - t)
        return v.neg() if v is not None else None
    if t in (Fraction(1, 12), Fraction(5, 12), Fraction(1, 8), Fraction(3, 8)):
        r = Poly.const(Fraction(2)).add(sqrt(Poly.const(Fraction(3 if t.denominator == 12 else 2))), 1 if t < Fraction(1, 4) else -1)
        return sqrt(r).scale(Fraction(1, 2))
    v = {Fraction(0): 1, Fraction(1, 6): 3, Fraction(1, 4): 2, Fraction(1, 3): Fraction(1, 2), Fraction(1, 2): 0}.get(t)
    if v is None:
        return None
    if v in (2, 3):
        return sqrt(Poly.const(Fraction(v))).scale(Fraction(1, 2))
    return Poly.const(Fraction(v))


def _exact_angle(fn, p):
    """The inverse function of a known cosine, sine or tangent, as a multiple of pi."""
    found = []
    for sample in range(6):
        try:
            found.append(float(evaluate(p, sample, {})))
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            continue
        if len(found) == 2:
            break
    if len(found) < 2 or abs(found[0] - found[1]) > 1e-9:
        return None
    for k in range(-6, 13):
        for t in (Fraction(k, 12) * 2, Fraction(k, 4)):
            if fn == 'acos' and not 0 <= t <= 1 or fn != 'acos' and not -Fraction(1, 2) <= t <= Fraction(1, 2):
                continue
            x = float(t) * math.pi
            if fn == 'atan':
                if abs(t) == Fraction(1, 2):
                    continue
                f = math.tan(x)
            else:
                f = math.cos(x) if fn == 'acos' else math.sin(x)
            if abs(found[0] - f) > 1e-9:
                continue
            exact = trig('tan' if fn == 'atan' else fn[1:], PI.scale(t))
            if exact is not None and (p == exact or GENERIC[0] and compare(p, exact)[0] == 'equal'):
                return PI.scale(t)
    return None


def _of_inverse(fn, f, args):
    """cos or sin of an inverse function."""
    u = args[0] if f in ('acos', 'asin', 'atan', 'atan2') else None
    if u is None:
        return None
    if f == 'atan2':
        y, x = args
        yy, xx = y.mul(y), x.mul(x)
        h = sqrt(yy.add(xx)) if yy is not None and xx is not None else None
        i = inverse(h) if h is not None else None
        return (x if fn == 'cos' else y).mul(i) if i is not None else None
    uu = u.mul(u)
    if uu is None:
        return None
    if f == 'atan':
        h = sqrt(ONE.add(uu))
        i = inverse(h) if h is not None else None
        return i if fn == 'cos' or i is None else u.mul(i)
    if (f == 'acos') == (fn == 'cos'):
        return u
    return sqrt(ONE.add(uu, -1))


def apply(fn, *args):
    if any(a is None for a in args):
        return None
    if fn in ('acos', 'asin', 'atan') and GENERIC[0]:
        v = _exact_angle(fn, args[0])
        if v is not None:
            return v
    if fn == 'abs' and args[0].is_const:
        return Poly.const(abs(args[0].value))
    if fn == 'abs' and GENERIC[0]:
        s = sign(args[0])
        if s:
            return args[0] if s > 0 else args[0].neg()
        if len(args[0].terms) == 1:
            # factor by factor
            (m, c), = args[0].terms
            out = Poly.const(abs(c))
            for v, e in m:
                x = Poly.var(v)
                out = out.mul(power_of_monomial(x if e % 2 == 0 or sign(x) == 1 else atom('abs', x), e))
            return out
    if fn == 'copysign' and GENERIC[0]:
        a = apply('abs', args[0])
        s = sign(args[1]) or (1 if args[1].is_zero else None)
        if s:
            return a if s > 0 else a.neg()
        c, q = content(args[1])
        return a.mul(ite(('lt', q), Poly.const(-1 if c > 0 else 1), Poly.const(1 if c > 0 else -1)))
    if fn == 'abs':
        c, q = content(args[0])
        return atom('abs', q).scale(abs(c))
    if fn in ('min', 'max'):
        args = tuple(sorted(set(args), key=repr))
        if len(args) == 1:
            return args[0]
    return atom(fn, *args)


####################################################################################################

def _clear(p):
    """Multiply by the denominators, atoms expanded; None when too large."""
    for _ in range(60):
        neg = {}
        for m, c in p.terms:
            for v, e in m:
                if e < 0 and e < neg.get(v, 0):
                    neg[v] = e
        if neg:
            v = sorted(neg, key=_depth)[-1]
            p = p.mul(Poly({((v, -neg[v]),): 1}), LIMIT)
            if p is None:
                return None
        q = _expand(p)
        if q is None:
            return None
        if q == p and not neg:
            return p
        p = q
    return None


def _depth(v):
    return int(v.split('#')[1]) if v in ATOMS else -1


def _expand(p):
    """One pass: den^k, sqrt^2, sin^2, abs^2 by their definitions."""
    while True:
        todo = None
        for m, c in p.terms:
            for v, e in m:
                if v in ATOMS and e > 0:
                    f = ATOMS[v][0]
                    if f == 'den' or (f in ('sqrt', 'abs', 'sin') and e >= 2):
                        if todo is None or _depth(v) > _depth(todo):
                            todo = v
        if todo is None:
            return p
        f, args = ATOMS[todo]
        out = {}
        parts = []
        if f == 'den':
            d, step = args[0], 1
        elif f == 'sqrt':
            d, step = args[0], 2
        elif f == 'abs':
            d, step = args[0].mul(args[0], LIMIT), 2
        else:
            co = trig('cos', args[0])
            d, step = ONE.add(co.mul(co), -1), 2
        if d is None:
            return None
        groups = {}
        for m, c in p.terms:
            k = 0
            rest = []
            for v, e in m:
                if v == todo and e >= step:
                    k = e // step
                    if e % step:
                        rest.append((v, e % step))
                else:
                    rest.append((v, e))
            groups.setdefault(k, {})
            g = groups[k]
            rest = tuple(rest)
            g[rest] = g.get(rest, 0) + c
        total = Poly(groups.pop(0, {}))
        for k, g in groups.items():
            t = Poly(g)
            for _ in range(k):
                t = t.mul(d, LIMIT)
                if t is None:
                    return None
            total = total.add(t, 1, LIMIT)
            if total is None:
                return None
        p = total


def _value(name, sample, memo):
    h = hashlib.sha256('{}/{}'.format(sample, name).encode()).digest()
    x = int.from_bytes(h[:6], 'big') / 2 ** 48
    if BOUNDS.get(name) == (0, 1):
        return 0.05 + 0.9 * x
    return 0.35 + x * 1.3


BOUNDS = {}         # input -> (low, high), both excluded
SIGNED = set()      # inputs that take both signs


def evaluate(p, sample, memo):
    total = 0.
    for m, c in p.terms:
        t = float(c)
        for v, e in m:
            t *= _atom_value(v, sample, memo) ** e
        total += t
    return total


def _atom_value(v, sample, memo):
    r = memo.get(v)
    if r is not None:
        return r
    if v == 'pi':
        r = math.pi
    elif v in ATOMS:
        f, args = ATOMS[v]
        if f == 'ite':
            r = evaluate(args[1] if holds(args[0], sample, memo) else args[2], sample, memo)
        else:
            xs = [evaluate(a, sample, memo) for a in args]
            r = FUNCTIONS[f](*xs)
    else:
        r = _value(v, sample, memo)
        if v in SIGNED and hashlib.sha256('s{}/{}'.format(sample, v).encode()).digest()[0] & 1:
            r = -r
    memo[v] = r
    return r


def _gamma(a, b, x, y):
    return x if a < b else y


FUNCTIONS = {
    'den': lambda x: x, 'sqrt': math.sqrt, 'cos': math.cos, 'sin': math.sin, 'abs': abs,
    'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2,
    'min': min, 'max': max, 'copysign': math.copysign, 'pow': lambda a, b: a ** b, 'floor': math.floor,
    'sign': lambda x: (x > 0) - (x < 0), 'log': math.log, 'exp': math.exp, 'mod': lambda a, b: a % b,
    'lt': _gamma, 'trunc': math.trunc, 'ceil': math.ceil, 'round': round,
}

SAMPLES = 6


def ite(cond, x, y):
    return x if x == y else atom('ite', cond, x, y)


def holds(cond, sample, memo):
    k = cond[0]
    if k == 'not':
        return not holds(cond[1], sample, memo)
    if k == 'and':
        return all(holds(c, sample, memo) for c in cond[1:])
    if k == 'or':
        return any(holds(c, sample, memo) for c in cond[1:])
    if k == 'lt':
        return evaluate(cond[1], sample, memo) < 0
    if k == 'eq':
        return abs(evaluate(cond[1], sample, memo)) < 1e-9
    return bool(hashlib.sha256('b{}/{}'.format(sample, cond[1]).encode()).digest()[0] & 1)


def arguments(v):
    """The value numbers an atom applies to."""
    f, args = ATOMS[v]
    if f != 'ite':
        return args
    return args[1:] + tuple(_cond_args(args[0]))


def _cond_args(c):
    if c[0] in ('lt', 'eq'):
        return [c[1]]
    return [x for s in c[1:] if isinstance(s, tuple) for x in _cond_args(s)]


def gates(p, out=None):
    """Conditions the atoms of a value number depend on."""
    out = {} if out is None else out
    for m, c in p.terms:
        for v, e in m:
            if v in ATOMS:
                if ATOMS[v][0] == 'ite':
                    _base(ATOMS[v][1][0], out)
                for a in arguments(v):
                    gates(a, out)
    return out


def _base(c, out):
    if c[0] in ('not', 'and', 'or'):
        for x in c[1:]:
            _base(x, out)
    else:
        out[c] = None


def cond_value(c, truth):
    if c[0] == 'not':
        r = cond_value(c[1], truth)
        return None if r is None else not r
    if c[0] in ('and', 'or'):
        rs = [cond_value(x, truth) for x in c[1:]]
        stop = c[0] == 'or'
        return stop if stop in rs else (None if None in rs else not stop)
    return truth.get(c)


def specialise(p, truth):
    """The value number under an assignment of conditions."""
    total = ZERO
    for m, c in p.terms:
        t = Poly.const(c)
        for v, e in m:
            if v in ATOMS:
                f, args = ATOMS[v]
                if f == 'ite':
                    r = cond_value(args[0], truth)
                    x = specialise(args[1] if r else args[2], truth) if r is not None else Poly.var(v)
                else:
                    new = tuple(specialise(a, truth) for a in args)
                    if None in new:
                        return None
                    x = Poly.var(v) if new == args else rebuild(f, new)
            else:
                x = Poly.var(v)
            if x is None:
                return None
            if e < 0:
                x = inverse(x)
                if x is None:
                    return None
            for _ in range(abs(e)):
                t = t.mul(x, LIMIT)
                if t is None:
                    return None
        total = total.add(t, 1, LIMIT)
        if total is None:
            return None
    return total


def rebuild(f, args):
    if f == 'den':
        return args[0] if len(args[0].terms) == 1 else atom('den', args[0])
    if f == 'sqrt':
        return sqrt(args[0])
    if f in ('sin', 'cos'):
        return trig(f, args[0])
    return apply(f, *args)


def proved(diff):
    q = _clear(diff)
    if q is not None and q.is_zero:
        return True
    if q is None:
        q = diff
    conds = list(gates(diff))
    if not conds or len(conds) > 5:
        return False
    for i in range(2 ** len(conds)):
        truth = {c: bool(i >> j & 1) for j, c in enumerate(conds)}
        d = specialise(diff, truth)
        q = _clear(d) if d is not None else None
        if q is None or not q.is_zero:
            return False
    return True


def compare(a, b):
    """('equal' | 'different' | 'undecided', witness)"""
    if a is None or b is None:
        return 'undecided', None
    if a == b:
        return 'equal', None
    diff = a.add(b, -1, LIMIT)
    if diff is None:
        return 'undecided', None
    if proved(diff):
        return 'equal', None
    ok = 0
    for s in range(SAMPLES):
        memo = {}
        try:
            x, y = evaluate(a, s, memo), evaluate(b, s, memo)
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or x != x or y != y:
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return 'different', {v: round(r, 4) for v, r in memo.items() if v not in ATOMS and v != 'pi'}
        ok += 1
    if GENERIC[0] and not _nested[0] and ok:
        # two positive numbers are equal when their squares are
        _nested[0] = True
        try:
            s = sign(a)
            if s and s == sign(b):
                aa, bb = a.mul(a, LIMIT), b.mul(b, LIMIT)
                if aa is not None and bb is not None and proved(aa.add(bb, -1, LIMIT)):
                    return 'equal', None
            # A + B = 0 when they have opposite signs and the same square
            groups = {}
            for m, c in diff.terms if len(diff.terms) <= 12 else ():
                roots = frozenset(v for v, e in m if v in ATOMS and ATOMS[v][0] == 'sqrt' and e % 2)
                groups.setdefault(roots, {})[m] = c
            if len(groups) == 2:
                x = Poly(list(groups.values())[0])
                y = diff.add(x, -1)
                s = sign(x) if y is not None else None
                if s and sign(y) == -s:
                    xx, yy = x.mul(x, LIMIT), y.mul(y, LIMIT)
                    if xx is not None and yy is not None and proved(xx.add(yy, -1, LIMIT)):
                        return 'equal', None
        finally:
            _nested[0] = False
    return 'undecided', None


_nested = [False]


def derivative(p, var):
    """Derivative of a polynomial without atoms of *var*."""
    if p is None or var is None:
        return None
    ((m, c),) = var.terms
    ((name, _),) = m
    out = {}
    for m, c in p.terms:
        d = dict(m)
        for v in d:
            if v in ATOMS and _depends(v, name):
                return None
        e = d.get(name, 0)
        if e:
            d[name] = e - 1
            k = tuple(sorted((v, q) for v, q in d.items() if q))
            out[k] = out.get(k, 0) + c * e
    return Poly(out)


def _depends(atom_name, var):
    for a in arguments(atom_name):
        for m, c in a.terms:
            for v, e in m:
                if v == var or (v in ATOMS and _depends(v, var)):
                    return True
    return False


def _mul_range(a, b):
    xs = []
    for x in a:
        for y in b:
            xs.append(0 if x == 0 or y == 0 else x * y)
    return min(xs), max(xs)


def interval(p):
    """Closed range of a value number from the bounds of its inputs."""
    lo = hi = 0
    for m, c in p.terms:
        r = (float(c), float(c))
        for v, e in m:
            if v == 'pi':
                b = (3.14159, 3.1416)
            elif v in ATOMS and ATOMS[v][0] == 'sqrt' and ATOMS[v][1][0].is_const:
                x = math.sqrt(ATOMS[v][1][0].value)
                b = (x * (1 - 1e-12), x * (1 + 1e-12))
            elif v in ATOMS:
                f = ATOMS[v][0]
                b = {'sqrt': (0, math.inf), 'abs': (0, math.inf), 'cos': (-1, 1), 'sin': (-1, 1),
                     'acos': (0, math.pi)}.get(f, (-math.inf, math.inf))
            else:
                b = BOUNDS.get(v, (-math.inf, math.inf))
            if e < 0:
                if b[0] >= 0:
                    b = (1 / b[1] if b[1] else math.inf, 1 / b[0] if b[0] else math.inf)
                else:
                    b = (-math.inf, math.inf)
                e = -e
            if e % 2 == 0:
                lo_, hi_ = b
                big = max(abs(lo_), abs(hi_)) ** e
                small = 0 if lo_ <= 0 <= hi_ else min(abs(lo_), abs(hi_)) ** e
                b = (small, big)
                e = 1
            for _ in range(e):
                r = _mul_range(r, b)
        lo, hi = lo + r[0], hi + r[1]
    return lo, hi


def bernstein(p):
    """Range of a polynomial in inputs of the unit interval, from its Bernstein coefficients; or None."""
    degree = {}
    for m, c in p.terms:
        for v, e in m:
            if e < 0 or BOUNDS.get(v) != (0, 1):
                return None
            degree[v] = max(degree.get(v, 0), e)
    names = sorted(degree)
    if not names or len(names) > 4 or math.prod(degree[v] + 1 for v in names) > 400:
        return None
    terms = [(dict(m), c) for m, c in p.terms]
    values = []

    def walk(i, index):
        if i == len(names):
            total = Fraction(0)
            for m, c in terms:
                x = c
                for v, k in zip(names, index):
                    e = m.get(v, 0)
                    if e > k:
                        x = 0
                        break
                    x = x * Fraction(math.comb(k, e), math.comb(degree[v], e))
                total += x
            values.append(total)
            return
        for k in range(degree[names[i]] + 1):
            walk(i + 1, index + (k,))
    walk(0, ())
    return min(values), max(values)


def span(p):
    """Open range of a value number over its inputs."""
    if p.is_const:
        return p.value, p.value
    return bernstein(p) or interval(p)


def integer_part(fn, p):
    """floor, ceil, trunc or round of a value number in general position."""
    if p is None:
        return None
    if p.is_const:
        return Poly.const(FUNCTIONS[fn](p.value))
    if not GENERIC[0]:
        return None
    lo, hi = span(p)
    if lo > -1e9 and hi < 1e9:
        if fn == 'trunc' and lo >= 0:
            fn = 'floor'
        if fn == 'floor' and math.floor(lo) == math.ceil(hi) - 1:
            return Poly.const(math.floor(lo))
        if fn == 'ceil' and math.floor(lo) == math.ceil(hi) - 1:
            return Poly.const(math.ceil(hi))
        if fn == 'round' and math.floor(lo + .5) == math.ceil(hi + .5) - 1:
            return Poly.const(math.floor(lo + .5))
    if fn == 'trunc' and lo >= 0:
        fn = 'floor'
    return atom(fn, p)


def mod(p, q):
    """Remainder of the floored division."""
    if p is None or q is None or not GENERIC[0]:
        return None
    iq = inverse(q)
    ratio = p.mul(iq) if iq is not None else None
    k = integer_part('floor', ratio) if ratio is not None else None
    return p.add(q.mul(k), -1) if k is not None else None


def sign(p, depth=0):
    """1 or -1 when *p* is generically positive or negative over the inputs, else None."""
    if p.is_zero:
        return None
    if p.is_const:
        return 1 if p.value > 0 else -1
    lo, hi = interval(p)
    if lo >= 0:        # the bounds are excluded: generically positive
        return 1
    if hi <= 0:
        return -1
    r = bernstein(p)
    if r is not None:
        return 1 if r[0] >= 0 else (-1 if r[1] <= 0 else None)
    if depth < 3:
        kinds = {ATOMS[v][0] for m, _ in p.terms for v, _ in m if v in ATOMS}
        s = None
        if ('acos' in kinds or 'atan' in kinds) and len(p.terms) <= 4:
            s = _sign_of_angles(p, depth)
        if s is None and 'ite' in kinds and not depth and len(p.terms) <= 8:
            s = _sign_by_cases(p, depth)
        if s is not None:
            return s
        for m, c in p.terms:
            for v, e in m:
                if e < 0 and v in ATOMS and ATOMS[v][0] == 'den':
                    q = p.mul(Poly({((v, -e),): 1}), LIMIT)
                    q = _expand(q) if q is not None else None
                    if q is None:
                        return None
                    s = 1 if e % 2 == 0 else sign(ATOMS[v][1][0], depth + 1)
                    t = sign(q, depth + 1)
                    return s * t if s and t else None
    return _sign_by_squares(p, depth)


def _sign_of_angles(p, depth):
    """Sign of c0 + c1*f(u) or c1*(f(u) - f(v)) for f = acos, which decreases, or atan, which increases."""
    s = _sign_of(p, 'acos', depth)
    if s is not None:
        return -s
    s = _sign_of(p, 'atan', depth)
    if s is not None:
        return s
    # the quadrants
    lo = hi = 0
    for m, c in p.terms:
        hit = [v for v, e in m if v in ATOMS and ATOMS[v][0] == 'atan']
        if any(v != 'pi' and v not in hit for v, _ in m) or len(hit) > 1 or hit and dict(m)[hit[0]] != 1:
            return None
        k = float(c) * math.pi ** dict(m).get('pi', 0)
        r = (k, k)
        if hit:
            s = sign(ATOMS[hit[0]][1][0], depth + 1)
            half = math.pi / 2
            r = _mul_range((k, k), {1: (0, half), -1: (-half, 0), None: (-half, half)}[s])
        lo, hi = lo + r[0], hi + r[1]
    return 1 if lo > -1e-9 else (-1 if hi < 1e-9 else None)


def _sign_of(p, f, depth):
    angles, rest = [], []
    for m, c in p.terms:
        hit = [(v, e) for v, e in m if v in ATOMS and ATOMS[v][0] == f]
        if not hit:
            rest.append((m, c))
        elif len(hit) > 1 or hit[0][1] != 1 or any(v != 'pi' for v, _ in m if v != hit[0][0]):
            return None
        else:
            angles.append((ATOMS[hit[0][0]][1][0], c, dict(m).get('pi', 0)))
    if len(angles) == 2 and not rest and angles[0][1] == -angles[1][1] and angles[0][2] == angles[1][2]:
        (u, c, _), (v, _, _) = angles
        d = u.add(v, -1, LIMIT)
    elif len(angles) == 1 and len(rest) == 1 and all(v == 'pi' for v, _ in rest[0][0]):
        u, c, e = angles[0]
        at = -rest[0][1] / c        # of pi**k
        k = dict(rest[0][0]).get('pi', 0) - e
        x = float(at) * math.pi ** k
        if f == 'acos' and not 0 <= x <= math.pi or f == 'atan' and not -math.pi / 2 < x < math.pi / 2:
            return None
        if k == 1 and at == Fraction(1, 2):
            x = 0
        else:
            x = math.cos(x) if f == 'acos' else math.tan(x)
        d = u.add(Poly.const(Fraction(x)), -1, LIMIT)
    else:
        return None
    s = sign(d, depth + 1) if d is not None and not d.is_zero else None
    return s * (1 if c > 0 else -1) if s else None


def _sign_by_cases(p, depth):
    """The sign both branches of a choice give."""
    for v in {v for m, _ in p.terms for v, e in m if v in ATOMS and ATOMS[v][0] == 'ite'}:
        _, x, y = ATOMS[v][1]
        signs = set()
        for branch in (x, y):
            q = ZERO
            for m, c in p.terms:
                t = Poly({tuple((w, e) for w, e in m if w != v): c})
                e = dict(m).get(v, 0)
                if e < 0:
                    return None
                for _ in range(e):
                    t = t.mul(branch, LIMIT) if t is not None else None
                q = q.add(t, 1, LIMIT) if t is not None and q is not None else None
            signs.add(sign(q, depth + 1) if q is not None else None)
        return signs.pop() if len(signs) == 1 else None
    return None


def _sign_by_squares(p, depth):
    q = _positive_clear(p)
    if q is None:
        return None
    if q != p:
        if q.is_zero:
            return None
        lo, hi = span(q)
        if lo >= 0 or hi <= 0:
            return 1 if lo >= 0 else -1
    if all(e > 0 for m, _ in q.terms for _, e in m):
        if square_root(q) is not None:
            return 1
        if square_root(q.neg()) is not None:
            return -1
        d = _common(q)
        if d:
            # a common factor apart
            s = 1
            for v, e in d:
                if e % 2:
                    t = sign(Poly.var(v), depth + 1) if depth < 3 else None
                    if t is None:
                        return None
                    s *= t
            t = sign(q.mul(Poly({tuple((v, -e) for v, e in d): Fraction(1)})), depth + 1) if depth < 3 else None
            return s * t if t else None
    if depth >= 2:
        return None
    # |A| < |B| decides the sign of A + B
    odd = {m: c for m, c in p.terms if any(v in ATOMS and ATOMS[v][0] == 'sqrt' and e % 2 for v, e in m)}
    if odd and len(odd) < len(p.terms):
        a = Poly(odd)
        b = p.add(a, -1)
        if b is None:
            return None
        aa, bb = a.mul(a, LIMIT), b.mul(b, LIMIT)
        d = aa.add(bb, -1, LIMIT) if aa is not None and bb is not None else None
        d = _positive_clear(d) if d is not None else None
        if d is None:
            return None
        s = sign(d, depth + 1) if not d.is_zero else None
        if s:
            return sign(a if s > 0 else b, depth + 1)
    return None


def _common(p):
    out = None
    for m, _ in p.terms:
        d = dict(m)
        out = d if out is None else {v: min(e, d[v]) for v, e in out.items() if v in d}
    return sorted(out.items())


def _positive_clear(p):
    """A positive multiple of *p* without denominators, None when too large."""
    for _ in range(30):
        neg = {}
        for m, c in p.terms:
            for v, e in m:
                if e < 0 and e < neg.get(v, 0):
                    neg[v] = e
        if not neg:
            q = _expand(p)
            if q is None or q == p:
                return q
            p = q
            continue
        v = sorted(neg, key=_depth)[-1]
        e = -neg[v]
        if e % 2 and not (v in ATOMS and ATOMS[v][0] in ('sqrt', 'abs') or BOUNDS.get(v, (-1,))[0] >= 0 or v == 'pi'):
            if not (v in ATOMS and ATOMS[v][0] == 'den' and sign(ATOMS[v][1][0], 2) == 1):
                e += 1
        p = p.mul(Poly({((v, e),): 1}), LIMIT)
        p = _expand(p) if p is not None else None
        if p is None:
            return None
    return None


GENERIC = [False]


def decide(op, a, b):
    """Truth of *a op b*, or None."""
    if a is None or b is None:
        return None
    d = a.add(b, -1, LIMIT)
    if d is None:
        return None
    if d.is_zero:
        return op in ('==', '<=', '>=')
    if not GENERIC[0]:
        return None
    if op in ('==', '!='):
        status, _ = compare(a, b)
        if status == 'equal':
            return op == '=='
        if status == 'different':
            return op == '!='
        return None
    s = sign(d)
    if s is not None:
        return op in (('>', '>=') if s > 0 else ('<', '<='))
    # a tolerance: a quantity that is not identically zero is generically above it
    for p, q, side in ((a, b, 1), (b, a, -1)):
        if q.is_const and 0 < q.value <= Fraction(1, 1000) and interval(p)[0] >= 0:
            status, _ = compare(p, ZERO)
            if status == 'different':
                greater = side == 1
                return (op in ('>', '>=')) == greater
    return None


def _root_monomial(p):
    """The product of square roots every term of *p* has, None when there is none."""
    common = None
    for m, _ in p.terms:
        d = {v: e for v, e in m if v in ATOMS and ATOMS[v][0] == 'sqrt'}
        common = d if common is None else {v: e for v, e in common.items() if d.get(v) == e}
    return sorted(common.items()) if common else None


def _constant_ratio(p, q):
    m, c = next(iter(q.terms))
    k = dict(p.terms).get(m)
    if k and p == q.scale(k / c):
        yield k / c


def same_sign(a, b):
    """Whether *a* is a positive multiple of *b*: proved for constant multiples, refuted by an assignment."""
    if a is None or b is None:
        return 'undecided'
    ratio = None
    for s in range(SAMPLES):
        memo = {}
        try:
            x, y = evaluate(a, s, memo), evaluate(b, s, memo)
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            continue
        if x != x or y != y or abs(y) < 1e-12:
            continue
        if x / y < -1e-9:
            return 'different'
        ratio = x / y
    for p, q in ((a, b), (b, a)):
        # a positive power of square roots apart: those of p, times the square itself
        m = _root_monomial(p)
        if m is not None and p.terms and q.terms:
            r = p.mul(Poly({tuple((v, -e) for v, e in m): Fraction(1)}))
            if r is not None:
                for k in _constant_ratio(r, q):
                    if k > 0:
                        return 'equal'
    if ratio:
        k = Fraction(ratio).limit_denominator(1000)
        if k > 0 and compare(a, b.scale(k))[0] == 'equal':
            return 'equal'
    return 'undecided'


def integral(p, var):
    """Integral over [0, 1] of a polynomial in *var*."""
    if p is None or var is None:
        return None
    ((m, c),) = var.terms
    ((name, _),) = m
    out = {}
    for m, c in p.terms:
        d = dict(m)
        if any(v in ATOMS and _depends(v, name) for v in d):
            return None
        e = d.pop(name, 0)
        if e < 0:
            return None
        k = tuple(sorted(d.items()))
        out[k] = out.get(k, 0) + c / (e + 1)
    return Poly(out)
