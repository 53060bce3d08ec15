"""Conditions of the laws: values joined after an undecided test keep the test (gated value numbers)."""

from . import algebra
from .values import *

# a condition: ('lt', p): p < 0; ('eq', p): p == 0; ('var', name); ('not', c); ('and', c, ...); ('or', ...)


def negate(c):
    if c is None:
        return None
    return c[1] if c[0] == 'not' else ('not', c)


def comparison(op, a, b):
    """Condition of *a op b* between value numbers, in general position."""
    if a is None or b is None:
        return None
    d = a.add(b, -1, algebra.LIMIT)
    if d is None or d.is_const:
        return None
    k, q = algebra.content(d)
    if op in ('==', '!='):
        c = ('eq', q)
        return c if op == '==' else negate(c)
    less = ('lt', q) if k > 0 else ('not', ('lt', q))
    return less if op in ('<', '<=') else negate(less)


def known(path, cond):
    """Truth of a condition under the conditions of *path*; None when open."""
    if cond is None:
        return None
    if cond[0] == 'not':
        r = known(path, cond[1])
        return None if r is None else not r
    if cond[0] in ('and', 'or'):
        rs = [known(path, c) for c in cond[1:]]
        if cond[0] == 'and':
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    for c, t in path:
        if c == cond:
            return t
        if c[0] == 'and' and t and cond in c[1:]:
            return True
        if c[0] == 'and' and t and ('not', cond) in c[1:]:
            return False
        if c[0] == 'or' and not t and cond in c[1:]:
            return False
        if c[0] == 'or' and not t and ('not', cond) in c[1:]:
            return True
        if c[0] == 'not' and c[1] == cond:
            return not t
    return None


def split(a, b):
    """(k, cond): the paths share k conditions and part on cond (true in a); None when they do not part."""
    k = 0
    for x, y in zip(a, b):
        if x == y:
            k += 1
            continue
        if x[0] == y[0] and x[1] != y[1]:
            return k, (x[0] if x[1] else negate(x[0]))
        return None
    return None


def numbers(cond, x, y):
    """x if cond else y."""
    from . import numeric
    j = join(x, y)
    nx, ny = numeric.as_num(x), numeric.as_num(y)
    if nx.pv is None or ny.pv is None:
        return j
    if j.__class__ is not Num:
        j = Num('int' if nx.k == ny.k == 'int' else 'float', labels=x.labels | y.labels)
    return j.replace(pv=algebra.ite(cond, nx.pv, ny.pv))


def booleans(cond, x, y):
    def of(v):
        if v.__class__ is Const and isinstance(v.v, bool):
            return v.v
        return v.cond if v.__class__ is Bool else None
    a, b = of(x), of(y)
    if a is None or b is None:
        return join(x, y)
    if a is True:
        c = ('or', cond, b) if b is not False else cond
    elif a is False:
        c = ('and', negate(cond), b) if b is not True else negate(cond)
    elif b is True:
        c = ('or', negate(cond), a)
    elif b is False:
        c = ('and', cond, a)
    else:
        c = ('or', ('and', cond, a), ('and', negate(cond), b))
    return Bool(x.labels | y.labels, c)


def merge(it, a, b, values=()):
    """Join two states (and pairs of values) after a test; the state and the joined values."""
    if a.dead:
        return b, [v for _, v in values]
    if b.dead:
        return a, [v for v, _ in values]
    s = split(a.path, b.path) if algebra.GENERIC[0] else None
    if s is None:
        st = it.join_states(a, b)
        return st, [join(x, y) for x, y in values]
    k, cond = s
    memo = {}
    todo = []

    def w(x, y):
        if x is y or x == y:
            return x
        if x is BOTTOM:
            return y
        if y is BOTTOM:
            return x
        if is_numlike(x) and is_numlike(y):
            return numbers(cond, x, y)
        if x.__class__ in (Bool, Const) and y.__class__ in (Bool, Const):
            return booleans(cond, x, y)
        if x.__class__ is Ref and y.__class__ is Ref:
            key = (x.oid, y.oid)
            r = memo.get(key)
            if r is not None:
                return r
            p, q = it.get(a, x.oid), it.get(b, y.oid)
            if (p is not None and q is not None and p.kind == q.kind and p.cls is q.cls
                    and p.kind in ('inst', 'tuple', 'list', 'ndarray')
                    and (p.items is None) == (q.items is None)
                    and (p.items is None or len(p.items) == len(q.items))
                    and set(p.attrs) == set(q.attrs) and len(memo) < 60):
                r = Ref(('gate', cond) + key)
                memo[key] = r
                todo.append((r.oid, p, q))
                return r
        return join(x, y)

    st = it.join_states(a, b, w)
    out = [w(x, y) for x, y in values]
    while todo:
        oid, p, q = todo.pop()
        st.heap[oid] = join_obj(p, q, w)
    st.path = a.path[:k]
    return st, out


def fold(it, pairs):
    """Join (value, state) pairs, those that part last first; the joined pair or None."""
    pairs = [(v, s) for v, s in pairs if not s.dead]
    while len(pairs) > 1:
        best = None
        if algebra.GENERIC[0]:
            for i in range(len(pairs)):
                for j in range(i + 1, len(pairs)):
                    s = split(pairs[i][1].path, pairs[j][1].path)
                    if s is not None and (best is None or s[0] > best[0]):
                        best = (s[0], i, j)
        i, j = best[1:] if best is not None else (0, 1)
        (v, s), (w, t) = pairs[i], pairs[j]
        st, (x,) = merge(it, s, t, [(v, w)])
        pairs[i] = (x, st)
        del pairs[j]
    return pairs[0] if pairs else None
