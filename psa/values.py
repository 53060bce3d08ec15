"""Abstract values of the interprocedural abstract interpreter.

A value is immutable.  Mutable things live in the abstract heap (:class:`HObj`) and are designated by
:class:`Ref`.  Numbers carry a *grade*: how they respond to a change of scale, to the two axis
reflections and to a translation of the drawing; an angle unit; an opaque identity; labels (data flow).
"""

from fractions import Fraction

NOLABELS = frozenset()

####################################################################################################
# polynomials over opaque dimensionless scalars (weights of affine combinations)


class Poly:
    """Polynomial with rational coefficients; canonical, hashable."""

    __slots__ = ('terms', '_hash')
    MAX_TERMS = 80

    def __init__(self, terms):
        self.terms = frozenset((m, c) for m, c in terms.items() if c != 0)
        self._hash = hash(self.terms)

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __hash__(self):
        return self._hash

    @classmethod
    def const(cls, c):
        return cls({(): Fraction(c)})

    @classmethod
    def var(cls, name):
        return cls({((name, 1),): Fraction(1)})

    def add(self, other, sign=1, limit=None):
        d = dict(self.terms)
        for m, c in other.terms:
            d[m] = d.get(m, 0) + sign * c
        if len(d) > (limit or Poly.MAX_TERMS):
            return None
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.terms})

    def mul(self, other, limit=None):
        d = {}
        limit = limit or Poly.MAX_TERMS
        if len(self.terms) * len(other.terms) > 40 * limit:
            return None
        for m1, c1 in self.terms:
            for m2, c2 in other.terms:
                powers = dict(m1)
                for v, p in m2:
                    powers[v] = powers.get(v, 0) + p
                m = tuple(sorted((v, p) for v, p in powers.items() if p))
                d[m] = d.get(m, 0) + c1 * c2
        r = Poly(d)
        return r if len(r.terms) <= limit else None

    def scale(self, c):
        return Poly({m: k * c for m, k in self.terms})

    @property
    def is_const(self):
        return all(m == () for m, c in self.terms)

    @property
    def value(self):
        for m, c in self.terms:
            return c
        return Fraction(0)

    @property
    def is_zero(self):
        return not self.terms

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, c in sorted(self.terms):
            out.append('*'.join([str(c)] + ['{}^{}'.format(v, p) if p != 1 else v for v, p in m]))
        return ' + '.join(out)


P0 = Poly.const(0)
P1 = Poly.const(1)

####################################################################################################


class V:
    __slots__ = ()
    labels = NOLABELS

    def with_labels(self, labels):
        return self


class _Singleton(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


BOTTOM = _Singleton('BOTTOM')


class Const(V):
    __slots__ = ('v', 'labels', '_h')

    def __init__(self, v, labels=NOLABELS):
        self.v = v
        self.labels = labels
        try:
            self._h = hash((type(v), v))
        except TypeError:
            self._h = 0

    def __eq__(self, o):
        return (o.__class__ is Const and type(o.v) is type(self.v)
                and (o.v == self.v or (o.v != o.v and self.v != self.v)) and o.labels == self.labels)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return 'C({!r})'.format(self.v)

    def with_labels(self, labels):
        return Const(self.v, self.labels | labels) if not labels <= self.labels else self


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Num(V):
    """k: int/float/num; g: (degree, px, py) or None; w: translation weight Poly or None;
    u: unit or None; pv: value polynomial (dimensionless) or None; sym: opaque identity."""

    __slots__ = ('k', 'g', 'w', 'u', 'pv', 'sym', 'labels', '_h')

    def __init__(self, k='num', g=None, w=None, u=None, pv=None, sym=None, labels=NOLABELS):
        self.k = k
        self.g = g
        self.w = w
        self.u = u
        self.pv = pv
        self.sym = sym
        self.labels = labels
        self._h = hash((k, g, w, u, pv, sym, labels))

    def key(self):
        return (self.k, self.g, self.w, self.u, self.pv, self.sym, self.labels)

    def __eq__(self, o):
        return o.__class__ is Num and self._h == o._h and self.key() == o.key()

    def __hash__(self):
        return self._h

    def replace(self, **kw):
        d = dict(k=self.k, g=self.g, w=self.w, u=self.u, pv=self.pv, sym=self.sym, labels=self.labels)
        d.update(kw)
        return Num(**d)

    def with_labels(self, labels):
        return self if labels <= self.labels else self.replace(labels=self.labels | labels)

    def __repr__(self):
        parts = [self.k]
        if self.g is not None:
            parts.append('g={}'.format(tuple(str(x) for x in self.g)))
        if self.w is not None:
            parts.append('w={}'.format(self.w))
        if self.u:
            parts.append(self.u)
        if self.sym:
            parts.append('#' + self.sym)
        return 'N({})'.format(' '.join(parts))


class Str(V):
    """A text; *parts* are its literal and symbolic pieces when they are known (see strings.py)."""
    __slots__ = ('sym', 'labels', 'parts')

    def __init__(self, sym=None, labels=NOLABELS, parts=None):
        self.sym = sym
        self.labels = labels
        self.parts = parts

    def __eq__(self, o):
        return o.__class__ is Str and o.sym == self.sym and o.labels == self.labels and o.parts == self.parts

    def __hash__(self):
        return hash(('S', self.sym, self.labels, self.parts))

    def with_labels(self, labels):
        return self if labels <= self.labels else Str(self.sym, self.labels | labels, self.parts)

    def __repr__(self):
        if self.parts is not None:
            return 'S({})'.format(' '.join(repr(p) if p.__class__ is str else (
                p[1] if p[0] != 'num' else '<{!r}>{}'.format(p[1].pv, p[2])) for p in self.parts))
        return 'S({})'.format(self.sym or '')


class Bool(V):
    __slots__ = ('labels', 'cond')

    def __init__(self, labels=NOLABELS, cond=None):
        self.labels = labels
        self.cond = cond        # the condition it is the outcome of (laws only, see gate.py)

    def __eq__(self, o):
        return o.__class__ is Bool and o.labels == self.labels and o.cond == self.cond

    def __hash__(self):
        return hash(('B', self.labels))

    def with_labels(self, labels):
        return self if labels <= self.labels else Bool(self.labels | labels, self.cond)

    def __repr__(self):
        return 'Bool'


class Top(V):
    """Anything; *sym* is an opaque identity (the very same unknown object)."""
    __slots__ = ('sym', 'labels')

    def __init__(self, sym=None, labels=NOLABELS):
        self.sym = sym
        self.labels = labels

    def __eq__(self, o):
        return o.__class__ is Top and o.sym == self.sym and o.labels == self.labels

    def __hash__(self):
        return hash(('T', self.sym, self.labels))

    def with_labels(self, labels):
        return self if labels <= self.labels else Top(self.sym, self.labels | labels)

    def __repr__(self):
        return 'Top({})'.format(self.sym or '')


TOP = Top()


class _Keyed(V):
    __slots__ = ('_k',)

    def __eq__(self, o):
        return o.__class__ is self.__class__ and o._k == self._k

    def __hash__(self):
        return hash((self.__class__.__name__, self._k))

    def __repr__(self):
        return '{}{!r}'.format(self.__class__.__name__, self._k)


class Ref(_Keyed):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid
        self._k = oid


class Cls(_Keyed):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c
        self._k = id(c)

    def __repr__(self):
        return 'Cls({})'.format(self.c.qualname)


class Func(_Keyed):
    __slots__ = ('f', 'defaults', 'kwdefaults', 'closure', 'kind')

    def __init__(self, f, defaults=(), kwdefaults=None, closure=None, kind='func'):
        self.f = f
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.kind = kind      # func, static, class
        self._k = (id(f.node), id(closure) if closure is not None else 0, kind,
                   tuple(defaults) if closure is not None else ())

    def __repr__(self):
        return 'Func({})'.format(self.f.qualname)


class Prop(_Keyed):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel
        self._k = (fget, fset, fdel)


class Bound(_Keyed):
    __slots__ = ('recv', 'func')

    def __init__(self, recv, func):
        self.recv = recv
        self.func = func
        self._k = (recv, func)


class BBound(_Keyed):
    """Bound builtin method of a modelled receiver."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name
        self._k = (recv, name)


class Builtin(_Keyed):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self._k = name


class Ext(_Keyed):
    """Something of an external library, by dotted path."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path
        self._k = path


class Mod(_Keyed):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self._k = name


class Enum(_Keyed):
    __slots__ = ('c', 'name')

    def __init__(self, c, name):
        self.c = c
        self.name = name
        self._k = (id(c), name)

    def __repr__(self):
        return '{}.{}'.format(self.c.name, self.name)


class Super(_Keyed):
    __slots__ = ('c', 'recv')

    def __init__(self, c, recv):
        self.c = c
        self.recv = recv
        self._k = (id(c), recv)


class Union(V):
    __slots__ = ('vs', '_h')
    LIMIT = 12

    def __init__(self, vs):
        self.vs = vs
        self._h = hash(vs)

    def __eq__(self, o):
        return o.__class__ is Union and o._h == self._h and o.vs == self.vs

    def __hash__(self):
        return self._h

    @property
    def labels(self):
        return frozenset().union(*[v.labels for v in self.vs])

    def with_labels(self, labels):
        return make_union([v.with_labels(labels) for v in self.vs])

    def __repr__(self):
        return 'U({})'.format(', '.join(sorted(map(repr, self.vs))))


def members(v):
    if v.__class__ is Union:
        return sorted(v.vs, key=_order)
    if v is BOTTOM:
        return []
    return [v]


def _order(v):
    return (v.__class__.__name__, repr(v))


def join_num(a, b):
    # a, b: Num or numeric Const
    if a == b:
        return a
    la, lb = a.labels, b.labels
    ca, cb = a.__class__ is Const, b.__class__ is Const
    if ca and cb:
        k = 'int' if type(a.v) is int and type(b.v) is int else 'float'
        u = None
        return Num(k, g=(Fraction(0), None, None) if False else None, w=None, labels=la | lb)
    if ca or cb:
        n, c = (b, a) if ca else (a, b)
        # A constant is polymorphic only when it is zero.
        k = n.k if (n.k == 'int' and type(c.v) is int) else ('float' if n.k in ('int', 'float') else n.k)
        if c.v == 0:
            return n.replace(k=k, pv=None, sym=None, labels=la | lb)
        g = n.g if n.g is not None and n.g[0] == 0 else None
        return Num(k, g=g, w=(n.w if n.w is not None and n.w.is_zero else None), u=n.u, labels=la | lb)
    k = a.k if a.k == b.k else ('float' if {a.k, b.k} <= {'int', 'float'} else 'num')
    return Num(k,
               g=a.g if a.g == b.g else join_grade(a.g, b.g),
               w=a.w if a.w == b.w else None,
               u=a.u if a.u == b.u else None,
               pv=a.pv if a.pv == b.pv else None,
               sym=a.sym if a.sym == b.sym else None,
               labels=la | lb)


def join_grade(a, b):
    if a is None or b is None:
        return None
    g = tuple(x if x == y else None for x, y in zip(a, b))
    return None if g == (None, None, None) else g


def is_number_const(v):
    return v.__class__ is Const and type(v.v) in (int, float)


def is_numlike(v):
    return v.__class__ is Num or is_number_const(v)


def make_union(vs):
    flat = []
    seen = set()
    num = None
    nconsts = []
    strs = []
    top = None
    boolean = None
    for v in vs:
        for m in (v.vs if v.__class__ is Union else (v,)):
            if m is BOTTOM or m in seen:
                continue
            seen.add(m)
            c = m.__class__
            if c is Top:
                top = m if top is None else Top(top.sym if top.sym == m.sym else None, top.labels | m.labels)
            elif c is Num:
                num = m if num is None else join_num(num, m)
            elif c is Const and type(m.v) in (int, float):
                nconsts.append(m)
            elif c is Str or (c is Const and type(m.v) is str):
                strs.append(m)
            elif c is Bool or (c is Const and type(m.v) is bool):
                if boolean is None or boolean == m:
                    boolean = m
                else:
                    boolean = Bool(boolean.labels | m.labels)
            else:
                flat.append(m)
    if top is not None:
        labels = top.labels
        for m in flat + nconsts + strs + ([num] if num else []) + ([boolean] if boolean else []):
            labels = labels | m.labels
        only_none = all(m.__class__ is Const and m.v is None for m in flat) and not (nconsts or strs or num or boolean)
        if only_none and flat:
            return Union(frozenset([top, flat[0]]))
        return Top(top.sym if not flat and not nconsts and not strs and num is None and boolean is None else None,
                   labels)
    if num is not None:
        for c in nconsts:
            num = join_num(num, c)
        flat.append(num)
    elif nconsts:
        nconsts = list(dict.fromkeys(nconsts))
        if len(nconsts) > 4:
            n = nconsts[0]
            for c in nconsts[1:]:
                n = join_num(n, c)
            flat.append(n)
        else:
            flat.extend(nconsts)
    if strs:
        strs = list(dict.fromkeys(strs))
        plain = [s for s in strs if s.__class__ is Str]
        if plain or len(strs) > 24:
            labels = frozenset().union(*[s.labels for s in strs])
            flat.append(Str(plain[0].sym, labels, plain[0].parts) if len(strs) == 1 else Str(None, labels))
        else:
            flat.extend(strs)
    if boolean is not None:
        flat.append(boolean)
    if not flat:
        return BOTTOM
    if len(flat) == 1:
        return flat[0]
    if len(flat) > Union.LIMIT and not all(m.__class__ in (Const, Enum, Cls, Func) for m in flat):
        labels = frozenset().union(*[m.labels for m in flat])
        return Top(None, labels)
    return Union(frozenset(flat))


def join(a, b):
    if a is b or a == b:
        return a
    if a is BOTTOM:
        return b
    if b is BOTTOM:
        return a
    return make_union([a, b])


def join_all(vs):
    out = BOTTOM
    for v in vs:
        out = join(out, v)
    return out


def widen(old, new):
    """Join with the numeric constants and opaque values generalised."""
    j = join(old, new)
    if j == old:
        return old
    out = []
    for m in members(j):
        if is_number_const(m):
            k = 'int' if type(m.v) is int else 'float'
            out.append(Num(k, g=(Fraction(0), 0, 0) if type(m.v) is int else None, w=None, labels=m.labels))
        elif m.__class__ is Num:
            out.append(m.replace(pv=None, sym=None))
        else:
            out.append(m)
    return make_union(out)

####################################################################################################


class HObj:
    """Heap object.

    kind: inst, list, tuple, dict, set, iter, ndarray, lock, file, ext, top
    cls: ClassObj for instances; attrs: instance attributes; maybe: attributes possibly absent
    items: exact element tuple or None; elem: summary of the elements; keys/elem: rest of a dict
    open: unknown attributes answer Top; summary: stands for several objects; tag: free label
    """

    __slots__ = ('kind', 'cls', 'attrs', 'maybe', 'items', 'elem', 'key', 'open', 'summary', 'tag', 'labels')

    def __init__(self, kind, cls=None, attrs=None, maybe=frozenset(), items=None, elem=BOTTOM, key=BOTTOM,
                 open=False, summary=False, tag=None, labels=NOLABELS):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.maybe = maybe
        self.items = items
        self.elem = elem
        self.key = key
        self.open = open
        self.summary = summary
        self.tag = tag
        self.labels = labels

    def replace(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, attrs=self.attrs, maybe=self.maybe, items=self.items, elem=self.elem,
                 key=self.key, open=self.open, summary=self.summary, tag=self.tag, labels=self.labels)
        d.update(kw)
        return HObj(**d)

    def __eq__(self, o):
        if self is o:
            return True
        return (self.kind == o.kind and self.cls is o.cls and self.items == o.items and self.elem == o.elem
                and self.key == o.key and self.open == o.open and self.summary == o.summary and self.tag == o.tag
                and self.maybe == o.maybe and self.labels == o.labels and self.attrs == o.attrs)

    __hash__ = None

    def all_elems(self):
        """Join of everything the container can hold."""
        if self.kind == 'dict':
            return join(join_all(self.attrs.values()), self.elem)
        if self.items is not None:
            return join_all(self.items)
        return self.elem

    def __repr__(self):
        if self.kind == 'inst':
            return '<{} {}>'.format(self.cls.name, self.attrs)
        if self.kind == 'dict':
            return '<dict {} rest={}>'.format(self.attrs, self.elem)
        return '<{} {}>'.format(self.kind, self.items if self.items is not None else ('*', self.elem))


def join_obj(a, b, w=join):
    if a is b or a == b:
        return a
    if a.kind != b.kind or a.cls is not b.cls:
        if {a.kind, b.kind} <= {'list', 'tuple', 'iter', 'set', 'ndarray'}:
            pass
        else:
            return HObj('top', tag=None, summary=a.summary or b.summary)
    kind = a.kind if a.kind == b.kind else 'list'
    attrs = {}
    maybe = set(a.maybe | b.maybe)
    if a.kind == 'dict':
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            va, vb = a.attrs.get(k), b.attrs.get(k)
            if va is None or vb is None:
                maybe.add(k)
                attrs[k] = va if vb is None else vb
            else:
                attrs[k] = w(va, vb)
        return HObj('dict', attrs=attrs, maybe=frozenset(maybe), elem=w(a.elem, b.elem), key=join(a.key, b.key),
                    summary=a.summary or b.summary, tag=a.tag if a.tag == b.tag else None,
                    labels=a.labels | b.labels)
    for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
        va, vb = a.attrs.get(k), b.attrs.get(k)
        if va is None or vb is None:
            maybe.add(k)
            attrs[k] = va if vb is None else vb
        else:
            attrs[k] = w(va, vb)
    items = None
    elem = BOTTOM
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(w(x, y) for x, y in zip(a.items, b.items))
    else:
        elem = w(a.all_elems(), b.all_elems())
    return HObj(kind, a.cls, attrs, frozenset(maybe), items, elem, BOTTOM, a.open or b.open, a.summary or b.summary,
                a.tag if a.tag == b.tag else None, a.labels | b.labels)
