"""Functions of the standard library, written out for the analysis of laws."""


def functools_reduce(function, iterable, *initial):
    items = list(iterable)
    if initial:
        value = initial[0]
    else:
        value = items[0]
        items = items[1:]
    for x in items:
        value = function(value, x)
    return value


def functools_partial(function, *args, **kwargs):
    def call(*more, **others):
        return function(*args, *more, **{**kwargs, **others})
    return call


def itertools_accumulate(iterable, func=None, initial=None):
    out = []
    first = True
    value = None
    if initial is not None:
        value = initial
        out.append(value)
        first = False
    for x in iterable:
        if first:
            value = x
            first = False
        elif func is None:
            value = value + x
        else:
            value = func(value, x)
        out.append(value)
    return iter(out)


def itertools_islice(iterable, *bounds):
    return iter(list(iterable)[slice(*bounds)])


def itertools_pairwise(iterable):
    items = list(iterable)
    return iter([(items[i], items[i + 1]) for i in range(len(items) - 1)])


def itertools_zip_longest(*iterables, fillvalue=None):
    rows = [list(x) for x in iterables]
    size = 0
    for row in rows:
        if len(row) > size:
            size = len(row)
    out = []
    for i in range(size):
        out.append(tuple([row[i] if i < len(row) else fillvalue for row in rows]))
    return iter(out)


def itertools_product(*iterables, repeat=1):
    out = [()]
    for k in range(repeat):
        for x in iterables:
            items = list(x)
            out = [left + (item,) for left in out for item in items]
    return iter(out)


def itertools_permutations(iterable, r=None):
    items = list(iterable)
    size = len(items) if r is None else r
    out = [()]
    for k in range(size):
        out = [left + (i,) for left in out for i in range(len(items)) if i not in left]
    return iter([tuple([items[i] for i in indices]) for indices in out])


def itertools_combinations(iterable, r):
    items = list(iterable)
    out = [()]
    for k in range(r):
        out = [left + (i,) for left in out for i in range(len(items)) if not left or i > left[-1]]
    return iter([tuple([items[i] for i in indices]) for indices in out])


def itertools_starmap(function, iterable):
    return iter([function(*x) for x in iterable])


def itertools_compress(data, selectors):
    return iter([x for x, s in zip(data, selectors) if s])


def itertools_repeat(value, times):
    return iter([value]*times)


def itertools_takewhile(predicate, iterable):
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return iter(out)


def itertools_dropwhile(predicate, iterable):
    out = []
    kept = False
    for x in iterable:
        if kept or not predicate(x):
            kept = True
            out.append(x)
    return iter(out)


def itertools_filterfalse(predicate, iterable):
    if predicate is None:
        return iter([x for x in iterable if not x])
    return iter([x for x in iterable if not predicate(x)])


def itertools_groupby(iterable, key=None):
    out = []
    last = None
    for x in iterable:
        k = x if key is None else key(x)
        if out and k == last:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
            last = k
    return iter(out)


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_mul(a, b):
    return a * b


def operator_truediv(a, b):
    return a / b


def operator_floordiv(a, b):
    return a // b


def operator_mod(a, b):
    return a % b


def operator_pow(a, b):
    return a ** b


def operator_neg(a):
    return -a


def operator_pos(a):
    return +a


def operator_abs(a):
    return abs(a)


def operator_not_(a):
    return not a


def operator_truth(a):
    return bool(a)


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_is_(a, b):
    return a is b


def operator_is_not(a, b):
    return a is not b


def operator_and_(a, b):
    return a & b


def operator_or_(a, b):
    return a | b


def operator_xor(a, b):
    return a ^ b


def operator_contains(a, b):
    return b in a


def operator_getitem(a, b):
    return a[b]


def operator_setitem(a, b, c):
    a[b] = c


def operator_iadd(a, b):
    a += b
    return a


def operator_attrgetter(*names):
    if len(names) == 1:
        path = names[0].split('.')

        def get(x):
            for name in path:
                x = getattr(x, name)
            return x
        return get
    getters = [operator_attrgetter(name) for name in names]

    def get_all(x):
        return tuple([g(x) for g in getters])
    return get_all


def operator_itemgetter(*items):
    def get_all(x):
        return tuple([x[i] for i in items])
    return get_all


def operator_methodcaller(name, *args, **kwargs):
    def call(x):
        return getattr(x, name)(*args, **kwargs)
    return call


def bisect_bisect_right(a, x):
    at = 0
    for y in a:
        if x < y:
            break
        at += 1
    return at


def bisect_bisect_left(a, x):
    at = 0
    for y in a:
        if not y < x:
            break
        at += 1
    return at


bisect_bisect = bisect_bisect_right


class types_SimpleNamespace:
    def __init__(self, **kwargs):
        for name, value in kwargs.items():
            setattr(self, name, value)


class contextlib_nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *args):
        return None


class contextlib_closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


def collections_namedtuple(typename, field_names, **kwargs):
    names = field_names.replace(',', ' ').split() if isinstance(field_names, str) else list(field_names)

    class Row:
        def __init__(self, *args, **kw):
            values = list(args)
            for name in names[len(values):]:
                values.append(kw[name])
            self._values = tuple(values)
            for name, value in zip(names, values):
                setattr(self, name, value)

        def __iter__(self):
            return iter(self._values)

        def __len__(self):
            return len(self._values)

        def __getitem__(self, index):
            return self._values[index]

        def __eq__(self, other):
            return tuple(self) == tuple(other)

        def _asdict(self):
            return dict(zip(names, self._values))

        def _replace(self, **kw):
            return Row(*[kw.get(name, value) for name, value in zip(names, self._values)])

    return Row
