import itertools
import functools
import operator
import bisect
from collections import deque, defaultdict, namedtuple
from types import SimpleNamespace
from contextlib import suppress


def law_ZZ_std():
    eq('reduce', functools.reduce(operator.add, [1, 2, 3]), 6)
    eq('reduce0', functools.reduce(lambda a, b: a * b, [], 5), 5)
    eq('acc', list(itertools.accumulate([1, 2, 3])), [1, 3, 6])
    eq('acc2', list(itertools.accumulate([1, 2, 3], operator.mul, initial=2)), [2, 2, 4, 12])
    eq('isl', list(itertools.islice([1, 2, 3, 4], 1, None, 2)), [2, 4])
    eq('isl', list(itertools.islice([1, 2, 3, 4], 2)), [1, 2])
    eq('pair', list(itertools.pairwise([1, 2, 3])), [(1, 2), (2, 3)])
    eq('zl', list(itertools.zip_longest([1, 2, 3], 'ab', fillvalue=0)), [(1, 'a'), (2, 'b'), (3, 0)])
    eq('prod', list(itertools.product([1, 2], [3, 4])), [(1, 3), (1, 4), (2, 3), (2, 4)])
    eq('perm', list(itertools.permutations([1, 2, 3], 2)), [(1, 2), (1, 3), (2, 1), (2, 3), (3, 1), (3, 2)])
    eq('comb', list(itertools.combinations([1, 2, 3], 2)), [(1, 2), (1, 3), (2, 3)])
    eq('group', [(k, list(v)) for k, v in itertools.groupby([1, 3, 2, 4, 5], lambda x: x % 2)], [(1, [1, 3]), (0, [2, 4]), (1, [5])])
    eq('take', list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), [1, 2])
    eq('drop', list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), [3, 1])
    eq('ff', list(itertools.filterfalse(None, [1, 0, 3, ''])), [0, ''])
    eq('star', list(itertools.starmap(operator.sub, [(3, 1), (4, 1)])), [2, 3])
    eq('partial', functools.partial(operator.sub, 5)(3), 2)
    o = SimpleNamespace(a=3, b=4)
    eq('ns', (o.a, o.b), (3, 4))
    eq('ag', operator.attrgetter('a')(o), 3)
    eq('ag2', operator.attrgetter('a', 'b')(o), (3, 4))
    eq('ig', operator.itemgetter(1, 0)([5, 6]), (6, 5))
    eq('mc', operator.methodcaller('upper')('a'), 'A')
    d = deque([1, 2])
    d.append(3)
    d.appendleft(0)
    eq('pl', d.popleft(), 0)
    d.rotate(1)
    eq('rot', list(d), [3, 1, 2])
    g = defaultdict(list)
    g['a'].append(1)
    g['a'].append(2)
    g['b'].append(3)
    eq('dd', dict(g), {'a': [1, 2], 'b': [3]})
    c = defaultdict(int)
    for x in 'abca':
        c[x] += 1
    eq('di', dict(c), {'a': 2, 'b': 1, 'c': 1})
    P = namedtuple('P', 'x y')
    p = P(1, y=2)
    a, b = p
    eq('nt', (p.x, p[1], a, b), (1, 2, 1, 2))
    with suppress(KeyError):
        {}['a']
    eq('f', list(filter(str.strip, ['a', ' ', 'b '])), ['a', 'b '])
    eq('f2', list(filter(None, ['a', '', 'b '])), ['a', 'b '])
    eq('f3', [*map(str.strip, ['a', ' ', 'b '])], ['a', '', 'b'])
    eq('bis', bisect.bisect([1, 3, 5], 3), 2)
    def m(x):
        match x:
            case None: return 'n'
            case int(v) if v > 2: return v
            case [a, *b]: return a, b
            case 'a' | 'b': return 'ab'
            case _: return 4
    eq('m', [m(None), m(3), m(1), m([1, 2, 3]), m('b'), m('c')], ['n', 3, 4, (1, [2, 3]), 'ab', 4])
    q = iter([1, 2])
    eq('next', [next(q), next(q), next(q, None)], [1, 2, None])
    eq('sum', sum(x for x in [1, 2, 3] if x > 1), 5)
    eq('anyall', [any(x > 2 for x in [1, 2]), all(x < 3 for x in [1, 2])], [False, True])
    eq('minkey', min([3, 1, 2], key=lambda v: -v), 3)
    eq('maxdef', max([], default=0), 0)
    eq('part', 'a:b:c'.partition(':'), ('a', ':', 'b:c'))
    eq('rpart', 'a:b:c'.rpartition(':'), ('a:b', ':', 'c'))
    eq('rem', 'abc'.removeprefix('a'), 'bc')
    eq('tr', 'abc'.translate(str.maketrans('ab', 'xy')), 'xyc')
    eq('fmt', f'{1!r:>3}|{"a"}|{3:02d}', '  1|a|03')
    eq('dictmerge', {'a': 1} | {'b': 2}, {'a': 1, 'b': 2})
    eq('zipstar', list(zip(*[(1, 2), (3, 4)])), [(1, 3), (2, 4)])
    eq('rev', [*reversed([1, 2])], [2, 1])
    (x, *y), z = [1, 2, 3], 4
    eq('unp', [x, y, z], [1, [2, 3], 4])
    eq('setc', sorted({x % 2 for x in [1, 2, 3]}), [0, 1])
    eq('dictc', {k: v for v, k in enumerate('ab', 1)}, {'a': 1, 'b': 2})
    eq('sd', {'a': 1}.setdefault('a', 2), 1)
    eq('pop', {'a': 1}.pop('b', 2), 2)
    eq('divmod', divmod(7, 2), (3, 1))
    eq('slice', [0, 1, 2, 3][-2::-1], [2, 1, 0])
    eq('fk', dict.fromkeys('ab', 0), {'a': 0, 'b': 0})
    eq('walrus', [v for x in [1, 2] if (v := x * 2) > 2], [4])
    eq('sj', ', '.join(map(str, (1, 2))), '1, 2')
    eq('ifexp', [('a', 'b')[i > 0] for i in (0, 1)], ['a', 'b'])
    try:
        try:
            raise KeyError('x')
        finally:
            r = 5
    except LookupError as e:
        r += 1
    else:
        r = 0
    eq('tr', r, 6)
    for i in range(3):
        if i == 5:
            break
    else:
        i = 9
    eq('fe', i, 9)
    def gen():
        yield 1
        k = yield from [2, 3]
        yield 4
    eq('gen', list(gen()), [1, 2, 3, 4])
    eq('gnext', next((v for v in gen() if v > 2), None), 3)
    eq('gnone', next((v for v in gen() if v > 9), None), None)
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    eq('nl', inc(), 2)
    eq('iterf', list(iter(inc, 5)), [3, 4])
    eq('count', [x for x, y in zip(itertools.count(3), 'ab')], [3, 4])
    eq('while', whiled([1, 2, 3]), 6)
    eq('round', round(2.567, 1), 2.6)
    eq('vars', vars(o), {'a': 3, 'b': 4})
    eq('sorted', sorted([(2, 'a'), (1, 'b')], key=operator.itemgetter(0), reverse=True), [(2, 'a'), (1, 'b')])
    eq('enumu', [*enumerate(['a'], start=2)], [(2, 'a')])
    eq('chained', 1 < 2 <= 2, True)
    eq('bool', [bool(()), not [], 0 or 'a', '' and 3], [False, True, 'a', ''])
    eq('tern', (lambda *a, k=3, **kw: (a, k, kw))(1, 2, z=4), ((1, 2), 3, {'z': 4}))


def whiled(items):
    stack = list(items)
    total = 0
    while stack:
        total += stack.pop()
    return total


def eq(label, a, b):
    psa_equal(a, b, label)


def law_ZZ_closures():
    total = 0
    def add(x):
        nonlocal total
        total += x
    for i in [1, 2, 3]:
        add(i)
    eq('total', total, 6)
    current = []
    out = []
    def flush():
        if current:
            out.append(list(current))
    for x in [1, 0, 2, 3, 0, 4]:
        if x == 0:
            flush()
            current = []
        else:
            current.append(x)
    flush()
    eq('flush', out, [[1], [2, 3], [4]])
    def counter():
        k = 0
        def step():
            return k
        k = 5
        return step
    eq('late', counter()(), 5)
    fs = [lambda: j for j in range(3)]
    eq('latel', [f() for f in fs], [2, 2, 2])
    fs = [lambda j=j: j for j in range(3)]
    eq('early', [f() for f in fs], [0, 1, 2])
    def outer():
        v = 1
        def inner():
            nonlocal v
            def inner2():
                nonlocal v
                v += 1
            inner2()
            inner2()
            v *= 10
        inner()
        return v
    eq('nest', outer(), 30)
    def rec(n):
        return 1 if n == 0 else n * rec(n - 1)
    eq('rec', rec(5), 120)
    acc = []
    def visit(tree):
        for x in tree:
            if isinstance(x, list):
                visit(x)
            else:
                acc.append(x)
    visit([1, [2, [3]], 4])
    eq('visit', acc, [1, 2, 3, 4])
    eq('key', sorted([3, 1, 2], key=lambda v: -v), [3, 2, 1])
    eq('mx', max(enumerate([3, 9, 2]), key=lambda p: p[1]), (1, 9))
    table = {'a': lambda x: x + 1, 'b': lambda x: x * 2}
    eq('disp', [table[k](3) for k in 'ab'], [4, 6])
    eq('getd', (table.get('c') or (lambda x: x))(7), 7)
    eq('dm', sorted(({'a': 1} | {'b': 2}).items()), [('a', 1), ('b', 2)])
    eq('ds', sorted({**{'a': 1}, 'b': 3}.items()), [('a', 1), ('b', 3)])
    d = {}
    d |= {'z': 1}
    eq('di', list(d), ['z'])
    a, b, *c = 'abcd'
    eq('un', (a, b, c), ('a', 'b', ['c', 'd']))
    a, b = b, a
    eq('sw', (a, b), ('b', 'a'))
    s = [1, 2, 3, 4]
    s[1:3] = [9]
    eq('sl', s, [1, 9, 4])
    del s[0]
    eq('del', s, [9, 4])
    s += (5,)
    eq('iadd', s, [9, 4, 5])
    s.insert(0, 7)
    s.reverse()
    eq('rv', s, [5, 4, 9, 7])
    eq('idx', s.index(9), 2)
    eq('dv', divmod(17, 5), (3, 2))
    eq('int', [int('12'), int(3.7), float('2.5'), int('ff', 16), 7 // 2, -7 // 2, -7 % 3, 2**3, 7 & 3, 1 << 4], [12, 3, 2.5, 255, 3, -4, 2, 8, 3, 16])
    eq('str', ['%s-%d' % ('a', 3), 'a'.join('xyz'), 'x'.zfill(3), 'ab'.center(4, '*'), 'a,b'.split(','), 'a b  c'.split(), 'abc'[::-1], 'abc'.find('c'), 'Ab'.swapcase(), 'a\nb'.splitlines()],
       ['a-3', 'xayaz', '00x', '*ab*', ['a', 'b'], ['a', 'b', 'c'], 'cba', 2, 'aB', ['a', 'b']])
    eq('cmp', [(1, 2) < (1, 3), [1] == [1], 'a' < 'b', 1 == 1.0, None is None, 3 in (1, 3), 'a' not in 'bc'], [True]*7)
    eq('set', sorted({1, 2, 3} - {2} | {5}), [1, 3, 5])
    eq('set2', [{1, 2} >= {1}, {1}.issubset({1, 2}), bool({1} & {2}), len({1, 2} ^ {2, 3})], [True, True, False, 2])
    eq('dictv', [sorted({'b': 1, 'a': 2}), list({'b': 1}.values()), 'b' in {'b': 1}, len({'b': 1})], [['a', 'b'], [1], True, 1])
    eq('td', [type(3) is int, isinstance(True, int), isinstance(3.0, (int, float)), callable(rec), hasattr('a', 'upper')], [True]*5)
    r = []
    for k, (u, v) in enumerate(zip([1, 2], [3, 4])):
        if k == 1:
            continue
        r.append((k, u, v))
    eq('en', r, [(0, 1, 3)])
    def g(a, /, b, *, c=3):
        return (a, b, c)
    eq('po', g(1, b=2), (1, 2, 3))
    def h(*args, **kw):
        return g(*args, **kw)
    eq('va', h(1, 2, c=5), (1, 2, 5))
    try:
        raise ValueError('bad')
    except (TypeError, ValueError) as e:
        msg = str(e)
    eq('msg', msg, 'bad')
    def fin():
        try:
            return 1
        finally:
            acc.append(9)
    eq('fin', (fin(), acc[-1]), (1, 9))
    while True:
        if len(acc) < 2:
            break
        acc.pop()
    else:
        acc = None
    eq('wh', acc, [1])
    it = iter([1, 2, 3])
    eq('it', (next(it), list(it)), (1, [2, 3]))
    eq('zipit', list(zip(*[iter([1, 2, 3, 4])]*2)), [(1, 2), (3, 4)])
    it = iter([1, 2, 3])
    for x in it:
        if x == 1:
            y = next(it)
    eq('ny', (x, y), (3, 2))
    eq('sum', sum([[1], [2]], []), [1, 2])
    eq('abs', [abs(-2), min(2, 1), max([1, 4]), pow(2, 3), round(2.5), sum((1, 2), 10)], [2, 1, 4, 8, 2, 13])
    class P:
        x = 3
        def __init__(self, y=2):
            self.y = y
        @property
        def z(self):
            return self.x + self.y
        @staticmethod
        def s(v):
            return v
        @classmethod
        def k(cls, y):
            return cls(y)
        def __eq__(self, o):
            return isinstance(o, P) and self.y == o.y
        def __enter__(self):
            self.y += 1
            return self
        def __exit__(self, *a):
            self.y = 0
        def __call__(self, v):
            return v + self.y
        def __iter__(self):
            yield self.x
            yield self.y
    with P(4) as p:
        eq('with', p.y, 5)
    eq('with2', p.y, 0)
    eq('cls', [P(1).z, P.s(3), P.k(7).y, P(2) == P(2), P(1)(3), list(P(8)), getattr(P(), 'q', 0)], [4, 3, 7, True, 4, [3, 8], 0])
    setattr(p, 'y', 4)
    eq('sa', (p.y, p.__dict__['y'], type(p).__name__), (4, 4, 'P'))


def law_ZZ_generators():
    def gen(n):
        i = 0
        while i < n:
            yield i
            i += 1
    eq('g', [x for x in gen(3)], [0, 1, 2])
    eq('gg', [(i, j) for i in gen(2) for j in gen(2) if i != j], [(0, 1), (1, 0)])
    def chunk(items, size):
        for i in range(0, len(items), size):
            yield items[i:i+size]
    eq('ch', list(chunk([1, 2, 3], 2)), [[1, 2], [3]])
    log = []
    def trace():
        for x in 'ab':
            log.append(x)
            yield x
    for x in trace():
        log.append(x.upper())
    eq('lz', log, ['a', 'A', 'b', 'B'])
    eq('sumg', sum(x*x for x in gen(4)), 14)
    eq('dictg', sorted(dict((x, x+1) for x in gen(2)).items()), [(0, 1), (1, 2)])
    a, b = (x for x in gen(2))
    eq('unp', (a, b), (0, 1))
    eq('st', [*gen(2), *'ab'], [0, 1, 'a', 'b'])
    eq('inn', 2 in gen(4), True)
    def first(p, items):
        return next(filter(p, items), None)
    eq('fi', [first(lambda v: v > 1, gen(4)), first(lambda v: v > 9, gen(4))], [2, None])
    def walk(t):
        if isinstance(t, tuple):
            for x in t:
                yield from walk(x)
        else:
            yield t
    eq('wk', list(walk((1, (2, (3,))))), [1, 2, 3])
    def early():
        for x in [1, 2, 3]:
            if x == 2:
                return
            yield x
    eq('ea', list(early()), [1])
    n = 0
    for n, x in enumerate(gen(3), 1):
        pass
    eq('n', n, 3)
    def tr():
        try:
            yield 1
        finally:
            log.clear()
    eq('tr', list(tr()), [1])
    eq('lg', log, [])
