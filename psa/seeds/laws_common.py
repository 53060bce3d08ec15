"""Laws of the common tools, analysed and never executed (see laws_geometry)."""

import sympy
import threading

from Patro.Common.AtomicCounter import AtomicCounter
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
from Patro.Common.IterTools import (
    closed_iterator, closed_multiwise_index_iterator, closed_pairwise, multiwise, pairwise,
)
from Patro.Common.Math import Functions
from Patro.Common.Math.Root import (
    cubic_root, cubic_root_normalised, fifth_root, fifth_root_normalised, fourth_root_normalised, quadratic_root,
)
from Patro.Common.Object import ObjectGlobalIdMixin, ObjectNameMixin
from Patro.Common.Singleton import SingletonMetaClass, singleton, singleton_func


def others(before, after=None):
    """Another thread makes *before* just before the lock is acquired and *after* once it is released."""
    threading.INTERFERENCE.extend([before, after])

def law_C01_counter():
    a = psa_scalar('a')
    counter = AtomicCounter(a)
    psa_equal(int(counter), a, 'initial value')
    psa_equal(counter.increment(), a + 1, 'increment')
    psa_equal(counter.increment(5), a + 6, 'increment by a value')
    psa_equal(int(counter), a + 6, 'current value')
    psa_equal(int(AtomicCounter()), 0, 'default value')
    counter = AtomicCounter(3)
    counter.set(8)
    psa_equal(int(counter), 8, 'set')
    for value in [8, 7]:
        try:
            counter.set(value)
        except ValueError:
            psa_true(True, 'set to a past value')
        else:
            psa_true(False, 'set to a past value')
    psa_equal(int(counter), 8, 'set to a past value changes nothing')

def law_C01_increment_of_others():
    counter = AtomicCounter(0)
    others(lambda: counter.increment(10), lambda: counter.increment(100))
    x = counter.increment()
    psa_equal(x, 11, 'increment while another thread increments')
    psa_equal(int(counter), 111, 'no increment is lost')
    psa_true(len(threading.INTERFERENCE) == 0, 'increment takes the lock')

def law_C01_set_of_others():
    counter = AtomicCounter(0)
    others(lambda: counter.increment(10))
    try:
        counter.set(5)
    except ValueError:
        psa_true(True, 'set while another thread increments')
    else:
        psa_true(False, 'set while another thread increments')
    psa_equal(int(counter), 10, 'set while another thread increments')
    threading.INTERFERENCE.clear()
    others(None, lambda: counter.increment(1))
    counter.set(20)
    psa_equal(int(counter), 21, 'set while another thread increments')

####################################################################################################
# identifiers

def law_C02_ids():
    a = ObjectGlobalIdMixin()
    b = ObjectGlobalIdMixin()
    psa_true(b.id > a.id, 'generated ids increase')
    psa_equal(int(b), b.id, 'int')
    c = ObjectGlobalIdMixin(b.id + 50)
    psa_equal(c.id, b.id + 50, 'given id')
    d = ObjectGlobalIdMixin()
    psa_true(d.id > c.id, 'a generated id is after the given ones')
    e = ObjectGlobalIdMixin(a.id)
    psa_equal(e.id, a.id, 'a past id is accepted')
    f = ObjectGlobalIdMixin()
    psa_true(f.id > d.id, 'a generated id is after the given ones')
    psa_equal(ObjectGlobalIdMixin(0).id, 0, 'id 0')

class Left(ObjectGlobalIdMixin):
    pass

class Right(ObjectGlobalIdMixin):
    pass

def law_C02_shared():
    a = Left()
    b = Right()
    c = Left(b.id + 7)
    d = Right()
    psa_true(b.id > a.id and d.id > c.id, 'one counter for all the classes')

def law_C02_ids_of_others():
    threading.INTERFERENCE.clear()
    ids = []
    others(lambda: ids.append(ObjectGlobalIdMixin().id), lambda: ids.append(ObjectGlobalIdMixin().id))
    ids.append(ObjectGlobalIdMixin().id)
    psa_equal(len(ids), 3, 'ids of two threads')
    psa_true(ids[0] != ids[1] and ids[1] != ids[2] and ids[0] != ids[2], 'ids of two threads')

def law_C02_names():
    x = ObjectNameMixin(psa_word('name'))
    psa_equal(x.name, psa_word('name'), 'name')
    psa_equal(str(x), psa_word('name'), 'str')
    x.name = psa_word('other')
    psa_equal(x.name, psa_word('other'), 'name setter')
    x.name = None
    psa_true(x.name is None, 'no name')
    psa_true(ObjectNameMixin().name is None, 'no name')
    psa_equal(ObjectNameMixin(12).name, '12', 'name of a number')

####################################################################################################
# singletons

MADE = []

class Alone(metaclass=SingletonMetaClass):
    def __init__(self, value=0):
        self.value = value
        MADE.append(self)

class Other(Alone):
    pass

def law_C03_metaclass():
    a = Alone(3)
    b = Alone(4)
    psa_same_object(a, b, 'one instance')
    psa_equal(b.value, 3, 'constructed once')
    c = Other(5)
    psa_other_object(a, c, 'one instance per subclass')
    psa_same_object(Other(), c, 'one instance per subclass')
    psa_same_object(Alone(), a, 'one instance')

def law_C03_metaclass_of_others():
    threading.INTERFERENCE.clear()
    MADE.clear()
    got = []
    others(lambda: got.append(Alone()))
    a = Alone()
    psa_equal(len(threading.INTERFERENCE), 0, 'the lock is taken')
    psa_equal(len(MADE), 1, 'constructed once by two threads')
    psa_same_object(got[0], a, 'one instance for two threads')

@singleton
class Decorated:
    def __init__(self, value=0):
        self.value = value
        MADE.append(self)

def law_C03_decorator():
    a = Decorated(3)
    psa_same_object(Decorated(4), a, 'one instance')
    psa_equal(a.value, 3, 'constructed once')

def law_C03_decorator_of_others():
    threading.INTERFERENCE.clear()
    MADE.clear()
    got = []
    others(lambda: got.append(Decorated()))
    a = Decorated()
    psa_equal(len(threading.INTERFERENCE), 0, 'the lock is taken')
    psa_equal(len(MADE), 1, 'constructed once by two threads')
    psa_same_object(got[0], a, 'one instance for two threads')

@singleton_func
class Function:
    def __init__(self, value=0):
        self.value = value
        MADE.append(self)

def law_C03_function():
    a = Function(3)
    psa_same_object(Function(4), a, 'one instance')
    psa_equal(a.value, 3, 'constructed once')

def law_C03_function_of_others():
    threading.INTERFERENCE.clear()
    MADE.clear()
    got = []
    others(lambda: got.append(Function()))
    a = Function()
    psa_equal(len(threading.INTERFERENCE), 0, 'the lock is taken')
    psa_equal(len(MADE), 1, 'constructed once by two threads')
    psa_same_object(got[0], a, 'one instance for two threads')

####################################################################################################
# graph

def edges(graph, pairs):
    for a, b in pairs:
        graph.add_edge(graph[a], graph[b])

def new_graph(names, pairs):
    graph = DirectedAcyclicGraph()
    for name in names:
        graph.add_node(name)
    edges(graph, pairs)
    return graph

def names(nodes):
    return [node.node_id for node in nodes]

def law_C04_nodes():
    graph = DirectedAcyclicGraph()
    a = graph.add_node('a', data=psa_word('data'))
    b = graph.add_node('b')
    psa_equal(a.node_id, 'a', 'id')
    psa_equal(a.data, psa_word('data'), 'data')
    psa_true(b.data is None, 'no data')
    psa_same_object(graph['a'], a, 'by id')
    psa_same_object(graph['b'], b, 'by id')
    psa_true(names(graph) == ['a', 'b'], 'nodes')
    try:
        graph.add_node('a')
    except NameError:
        psa_true(True, 'duplicate')
    else:
        psa_true(False, 'duplicate')
    psa_same_object(graph['a'], a, 'duplicate keeps the first')

def law_C04_edges():
    graph = new_graph('abcd', [('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd')])
    a, b, c, d = [graph[x] for x in 'abcd']
    psa_true(sorted(names(a.descendants)) == ['b', 'c'], 'descendants')
    psa_true(sorted(names(d.ancestors)) == ['b', 'c'], 'ancestors')
    psa_true(sorted(names(b.ancestors)) == ['a'] and sorted(names(b.descendants)) == ['d'], 'both directions')
    psa_true(a.is_root and not b.is_root and not d.is_root, 'is_root')
    psa_true(d.is_leaf and not b.is_leaf and not a.is_leaf, 'is_leaf')
    psa_true(names(graph.roots()) == ['a'], 'roots')
    psa_true(names(graph.leafs()) == ['d'], 'leafs')
    d.disconnect_ancestor(b)
    psa_true(sorted(names(d.ancestors)) == ['c'], 'disconnect')
    psa_equal(len(b.descendants), 0, 'disconnect')
    psa_true(sorted(names(graph.leafs())) == ['b', 'd'], 'disconnect')
    psa_true(sorted(names(a.descendants)) == ['b', 'c'], 'disconnect leaves the others')
    b.connect_ancestor(c)
    psa_true(sorted(names(c.descendants)) == ['b', 'd'], 'connect')
    psa_true(sorted(names(b.ancestors)) == ['a', 'c'], 'connect')
    b.connect_ancestor(c)
    psa_equal(len(b.ancestors), 2, 'connect twice')

def law_C04_breadth_first():
    for pairs in [[('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd'), ('d', 'e')],
                  [('a', 'c'), ('a', 'b'), ('c', 'd'), ('b', 'd'), ('d', 'e')],
                  [('b', 'd'), ('d', 'e'), ('a', 'b'), ('c', 'd'), ('a', 'c')]]:
        graph = new_graph('abcdef', pairs)
        found = names(graph['a'].breadth_first_search())
        psa_equal(len(found), 5, 'each node once')
        psa_true(found[0] == 'a', 'starts at the node')
        psa_true(sorted(found[1:3]) == ['b', 'c'], 'nearest first')
        psa_true(found[3:] == ['d', 'e'], 'nearest first')
        psa_true(names(graph['d'].breadth_first_search()) == ['d', 'e'], 'descendants only')

def law_C04_breadth_first_shortcut():
    graph = new_graph('abcd', [('a', 'b'), ('b', 'c'), ('c', 'd'), ('a', 'd')])
    found = names(graph['a'].breadth_first_search())
    psa_true(found == ['a', 'b', 'd', 'c'] or found == ['a', 'd', 'b', 'c'], 'nearest first')

def law_C04_topological():
    pairs = [('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd'), ('e', 'c')]
    for nodes in ['abcde', 'edcba', 'dbeca', 'cadbe']:
        for p in [pairs, pairs[::-1], pairs[2:] + pairs[:2]]:
            graph = new_graph(nodes, p)
            order = names(graph.topological_sort())
            psa_equal(len(order), 5, 'all the nodes')
            for a, b in pairs:
                psa_true(order.index(a) < order.index(b), 'ancestors first')

def law_C04_cycle():
    for pairs in [[('a', 'b'), ('b', 'c'), ('c', 'a')], [('a', 'b'), ('b', 'c'), ('c', 'b')], [('c', 'c')]]:
        graph = new_graph('abc', pairs)
        try:
            graph.topological_sort()
        except NameError:
            psa_true(True, 'cycle')
        else:
            psa_true(False, 'cycle')

####################################################################################################
# iterators

def items(n):
    return [psa_scalar('x' + str(i)) for i in range(n)]

def are(got, expected, label):
    got = list(got)
    psa_equal(len(got), len(expected), label + ' count')
    for a, b in zip(got, expected):
        psa_equal(len(a), len(b), label)
        for x, y in zip(a, b):
            psa_equal(x, y, label)

def law_C05_pairs():
    for n in [1, 2, 3, 6]:
        x = items(n)
        are(pairwise(x), [(x[i], x[i+1]) for i in range(n - 1)], 'pairwise')
        are(closed_pairwise(x), [(x[i], x[(i+1) % n]) for i in range(n)], 'closed_pairwise')

def law_C05_closed():
    for n in [1, 2, 3, 6]:
        x = items(n)
        got = list(closed_iterator(x))
        psa_equal(len(got), n + 1, 'closed_iterator count')
        for i in range(n + 1):
            psa_equal(got[i], x[i % n], 'closed_iterator')

def law_C05_multiwise():
    x = items(5)
    for n in [1, 2, 3, 5]:
        are(multiwise(x, n), [x[i:i+n] for i in range(6 - n)], 'multiwise')
    psa_equal(len(list(multiwise(x, 6))), 0, 'multiwise of too few items')

def law_C05_indexes():
    are(closed_multiwise_index_iterator(3), [(0, 1), (1, 2), (2, 0)], 'closed_multiwise_index_iterator')
    are(closed_multiwise_index_iterator(4, 3), [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)],
        'closed_multiwise_index_iterator')

####################################################################################################
# mathematics

def law_C06_quadratic():
    a = psa_scalar('a')
    b = psa_scalar('b')
    c = psa_scalar('c')
    # the equation whose roots are u and u + v, v > 0
    u = psa_scalar('u')
    v = psa_positive_number('v')
    k = psa_positive_number('k')
    roots = quadratic_root(k, -k*(2*u + v), k*u*(u + v))
    psa_equal(len(roots), 2, 'two roots')
    psa_equal(roots[0], u, 'smaller root first')
    psa_equal(roots[1], u + v, 'greater root second')
    psa_equal(quadratic_root(k, -2*k*u, k*u*u), u, 'double root')
    psa_equal(quadratic_root(0, k, b), -b/k, 'linear equation')
    psa_true(quadratic_root(0, 0, 3) is None, 'no equation')
    psa_true(quadratic_root(k, 0, k) is None, 'no real root')
    psa_true(quadratic_root(k, -2*k*u, k*(u*u + v)) is None, 'no real root')

def law_C06_quadratic_negative():
    u = psa_scalar('u')
    v = psa_positive_number('v')
    k = -psa_positive_number('k')
    roots = quadratic_root(k, -k*(2*u + v), k*u*(u + v))
    psa_equal(roots[0] + roots[1], 2*u + v, 'negative leading coefficient')
    psa_equal(roots[0] * roots[1], u*(u + v), 'negative leading coefficient')

def law_C06_cubic_degenerate():
    u = psa_scalar('u')
    v = psa_positive_number('v')
    k = psa_positive_number('k')
    roots = cubic_root(0, k, -k*(2*u + v), k*u*(u + v))
    psa_equal(len(roots), 2, 'quadratic equation')
    psa_equal(roots[0], u, 'quadratic equation')
    psa_equal(roots[1], u + v, 'quadratic equation')
    roots = cubic_root(0, 0, k, u)
    psa_equal(len(roots), 1, 'linear equation')
    psa_equal(roots[0], -u/k, 'linear equation')
    roots = cubic_root(0, k, -2*k*u, k*u*u)
    psa_equal(len(roots), 1, 'double root')
    psa_equal(roots[0], u, 'double root')
    psa_equal(len(cubic_root(0, k, 0, k)), 0, 'no real root')
    psa_equal(len(cubic_root(0, 0, 0, k)), 0, 'no equation')

def law_C06_functions():
    a = psa_scalar('a')
    b = psa_scalar('b')
    p = psa_positive_number('p')
    psa_equal(Functions.middle(a, b), (a + b)/2, 'middle')
    psa_equal(Functions.sign(p), 1, 'sign')
    psa_equal(Functions.sign(-p), -1, 'sign')
    psa_equal(Functions.cmp(a + p, a), 1, 'cmp')
    psa_equal(Functions.cmp(a, a + p), -1, 'cmp')
    psa_equal(Functions.cmp(a, a), 0, 'cmp')
    psa_true(Functions.epsilon_float(a, a + .5, 1), 'epsilon_float')
    psa_true(Functions.epsilon_float(a + .5, a, 1), 'epsilon_float')
    psa_true(not Functions.epsilon_float(a, a + 2, 1), 'epsilon_float')
    psa_true(not Functions.epsilon_float(a + 2, a, 1), 'epsilon_float')
    psa_equal(Functions.trignometric_clamp(1 + p), 1, 'trignometric_clamp')
    psa_equal(Functions.trignometric_clamp(-1 - p), -1, 'trignometric_clamp')
    psa_equal(Functions.trignometric_clamp(.5), .5, 'trignometric_clamp')
    psa_true(Functions.is_in_trignometric_range(1) and Functions.is_in_trignometric_range(-1), 'is_in_trignometric_range')
    psa_true(not Functions.is_in_trignometric_range(1 + p), 'is_in_trignometric_range')
    psa_true(not Functions.is_in_trignometric_range(-1 - p), 'is_in_trignometric_range')
    psa_equal(Functions.ceil_int(1.2), 2, 'ceil_int')
    psa_equal(Functions.ceil_int(3), 3, 'ceil_int')
    psa_equal(Functions.rint(1.2), 1, 'rint')
    psa_equal(Functions.rint(1.7), 2, 'rint')

def solved(function, coefficients, expected, label):
    """A function gives the real roots of the polynomial of *expected* coefficients, up to a constant factor."""
    sympy.REAL_ROOTS.clear()
    roots = function(*coefficients)
    psa_equal(len(sympy.REAL_ROOTS), 1, 'one polynomial, ' + label)
    polynomial, x = sympy.REAL_ROOTS[0]
    y = 0
    for c in expected:
        y = y * x + c
    # up to the leading coefficient
    psa_true(polynomial == y or (coefficients[0] != 0 and polynomial == y * coefficients[0]), 'polynomial, ' + label)
    psa_equal(len(roots), 2, 'roots, ' + label)
    psa_equal(roots[0], psa_scalar('root.0'), 'first root, ' + label)
    psa_equal(roots[1], psa_scalar('root.1'), 'second root, ' + label)

def law_C06_cubic():
    c = [psa_positive_number('a'), psa_scalar('b'), psa_scalar('c'), psa_scalar('d')]
    solved(cubic_root, c, c, 'cubic')
    n = [-c[0]] + c[1:]
    solved(cubic_root, n, n, 'cubic of negative coefficient')

def law_C06_fourth():
    c = [psa_scalar('a'), psa_scalar('b'), psa_scalar('c'), psa_scalar('d')]
    solved(fourth_root_normalised, c, [1] + c, 'fourth degree')

def law_C06_fifth_normalised():
    c = [psa_scalar('a'), psa_scalar('b'), psa_scalar('c'), psa_scalar('d'), psa_scalar('e')]
    solved(fifth_root_normalised, c, [1] + c, 'fifth degree')

def law_C06_fifth():
    a = psa_positive_number('a')
    c = [psa_scalar('b'), psa_scalar('c'), psa_scalar('d'), psa_scalar('e'), psa_scalar('f')]
    solved(fifth_root, [a] + c, [1] + [x / a for x in c], 'fifth degree of leading coefficient')
    solved(fifth_root, [0] + c, [0] + c, 'fifth degree without leading coefficient')

####################################################################################################
# falsy objects, small and large counts

class Empty(metaclass=SingletonMetaClass):
    def __init__(self):
        MADE.append(self)

    def __len__(self):
        return 0

@singleton
class EmptyDecorated:
    def __init__(self):
        MADE.append(self)

    def __len__(self):
        return 0

@singleton_func
class EmptyFunction:
    def __init__(self):
        MADE.append(self)

    def __len__(self):
        return 0

def law_C03_empty():
    MADE.clear()
    for cls in [Empty, EmptyDecorated, EmptyFunction]:
        a = cls()
        psa_same_object(cls(), a, 'one instance without length')
        psa_same_object(cls(), a, 'one instance without length')
    psa_equal(len(MADE), 3, 'constructed once')

def law_C02_falsy_names():
    psa_equal(ObjectNameMixin('').name, '', 'empty name')
    psa_equal(ObjectNameMixin(0).name, '0', 'name of zero')
    psa_equal(ObjectNameMixin(False).name, 'False', 'name of a boolean')
    x = ObjectNameMixin('a')
    x.name = ''
    psa_equal(x.name, '', 'empty name')
    psa_equal(repr(ObjectNameMixin('foo')), 'ObjectNameMixin foo', 'repr')

def law_C02_many_ids():
    a = ObjectGlobalIdMixin(5000)
    b = ObjectGlobalIdMixin()
    c = ObjectGlobalIdMixin(5000)
    d = ObjectGlobalIdMixin()
    e = ObjectGlobalIdMixin(-3)
    f = ObjectGlobalIdMixin(d.id)
    g = ObjectGlobalIdMixin(d.id + 1)
    h = ObjectGlobalIdMixin()
    psa_equal(c.id, 5000, 'a given id')
    psa_equal(e.id, -3, 'a negative id')
    psa_equal(f.id, d.id, 'the last id')
    psa_equal(g.id, d.id + 1, 'the next id')
    psa_true(a.id < b.id < d.id < h.id, 'ids increase')
    psa_true(g.id < h.id, 'ids increase')

def law_C05_long_indexes():
    are(closed_multiwise_index_iterator(3, 5), [(0, 1, 2, 0, 1), (1, 2, 0, 1, 2), (2, 0, 1, 2, 0)], 'more indexes than items')
    are(closed_multiwise_index_iterator(1, 3), [(0, 0, 0)], 'more indexes than items')
    are(closed_multiwise_index_iterator(2, 1), [(0,), (1,)], 'one index')
    are(closed_multiwise_index_iterator(0, 2), [], 'no item')

def law_C05_repeated_items():
    x, y = psa_scalar('x'), psa_scalar('y')
    s = [x, x, y, x, x]
    are(pairwise(s), [(x, x), (x, y), (y, x), (x, x)], 'pairwise of repeated items')
    are(closed_pairwise(s), [(x, x), (x, y), (y, x), (x, x), (x, x)], 'closed_pairwise of repeated items')
    are(multiwise(s, 3), [(x, x, y), (x, y, x), (y, x, x)], 'multiwise of repeated items')
    are(multiwise(iter(s), 2), [(x, x), (x, y), (y, x), (x, x)], 'multiwise of an iterator')
    are(pairwise((x, y)), [(x, y)], 'pairwise of a tuple')
    are(closed_pairwise([x]), [(x, x)], 'closed_pairwise of one item')
    are(closed_pairwise([]), [], 'closed_pairwise of nothing')
    psa_equal(len(list(multiwise(s))), 4, 'multiwise by default')

def law_C06_more_functions():
    psa_true(not Functions.epsilon_float(1000, 1000.5, 1e-3), 'epsilon is absolute')
    psa_true(Functions.epsilon_float(1000, 1000.5, .5), 'epsilon is included')
    psa_true(Functions.epsilon_float(.0005, 0), 'default epsilon')
    psa_true(not Functions.epsilon_float(.0015, 0), 'default epsilon')
    psa_true(not Functions.epsilon_float(0, -.0015), 'default epsilon')
    psa_equal(Functions.rint(-1.2), -1, 'rint of a negative number')
    psa_equal(Functions.rint(-1.7), -2, 'rint of a negative number')
    psa_equal(Functions.ceil_int(-1.7), -1, 'ceil_int of a negative number')
    psa_equal(Functions.ceil_int(0), 0, 'ceil_int')
    psa_equal(Functions.trignometric_clamp(-.5), -.5, 'trignometric_clamp')
    psa_equal(Functions.trignometric_clamp(1), 1, 'trignometric_clamp')
    psa_equal(Functions.trignometric_clamp(-1), -1, 'trignometric_clamp')
    psa_equal(Functions.trignometric_clamp(0), 0, 'trignometric_clamp')
    psa_true(Functions.is_in_trignometric_range(0), 'is_in_trignometric_range')
    psa_true(Functions.is_in_trignometric_range(-.99), 'is_in_trignometric_range')
    psa_equal(Functions.cmp(2, 1), 1, 'cmp')
    psa_equal(Functions.cmp(-2, 1), -1, 'cmp')
    psa_equal(Functions.sign(-.25), -1, 'sign')
    psa_equal(Functions.sign(1e6), 1, 'sign')
    psa_equal(Functions.middle(-3, 7), 2, 'middle')

def law_C06_quadratic_numbers():
    psa_true(list(quadratic_root(1, -3, 2)) == [1, 2], 'two roots')
    psa_true(sorted(quadratic_root(-1, 3, -2)) == [1, 2], 'negative leading coefficient')
    psa_equal(quadratic_root(1, 2, 1), -1, 'double root')
    psa_equal(quadratic_root(-4, 0, 0), 0, 'double root zero')
    psa_true(quadratic_root(1, 0, 1) is None, 'no real root')
    psa_true(quadratic_root(-1, 0, -1) is None, 'no real root')
    psa_equal(quadratic_root(0, 2, 0), 0, 'linear equation of root zero')
    psa_true(quadratic_root(0, 0, 0) is None, 'no equation')
    psa_true(list(quadratic_root(2, 0, -8)) == [-2, 2], 'opposite roots')
    psa_true(list(quadratic_root(1, 5, 0)) == [-5, 0], 'a root zero')

def law_C04_diamonds():
    # several diamonds and a late edge
    graph = new_graph('abcdefg', [('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd'), ('d', 'e'), ('d', 'f'), ('e', 'g'), ('f', 'g')])
    for name, expected in [('a', 'abcdefg'), ('d', 'defg'), ('g', 'g'), ('b', 'bdefg')]:
        found = names(graph[name].breadth_first_search())
        psa_true(sorted(found) == sorted(expected), 'each reachable node once')
        psa_true(found[0] == name, 'starts at the node')
    graph.add_edge(graph['a'], graph['g'])
    found = names(graph['a'].breadth_first_search())
    psa_equal(len(found), 7, 'each reachable node once')
    psa_true(found.index('g') < found.index('d'), 'nearest first')
    psa_equal(len(graph['g'].ancestors), 3, 'ancestors')
    order = names(graph.topological_sort())
    psa_true(order.index('e') < order.index('g') and order.index('f') < order.index('g'), 'ancestors first')
    order = names(graph.topological_sort())
    psa_equal(len(order), 7, 'sorted twice')
    graph['g'].disconnect_ancestor(graph['a'])
    psa_equal(len(graph['g'].ancestors), 2, 'disconnect leaves the others')
    psa_equal(len(graph['a'].descendants), 2, 'disconnect leaves the others')
    psa_true(graph['a'].is_root and graph['g'].is_leaf, 'roots and leafs')

def law_C04_single():
    graph = new_graph('ab', [('a', 'b')])
    graph['b'].disconnect_ancestor(graph['a'])
    psa_true(graph['a'].is_leaf and graph['b'].is_root, 'the only edge is removed')
    psa_equal(len(graph['a'].descendants), 0, 'the only edge is removed')
    psa_equal(len(graph['b'].ancestors), 0, 'the only edge is removed')
    psa_equal(len(graph.roots()), 2, 'roots')
    psa_equal(len(graph.leafs()), 2, 'leafs')
    psa_equal(len(graph.topological_sort()), 2, 'isolated nodes are sorted')
    psa_equal(len(DirectedAcyclicGraph().topological_sort()), 0, 'no node')
    try:
        graph['z']
    except KeyError:
        psa_true(True, 'unknown node')
    else:
        psa_true(False, 'unknown node')

def law_C04_disconnect_inner():
    # disconnecting a node which has descendants, ancestors and siblings of its own
    graph = new_graph('abcde', [('a', 'b'), ('b', 'c'), ('c', 'd'), ('b', 'e'), ('a', 'c')])
    a, b, c, d, e = [graph[x] for x in 'abcde']
    c.disconnect_ancestor(b)
    psa_true(sorted(names(b.descendants)) == ['e'], 'disconnect an inner node')
    psa_true(sorted(names(c.ancestors)) == ['a'], 'disconnect an inner node')
    psa_true(sorted(names(c.descendants)) == ['d'], 'disconnect an inner node')
    psa_true(sorted(names(a.descendants)) == ['b', 'c'], 'disconnect an inner node')
    b.disconnect_ancestor(a)
    psa_true(b.is_root and not b.is_leaf, 'disconnect a second one')
    psa_true(sorted(names(graph.roots())) == ['a', 'b'], 'disconnect a second one')
    psa_true(names(a.breadth_first_search()) == ['a', 'c', 'd'], 'disconnect then search')
    psa_true(names(b.breadth_first_search()) == ['b', 'e'], 'disconnect then search')
    # connected again
    c.connect_ancestor(b)
    psa_true(sorted(names(c.ancestors)) == ['a', 'b'] and sorted(names(b.descendants)) == ['c', 'e'], 'connect again')
