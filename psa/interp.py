"""Interprocedural abstract interpreter for the Python subset used by the analysed tree.

Flow sensitive, joins at every merge point, calls analysed in their calling context (bounded), loops
iterated to a fixpoint, constant tables propagated exactly.  Nothing of the analysed program is run.
"""

import ast
import builtins as _py_builtins
import importlib
import math
import re
import string

from fractions import Fraction

from . import algebra, gate, numeric, strings
from .program import FuncInfo, function_locals, AnalysisBroken
from .values import *
from .values import _Keyed

PERCENT = re.compile(r'%%|%([-+ #0]*[0-9]*(?:\.[0-9]+)?)([diouxXeEfFgGsra])')

F0 = Fraction(0)
BUILTIN_NAMES = set(dir(_py_builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__'}
STDLIB_CHECK = ('math', 'collections', 'itertools', 'functools', 'inspect', 're', 'string', 'operator', 'copy', 'colorsys')
TYPE_ERRORS = {'NameError', 'UnboundLocalError', 'AttributeError', 'TypeError', 'KeyError', 'IndexError', 'ImportError', 'ZeroDivisionError', 'ValueError',
               'StopIteration'}
MAX_ITEMS = 1500

# builtins that may raise a ValueError other than int and float, whose conversions are recorded
CONTAINERS = {'list', 'tuple', 'dict', 'set'}
MAY_REFUSE = {'index', 'remove', 'rindex', 'format', 'split', 'rsplit', 'partition', 'rpartition', 'encode', 'decode', 'range',
              'min', 'max', 'complex', 'chr', 'bytes', 'bytearray', 'open', 'eval', 'exec', 'compile', 'pow', 'getattr',
              'hasattr', 'to_bytes', 'from_bytes', 'fromhex', 'translate', 'zfill', 'center', 'next'}

# functions of other libraries that refuse no number they are given
NEVER_REFUSE = {'math.hypot', 'math.isclose', 'math.atan2', 'math.fabs', 'math.copysign', 'math.radians', 'math.degrees',
                'numpy.dot', 'numpy.sign', 'numpy.abs', 'numpy.hypot'}


class ClassObj:
    def __init__(self, name, module, node, bases, outer=''):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases          # list of V
        self.qualname = '{}.{}'.format(module, outer + name)
        self.ns = {}
        self.mro = []               # list of ClassObj or str (external)
        self.meta = None
        self.is_enum = False
        self.members = []
        self.values = {}        # of an enumeration: member name -> constant value
        self.sub = []

    @property
    def has_external(self):
        return any(isinstance(c, str) and c not in ('object', 'enum.Enum', 'enum.IntEnum') for c in self.mro)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, str):
                continue
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def isa(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class {}>'.format(self.qualname)


def c3(cls, bases):
    seqs = [list(b.mro) if isinstance(b, ClassObj) else [b] for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            cand = seqs[0][0]
        out.append(cand)
        for s in seqs:
            if s[0] is cand or s[0] == cand:
                del s[0]


class State:
    __slots__ = ('env', 'heap', 'held', 'facts', 'may', 'dead', 'path')

    def __init__(self, env=None, heap=None, held=(), facts=frozenset(), may=frozenset(), dead=False, path=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.held = held
        self.facts = facts
        self.may = may
        self.dead = dead
        self.path = path        # the undecided tests passed (laws only)

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.held, self.facts, self.may, self.dead, self.path)

    def become(self, o):
        self.env, self.heap, self.held, self.facts, self.may, self.dead, self.path = (
            o.env, o.heap, o.held, o.facts, o.may, o.dead, o.path)


def lost_test(t):
    """A test of which nothing is known, not even what it compares: its branches may not be feasible."""
    return algebra.GENERIC[0] and (t.__class__ is Top or t.__class__ is Bool and t.cond is None)


class Frame:
    def __init__(self, fn, module, cls=None, locals_=frozenset(), closure=None, recv=None):
        self.fn = fn
        self.module = module
        self.cls = cls
        self.locals = locals_
        self.closure = closure
        self.recv = recv
        self.returns = []
        self.yields = []
        self.yields_exact = True
        self.loops = []
        self.tries = []
        self.raises = []
        self.fuzzy = 0
        self.lost = 0
        self.env_now = None
        self.comps = []

    @property
    def where(self):
        if self.fn is None:
            return self.module.relpath
        return self.fn.where


class Args:
    __slots__ = ('pos', 'kw', 'star', 'kwstar')

    def __init__(self, pos=(), kw=None, star=None, kwstar=None):
        self.pos = list(pos)
        self.kw = dict(kw or {})
        self.star = star
        self.kwstar = kwstar

    def all(self):
        out = list(self.pos) + list(self.kw.values())
        if self.star is not None:
            out.append(self.star)
        if self.kwstar is not None:
            out.append(self.kwstar)
        return out


class Observer:
    """Hooks; every method may be left out by a check."""

    def on_write(self, it, st, oid, obj, field, value, node): pass
    def on_read(self, it, st, oid, obj, field, node): pass
    def on_call(self, it, st, func, recv, args, node): pass
    def on_return(self, it, st, func, recv, value, node): pass
    def on_ext(self, it, st, path, args, node): pass
    def on_builtin(self, it, st, name, recv, args, node): pass
    def on_new(self, it, st, cls, oid, args, node): pass
    def on_raise(self, it, st, exc, node): pass
    def on_clsattr(self, it, st, cls, name, value, node): pass


class Budget(Exception):
    pass


class Interp:

    MAX_DEPTH = 40
    MAX_SAME = 2
    STEP_BUDGET = 250000
    laws = ()
    unsure = {}
    sure = set()

    def __init__(self, program, observers=()):
        self.program = program
        self.stubs = {}         # functions replaced in a law
        self.stub_calls = {}
        self.observers = list(observers)
        self.base = {}
        self.globals = {}
        self.classes = {}
        self.finfos = {}
        self.loading = {}
        self.frames = []
        self.sink = [[]]
        self.conversions = []
        self.doubts = []
        self.class_names = set()
        self.handling = []
        self.ctx = 0
        self.ctx_ids = {}
        self.steps = 0
        self.total_steps = 0
        self.analysed = set()
        self.incomplete = set()
        self.import_errors = {}
        self.pins = []
        self.active = {}
        self.call_sites = 0
        self.in_entry = False
        self.nd_depth = 0
        self.laws = []
        self.ids = {}
        self.attr_stores = None

    ################################################################################################
    # infrastructure

    def err(self, kind, detail, node=None):
        fr = self.frames[-1] if self.frames else None
        if kind == 'rounding-equality' and len(self.frames) > 1 and fr.where.endswith('__eq__'):
            fr, node = self.frames[-2], None
        where = fr.where if fr is not None else '?'
        line = getattr(node, 'lineno', 0)
        self.sink[-1].append((kind, where, detail, line))
        if algebra.GENERIC[0] and not any(f.lost for f in self.frames):
            self.sure.add((kind, where, detail, line))
        if algebra.GENERIC[0] and 'None' in detail:
            # what was already undecided when it was found
            self.unsure.setdefault((kind, where, detail, line), any(x[1] == 'undecided' for x in self.laws))
        if self.strict:
            self.doubts.append(kind)

    @property
    def strict(self):
        """Handlers are entered only by the exceptions found: laws and bodies of modules."""
        return algebra.GENERIC[0] or bool(self.loading)

    def reporter(self, node):
        def report(kind, detail):
            self.err(kind, detail, node)
        return report

    def push_ctx(self, key):
        old = self.ctx
        k = (old, key)
        c = self.ctx_ids.get(k)
        if c is None:
            c = self.ctx_ids[k] = len(self.ctx_ids) + 1
        self.ctx = c
        return old

    def get(self, st, oid):
        o = st.heap.get(oid)
        return o if o is not None else self.base.get(oid)

    def put(self, st, oid, obj):
        st.heap[oid] = obj

    def alloc(self, st, node, obj, extra=0):
        oid = (self.ctx, id(node) if node is not None else 0, extra)
        if node is not None:
            self.pins.append(node) if False else None
        old = st.heap.get(oid)
        if old is not None:
            obj = join_obj(old, obj).replace(summary=True)
        st.heap[oid] = obj
        return Ref(oid)

    def new_list(self, st, node, items, extra=0):
        return self.alloc(st, node, HObj('list', items=tuple(items)), extra)

    def new_tuple(self, st, node, items, extra=0):
        return self.alloc(st, node, HObj('tuple', items=tuple(items)), extra)

    def new_iter(self, st, node, items=None, elem=BOTTOM, extra=0):
        return self.alloc(st, node, HObj('iter', items=tuple(items) if items is not None else None, elem=elem), extra)

    def join_states(self, a, b, w=join):
        if a.dead:
            return b
        if b.dead:
            return a
        env = {}
        for k, v in a.env.items():
            o = b.env.get(k)
            env[k] = v if o is None else (v if o is v else w(v, o))
        for k, v in b.env.items():
            if k not in env:
                env[k] = v
        heap = dict(a.heap)
        for oid, ob in b.heap.items():
            oa = a.heap.get(oid)
            if oa is None:
                oa = self.base.get(oid)
                if oa is None:
                    heap[oid] = ob
                    continue
            if oa is not ob:
                heap[oid] = join_obj(oa, ob, w)
        for oid, oa in a.heap.items():
            if oid not in b.heap:
                ob = self.base.get(oid)
                if ob is not None and ob is not oa:
                    heap[oid] = join_obj(oa, ob, w)
        held = a.held if a.held == b.held else tuple(h for h in a.held if h in b.held)
        k = 0
        for x, y in zip(a.path, b.path):
            if x != y:
                break
            k += 1
        return State(env, heap, held, a.facts & b.facts, a.may | b.may, path=a.path[:k])

    def join_many(self, states):
        r = gate.fold(self, [(NONE, s) for s in states if s is not None])
        return r[1] if r is not None else None

    def fork(self, t, st, other):
        """Note the test that *st* passes and *other* fails."""
        cond = t.cond if t.__class__ is Bool else gate.comparison('!=', t.pv, algebra.ZERO) \
            if t.__class__ is Num and algebra.GENERIC[0] else None
        if cond is not None:
            st.path = st.path + ((cond, True),)
            other.path = other.path + ((cond, False),)

    def states_equal(self, a, b):
        if a.dead != b.dead:
            return False
        return a.env == b.env and a.heap == b.heap and a.held == b.held and a.facts == b.facts and a.may == b.may

    def finfo(self, node, module, cls=None, outer=''):
        f = self.finfos.get(id(node))
        if f is None:
            f = self.finfos[id(node)] = FuncInfo(node, module, cls, outer)
        return f

    ################################################################################################
    # program loading

    def all_classes(self):
        seen = set()
        for name, env in self.globals.items():
            if name.split('.')[0] != 'Patro':
                continue
            for v in env.values():
                if v.__class__ is Cls and id(v.c) not in seen and v.c.module == name:
                    seen.add(id(v.c))
                    yield v.c

    def load_all(self):
        bound, self.MAX_SAME = self.MAX_SAME, 12
        st = State()
        for m in self.program.own_modules():
            self.load_module(m.name, st)
        self.base = st.heap
        self.load_errors = list(dict.fromkeys(self.sink[0]))
        self.sink = [[]]
        self.conversions = []
        self.doubts = []
        self.handling = []
        self.in_entry = True
        self.MAX_SAME = bound

    def load_module(self, name, st):
        """Execute the body of a module abstractly; True when it is a module of the program."""
        if name in self.globals:
            return True
        m = self.program.modules.get(name)
        if m is None:
            return False
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0], st)
            if name in self.globals:
                return True
        env = {'__name__': Const(name), '__file__': Const(m.path), '__doc__': NONE}
        self.globals[name] = env
        if m.tree is None:
            self.import_errors[name] = 'SyntaxError: {}'.format(m.syntax_error)
            return True
        sub = State(env, st.heap)
        fr = Frame(None, m)
        self.frames.append(fr)
        old = self.push_ctx(('module', name))
        self.loading[name] = sub.env
        try:
            self.exec_block(m.tree.body, sub)
        finally:
            self.frames.pop()
            self.ctx = old
        del self.loading[name]
        self.globals[name] = sub.env
        if sub.env is not env:
            env.clear()
            env.update(sub.env)
            self.globals[name] = env
        st.heap = sub.heap
        if sub.dead:
            self.import_errors[name] = 'import fails'
        # bind the submodule in its package
        if '.' in name:
            pkg, last = name.rsplit('.', 1)
            if pkg in self.globals:
                self.module_env(pkg)[last] = Mod(name)
        return True

    def module_env(self, name):
        s = self.loading.get(name)
        return s if s is not None else self.globals[name]

    def note_env(self, st):
        """Remember the namespace of a module whose body is being executed, before leaving its frame."""
        fr = self.frames[-1] if self.frames else None
        if fr is not None and fr.fn is None and getattr(fr, 'class_building', None) is None:
            if fr.module.name in self.loading:
                self.loading[fr.module.name] = st.env

    ################################################################################################
    # statements

    def exec_block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.exec(s, st)

    def exec(self, n, st):
        self.steps += 1
        if self.steps > self.STEP_BUDGET:
            raise Budget()
        getattr(self, 'x_' + n.__class__.__name__, self.x_unknown)(n, st)

    def x_unknown(self, n, st):
        self.incomplete.add('statement ' + n.__class__.__name__)

    def x_Expr(self, n, st):
        self.eval(n.value, st)

    def x_Pass(self, n, st):
        pass

    def x_Global(self, n, st):
        if algebra.GENERIC[0] and self.frames[-1].fn is not None:
            self.incomplete.add('global variable')
            raise Budget()

    def x_Nonlocal(self, n, st):
        pass

    def x_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return
        for t in n.targets:
            self.assign(t, v, st, n)

    def x_AnnAssign(self, n, st):
        if n.value is not None:
            v = self.eval(n.value, st)
            if not st.dead:
                self.assign(n.target, v, st, n)

    def x_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st) if False else self.load_name(t.id, t, st)
            v = self.eval(n.value, st)
            r = self.aug(n.op, old, v, n, st)
            self.assign(t, r, st, n)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(o, t.attr, t, st)
            v = self.eval(n.value, st)
            r = self.aug(n.op, old, v, n, st)
            if not st.dead:
                self.setattr(o, t.attr, r, n, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            old = self.getitem(o, i, t, st)
            v = self.eval(n.value, st)
            r = self.aug(n.op, old, v, n, st)
            if not st.dead:
                self.setitem(o, i, r, n, st)

    def aug(self, op, old, v, n, st):
        if old.__class__ is Ref:
            o = self.get(st, old.oid)
            sym = OPS[op.__class__]
            if o is not None and o.kind == 'inst':
                name = AUG[op.__class__]
                c, f = o.cls.lookup(name)
                if f is not None:
                    return self.call(self.getattr(old, name, n, st), Args([v]), n, st)
            elif o is not None and o.kind == 'list' and sym == '+':
                k, items = self.iterate(v, n, st)
                if k and o.items is not None and len(o.items) + len(items) <= MAX_ITEMS:
                    self.write(st, old.oid, o, '[]', v, n, o.replace(items=o.items + tuple(items)))
                else:
                    e = join(o.all_elems(), join_all(items) if k else items)
                    self.write(st, old.oid, o, '[]', v, n, o.replace(items=None, elem=e))
                return old
            elif o is not None and o.kind == 'ndarray':
                r = self.binop(op, old, v, n, st)
                if r.__class__ is Ref:
                    ro = self.get(st, r.oid)
                    if ro is not None and ro.kind == 'ndarray':
                        self.write(st, old.oid, o, '[]', v, n, o.replace(items=ro.items, elem=ro.elem))
                    else:
                        self.write(st, old.oid, o, '[]', v, n, self.unknown_content(o))
                else:
                    self.write(st, old.oid, o, '[]', v, n, self.unknown_content(o))
                return old
            elif o is not None and o.kind == 'set' and sym in ('|', '&', '-', '^') and v.__class__ is Ref:
                r = self.binop(op, old, v, n, st)
                ro = self.get(st, r.oid) if r.__class__ is Ref else None
                if ro is not None and ro.kind == 'set':
                    self.write(st, old.oid, o, '[]', v, n, o.replace(items=ro.items, elem=ro.elem))
                else:
                    self.write(st, old.oid, o, '[]', v, n, o.replace(items=None, elem=TOP))
                return old
            elif o is not None and o.kind == 'dict' and sym == '|':
                from . import models
                models.m_dict_update(self, old, o, [v], Args([v]), n, st)
                return old
            elif o is not None and o.kind in ('set', 'dict') and sym in ('|', '&', '-'):
                self.write(st, old.oid, o, '[]', v, n, o.replace(items=None, elem=TOP))
                return old
        elif old.__class__ is Union and any(m.__class__ is Ref for m in old.vs):
            return self.distribute(old, lambda m, s: self.aug(op, m, v, n, s), st)
        return self.binop(op, old, v, n, st)

    @staticmethod
    def unknown_content(o):
        """The array with the same shape and unknown numbers"""
        unknown = lambda x: Num('float') if is_numlike(x) else TOP
        return o.replace(items=None if o.items is None else tuple(unknown(x) for x in o.items),
                         elem=o.elem if o.elem is BOTTOM else unknown(o.elem))

    def assign(self, t, v, st, n):
        if v is BOTTOM:
            st.dead = True
            return
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            if not st.dead:
                self.setattr(o, t.attr, v, n, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            if not st.dead:
                self.setitem(o, i, v, n, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, n)

    def unpack(self, elts, v, st, n):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.__class__ is Union:
            # unpack each alternative, join the components
            cols = None
            for m in members(v):
                if m.__class__ is Const and m.v is None:
                    continue
                k, items = self.iterate(m, n, st)
                if not k:
                    items = [items] * len(elts)
                if star or len(items) != len(elts):
                    if not star:
                        continue
                    cols = None
                    break
                cols = list(items) if cols is None else [join(a, b) for a, b in zip(cols, items)]
            if cols is None:
                cols = [TOP] * len(elts)
            for e, x in zip(elts, cols):
                self.assign(e, x, st, n)
            return
        k, items = self.iterate(v, n, st)
        if st.dead:
            return
        if not k:
            for e in elts:
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.alloc(st, e, HObj('list', elem=items)), st, n)
                else:
                    self.assign(e, items if items is not BOTTOM else TOP, st, n)
            return
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.err('ValueError', 'not enough values to unpack (expected at least {}, got {})'.format(
                    len(elts) - 1, len(items)), n)
                items = list(items) + [TOP] * (len(elts) - len(items))
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, st, n)
            end = len(items) - after
            self.assign(elts[i].value, self.new_list(st, elts[i], items[i:end]), st, n)
            for e, x in zip(elts[i + 1:], items[end:]):
                self.assign(e, x, st, n)
            return
        if len(items) != len(elts):
            self.err('ValueError', 'cannot unpack {} values into {} targets'.format(len(items), len(elts)), n)
            items = list(items) + [TOP] * len(elts)
        for e, x in zip(elts, items):
            self.assign(e, x, st, n)

    def x_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if not st.dead:
            self.frames[-1].returns.append((v, st.copy(), n))
        st.dead = True

    def x_If(self, n, st):
        t = self.eval(n.test, st)
        if st.dead:
            return
        b = self.truth(t, n.test, st)
        if b is True or b is False:
            self.assume(n.test, b, st)
            st.dead = False
            self.exec_block(n.body if b else n.orelse, st)
            return
        other = st.copy()
        fr = self.frames[-1]
        fr.fuzzy += 1
        lost = lost_test(t)
        fr.lost += lost
        self.fork(t, st, other)
        self.assume(n.test, True, st)
        self.exec_block(n.body, st)
        self.assume(n.test, False, other)
        self.exec_block(n.orelse, other)
        fr.fuzzy -= 1
        if st.dead == other.dead:
            # otherwise what follows is the rest of one of the branches
            fr.lost -= lost
        st.become(gate.merge(self, st, other)[0])

    def x_For(self, n, st):
        it = self.eval(n.iter, st)
        if st.dead:
            return
        k, items = self.iterate(it, n.iter, st)
        if st.dead:
            return
        fr = self.frames[-1]
        loop = {'b': [], 'c': []}
        fr.loops.append(loop)
        if k:
            source = None
            if algebra.GENERIC[0] and it.__class__ is Ref:
                o = self.get(st, it.oid)
                if o is not None and o.kind == 'iter' and not o.summary:
                    source = it.oid
            items = list(items)
            i = -1
            while items:
                i += 1
                item = items.pop(0)
                if source is not None:
                    # the body may take items too, and leave some
                    st.heap[source] = st.heap[source].replace(items=tuple(items), tag=None)
                old = self.push_ctx(('it', id(n), i))
                loop['c'] = []
                self.assign(n.target, item, st, n)
                self.exec_block(n.body, st)
                self.ctx = old
                if loop['c']:
                    out = self.join_many(loop['c'] + [st])
                    if out is not None and out is not st:
                        st.become(out)
                if st.dead:
                    break
                if source is not None:
                    o = self.get(st, source)
                    if o is None or o.items is None:
                        self.incomplete.add('iterator in a loop')
                        raise Budget()
                    items = list(o.items)
            breaks = loop['b']
        else:
            breaks = []
            if items is BOTTOM:
                items = TOP
            fr.fuzzy += 1
            fr.lost += algebra.GENERIC[0]
            for rnd in range(7):
                body = st.copy()
                loop['b'], loop['c'] = [], []
                self.assign(n.target, items, body, n)
                self.exec_block(n.body, body)
                for c in loop['c']:
                    body.become(self.join_states(body, c))
                breaks = loop['b']
                new = self.join_states(st, body, widen if rnd >= 2 else join)
                if self.states_equal(new, st):
                    break
                st.become(new)
            fr.fuzzy -= 1
            fr.lost -= algebra.GENERIC[0]
        fr.loops.pop()
        if not st.dead:
            self.exec_block(n.orelse, st)
        if breaks:
            out = self.join_many(breaks + [st])
            if out is not None and out is not st:
                st.become(out)

    def x_While(self, n, st):
        fr = self.frames[-1]
        loop = {'b': [], 'c': []}
        fr.loops.append(loop)
        unrolled = []
        if algebra.GENERIC[0]:
            # as long as the test is decided
            for i in range(48):
                head = st.copy()
                b = self.truth(self.eval(n.test, head), n.test, head)
                if head.dead or b is not True:
                    break
                self.assume(n.test, True, head)
                old = self.push_ctx(('wh', id(n), i))
                loop['b'], loop['c'] = [], []
                self.exec_block(n.body, head)
                self.ctx = old
                if loop['c']:
                    out = self.join_many(loop['c'] + [head])
                    if out is not None and out is not head:
                        head.become(out)
                unrolled.extend(loop['b'])
                st.become(head)
                if st.dead:
                    fr.loops.pop()
                    out = self.join_many(unrolled)
                    if out is not None:
                        st.become(out)
                    return
        breaks = []
        fr.fuzzy += 1
        fr.lost += algebra.GENERIC[0]
        exit_ = None
        for rnd in range(8):
            head = st.copy()
            t = self.eval(n.test, head)
            b = self.truth(t, n.test, head)
            exit_ = head.copy()
            if b is True:
                exit_.dead = True
            else:
                self.assume(n.test, False, exit_)
            if b is False:
                breaks = breaks if rnd else []
                break
            body = head.copy()
            self.assume(n.test, True, body)
            loop['b'], loop['c'] = [], []
            self.exec_block(n.body, body)
            for c in loop['c']:
                body.become(self.join_states(body, c))
            breaks = loop['b']
            new = self.join_states(st, body, widen if rnd >= 2 else join)
            if self.states_equal(new, st):
                break
            st.become(new)
        fr.fuzzy -= 1
        fr.lost -= algebra.GENERIC[0]
        fr.loops.pop()
        st.become(exit_)
        if not st.dead:
            self.exec_block(n.orelse, st)
        for b in breaks + unrolled:
            st.become(self.join_states(st, b))

    def x_Break(self, n, st):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]['b'].append(st.copy())
        st.dead = True

    def x_Continue(self, n, st):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]['c'].append(st.copy())
        st.dead = True

    def x_Raise(self, n, st):
        exc = 'Exception'
        v = None
        if n.exc is not None:
            v = self.eval(n.exc, st)
            if st.dead:
                return
            exc = self.exc_name(v, st)
            if n.cause is not None:
                self.eval(n.cause, st)
        else:
            exc = 'reraise'
        for o in self.observers:
            o.on_raise(self, st, exc, n)
        if v is not None and v.__class__ is Const:
            self.err('TypeError', 'raises a {} which is not an exception'.format(type(v.v).__name__), n)
        self.do_raise(exc, st, n)

    def caught(self, exc):
        """Is a statement that handles *exc* being executed?"""
        return any(ts is None or any(t is not None and self.exc_matches(exc, t) for t in ts)
                   for types in self.handling for ts in types)

    def lacks(self, text, n, st):
        """An attribute is certainly missing: an error, unless a statement handles it."""
        if (self.strict or algebra.GENERIC[0]) and self.caught('AttributeError'):
            self.do_raise('AttributeError', st, n)
            return BOTTOM
        self.err('AttributeError', text, n)
        return TOP

    def do_raise(self, exc, st, n):
        fr = self.frames[-1]
        s = st.copy()
        if fr.tries:
            fr.tries[-1].append((exc, s, n))
        else:
            fr.raises.append((exc, s, n))
        st.dead = True

    def exc_name(self, v, st):
        if v.__class__ is Builtin:
            return v.name
        if v.__class__ is Cls:
            return v.c
        if v.__class__ is Ref:
            o = self.get(st, v.oid)
            if o is not None and o.kind == 'inst':
                return o.cls
            if o is not None and o.kind == 'exc':
                return o.tag
        if v.__class__ is Ext:
            return v.path
        return 'Exception'

    def exc_matches(self, exc, handler):
        """Does an exception *exc* match one handler type?  True, False or None (maybe)."""
        if isinstance(exc, ClassObj):
            if isinstance(handler, ClassObj):
                return exc.isa(handler)
            return any(self.exc_matches(c, handler) for c in exc.mro if isinstance(c, str)) if isinstance(handler, str) else None
        if exc == 'reraise':
            return None
        a = getattr(_py_builtins, exc.rsplit('.', 1)[-1], None) if isinstance(exc, str) else None
        b = getattr(_py_builtins, handler.rsplit('.', 1)[-1], None) if isinstance(handler, str) else None
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b) or (None if issubclass(b, a) else False)
        return None if not isinstance(handler, ClassObj) else False

    def certain(self, n, handler_types, conversions):
        """The body only converts texts to numbers, and all the conversions succeeded (laws only)."""
        if not all(ts and all(t in ('ValueError', 'TypeError') for t in ts) for ts in handler_types):
            return False
        for x in (x for b in n.body for x in ast.walk(b)):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('int', 'float')):
                return False
            if isinstance(x, (ast.Subscript, ast.For, ast.While, ast.With, ast.Starred, ast.BinOp)):
                return False
        return self.converted(conversions)

    @staticmethod
    def converted(conversions):
        return all(v.__class__ is Const or (v.__class__ is Num and v.pv is not None) for v in conversions)

    def x_Try(self, n, st):
        fr = self.frames[-1]
        collected = []
        start = st.copy()
        implicit = start
        marks = self.marks() if n.finalbody else ()
        returned = len(fr.returns)
        fr.tries.append(collected)
        handler_types = []
        for h in n.handlers:
            if h.type is None:
                handler_types.append(None)
            else:
                hv = self.eval(h.type, st)
                types = []
                if hv.__class__ is Ref:
                    k, items = self.iterate(hv, h, st)
                    types = [self.exc_name(x, st) for x in items] if k else [None]
                else:
                    types = [self.exc_name(hv, st)]
                handler_types.append(types)
        self.sink.append([])
        self.handling.append(handler_types)
        converted, doubts = len(self.conversions), len(self.doubts)
        for s in n.body:
            if st.dead:
                break
            self.exec(s, st)
            if not st.dead:
                implicit = self.join_states(implicit, st.copy())
        errs = self.sink.pop()
        self.handling.pop()
        fr.tries.pop()
        for e in errs:
            # an internal error caught by a handler of this try is that try's business
            if e[0] in TYPE_ERRORS and any(
                    ts is None or any(t is None or self.exc_matches(e[0], t) for t in ts) for ts in handler_types):
                continue
            self.sink[-1].append(e)
        outs = []
        ended = st.dead and returned == len(fr.returns)
        certain = algebra.GENERIC[0] and not collected and self.certain(n, handler_types, self.conversions[converted:])
        if not st.dead:
            s = st.copy()
            self.exec_block(n.orelse, s)
            outs.append(s)
        leftover = []
        for exc, s, node in collected:
            if not any(ts is None or any(t is None or self.exc_matches(exc, t) is not False for t in ts)
                       for ts in handler_types):
                leftover.append((exc, s, node))
        for h, ts in zip(n.handlers if not certain else (), handler_types):
            cand = [s for exc, s, node in collected
                    if ts is None or any(t is None or self.exc_matches(exc, t) is not False for t in ts)]
            if self.strict and ts and all(
                    t in ('NotImplementedError', 'NameError') or isinstance(t, ClassObj) or
                    t in ('KeyError', 'IndexError', 'ValueError', 'AttributeError', 'TypeError') and t not in self.doubts[doubts:] for t in ts) and not (
                    'ValueError' in ts and not self.converted(self.conversions[converted:])):
                # only a raise statement, a missing key or a refused conversion makes such an exception
                if not cand:
                    continue
                hs = cand[0]
                cand = cand[1:]
            elif algebra.GENERIC[0] and ended and len(cand) == len(collected) and cand:
                # the body always ends with a raise statement this handler is for
                hs = cand[0]
                cand = cand[1:]
            else:
                hs = implicit.copy()
            for s in cand:
                hs = self.join_states(hs, s)
            hs = hs.copy()
            hs.dead = False
            if h.name:
                hs.env[h.name] = TOP
            fr.fuzzy += 1
            for o in self.observers:
                if hasattr(o, 'on_handler'):
                    o.on_handler(self, hs, h, ts, n)
            self.exec_block(h.body, hs)
            fr.fuzzy -= 1
            outs.append(hs)
        out = self.join_many(outs)
        if out is None:
            st.dead = True
        else:
            st.become(out)
        if n.finalbody:
            if not st.dead:
                self.exec_block(n.finalbody, st)
            # the exceptional way through
            fin = []
            for exc, s, node in leftover:
                s2 = s.copy()
                s2.dead = False
                self.exec_block(n.finalbody, s2)
                if not s2.dead:
                    fin.append((exc, s2, node))
            if not n.handlers:
                s2 = implicit.copy()
                s2.dead = False
                self.exec_block(n.finalbody, s2)
            leftover = fin
            self.passing(marks, lambda s: self.exec_block(n.finalbody, s))
        for exc, s, node in leftover:
            if fr.tries:
                fr.tries[-1].append((exc, s, node))
            else:
                fr.raises.append((exc, s, node))

    x_TryStar = x_Try

    def x_With(self, n, st):
        entered = []
        for item in n.items:
            v = self.eval(item.context_expr, st)
            if st.dead:
                return
            token, bound = self.enter(v, item.context_expr, st)
            if token is not None:
                st.held = st.held + (token,)
            entered.append((v, token))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, bound, st, n)
        marks = self.marks()
        self.exec_block(n.body, st)
        self.passing(marks, lambda s: self.leave_with(entered, s, n))
        self.leave_with(entered, st, n)

    def leave_with(self, entered, st, n):
        for v, token in reversed(entered):
            if token is not None and token in st.held:
                h = list(st.held)
                h.reverse()
                h.remove(token)
                h.reverse()
                st.held = tuple(h)
            if token is None and not st.dead and v.__class__ is Ref:
                o = self.get(st, v.oid)
                if o is not None and o.kind == 'inst':
                    c, f = o.cls.lookup('__exit__')
                    if f is not None:
                        self.call(self.getattr(v, '__exit__', n, st), Args([NONE, NONE, NONE]), n, st)

    def marks(self):
        """The ways out of the current statement, and how often each was taken so far."""
        fr = self.frames[-1]
        ways = [fr.returns, fr.tries[-1] if fr.tries else fr.raises]
        if fr.loops:
            ways += [fr.loops[-1]['b'], fr.loops[-1]['c']]
        return [(way, len(way)) for way in ways]

    def passing(self, marks, action):
        """Execute *action* in the states that left the current statement since *marks*."""
        for way, start in marks:
            taken = way[start:]
            del way[start:]
            for x in taken:
                s = (x[1] if isinstance(x, tuple) else x).copy()
                s.dead = False
                action(s)
                if not s.dead:
                    way.append((x[0], s) + x[2:] if isinstance(x, tuple) else s)

    def enter(self, v, node, st):
        if v.__class__ is Ref:
            o = self.get(st, v.oid)
            if o is not None and o.kind in ('lock', 'file'):
                return (o.kind, v.oid), v
            if o is not None and o.kind == 'inst':
                c, f = o.cls.lookup('__enter__')
                if f is not None:
                    return None, self.call(self.getattr(v, '__enter__', node, st), Args(), node, st)
                if not o.cls.has_external:
                    self.err('AttributeError', '{} object is not a context manager'.format(o.cls.name), node)
        return None, TOP

    def x_Assert(self, n, st):
        t = self.eval(n.test, st)
        if st.dead:
            return
        b = self.truth(t, n.test, st)
        if b is False:
            self.do_raise('AssertionError', st, n)
            return
        self.assume(n.test, True, st)

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                if o.__class__ is Ref:
                    ob = self.get(st, o.oid)
                    if ob is not None and ob.kind == 'inst':
                        a = dict(ob.attrs)
                        a.pop(t.attr, None)
                        self.write(st, o.oid, ob, t.attr, BOTTOM, n, ob.replace(attrs=a))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                self.delitem(o, i, n, st)

    def delitem(self, o, i, n, st):
        if o.__class__ is Union:
            self.distribute(o, lambda m, s: (self.delitem(m, i, n, s), NONE)[1], st)
            return
        if o.__class__ is Ref:
            ob = self.get(st, o.oid)
            if ob is None:
                return
            if ob.kind == 'inst':
                c, f = ob.cls.lookup('__delitem__')
                if f is not None:
                    self.call(self.getattr(o, '__delitem__', n, st), Args([i]), n, st)
                elif not ob.cls.has_external:
                    self.err('TypeError', '{} object does not support item deletion'.format(ob.cls.name), n)
            elif ob.kind == 'dict':
                a = dict(ob.attrs)
                k = dict_key(i)
                maybe = ob.maybe
                if k is not None and k in a:
                    del a[k]
                elif algebra.GENERIC[0] and k is not None and all_const(a) and ob.elem is BOTTOM:
                    if self.caught('KeyError'):
                        self.do_raise('KeyError', st, n)
                    else:
                        self.err('KeyError', 'key {} is not in the table'.format(show_key(k)), n)
                    return
                else:
                    maybe = maybe | frozenset(a)
                self.write(st, o.oid, ob, ('del', i), BOTTOM, n, ob.replace(attrs=a, maybe=maybe))
            elif ob.kind == 'list':
                items = ob.items
                if items is not None and i.__class__ is Const and type(i.v) is int and -len(items) <= i.v < len(items):
                    items = list(items)
                    del items[i.v]
                    self.write(st, o.oid, ob, ('del', i), BOTTOM, n, ob.replace(items=tuple(items)))
                elif items is not None and i.__class__ is SliceV and i.const() and not ob.summary:
                    items = list(items)
                    del items[slice(*i.values())]
                    self.write(st, o.oid, ob, ('del', i), BOTTOM, n, ob.replace(items=tuple(items)))
                else:
                    self.write(st, o.oid, ob, ('del', i), BOTTOM, n, ob.replace(items=None, elem=ob.all_elems()))
            elif ob.kind == 'tuple':
                self.err('TypeError', 'tuple does not support item deletion', n)

    # -- imports

    def x_Import(self, n, st):
        for a in n.names:
            name = a.name
            if self.import_module(name, st, n):
                if a.asname:
                    st.env[a.asname] = Mod(name)
                else:
                    st.env[name.split('.')[0]] = Mod(name.split('.')[0])
            else:
                if name.split('.')[0] in ('Patro',):
                    self.err('ImportError', 'no module named {}'.format(name), n)
                st.env[(a.asname or name.split('.')[0])] = Ext(name if a.asname else name.split('.')[0])

    def import_module(self, name, st, n):
        self.note_env(st)
        if name in self.program.modules:
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                p = '.'.join(parts[:i])
                if p in self.program.modules:
                    self.load_module(p, st)
            return True
        # namespace package
        prefix = name + '.'
        return any(m.startswith(prefix) for m in self.program.modules)

    def x_ImportFrom(self, n, st):
        fr = self.frames[-1]
        target = self.program.resolve_relative(fr.module, n.level, n.module)
        if self.import_module(target, st, n):
            for a in n.names:
                if a.name == '*':
                    env = self.module_env(target) if target in self.globals else {}
                    names = None
                    if '__all__' in env:
                        k, items = self.iterate(env['__all__'], n, st)
                        if k:
                            names = [x.v for x in items if x.__class__ is Const]
                    for x in (names if names is not None else [y for y in env if not y.startswith('_')]):
                        if x in env:
                            st.env[x] = env[x]
                    continue
                if target in self.globals and a.name in self.module_env(target):
                    st.env[a.asname or a.name] = self.module_env(target)[a.name]
                    continue
                sub = target + '.' + a.name
                if self.import_module(sub, st, n):
                    st.env[a.asname or a.name] = Mod(sub)
                    continue
                if target in self.loading:
                    pass
                self.err('ImportError', 'cannot import name {!r} from {!r}'.format(a.name, target), n)
                if target not in self.loading and not self.frames[-1].tries:
                    st.env[a.asname or a.name] = TOP
                else:
                    st.env[a.asname or a.name] = TOP
            return
        if n.level or target.split('.')[0] == 'Patro':
            self.err('ImportError', 'no module named {}'.format(target), n)
        for a in n.names:
            if a.name == '*':
                continue
            path = target + '.' + a.name
            st.env[a.asname or a.name] = self.ext_value(path)

    def ext_value(self, path):
        if path == 'math.pi':
            return Num('float', g=(F0, 0, 0), w=P0, u='pi', pv=algebra.PI)
        if path in ('math.inf', 'math.nan', 'math.e'):
            return Num('float')
        if path.startswith('builtins.'):
            return Builtin(path[9:])
        return Ext(path)

    # -- definitions

    def x_FunctionDef(self, n, st):
        fr = self.frames[-1]
        cls = getattr(fr, 'class_building', None)
        outer = (fr.fn.qualname + '.<locals>.') if fr.fn is not None else ''
        f = self.finfo(n, fr.module, cls, outer)
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            if a.annotation is not None:
                self.eval(a.annotation, st)
        if n.returns is not None:
            self.eval(n.returns, st)
        v = self.make_func(f, n, st)
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, st)
        st.dead = False
        st.env[n.name] = v

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, f, n, st):
        fr = self.frames[-1]
        defaults = tuple(self.eval(d, st) for d in n.args.defaults)
        kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        closure = None
        if fr.fn is not None:
            closure = Closure(st.env, fr.closure, fr)
        kind = 'class' if f.name in ('__init_subclass__', '__class_getitem__') else 'func'
        if f.name == '__new__':
            kind = 'static'
        return Func(f, defaults, kwdefaults, closure, kind)

    def decorate(self, d, v, st):
        if isinstance(d, ast.Name) and d.id == 'property' and 'property' not in st.env:
            return Prop(v)
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            return Func(v.f, v.defaults, v.kwdefaults, v.closure, 'class') if v.__class__ is Func else v
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            return Func(v.f, v.defaults, v.kwdefaults, v.closure, 'static') if v.__class__ is Func else v
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            base = self.eval(d.value, st)
            if base.__class__ is Prop:
                if d.attr == 'setter':
                    return Prop(base.fget, v, base.fdel)
                if d.attr == 'getter':
                    return Prop(v, base.fset, base.fdel)
                return Prop(base.fget, base.fset, v)
            return TOP
        dv = self.eval(d, st)
        if dv.__class__ is Ext and dv.path in ('functools.cached_property',):
            return Prop(v)
        if dv.__class__ is Ext and dv.path in ('functools.lru_cache', 'functools.cache', 'abc.abstractmethod',
                                               'typing.overload', 'functools.wraps', 'contextlib.contextmanager'):
            return v
        if dv.__class__ in (Func, Bound, Cls):
            return self.call(dv, Args([v]), d, st)
        return TOP

    def x_ClassDef(self, n, st):
        fr = self.frames[-1]
        self.note_env(st)
        bases = []
        for b in n.bases:
            v = self.eval(b, st)
            bases.append(v)
        meta = None
        for kw in n.keywords:
            v = self.eval(kw.value, st)
            if kw.arg == 'metaclass':
                meta = v
        outer = ''
        if getattr(fr, 'class_building', None) is not None:
            outer = fr.class_building.name + '.'
        elif fr.fn is not None:
            outer = fr.fn.qualname + '.<locals>.'
        c = ClassObj(n.name, fr.module.name, n, bases, outer)
        blist = []
        for v in bases:
            if v.__class__ is Cls:
                blist.append(v.c)
            elif v.__class__ is Ext:
                blist.append(v.path)
            elif v.__class__ is Builtin:
                blist.append(v.name if v.name in ('object', ) else 'builtins.' + v.name)
            else:
                blist.append('?')
        c.mro = c3(c, blist)
        if 'object' in c.mro:
            c.mro.remove('object')
        for b in c.mro[1:]:
            if isinstance(b, str) and b in ('enum.Enum', 'enum.IntEnum'):
                c.is_enum = True
            if isinstance(b, ClassObj):
                b.sub.append(c)
                if meta is None and b.meta is not None:
                    meta = b.meta
        c.meta = meta
        self.classes[c.qualname] = c
        # body
        sub = State({'__module__': Const(fr.module.name), '__qualname__': Const(n.name), '__name__': Const(n.name)},
                    st.heap)
        nf = Frame(fr.fn, fr.module, fr.cls, closure=Closure(st.env, fr.closure, fr))
        nf.class_building = c
        nf.outer_env = st.env
        self.frames.append(nf)
        old = self.push_ctx(('class', id(n)))
        try:
            self.exec_block(n.body, sub)
        finally:
            self.frames.pop()
            self.ctx = old
        st.heap = sub.heap
        ns = sub.env
        for k in ('__module__', '__qualname__', '__name__'):
            ns.pop(k, None)
        c.ns = ns
        if c.is_enum:
            for k, v in list(ns.items()):
                if not k.startswith('_') and v.__class__ not in (Func, Prop):
                    ns[k] = Enum(c, k)
                    c.members.append(k)
            last = 0
            for b in n.body:
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                    called = b.value.func if isinstance(b.value, ast.Call) else None
                    if called is not None and getattr(called, 'id', getattr(called, 'attr', None)) == 'auto' and last is not None:
                        last += 1
                        c.values[b.targets[0].id] = last
                    elif isinstance(b.value, ast.Constant) and b.value.value.__class__ in (int, str):
                        last = b.value.value if b.value.value.__class__ is int else None
                        c.values[b.targets[0].id] = b.value.value
                    else:
                        last = None
        self_val = Cls(c)
        # metaclass constructor, __init_subclass__
        if meta is not None and meta.__class__ is Cls and not n.name == '':
            mi = meta.c.lookup('__init__')[1]
            if mi is not None:
                nsv = self.alloc(st, n, HObj('dict', attrs={Const(k): v for k, v in ns.items()}), 'ns')
                bt = self.new_tuple(st, n, bases, 'bases')
                self.call(Bound(self_val, mi), Args([Const(n.name), bt, nsv]), n, st)
            mn = meta.c.lookup('__new__')[1]
            if mn is not None:
                self.incomplete.add('metaclass __new__')
        for b in c.mro[1:]:
            if isinstance(b, ClassObj) and '__init_subclass__' in b.ns:
                # attribute lookup on the new class must already work
                self.call(Bound(self_val, b.ns['__init_subclass__']), Args(), n, st)
                break
        v = self_val
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, st)
        st.dead = False
        st.env[n.name] = v

    def x_Match(self, n, st):
        self.incomplete.add('match statement')
        if algebra.GENERIC[0]:
            raise Budget()
        v = self.eval(n.subject, st)
        outs = []
        for case in n.cases:
            s = st.copy()
            for x in ast.walk(case.pattern):
                nm = getattr(x, 'name', None)
                if isinstance(nm, str):
                    s.env[nm] = TOP
            self.exec_block(case.body, s)
            outs.append(s)
        outs.append(st.copy())
        out = self.join_many(outs)
        if out is None:
            st.dead = True
        else:
            st.become(out)

    ################################################################################################
    # expressions

    def eval(self, n, st):
        self.steps += 1
        if self.steps > self.STEP_BUDGET:
            raise Budget()
        if st.dead:
            return BOTTOM
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            self.incomplete.add('expression ' + n.__class__.__name__)
            return TOP
        v = m(n, st)
        return BOTTOM if st.dead else v

    def e_Constant(self, n, st):
        return Const(n.value)

    def e_Name(self, n, st):
        return self.load_name(n.id, n, st)

    def load_name(self, name, n, st):
        v = st.env.get(name)
        if v is not None:
            return v
        fr = self.frames[-1]
        if name == '__class__' and fr.cls is not None:
            return Cls(fr.cls)
        if name in fr.locals:
            self.err('UnboundLocalError', 'local variable {!r} is read before it is assigned'.format(name), n)
            return TOP
        c = fr.closure
        while c is not None:
            e = c.now()
            if name in e:
                return e[name]
            if name in c.env:
                return c.env[name]
            c = c.parent
        env = self.module_env(fr.module.name)
        if name in env:
            return env[name]
        if name == 'open' and 'io' in self.program.extra and fr.module.name != 'io':
            self.load_module('io', st)
            return self.module_env('io')['open']
        if name in BUILTIN_NAMES or (name.startswith('psa_') and (fr.module.name.startswith('psa_seeds') or fr.module.relpath.startswith('standins/'))):
            if name == 'NotImplemented':
                return Builtin('NotImplemented')
            return Builtin(name)
        self.err('NameError', 'name {!r} is not defined'.format(name), n)
        return TOP

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        if st.dead:
            return BOTTOM
        return self.getattr(o, n.attr, n, st)

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = self.frames[-1]
            if fr.cls is not None and fr.recv is not None:
                return Super(fr.cls, fr.recv)
            c = fr.closure
            return TOP
        f = self.eval(n.func, st)
        if st.dead:
            return BOTTOM
        if algebra.GENERIC[0] and f.__class__ is Builtin and f.name in ('any', 'all', 'next') and n.args and \
                isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            # no element is computed after the one that decides
            first = self.comp(n.args[0], st, 'iter', {'any': True, 'all': False, 'next': 'first'}[f.name])
            if st.dead:
                return BOTTOM
            rest = [self.eval(a, st) for a in n.args[1:]]
            if st.dead:
                return BOTTOM
            return self.call(f, Args([first] + rest), n, st)
        args = self.eval_args(n, st)
        if st.dead:
            return BOTTOM
        return self.call(f, args, n, st)

    def eval_args(self, n, st):
        args = Args()
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if st.dead:
                    return args
                k, items = self.iterate(v, a, st)
                if k and args.star is None:
                    args.pos.extend(items)
                else:
                    e = join_all(items) if k else items
                    args.star = e if args.star is None else join(args.star, e)
            else:
                v = self.eval(a, st)
                if args.star is not None:
                    args.star = join(args.star, v)
                else:
                    args.pos.append(v)
        for kw in n.keywords:
            v = self.eval(kw.value, st)
            if st.dead:
                return args
            if kw.arg is None:
                o = self.get(st, v.oid) if v.__class__ is Ref else None
                if o is not None and o.kind == 'dict' and o.elem is BOTTOM and all(
                        k.__class__ is Const and type(k.v) is str for k in o.attrs) and not o.maybe:
                    for k, x in o.attrs.items():
                        if k.v in args.kw:
                            self.err('TypeError', 'multiple values for keyword argument {!r}'.format(k.v), n)
                        args.kw[k.v] = x
                else:
                    rest = TOP
                    if o is not None and o.kind == 'dict':
                        rest = join(o.all_elems(), BOTTOM)
                        if rest is BOTTOM:
                            rest = TOP
                        for k, x in o.attrs.items():
                            if k.__class__ is Const and type(k.v) is str and k not in o.maybe:
                                args.kw[k.v] = x
                    args.kwstar = rest
            else:
                args.kw[kw.arg] = v
        return args

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        result = BOTTOM
        outs = []
        cur = st
        conds = []
        fr = self.frames[-1]
        lost = 0
        for i, e in enumerate(n.values):
            fr.lost += lost
            v = self.eval(e, cur)
            fr.lost -= lost
            lost = lost or lost_test(v)
            if cur.dead:
                break
            last = i == len(n.values) - 1
            if v.__class__ is Bool:
                conds.append(v.cond)
            elif not (v.__class__ is Const and v.v is is_and):
                conds.append(None)
            if last:
                result = join(result, v)
                outs.append(cur.copy())
                break
            b = self.truth(v, e, cur)
            if b is None:
                # may stop here
                stop = cur.copy()
                if v.__class__ is Bool and v.cond is not None:
                    stop.path = stop.path + ((v.cond, not is_and),)
                    cur = cur.copy()
                    cur.path = cur.path + ((v.cond, is_and),)
                self.assume(e, not is_and, stop)
                if algebra.GENERIC[0] and not is_and and v.__class__ is Num and i == len(n.values) - 2 and \
                        isinstance(n.values[-1], ast.Constant) and n.values[-1].value == 0:
                    result = v          # x or 0
                    outs.append(cur.copy())
                    break
                if not stop.dead:
                    result = join(result, narrow_truth(v, not is_and))
                    outs.append(stop)
                cur = cur.copy()
                self.assume(e, is_and, cur)
                if cur.dead:
                    break
            elif b is is_and:
                continue
            else:
                result = join(result, v)
                outs.append(cur.copy())
                break
        out = self.join_many(outs)
        if out is None:
            st.dead = True
            return BOTTOM
        st.become(out)
        if conds and None not in conds and result.__class__ in (Bool, Const, Union):
            c = conds[0] if len(conds) == 1 else ('and' if is_and else 'or',) + tuple(conds)
            return Bool(result.labels, c)
        return result

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if st.dead:
            return BOTTOM
        if isinstance(n.op, ast.Not):
            b = self.truth(v, n.operand, st)
            return Const(not b, v.labels) if b is not None else Bool(
                v.labels, gate.negate(v.cond) if v.__class__ is Bool else None)
        return self.unary(n.op, v, n, st)

    def unary(self, op, v, n, st):
        if v.__class__ is Union:
            return self.distribute(v, lambda m, s: self.unary(op, m, n, s), st)
        if is_numlike(v):
            if isinstance(op, ast.USub):
                return numeric.neg(v)
            if isinstance(op, ast.Invert):
                return Num('int', labels=v.labels)
            return v
        if v.__class__ is Ref:
            o = self.get(st, v.oid)
            if o is not None and o.kind == 'inst':
                name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[op.__class__]
                c, f = o.cls.lookup(name)
                if f is not None:
                    return self.call(self.getattr(v, name, n, st), Args(), n, st)
                if not o.cls.has_external:
                    self.err('TypeError', 'bad operand type for unary operator: {}'.format(o.cls.name), n)
                return TOP
            if o is not None and o.kind == 'ndarray':
                return self.nd_map(v, lambda x: self.unary(op, x, n, st), n, st)
            if o is not None and o.kind in ('list', 'tuple', 'dict', 'set'):
                self.err('TypeError', 'bad operand type for unary operator: {}'.format(o.kind), n)
        if v.__class__ is Const and not isinstance(v.v, bool):
            self.err('TypeError', 'bad operand type for unary operator: {}'.format(type(v.v).__name__), n)
        if v.__class__ is Const and isinstance(v.v, bool) and isinstance(op, ast.USub):
            return Const(-v.v)
        if v.__class__ is Str:
            self.err('TypeError', 'bad operand type for unary operator: str', n)
        return Top(None, v.labels)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        if st.dead:
            return BOTTOM
        b = self.eval(n.right, st)
        if st.dead:
            return BOTTOM
        return self.binop(n.op, a, b, n, st)

    def binop(self, op, a, b, n, st):
        if a.__class__ is Union:
            return self.distribute(a, lambda m, s: self.binop(op, m, b, n, s), st)
        if b.__class__ is Union:
            return self.distribute(b, lambda m, s: self.binop(op, a, m, n, s), st)
        sym = OPS[op.__class__]
        a2 = boolnum(a)
        b2 = boolnum(b)
        if is_numlike(a2) and is_numlike(b2):
            return numeric.binop(sym, a2, b2, self.reporter(n))
        labels = a.labels | b.labels
        sa = a.__class__ is Str or (a.__class__ is Const and type(a.v) is str)
        sb = b.__class__ is Str or (b.__class__ is Const and type(b.v) is str)
        if sa and sb and sym == '+':
            if a.__class__ is Const and b.__class__ is Const:
                return Const(a.v + b.v, labels)
            return strings.concat([a, b], labels)
        if sa and sym == '%':
            if a.__class__ is Const:
                vals = [b]
                if b.__class__ is Ref:
                    k, items = self.iterate(b, n, st) if self.get(st, b.oid).kind == 'tuple' else (True, [b])
                    vals = items if k else None
                if vals is not None:
                    labels = labels.union(*[x.labels for x in vals])
                    return strings.build(self.percent(a.v, vals, n, st), labels)
            return Str(None, labels)
        if sym == '*' and ((sa and is_numlike(b2)) or (sb and is_numlike(a2))):
            if a.__class__ is Const and b.__class__ is Const:
                s, k = (a.v, b.v) if sa else (b.v, a.v)
                if isinstance(k, int) and k * len(s) < 10000:
                    return Const(s * k, labels)
            return Str(None, labels)
        if (sa and (is_numlike(b2) or (b.__class__ is Const and b.v is None)) and sym != '*') or (
                sb and (is_numlike(a2) or (a.__class__ is Const and a.v is None)) and sym != '*'):
            self.err('TypeError', 'unsupported operand types for {}: {} and {}'.format(
                sym, self.type_name(a, st), self.type_name(b, st)), n)
            return TOP
        oa = self.get(st, a.oid) if a.__class__ is Ref else None
        ob = self.get(st, b.oid) if b.__class__ is Ref else None
        if oa is not None and oa.kind == 'inst':
            name = DUNDER[op.__class__]
            c, f = oa.cls.lookup(name)
            if f is not None:
                r = self.call(self.getattr(a, name, n, st), Args([b]), n, st)
                if not (r.__class__ is Builtin and r.name == 'NotImplemented'):
                    return r
            if ob is not None and ob.kind == 'inst':
                rname = '__r' + name[2:]
                c2, f2 = ob.cls.lookup(rname)
                if f2 is not None:
                    return self.call(self.getattr(b, rname, n, st), Args([a]), n, st)
            if f is None and not oa.cls.has_external and b.__class__ not in (Top, Ext):
                if ob is None or ob.kind != 'inst' or not ob.cls.has_external:
                    self.err('TypeError', 'unsupported operand types for {}: {} and {}'.format(
                        sym, oa.cls.name, self.type_name(b, st)), n)
            return Top(None, labels)
        if ob is not None and ob.kind == 'inst':
            if oa is not None and oa.kind == 'ndarray':
                return Top(None, labels)
            rname = '__r' + DUNDER[op.__class__][2:]
            c2, f2 = ob.cls.lookup(rname)
            if f2 is not None:
                return self.call(self.getattr(b, rname, n, st), Args([a]), n, st)
            if not ob.cls.has_external and a.__class__ not in (Top, Ext):
                self.err('TypeError', 'unsupported operand types for {}: {} and {}'.format(
                    sym, self.type_name(a, st), ob.cls.name), n)
            return Top(None, labels)
        if sym == '@' and oa is not None and oa.kind == 'ndarray' and ob is not None and ob.kind in ('ndarray', 'list', 'tuple'):
            from . import models
            return models.nd_dot(self, a, b, n, st)
        if (oa is not None and oa.kind == 'ndarray') or (ob is not None and ob.kind == 'ndarray'):
            return self.nd_binop(op, a, b, n, st)
        if oa is not None and oa.kind in ('list', 'tuple') and sym == '+':
            if ob is not None and ob.kind == oa.kind:
                if oa.items is not None and ob.items is not None:
                    return self.alloc(st, n, HObj(oa.kind, items=oa.items + ob.items))
                return self.alloc(st, n, HObj(oa.kind, elem=join(oa.all_elems(), ob.all_elems())))
            if ob is not None and ob.kind in ('list', 'tuple', 'iter', 'dict', 'set'):
                self.err('TypeError', 'can only concatenate {} (not {}) to {}'.format(oa.kind, ob.kind, oa.kind), n)
                return TOP
            if is_numlike(b2) or sb or (b.__class__ is Const and b.v is None):
                self.err('TypeError', 'can only concatenate {} (not {}) to {}'.format(
                    oa.kind, self.type_name(b, st), oa.kind), n)
                return TOP
            return self.alloc(st, n, HObj(oa.kind, elem=TOP))
        if sym == '*':
            for (x, ox, y) in ((a, oa, b2), (b, ob, a2)):
                if ox is not None and ox.kind in ('list', 'tuple') and is_numlike(y):
                    if ox.items is not None and y.__class__ is Const and isinstance(y.v, int) and \
                            0 <= y.v * len(ox.items) <= MAX_ITEMS:
                        return self.alloc(st, n, HObj(ox.kind, items=ox.items * y.v))
                    return self.alloc(st, n, HObj(ox.kind, elem=ox.all_elems()))
        if oa is not None and oa.kind == 'dict' and ob is not None and ob.kind == 'dict' and sym == '|':
            r = self.alloc(st, n, HObj('dict', attrs=dict(oa.attrs), elem=oa.elem, key=oa.key, maybe=oa.maybe))
            from . import models
            models.m_dict_update(self, r, self.get(st, r.oid), [b], Args([b]), n, st)
            return r
        if oa is not None and oa.kind == 'set' and ob is not None and ob.kind == 'set' and sym in ('|', '&', '-', '^') \
                and oa.items is not None and ob.items is not None and not oa.summary and not ob.summary:
            items = self.set_operation(sym, oa.items, ob.items, n, st)
            if items is not None:
                return self.alloc(st, n, HObj('set', items=items))
        if oa is not None and oa.kind == 'set' and ob is not None and sym in ('|', '&', '-', '^'):
            return self.alloc(st, n, HObj('set', elem=join(oa.all_elems(), ob.all_elems()) if sym in '|^' else oa.all_elems()))
        # definitely bad operands
        if sym in ('+', '-', '*', '/', '**', '//', '%'):
            ta, tb = self.type_name(a, st), self.type_name(b, st)
            simple = {'NoneType', 'int', 'float', 'list', 'tuple', 'dict', 'str', 'iterator', 'function', 'type', 'set'}
            if ta in simple and tb in simple and not (ta == 'str' and sym == '%'):
                if not (sym == '*' and {ta, tb} & {'str', 'list', 'tuple'} and {ta, tb} & {'int', 'float'}) and not (
                        sym == '+' and ta == tb and ta in ('str', 'list', 'tuple')) and not (ta == tb == 'set'):
                    self.err('TypeError', 'unsupported operand types for {}: {} and {}'.format(sym, ta, tb), n)
        return Top(None, labels)

    def type_name(self, v, st):
        c = v.__class__
        if c is Const:
            return type(v.v).__name__
        if c is Num:
            return 'float' if v.k != 'int' else 'int'
        if c is Str:
            return 'str'
        if c is Bool:
            return 'bool'
        if c is Ref:
            o = self.get(st, v.oid)
            if o is None:
                return '?'
            if o.kind == 'inst':
                return o.cls.name
            return {'iter': 'iterator'}.get(o.kind, o.kind)
        if c in (Func, Bound):
            return 'function'
        if c is Cls:
            return 'type'
        return '?'

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        result = None
        for op, right_n in zip(n.ops, n.comparators):
            right = self.eval(right_n, st)
            if st.dead:
                return BOTTOM
            r = self.compare(op, left, right, n, st)
            if st.dead:
                return BOTTOM
            if result is None:
                result = r
            else:
                if result.__class__ is Const and result.v is True:
                    result = r
                elif result.__class__ is Const and result.v is False:
                    pass
                elif r.__class__ is Const and r.v is False:
                    result = r
                else:
                    c = getattr(result, 'cond', None), getattr(r, 'cond', None)
                    result = Bool(result.labels | r.labels, ('and',) + c if None not in c else None)
            left = right
        return result

    def compare(self, op, a, b, n, st):
        labels = a.labels | b.labels
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, st)
            if r is None:
                return Bool(labels)
            return Const(r if isinstance(op, ast.Is) else not r, labels)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, n, st)
            b_ = self.truth(r, None, st) if r.__class__ is not Bool else None
            if b_ is None:
                return Bool(labels)
            return Const(b_ if isinstance(op, ast.In) else not b_, labels)
        if a.__class__ is Union:
            return self.distribute(a, lambda m, s: self.compare(op, m, b, n, s), st)
        if b.__class__ is Union:
            return self.distribute(b, lambda m, s: self.compare(op, a, m, n, s), st)
        sym = CMP[op.__class__]
        a2, b2 = boolnum(a), boolnum(b)
        if is_numlike(a2) and is_numlike(b2):
            r = numeric.compare(sym, a2, b2, self.reporter(n))
            if r is not None:
                return r.with_labels(labels)
            if not algebra.GENERIC[0]:
                return Bool(labels)
            cond = gate.comparison(sym, numeric.as_num(a2).pv, numeric.as_num(b2).pv)
            r = gate.known(st.path, cond)
            return Bool(labels, cond) if r is None else Const(r, labels)
        if a.__class__ is Const and b.__class__ is Const:
            try:
                r = {'==': lambda: a.v == b.v, '!=': lambda: a.v != b.v, '<': lambda: a.v < b.v,
                     '<=': lambda: a.v <= b.v, '>': lambda: a.v > b.v, '>=': lambda: a.v >= b.v}[sym]()
                return Const(bool(r), labels)
            except TypeError:
                self.err('TypeError', '{!r} not supported between {} and {}'.format(
                    sym, type(a.v).__name__, type(b.v).__name__), n)
                return TOP
        oa = self.get(st, a.oid) if a.__class__ is Ref else None
        ob = self.get(st, b.oid) if b.__class__ is Ref else None
        name = CMPD[op.__class__]
        if algebra.GENERIC[0] and sym in ('<', '>', '<=', '>=') and oa is not None and ob is not None \
                and oa.kind == ob.kind == 'set' and None not in (oa.items, ob.items) and not oa.summary and not ob.summary:
            r = self.set_relation(sym, oa.items, ob.items, n, st)
            if r is not None:
                return Const(r, labels)
        if algebra.GENERIC[0] and 'ndarray' in (oa and oa.kind, ob and ob.kind):
            from . import models
            xs, ys = [models.nd_flat(self, v, st) if o is not None and o.kind in ('ndarray', 'list', 'tuple') else None
                      for v, o in ((a, oa), (b, ob))]
            if xs is not None and is_numlike(b2):
                ys = [b2]*len(xs)
            if ys is not None and is_numlike(a2):
                xs = [a2]*len(ys)
            if xs is not None and ys is not None and len(xs) == len(ys):
                rs = [self.compare(op, x, y, n, st) for x, y in zip(xs, ys)]
                if all(r.__class__ in (Const, Bool) for r in rs):
                    return self.alloc(st, n, HObj('ndarray', items=tuple(rs)))
            return Top(None, labels)
        if oa is not None and oa.kind == 'inst':
            c, f = oa.cls.lookup(name)
            if f is not None:
                return self.call(self.getattr(a, name, n, st), Args([b]), n, st)
            if sym == '!=':
                c, f = oa.cls.lookup('__eq__')
                if f is not None:
                    r = self.call(self.getattr(a, '__eq__', n, st), Args([b]), n, st)
                    t = self.truth(r, None, st)
                    return Bool(labels) if t is None else Const(not t, labels)
            if sym in ('<', '>', '<=', '>='):
                if ob is not None and ob.kind == 'inst':
                    c, f = ob.cls.lookup(CMPR[op.__class__])
                    if f is not None:
                        return self.call(self.getattr(b, CMPR[op.__class__], n, st), Args([a]), n, st)
                if not oa.cls.has_external and b.__class__ is not Top:
                    self.err('TypeError', '{!r} not supported between {} and {}'.format(
                        sym, oa.cls.name, self.type_name(b, st)), n)
        elif ob is not None and ob.kind == 'inst':
            c, f = ob.cls.lookup(CMPR[op.__class__])
            if f is not None:
                return self.call(self.getattr(b, CMPR[op.__class__], n, st), Args([a]), n, st)
        elif sym in ('<', '>', '<=', '>='):
            ta, tb = self.type_name(a, st), self.type_name(b, st)
            if 'NoneType' in (ta, tb) and ta != '?' and tb != '?':
                self.err('TypeError', '{!r} not supported between {} and {}'.format(sym, ta, tb), n)
        if sym in ('==', '!='):
            r = self.equal_values(a, b, st)
            if r is not None:
                return Const(r if sym == '==' else not r, labels)
        return Bool(labels)

    def equal_values(self, a, b, st):
        if a.__class__ is Enum and b.__class__ is Enum:
            return a == b
        if a.__class__ in (Cls, Func, Builtin, Mod) and b.__class__ in (Cls, Func, Builtin, Mod):
            return a == b
        ka, kb = self.type_name(a, st), self.type_name(b, st)
        if 'NoneType' in (ka, kb) and '?' not in (ka, kb) and ka != kb:
            return False
        if a.__class__ in (Str, Top) and a.__class__ is b.__class__ and a.sym and a.sym == b.sym:
            return True
        if {kind_of(a), kind_of(b)} in DIFFERENT_KINDS:
            return False
        if ka != kb and {ka, kb} & CONTAINERS and {ka, kb} <= CONTAINERS | {'str', 'int', 'float', 'bool'}:
            return False
        ra, rb = self.plain_sequence(a, st), self.plain_sequence(b, st)
        if ra is not None and rb is not None:
            if a.__class__ is Ref and a == b:
                return True
            if ra.kind != rb.kind or len(ra.items) != len(rb.items):
                return False
            rs = [self.item_equal(x, y, st) for x, y in zip(ra.items, rb.items)]
            return False if False in rs else None if None in rs else True
        if algebra.GENERIC[0]:
            oa = self.get(st, a.oid) if a.__class__ is Ref else None
            ob = self.get(st, b.oid) if b.__class__ is Ref else None
            if oa is not None and ob is not None and oa.kind == ob.kind and oa.kind in ('set', 'dict'):
                if a == b:
                    return True
                r = self.equal_sets(oa, ob, st) if oa.kind == 'set' else self.equal_dicts(oa, ob, st)
                if r is not None:
                    return r
        return self.equal_texts(a, b)

    def equal_sets(self, a, b, st):
        if None in (a.items, b.items) or a.summary or b.summary:
            return None
        p, q = [self.set_relation(x, a.items, b.items, None, st) for x in ('<=', '>=')]
        return None if None in (p, q) else p and q

    def equal_dicts(self, a, b, st):
        for o in (a, b):
            if o.summary or o.maybe or o.elem is not BOTTOM or not all(k.__class__ is Const for k in o.attrs):
                return None
        if {k.v for k in a.attrs} != {k.v for k in b.attrs}:
            return False
        rs = [self.item_equal(x, b.attrs[k], st) for k, x in a.attrs.items()]
        return False if False in rs else None if None in rs else True

    def item_equal(self, a, b, st):
        r = self.simple_equal(a, b, st)
        if r is None and algebra.GENERIC[0]:
            for x, y in ((a, b), (b, a)):
                o = self.get(st, x.oid) if x.__class__ is Ref else None
                if o is not None and o.kind == 'inst' and o.cls.lookup('__eq__')[1] is not None:
                    return self.truth(self.compare(ast.Eq(), x, y, None, st), None, st)
        return r

    def plain_sequence(self, v, st):
        o = self.get(st, v.oid) if v.__class__ is Ref else None
        return o if o is not None and o.kind in ('list', 'tuple') and o.items is not None and not o.summary else None

    def equal_texts(self, a, b):
        """Texts with known pieces; any text and any word can be equal to another one."""
        if not (strings.is_text(a) and strings.is_text(b)) or (a.__class__ is Const and b.__class__ is Const):
            return None
        pa, pb = strings.pieces(a), strings.pieces(b)
        if pa is None or pb is None:
            return None
        if strings.normal(pa) == strings.normal(pb):
            return True
        if algebra.GENERIC[0] and all(p.__class__ is str or p[0] in ('word', 'num') for p in pa + pb):
            r = strings.compare(pa, pb, lambda x, y: algebra.compare(x.pv, y.pv)[0])
            return {'different': False, 'equal': True}.get(r)
        return None

    def code_object(self, f, n, st):
        """The names of the parameters and of the variables of a function."""
        if isinstance(f.node, ast.Lambda):
            return TOP
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        local = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names and x.id not in local:
                local.append(x.id)
        nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Global, ast.Nonlocal))
                     for b in f.node.body for x in ast.walk(b))
        old = self.push_ctx('code')
        items = [Const(x) for x in names + local]
        t = self.alloc(st, n, HObj('tuple', elem=Str())) if nested and local else self.new_tuple(st, n, items)
        self.ctx = old
        return self.alloc(st, n, HObj('code', attrs={'co_varnames': t, 'co_argcount': Const(len(a.posonlyargs + a.args))}), 'code')

    def identical(self, a, b, st):
        if a.__class__ is Union or b.__class__ is Union:
            rs = {self.identical(x, y, st) for x in members(a) for y in members(b)}
            return rs.pop() if len(rs) == 1 else None
        if a.__class__ is Top or b.__class__ is Top:
            if a.__class__ is Top and b.__class__ is Top and a.sym and a.sym == b.sym:
                return True
            return None
        if a.__class__ is Const and b.__class__ is Const:
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return None if a.v == b.v and type(a.v) is type(b.v) else False
        if (a.__class__ is Const and a.v is None) or (b.__class__ is Const and b.v is None):
            o = b if a.__class__ is Const and a.v is None else a
            if o.__class__ is Ext:
                return None
            return False
        if a.__class__ is Ref and b.__class__ is Ref:
            if a != b:
                return False
            o = self.get(st, a.oid)
            return True if o is not None and not o.summary else None
        if isinstance(a, _Keyed) and isinstance(b, _Keyed):
            if a.__class__ in (Cls, Enum, Func, Mod) and a.__class__ is b.__class__:
                return a == b
            if a.__class__ is Cls and b.__class__ is Builtin or a.__class__ is Builtin and b.__class__ is Cls:
                return False
            if a.__class__ is Builtin and b.__class__ is Builtin:
                return a == b
            return None if a.__class__ is b.__class__ or Ext in (a.__class__, b.__class__) else False
        if {a.__class__, b.__class__} & {Ref, Cls, Func} and {a.__class__, b.__class__} & {Const, Num, Str, Bool}:
            return False
        return None

    def contains(self, c, x, n, st):
        if c.__class__ is Union:
            return self.distribute(c, lambda m, s: self.contains(m, x, n, s), st)
        if c.__class__ is Const:
            if type(c.v) is str:
                if x.__class__ is Const and type(x.v) is str:
                    return Const(x.v in c.v)
                if x.__class__ is Str and x.parts is not None and strings.never_in(x.parts, c.v):
                    return FALSE
                k = self.occurrences(c, x)
                if k is not None:
                    return Const(k > 0)
                if x.__class__ is Const or x.__class__ is Num:
                    self.err('TypeError', "'in <string>' requires a string as left operand", n)
                return Bool()
            if c.v is None or isinstance(c.v, (int, float)):
                self.err('TypeError', 'argument of type {} is not iterable'.format(type(c.v).__name__), n)
            return Bool()
        if c.__class__ is Str:
            k = self.occurrences(c, x)
            return Bool() if k is None else Const(k > 0)
        if c.__class__ is Cls and c.c.is_enum:
            return Bool()
        if c.__class__ is Ref:
            o = self.get(st, c.oid)
            if o is None:
                return Bool()
            if o.kind == 'inst':
                _, f = o.cls.lookup('__contains__')
                if f is not None:
                    return self.call(self.getattr(c, '__contains__', n, st), Args([x]), n, st)
                if not o.cls.has_external and o.cls.lookup('__iter__')[1] is None and \
                        o.cls.lookup('__getitem__')[1] is None and o.cls.lookup('__getattr__')[1] is None:
                    self.err('TypeError', 'argument of type {} is not iterable'.format(o.cls.name), n)
                return Bool()
            if o.kind == 'dict':
                xs = members(x)
                rs = set()
                for m in xs:
                    k = dict_key(m)
                    if k is None:
                        rs.add(None if (o.attrs or o.elem is not BOTTOM) else False)
                    elif k in o.attrs:
                        rs.add(None if k in o.maybe else True)
                    else:
                        rs.add(False if o.elem is BOTTOM and all_const(o.attrs) else None)
                r = rs.pop() if len(rs) == 1 else None
                return Bool() if r is None else Const(r)
            if o.items is not None and o.kind != 'ndarray':
                rs = []
                for m in members(x):
                    r = False
                    for i in o.items:
                        e = self.equal_elements(m, i, n, st)
                        if e is True:
                            r = True
                            break
                        if e is None:
                            r = None
                    rs.append(r)
                if len(set(rs)) == 1 and rs[0] is not None:
                    return Const(rs[0])
            return Bool()
        if c.__class__ is Num:
            self.err('TypeError', 'argument of type float is not iterable', n)
        return Bool()

    def occurrences(self, text, x):
        """How many times the text has the text *x*, in laws."""
        if not algebra.GENERIC[0] or not strings.is_text(text) or not strings.is_text(x):
            return None
        ps, qs = strings.pieces(text), strings.pieces(x)
        if ps is None or qs is None:
            return None
        return strings.occurrences(ps, qs, lambda p, q: algebra.compare(p.pv, q.pv)[0])

    def equal_elements(self, a, b, n, st):
        """Equality of two elements of a container."""
        e = self.simple_equal(a, b, st)
        if e is not None or not algebra.GENERIC[0]:
            return e
        if a.__class__ in (Union, Top) or b.__class__ in (Union, Top):
            return None
        oa = self.get(st, a.oid) if a.__class__ is Ref else None
        ob = self.get(st, b.oid) if b.__class__ is Ref else None
        for o in (oa, ob):
            if o is not None and (o.summary or o.kind != 'inst' or o.cls.has_external):
                return None
        if oa is None and ob is None:
            return self.equal_values(a, b, st)
        if all(o is None or o.cls.lookup('__eq__')[1] is None for o in (oa, ob)):
            return False
        r = self.compare(ast.Eq(), a, b, n, st)
        return self.truth(r, None, st)

    def set_items(self, items, n, st):
        """The elements of a set without duplicates, None when an equality is not decided."""
        if not algebra.GENERIC[0]:
            return tuple(dict.fromkeys(items)) if all(x.__class__ in (Const, Enum, Cls) for x in items) else None
        out = []
        for x in items:
            rs = [self.equal_elements(x, y, n, st) for y in out]
            if True in rs:
                continue
            if None in rs:
                return None
            out.append(x)
        return tuple(out)

    def set_operation(self, sym, a, b, n, st):
        """Elements of a union, an intersection or a difference, None when an equality is not decided."""
        def split(xs, ys):
            inside, outside = [], []
            for x in xs:
                rs = [self.equal_elements(x, y, n, st) for y in ys]
                if True in rs:
                    inside.append(x)
                elif None in rs:
                    return None
                else:
                    outside.append(x)
            return inside, outside
        p, q = split(a, b), split(b, a)
        if p is None or q is None:
            return None
        return tuple({'&': p[0], '-': p[1], '|': list(a) + q[1], '^': p[1] + q[1]}[sym])

    def set_relation(self, test, a, b, n, st):
        """Whether a set is a subset, a superset of another or disjoint from it, None when an equality is not decided."""
        def inside(xs, ys):
            out = []
            for x in xs:
                rs = [self.equal_elements(x, y, n, st) for y in ys]
                if True not in rs and None in rs:
                    return None
                out.append(True in rs)
            return out
        p, q = inside(a, b), inside(b, a)
        if p is None or q is None:
            return None
        return {'<=': all(p), '>=': all(q), '<': all(p) and not all(q), '>': all(q) and not all(p),
                'disjoint': not any(p)}[test]

    def new_set(self, st, n, items):
        distinct = self.set_items(items, n, st)
        if distinct is None:
            return self.alloc(st, n, HObj('set', elem=join_all(items)))
        return self.alloc(st, n, HObj('set', items=distinct))

    def simple_equal(self, a, b, st):
        if a.__class__ is Const and b.__class__ is Const:
            return a.v == b.v
        if a.__class__ in (Enum, Cls, Func, Builtin) and a.__class__ is b.__class__:
            return a == b
        if a == b and a.__class__ in (Top, Str, Num) and (a.sym or (a.__class__ is Str and a.parts)):
            return True
        if strings.is_text(a) and strings.is_text(b):
            return self.equal_texts(a, b)
        if a.__class__ is Ref and b.__class__ is Ref and a == b:
            return True
        if algebra.GENERIC[0] and is_numlike(a) and is_numlike(b):
            return algebra.decide('==', numeric.as_num(a).pv, numeric.as_num(b).pv)
        if Ref in (a.__class__, b.__class__):
            ra, rb = self.plain_sequence(a, st), self.plain_sequence(b, st)
            if ra is not None and rb is not None or (ra is None) != (rb is None) and Const in (a.__class__, b.__class__):
                return self.equal_values(a, b, st)
        return None

    def e_IfExp(self, n, st):
        t = self.eval(n.test, st)
        if st.dead:
            return BOTTOM
        b = self.truth(t, n.test, st)
        if b is not None:
            s0 = st.copy()
            self.assume(n.test, b, st)
            if st.dead:
                st.become(s0)
            return self.eval(n.body if b else n.orelse, st)
        other = st.copy()
        fr = self.frames[-1]
        lost = lost_test(t)
        fr.lost += lost
        self.fork(t, st, other)
        self.assume(n.test, True, st)
        v1 = self.eval(n.body, st) if not st.dead else BOTTOM
        self.assume(n.test, False, other)
        v2 = self.eval(n.orelse, other) if not other.dead else BOTTOM
        fr.lost -= lost
        out, (v,) = gate.merge(self, st, other, [(v1, v2)])
        if out is not st:
            st.become(out)
        return v

    def e_Tuple(self, n, st):
        return self.seq(n, 'tuple', st)

    def e_List(self, n, st):
        return self.seq(n, 'list', st)

    def e_Set(self, n, st):
        return self.seq(n, 'set', st)

    def seq(self, n, kind, st):
        items = []
        unknown = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                if st.dead:
                    return BOTTOM
                k, its = self.iterate(v, e, st)
                if k:
                    items.extend(its)
                else:
                    unknown = its if unknown is None else join(unknown, its)
            else:
                items.append(self.eval(e, st))
                if st.dead:
                    return BOTTOM
        if unknown is not None:
            return self.alloc(st, n, HObj(kind, elem=join(join_all(items), unknown)))
        if kind == 'set':
            return self.new_set(st, n, items)
        return self.alloc(st, n, HObj(kind, items=tuple(items)))

    def e_Dict(self, n, st):
        attrs = {}
        key = BOTTOM
        elem = BOTTOM
        maybe = set()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st)
                o = self.get(st, d.oid) if d.__class__ is Ref else None
                if o is not None and o.kind == 'dict':
                    attrs.update(o.attrs)
                    maybe |= o.maybe
                    elem = join(elem, o.elem)
                    key = join(key, o.key)
                else:
                    elem = TOP
                    key = TOP
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            if st.dead:
                return BOTTOM
            dk = dict_key(kv)
            if dk is None:
                key = join(key, kv)
                elem = join(elem, vv)
            else:
                attrs[dk] = vv
        return self.alloc(st, n, HObj('dict', attrs=attrs, key=key, elem=elem, maybe=frozenset(maybe)))

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        if st.dead:
            return BOTTOM
        i = self.eval_index(n.slice, st)
        if st.dead:
            return BOTTOM
        return self.getitem(o, i, n, st)

    def eval_index(self, n, st):
        if isinstance(n, ast.Slice):
            return SliceV(*[self.eval(x, st) if x is not None else NONE for x in (n.lower, n.upper, n.step)])
        return self.eval(n, st)

    def e_Slice(self, n, st):
        return self.eval_index(n, st)

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        f = self.finfo(n, fr.module, None, (fr.fn.qualname + '.') if fr.fn is not None else '')
        defaults = tuple(self.eval(d, st) for d in n.args.defaults)
        kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        closure = Closure(st.env, fr.closure, fr)
        for scope in fr.comps:
            closure = Closure({k: v for k, v in st.env.items() if k in scope.targets}, closure, scope)
        return Func(f, defaults, kwdefaults, closure)

    def str_item(self, o, i):
        """Indices and slices that stay within the literal ends of a text."""
        ps = o.parts
        if ps is None:
            return Str(None, o.labels)
        first = ps[0] if ps[0].__class__ is str else ''
        last = ps[-1] if ps[-1].__class__ is str else ''
        if i.__class__ is Const and type(i.v) is int:
            if 0 <= i.v < len(first):
                return Const(first[i.v], o.labels)
            if i.v < 0 and -i.v <= len(last):
                return Const(last[i.v], o.labels)
        if i.__class__ is SliceV and i.const():
            lo, hi, step = i.values()
            if step in (None, 1) and isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))):
                ps = list(ps)
                lo = lo or 0
                if hi is None and lo < 0 and -lo <= len(last):
                    return Const(last[lo:], o.labels)
                if hi is not None and 0 <= lo <= hi <= len(first):
                    return Const(first[lo:hi], o.labels)
                if 0 <= lo <= len(first) and (hi is None or (hi < 0 and -hi <= len(last))):
                    if len(ps) > 1 or lo == 0:
                        if hi is not None:
                            ps[-1] = last[:hi]
                        if lo:
                            ps[0] = first[lo:]
                        return strings.build(ps, o.labels)
        return Str(None, o.labels)

    def percent(self, fmt, vals, n, st):
        """The pieces of ``fmt % vals``, or None."""
        out = []
        vals = list(vals)
        pos = 0
        for m in PERCENT.finditer(fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            if not vals:
                self.err('TypeError', 'not enough arguments for format string', n)
                return None
            v, spec, code = vals.pop(0), m.group(1), m.group(2)
            if code in 'sr':
                ps = strings.piece_of(self.to_str(v, n, st) if code == 's' else v, spec, 'r' if code == 'r' else None)
            elif code in 'diu':
                ps = strings.piece_of(v, spec) if v.__class__ is Const and type(v.v) is int or (
                    v.__class__ is Num and v.k == 'int') else None
            else:
                ps = strings.piece_of(v, spec + code) if is_numlike(v) else None
            if ps is None:
                return None
            out.extend(ps)
        out.append(fmt[pos:])
        if vals:
            return None
        return out

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        if not st.dead:
            st.env[n.target.id] = v
        return v

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_JoinedStr(self, n, st):
        labels = NOLABELS
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps = (v.value,)
            else:
                ps, more = self.formatted(v, st)
                if st.dead:
                    return BOTTOM
                labels = labels | more
            parts = parts + list(ps) if ps is not None and parts is not None else None
        return strings.build(parts, labels)

    def formatted(self, v, st):
        """Pieces and labels of a replacement field of a f-string."""
        x = self.eval(v.value, st)
        if st.dead:
            return None, NOLABELS
        labels = frozenset().union(*[m.labels for m in members(x)])
        spec = Const('')
        if v.format_spec is not None:
            spec = self.eval(v.format_spec, st)
            if st.dead:
                return None, labels
        text = self.to_str(x, v, st) if v.conversion != 114 or x.__class__ is Ref else x
        if text.__class__ is BOTTOM.__class__ or spec.__class__ is not Const:
            return None, labels
        if is_numlike(x) and v.conversion == -1:
            text = x
        return strings.piece_of(text, spec.v, 'r' if v.conversion == 114 and x.__class__ is not Ref else None), labels

    def to_str(self, x, n, st):
        """str(x): evaluates __str__/__repr__ of instances."""
        if x.__class__ is Union:
            return self.distribute(x, lambda m, s: self.to_str(m, n, s), st)
        if x.__class__ is Ref:
            o = self.get(st, x.oid)
            if o is not None and o.kind == 'inst':
                for name in ('__str__', '__repr__'):
                    c, f = o.cls.lookup(name)
                    if f is not None:
                        return self.call(self.getattr(x, name, n, st), Args(), n, st)
                return Str()
        if x.__class__ is Const:
            if isinstance(x.v, (str, int, float)) or x.v is None:
                return Const(str(x.v), x.labels)
        if x.__class__ is Str:
            return x
        if x.__class__ is Enum:
            f = x.c.lookup('__str__')[1]
            if f is not None:
                return self.call(self.getattr(x, '__str__', n, st), Args(), n, st)
            if 'enum.Enum' in x.c.mro:
                return Const('{}.{}'.format(x.c.name, x.name))
            return Str()
        if x.__class__ is Num and x.pv is not None:
            return strings.build(strings.number(x), x.labels)
        sym = None
        if x.__class__ in (Num, Top) and x.sym:
            sym = 'str:' + x.sym
        return Str(sym, x.labels)

    def e_FormattedValue(self, n, st):
        ps, labels = self.formatted(n, st)
        return strings.build(ps, labels) if not st.dead else BOTTOM

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        fr = self.frames[-1]
        if not st.dead:
            fr.yields.append(v)
            if fr.fuzzy:
                fr.yields_exact = False
        return NONE if not st.dead else BOTTOM

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return BOTTOM
        fr = self.frames[-1]
        k, items = self.iterate(v, n, st)
        if k:
            fr.yields.extend(items)
            if fr.fuzzy:
                fr.yields_exact = False
        else:
            fr.yields.append(items)
            fr.yields_exact = False
        return TOP

    def e_Await(self, n, st):
        self.eval(n.value, st)
        return TOP

    # -- comprehensions

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'iter')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind, until=None):
        """The elements of a comprehension; those after the one whose truth is *until* are not computed."""
        out = []
        exact = [True]
        stopped = []
        saved = dict(st.env)
        targets = set()
        for g in n.generators:
            targets |= names_of(g.target)
        scope = CompScope(targets)
        fr = self.frames[-1]
        fr.comps.append(scope)
        try:
            return self.comp_in(n, st, kind, until, out, exact, stopped, saved, targets)
        finally:
            fr.comps.pop()
            scope.env_now = {k: v for k, v in scope.last.items() if k in targets}

    def comp_in(self, n, st, kind, until, out, exact, stopped, saved, targets):
        fr = self.frames[-1]
        last = fr.comps[-1].last
        # in a class body, a comprehension sees the function/module scope only; tolerated

        def emit(s):
            if kind == 'dict':
                k = self.eval(n.key, s)
                v = self.eval(n.value, s)
                if not s.dead:
                    out.append((k, v))
            else:
                v = self.eval(n.elt, s)
                if not s.dead:
                    out.append(v)
                    if until is not None and exact[0] and (until == 'first' or self.truth(v, n.elt, s) is until):
                        stopped.append(True)
            last.update(s.env)

        def gen(i, s):
            if i == len(n.generators):
                emit(s)
                return
            g = n.generators[i]
            it = self.eval(g.iter, s)
            if s.dead:
                return
            k, items = self.iterate(it, g.iter, s)
            if s.dead:
                return
            if k and len(items) <= MAX_ITEMS:
                for idx, item in enumerate(items):
                    old = self.push_ctx(('comp', id(g), idx))
                    self.assign(g.target, item, s, n)
                    self.cond(g.ifs, s, lambda ss: gen(i + 1, ss), exact)
                    self.ctx = old
                    if s.dead or stopped:
                        return
            else:
                exact[0] = False
                e = join_all(items) if k else items
                if e is BOTTOM:
                    e = TOP
                fr.fuzzy += 1
                before = s.copy()
                self.assign(g.target, e, s, n)
                self.cond(g.ifs, s, lambda ss: gen(i + 1, ss), exact)
                fr.fuzzy -= 1
                s.become(self.join_states(before, s))

        gen(0, st)
        if st.dead:
            return BOTTOM
        # comprehension variables are local to it
        env = st.env
        for name in list(env):
            if name not in saved and name in targets:
                del env[name]
        for name, v in saved.items():
            if name in targets:
                env[name] = v
        if kind == 'dict':
            attrs = {}
            key = BOTTOM
            elem = BOTTOM
            maybe = set()
            for k, v in out:
                dk = dict_key(k)
                if dk is None:
                    key = join(key, k)
                    elem = join(elem, v)
                else:
                    attrs[dk] = v if dk not in attrs or exact[0] else join(attrs[dk], v)
                    if not exact[0]:
                        maybe.add(dk)
            if not exact[0] and not out:
                elem = TOP
            return self.alloc(st, n, HObj('dict', attrs=attrs, key=key, elem=elem, maybe=frozenset(maybe)))
        if exact[0]:
            if kind == 'set':
                return self.new_set(st, n, out)
            return self.alloc(st, n, HObj(kind, items=tuple(out)))
        return self.alloc(st, n, HObj(kind, elem=join_all(out)))

    def cond(self, ifs, s, k, exact):
        for c in ifs:
            t = self.eval(c, s)
            if s.dead:
                return
            b = self.truth(t, c, s)
            if b is False:
                return
            if b is None:
                exact[0] = False
                other = s.copy()
                self.assume(c, True, s)
                rest = ifs[ifs.index(c) + 1:]
                if not s.dead:
                    self.cond(rest, s, k, exact)
                s.become(self.join_states(s, other))
                return
        k(s)

    ################################################################################################
    # truth and narrowing

    def truth(self, v, n, st):
        """True, False or None (unknown)."""
        c = v.__class__
        if c is Const:
            return bool(v.v)
        if c is Bool and v.cond is not None:
            return gate.known(st.path, v.cond)
        if c is Num and algebra.GENERIC[0] and v.pv is not None:
            r = algebra.decide('!=', v.pv, algebra.ZERO)
            return r if r is not None else gate.known(st.path, gate.comparison('!=', v.pv, algebra.ZERO))
        if c is Str:
            return True if v.parts and any(p.__class__ is str or p[0] != 'sym' for p in v.parts) else None
        if c in (Cls, Func, Mod, Bound, Enum, Builtin, BBound, Prop):
            return True
        if c is Union:
            rs = {self.truth(m, n, st) for m in members(v)}
            return rs.pop() if len(rs) == 1 else None
        if c is Ref:
            o = self.get(st, v.oid)
            if o is None:
                return None
            if o.kind == 'inst':
                for name in ('__bool__', '__len__'):
                    cl, f = o.cls.lookup(name)
                    if f is not None:
                        r = self.call(self.getattr(v, name, n, st), Args(), n, st)
                        if r is BOTTOM:
                            return None
                        return self.truth(r, n, st)
                return True if not o.cls.has_external else None
            if o.kind in ('list', 'tuple', 'set', 'str'):
                if o.items is not None:
                    return bool(o.items)
                return None
            if o.kind == 'dict':
                if not o.attrs and o.elem is BOTTOM:
                    return False
                if any(k not in o.maybe for k in o.attrs):
                    return True
                return None
            if o.kind in ('iter', 'file', 'lock'):
                return True
            return None
        return None

    def assume(self, n, truth, st):
        """Refine the state with the outcome of a test."""
        if st.dead or n is None:
            return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.assume(n.operand, not truth, st)
        elif isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            if is_and == truth:
                for v in n.values:
                    self.assume(v, truth, st)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            left, right = n.left, n.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                positive = isinstance(op, (ast.Is, ast.Eq)) == truth
                rc = self.const_of(right, st)
                if rc is not None:
                    self.refine(left, lambda v: filter_is(v, rc, positive, isinstance(op, (ast.Is, ast.IsNot))), st)
                else:
                    lc = self.const_of(left, st)
                    if lc is not None:
                        self.refine(right, lambda v: filter_is(v, lc, positive, isinstance(op, (ast.Is, ast.IsNot))), st)
            elif isinstance(op, (ast.In, ast.NotIn)):
                positive = isinstance(op, ast.In) == truth
                if positive and isinstance(right, (ast.Tuple, ast.List, ast.Set)):
                    cs = [self.const_of(e, st) for e in right.elts]
                    if all(c is not None for c in cs):
                        self.refine(left, lambda v: make_union(
                            [m for m in members(v) if m.__class__ not in (Const, Enum) or any(
                                strip(m) == strip(c) for c in cs)] or [v]), st)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2:
            sub = st.copy()
            self.sink.append([])
            types = self.eval(n.args[1], sub)
            self.sink.pop()

            def f(v):
                keep = []
                for m in members(v):
                    r = self.isinstance(m, types, st)
                    if r is None or r == truth:
                        keep.append(m)
                return make_union(keep) if keep else BOTTOM
            self.refine(n.args[0], f, st)
            if truth:
                # a Top known to be an instance of one built-in type
                def g(v):
                    if v.__class__ is Top and types.__class__ is Builtin:
                        if types.name == 'str':
                            return v
                        if types.name in ('int', 'float'):
                            return Num(types.name, sym=v.sym, labels=v.labels)
                    return v
                self.refine(n.args[0], g, st)
        elif isinstance(n, (ast.Name, ast.Attribute)):
            self.refine(n, lambda v: narrow_truth(v, truth, self, st), st)
        elif isinstance(n, ast.NamedExpr):
            self.refine(n.target, lambda v: narrow_truth(v, truth, self, st), st)

    def const_of(self, n, st):
        if isinstance(n, ast.Constant):
            return Const(n.value)
        if isinstance(n, ast.Name):
            v = st.env.get(n.id)
            return v if v is not None and v.__class__ in (Const, Enum, Cls) else None
        if isinstance(n, ast.Attribute):
            sub = st.copy()
            self.sink.append([])
            v = self.eval(n, sub)
            self.sink.pop()
            return v if v.__class__ in (Enum, Const, Cls) else None
        return None

    def refine(self, n, f, st):
        if isinstance(n, ast.Name):
            v = st.env.get(n.id)
            if v is None:
                return
            r = f(v)
            if r is BOTTOM:
                st.dead = True
            else:
                st.env[n.id] = r
        elif isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name):
                o = st.env.get(n.value.id)
                if o is not None and o.__class__ is Ref:
                    ob = self.get(st, o.oid)
                    if ob is not None and ob.kind == 'inst' and n.attr in ob.attrs and not ob.summary and \
                            ob.cls.lookup(n.attr)[1].__class__ is not Prop:
                        r = f(ob.attrs[n.attr])
                        if r is BOTTOM:
                            st.dead = True
                        elif r is not ob.attrs[n.attr]:
                            a = dict(ob.attrs)
                            a[n.attr] = r
                            self.put(st, o.oid, ob.replace(attrs=a))
        elif isinstance(n, ast.NamedExpr):
            self.refine(n.target, f, st)

    def isinstance(self, v, types, st):
        """True, False, None."""
        if types.__class__ is Ref:
            k, items = self.iterate(types, None, st)
            if not k:
                return None
            rs = [self.isinstance(v, t, st) for t in items]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if v.__class__ is Union:
            rs = {self.isinstance(m, types, st) for m in members(v)}
            return rs.pop() if len(rs) == 1 else None
        if types.__class__ is Union:
            return None
        if v.__class__ is Top:
            return None
        if v.__class__ is SliceV:
            return types.__class__ is Builtin and types.name in ('slice', 'object')
        if types.__class__ is Cls:
            if v.__class__ is Ref:
                o = self.get(st, v.oid)
                if o is None or o.kind == 'top':
                    return None
                if o.kind == 'inst':
                    return o.cls.isa(types.c) or (None if '?' in o.cls.mro else False)
                return False
            if v.__class__ is Enum:
                return v.c.isa(types.c)
            if v.__class__ is Ext:
                return None
            if v.__class__ is Cls and types.c.mro and any(isinstance(m, str) and m.endswith('type') for m in types.c.mro):
                return v.c.meta is not None and v.c.meta.__class__ is Cls and v.c.meta.c.isa(types.c)
            return False
        if types.__class__ is Builtin:
            t = types.name
            name = self.type_name(v, st)
            if v.__class__ is Num and v.k == 'num' and t in ('int', 'float'):
                return None
            if v.__class__ in (Const, Num, Str, Bool):
                if name == t:
                    return True
                if name == 'bool' and t == 'int':
                    return True
                if t == 'object':
                    return True
                return False
            if v.__class__ is Ref:
                o = self.get(st, v.oid)
                if o is None or o.kind in ('top',):
                    return None
                if t == 'object':
                    return True
                if o.kind == 'inst':
                    if ('builtins.' + t) in o.cls.mro:
                        return True
                    return None if o.cls.has_external else False
                return {'iter': 'iterator'}.get(o.kind, o.kind) == t
            if t == 'type':
                return v.__class__ is Cls
            if v.__class__ in (Cls, Func, Bound, Enum, Mod, Builtin):
                return False
            return None
        if types.__class__ is Ext:
            abc = self._isinstance_abc(v, types.path, st)
            if abc is not None:
                return abc
            if v.__class__ in (Const, Num, Str, Bool, Cls, Func, Enum):
                p = types.path
                if p in ('numpy.ndarray', 'pathlib.Path', 'decimal.Decimal', 'datetime.date', 'datetime.datetime'):
                    return False
                return None if 'collections' in p or 'numbers' in p or 'typing' in p else False
            if v.__class__ is Ref:
                o = self.get(st, v.oid)
                if o is None or o.kind in ('top', 'ext'):
                    return None
                if o.kind == 'ndarray':
                    return types.path == 'numpy.ndarray' or None
                if o.kind == 'inst':
                    if types.path in o.cls.mro:
                        return True
                    return None if o.cls.has_external or 'collections' in types.path or 'typing' in types.path else False
                return None if 'collections' in types.path or 'typing' in types.path else False
        return None

    def _index_is_certain(self, n, st):
        """A computed index may depend on the undecided tests that lead to it; a literal one does not."""
        if algebra.GENERIC[0]:
            return not st.path
        s = n.slice if n.__class__ is ast.Subscript else None
        return s is None or not any(x.__class__ is ast.Name for x in ast.walk(s))

    ABCS = {
        'Iterable': ('__iter__',), 'Sized': ('__len__',), 'Container': ('__contains__',), 'Callable': ('__call__',),
        'Hashable': ('__hash__',), 'Iterator': ('__iter__', '__next__'),
        'Sequence': None, 'MutableSequence': None, 'Mapping': None, 'MutableMapping': None, 'Set': None,
    }
    ABC_KINDS = {
        'Iterable': ('list', 'tuple', 'dict', 'set', 'iter', 'ndarray', 'str'),
        'Sized': ('list', 'tuple', 'dict', 'set', 'ndarray', 'str'),
        'Container': ('list', 'tuple', 'dict', 'set', 'ndarray', 'str'),
        'Iterator': ('iter',), 'Callable': (), 'Hashable': ('str', 'tuple', 'int', 'float', 'bool'),
        'Sequence': ('list', 'tuple', 'str'), 'MutableSequence': ('list',), 'Mapping': ('dict',),
        'MutableMapping': ('dict',), 'Set': ('set',),
    }

    def _isinstance_abc(self, v, path, st):
        mod, _, name = path.rpartition('.')
        if mod not in ('collections', 'collections.abc', 'typing') or name not in self.ABCS:
            return None
        kinds = self.ABC_KINDS[name]
        if v.__class__ in (Const, Num, Str, Bool):
            t = self.type_name(v, st)
            return None if name == 'Hashable' else t in kinds
        if v.__class__ is Ref:
            o = self.get(st, v.oid)
            if o is None or o.kind in ('top', 'ext'):
                return None
            if o.kind == 'inst':
                if any(m == path or isinstance(m, str) and m.startswith('collections.abc.') and
                       m.rpartition('.')[2] == name for m in o.cls.mro):
                    return True
                if o.cls.has_external:
                    return None
                need = self.ABCS[name]
                if need is None:
                    return False
                return all(o.cls.lookup(x) is not None for x in need)
            if o.kind in ('list', 'tuple', 'dict', 'set', 'iter', 'ndarray'):
                if name in ('Hashable', 'Callable'):
                    return None
                return o.kind in kinds
        return None

    ################################################################################################
    # distribution over alternatives

    def distribute(self, v, fn, st):
        ms = members(v)
        if len(ms) == 1:
            return fn(ms[0], st)
        if not ms:
            st.dead = True
            return BOTTOM
        good = []
        bad = []
        for m in ms:
            s = st.copy()
            self.sink.append([])
            r = fn(m, s)
            errs = self.sink.pop()
            soft = [e for e in errs if e[0] not in TYPE_ERRORS]
            for e in soft:
                self.sink[-1].append(e)
            hard = [e for e in errs if e[0] in TYPE_ERRORS]
            (bad if hard else good).append((r, s, hard))
        if not good:
            for e in bad[0][2]:
                self.sink[-1].append(e)
            good = bad
        out = None
        val = BOTTOM
        for r, s, _ in good:
            val = join(val, r)
            if not s.dead:
                out = s if out is None else self.join_states(out, s)
        if out is None:
            st.dead = True
            return BOTTOM
        st.become(out)
        return val

    ################################################################################################
    # attributes

    def write(self, st, oid, old, field, value, node, new):
        for o in self.observers:
            o.on_write(self, st, oid, old, field, value, node)
        cur = self.get(st, oid)
        if old.summary:
            new = join_obj(cur, new).replace(summary=True)
        st.heap[oid] = new

    def may_lack(self, o, name, st):
        ob = self.get(st, o.oid)
        return ob is None or ob.kind == 'top' or ob.kind == 'inst' and (
            ob.open or name in ob.maybe or ob.cls.has_external or ob.cls.lookup('__getattr__')[1] is not None)

    def getattr(self, o, name, n, st, default=None):
        c = o.__class__
        if self.strict and (c in (Top, Ext) or c is Ref and self.may_lack(o, name, st)):
            self.doubts.append('AttributeError')
        if c is Union:
            return self.distribute(o, lambda m, s: self.getattr(m, name, n, s, default), st)
        if c is Ref:
            ob = self.get(st, o.oid)
            if ob is None:
                return TOP
            if ob.kind == 'inst':
                return self.inst_getattr(o, ob, name, n, st, default)
            if ob.kind == 'code':
                return ob.attrs.get(name, TOP)
            return self.builtin_getattr(o, ob, name, n, st, default)
        if c is SliceV and name in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.c}[name]
        if c is Top:
            return Top(None, o.labels)
        if c is Cls:
            return self.cls_getattr(o, name, n, st, default)
        if c is Super:
            return self.super_getattr(o, name, n, st)
        if c is Mod:
            if o.name in self.globals:
                env = self.module_env(o.name)
                if name in env:
                    return env[name]
                if name == '__dict__':
                    return self.alloc(st, n, HObj('dict', attrs={Const(k): v for k, v in env.items()}))
            sub = o.name + '.' + name
            if sub in self.globals or any(m == sub or m.startswith(sub + '.') for m in self.program.modules):
                if sub in self.program.modules:
                    self.load_module(sub, st)
                return Mod(sub)
            if default is not None:
                return default
            if name.startswith('__'):
                return TOP
            return self.lacks('module {} has no attribute {!r}'.format(o.name, name), n, st)
        if c is Ext:
            top = o.path.split('.')[0]
            if top in STDLIB_CHECK and o.path == top:
                try:
                    if not hasattr(importlib.import_module(top), name):
                        return self.lacks('module {} has no attribute {!r}'.format(top, name), n, st)
                except ImportError:
                    pass
            return self.ext_value(o.path + '.' + name)
        if c is Const:
            if o.v is None:
                if default is not None:
                    return default
                if name in ('__class__', '__doc__'):
                    return TOP
                return self.lacks("None has no attribute {!r}".format(name), n, st)
            if name == '__class__':
                return Builtin(type(o.v).__name__)
            if hasattr(type(o.v), name) or hasattr(o.v, name):
                if isinstance(o.v, (int, float)) and name in ('real',):
                    return o
                return BBound(o, name)
            if default is not None:
                return default
            return self.lacks('{} has no attribute {!r}'.format(type(o.v).__name__, name), n, st)
        if c in (Str, Num, Bool):
            t = {Str: str, Num: float if (c is Num and o.k != 'int') else int, Bool: bool}[c]
            if hasattr(t, name):
                return BBound(o, name)
            if c is Num and name in ('dtype', 'item', 'tolist', 'shape', 'sqrt', 'astype', 'size'):
                return TOP
            if default is not None:
                return default
            return self.lacks('{} has no attribute {!r}'.format(t.__name__, name), n, st)
        if c is Enum:
            if name == 'name':
                return Const(o.name)
            if name == 'value':
                if o.name in o.c.values:
                    return Const(o.c.values[o.name])
                return Num('int', sym='enum:{}.{}'.format(o.c.name, o.name))
            cl, f = o.c.lookup(name)
            if f is not None:
                return self.bind(f, o, cl, n, st)
            if name in ('__class__',):
                return Cls(o.c)
            if name.startswith('__'):
                return TOP
            return self.lacks('{} member has no attribute {!r}'.format(o.c.name, name), n, st)
        if c is Func or c is Bound:
            f = o if c is Func else o.func
            if name == '__name__' and f.__class__ is Func:
                return Const(f.f.name)
            if name == '__code__' and f.__class__ is Func:
                return self.code_object(f.f, n, st)
            if name.startswith('__') or default is not None:
                return default if default is not None else TOP
            if c is Bound and name in ('__func__', '__self__'):
                return TOP
            return self.lacks('function {} has no attribute {!r}'.format(
                f.f.qualname if f.__class__ is Func else '', name), n, st)
        if c is BBound:
            if name.startswith('__'):
                return TOP
            return self.lacks('method {} has no attribute {!r}'.format(o.name, name), n, st)
        if c is Builtin:
            if name == '__name__':
                return Const(o.name)
            t = getattr(_py_builtins, o.name, None)
            if t is not None and not hasattr(t, name):
                if default is not None:
                    return default
                return self.lacks('{} has no attribute {!r}'.format(o.name, name), n, st)
            return BBound(o, name)
        return TOP

    def inst_getattr(self, ref, ob, name, n, st, default=None):
        cl, f = ob.cls.lookup(name)
        if f.__class__ is Prop:
            r = self.call(f.fget, Args([ref]), n, st, recv=ref)
            if r is BOTTOM and not st.dead:
                r = TOP
            return r
        v = ob.attrs.get(name)
        for o in self.observers:
            o.on_read(self, st, ref.oid, ob, name, n)
        if v is not None:
            return v
        if name in self.class_names:
            v = self.class_attr(ob.cls, name, st)
            if v is not None:
                return v
        if f is not None:
            return self.bind(f, ref, cl, n, st)
        if name == '__class__':
            return Cls(ob.cls)
        if name == '__dict__':
            return self.alloc(st, n, HObj('dict', attrs={Const(k): x for k, x in ob.attrs.items()},
                                          maybe=frozenset(Const(k) for k in ob.maybe)))
        cl, g = ob.cls.lookup('__getattr__')
        if g is not None:
            return self.call(self.bind(g, ref, cl, n, st), Args([Const(name)]), n, st)
        if name.startswith('__') and name.endswith('__'):
            return TOP
        if ob.cls.has_external:
            return TOP
        if ob.open and self.stored_somewhere(ob.cls, name):
            return TOP
        if default is not None:
            return default
        return self.lacks('{} object has no attribute {!r}'.format(ob.cls.name, name), n, st)

    def stored_somewhere(self, cls, name):
        """Is *name* stored as an attribute by a method of the class, its bases or its subclasses?"""
        if self.attr_stores is None:
            self.attr_stores = {}
            for c in self.classes.values():
                s = set()
                for x in ast.walk(c.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        s.add(x.attr)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                        s.add('*')
                self.attr_stores[c] = s
        for c in list(cls.mro) + cls.sub:
            if isinstance(c, ClassObj):
                s = self.attr_stores.get(c, ())
                if name in s or '*' in s:
                    return True
        return False

    def bind(self, f, recv, cl, n, st):
        if f.__class__ is Func:
            if f.kind == 'static':
                return f
            if f.kind == 'class':
                if recv.__class__ is Ref:
                    recv = Cls(self.get(st, recv.oid).cls)
                elif recv.__class__ is Enum:
                    recv = Cls(recv.c)
            return Bound(recv, f)
        if f.__class__ is Prop:
            return self.call(f.fget, Args([recv]), n, st, recv=recv)
        return f

    def class_attr(self, c, name, st):
        """The class attribute *name* as it was set by the analysed law, None when it was not."""
        for k in c.mro:
            if k.__class__ is ClassObj:
                o = self.get(st, ('class', id(k)))
                if o is not None and name in o.attrs:
                    return o.attrs[name]
                if name in k.ns:
                    return None
        return None

    def cls_getattr(self, o, name, n, st, default=None):
        c = o.c
        if name in self.class_names:
            v = self.class_attr(c, name, st)
            if v is not None:
                return v
        cl, f = c.lookup(name)
        if f is not None:
            if f.__class__ is Func and f.kind == 'class':
                return Bound(o, f)
            return f
        if name == '__name__' or name == '__qualname__':
            return Const(c.name)
        if name == '__module__':
            return Const(c.module)
        if name == '__mro__':
            return self.new_tuple(st, n, [Cls(x) if isinstance(x, ClassObj) else Ext(x) for x in c.mro
                                          if x != 'object'] + [Builtin('object')])
        if name == '__bases__':
            return self.new_tuple(st, n, [Cls(x.c) if x.__class__ is Cls else x for x in c.bases])
        if name == '__dict__':
            return self.alloc(st, n, HObj('dict', attrs={Const(k): v for k, v in c.ns.items()}))
        if name == '__doc__':
            return TOP
        if name == '__members__':
            return self.alloc(st, n, HObj('dict', attrs={Const(k): Enum(c, k) for k in c.members}))
        if c.meta is not None and c.meta.__class__ is Cls:
            cl, f = c.meta.c.lookup(name)
            if f is not None:
                return self.bind(f, o, cl, n, st)
        if name in ('__init__', '__repr__', '__str__', '__eq__', '__hash__', '__setattr__', '__getattribute__', '__new__',
                    '__init_subclass__', '__class__', '__subclasses__', '__call__'):
            return BBound(o, name)
        if c.has_external:
            return TOP
        if default is not None:
            return default
        return self.lacks('class {} has no attribute {!r}'.format(c.name, name), n, st)

    def super_getattr(self, o, name, n, st):
        recv = o.recv
        if recv.__class__ is Ref:
            ob = self.get(st, recv.oid)
            cls = ob.cls if ob is not None and ob.kind == 'inst' else None
        elif recv.__class__ is Cls:
            cls = recv.c
        elif recv.__class__ is Enum:
            cls = recv.c
        else:
            cls = None
        if cls is None:
            return TOP
        mro = cls.mro
        if o.c in mro:
            rest = mro[mro.index(o.c) + 1:]
        else:
            rest = o.c.mro[1:] if recv.__class__ is not Cls else []
            if recv.__class__ is Cls and recv.c.meta is not None:
                rest = o.c.mro[1:]
        external = False
        for c in rest:
            if isinstance(c, str):
                external = True
                continue
            if name in c.ns:
                f = c.ns[name]
                if f.__class__ is Func:
                    if f.kind == 'static':
                        return f
                    if f.kind == 'class' and recv.__class__ is Ref:
                        return Bound(Cls(cls), f)
                    return Bound(recv, f)
                if f.__class__ is Prop:
                    return self.call(f.fget, Args([recv]), n, st, recv=recv)
                return f
        if name == '__call__' and recv.__class__ is Cls:
            return BBound(recv, 'type.__call__')
        if name in ('__init__', '__init_subclass__', '__setattr__', '__getattribute__', '__new__', '__repr__', '__str__', '__eq__', '__hash__', '__call__', '__del__'):
            return BBound(recv, 'object.' + name) if not external else TOP
        if external:
            return TOP
        return self.lacks("'super' object of {} has no attribute {!r}".format(cls.name, name), n, st)

    def setattr(self, o, name, v, n, st):
        c = o.__class__
        if c is Union:
            self.distribute(o, lambda m, s: (self.setattr(m, name, v, n, s), NONE)[1], st)
            return
        if c is Ref:
            ob = self.get(st, o.oid)
            if ob is not None and ob.kind == 'ndarray' and name == 'shape':
                from . import models
                models.nd_reshape(self, o, ob, v, n, st)
                return
            if ob is None or ob.kind != 'inst':
                return
            cl, f = ob.cls.lookup(name)
            if f.__class__ is Prop:
                if f.fset is None:
                    self.err('AttributeError', "property {!r} of {} has no setter".format(name, ob.cls.name), n)
                else:
                    self.call(f.fset, Args([o, v]), n, st, recv=o)
                return
            cl, g = ob.cls.lookup('__setattr__')
            if g is not None:
                self.call(Bound(o, g), Args([Const(name), v]), n, st)
                return
            self.raw_setattr(o, ob, name, v, n, st)
            return
        if c is Cls:
            for ob in self.observers:
                ob.on_clsattr(self, st, o.c, name, v, n)
            if not self.in_entry:
                o.c.ns[name] = v
            else:
                # outside laws flow-insensitive: the value of the class definition
                if algebra.GENERIC[0]:
                    oid = ('class', id(o.c))
                    ob = self.get(st, oid)
                    if ob is None:
                        ob = self.base[oid] = HObj('inst', cls=o.c)
                    cur = o.c.lookup(name)[1]
                    if name not in ob.attrs and cur is not None:
                        b = self.base[oid]
                        self.base[oid] = b.replace(attrs=dict(b.attrs, **{name: cur}))
                    st.heap[oid] = ob.replace(attrs=dict(ob.attrs, **{name: v}))
                    self.class_names.add(name)
            return
        if c is Const and o.v is None:
            self.err('AttributeError', 'None has no attribute {!r}'.format(name), n)
        elif c in (Num, Str, Bool):
            self.err('AttributeError', 'cannot set attribute {!r} of a {}'.format(name, self.type_name(o, st)), n)

    def raw_setattr(self, o, ob, name, v, n, st):
        a = dict(ob.attrs)
        a[name] = v
        maybe = ob.maybe - {name} if name in ob.maybe else ob.maybe
        self.write(st, o.oid, ob, name, v, n, ob.replace(attrs=a, maybe=maybe))

    ################################################################################################
    # calls

    def call(self, f, args, n, st, recv=None):
        c = f.__class__
        if st.dead:
            return BOTTOM
        if c is Func:
            return self.call_func(f, args, n, st, recv)
        if c is Bound:
            a = Args([f.recv] + args.pos, args.kw, args.star, args.kwstar)
            return self.call(f.func, a, n, st, recv=f.recv)
        if c is Cls:
            return self.instantiate(f, args, n, st)
        if c is Union:
            return self.distribute(f, lambda m, s: self.call(m, args, n, s), st)
        if self.strict and (c in (Ext, Top) or c in (BBound, Builtin) and f.name in MAY_REFUSE and not (
                            # cutting a text at a separator which is not empty
                            f.name in ('split', 'rsplit', 'partition', 'rpartition') and not args.star and
                            all(a.__class__ is Const and a.v.__class__ is str and a.v for a in args.pos[:1])) or
                            c is Cls and (f.c.is_enum or f.c.has_external)):
            self.doubts.append('ValueError')
            if c in (Ext, Top) or c is Cls and f.c.has_external:
                self.doubts.append('AttributeError')
        if c is BBound:
            if f.name == '__call__' and f.recv.__class__ is Builtin and f.recv.name == 'type' and args.pos \
               and args.pos[0].__class__ is Cls:
                return self.construct(args.pos[0], Args(args.pos[1:], args.kw, args.star, args.kwstar), n, st)
            if f.name == 'type.__call__':
                return self.construct(f.recv, args, n, st)
            for o in self.observers:
                o.on_builtin(self, st, f.name, f.recv, args, n)
            from . import models
            return models.call_method(self, f, args, n, st)
        if c is Builtin:
            for o in self.observers:
                o.on_builtin(self, st, f.name, None, args, n)
            from . import models
            return models.call_builtin(self, f.name, args, n, st)
        if c is Ext:
            for o in self.observers:
                o.on_ext(self, st, f.path, args, n)
            from . import models
            doubts = len(self.doubts)
            r = models.call_ext(self, f.path, args, n, st)
            if f.path in NEVER_REFUSE and r.__class__ in (Num, Const, Bool) and self.strict and len(self.doubts) == doubts:
                # it had its value: the doubts of the call above
                del self.doubts[doubts - 2:]
            return r
        if c is Top:
            self.escape(args, n, st)
            labels = f.labels
            return Top(None, labels)
        if c is Ref:
            ob = self.get(st, f.oid)
            if ob is not None and ob.kind == 'inst':
                cl, g = ob.cls.lookup('__call__')
                if g is not None:
                    return self.call(self.bind(g, f, cl, n, st), args, n, st)
                if not ob.cls.has_external:
                    self.err('TypeError', '{} object is not callable'.format(ob.cls.name), n)
                return TOP
            if ob is not None and ob.kind in ('list', 'tuple', 'dict', 'set', 'ndarray', 'iter'):
                self.err('TypeError', '{} object is not callable'.format(ob.kind), n)
            return TOP
        if c is Const or c in (Num, Str, Bool):
            self.err('TypeError', '{} object is not callable'.format(self.type_name(f, st)), n)
            return TOP
        if c is Mod:
            self.err('TypeError', 'module object is not callable', n)
            return TOP
        if c is Enum:
            self.err('TypeError', '{} member is not callable'.format(f.c.name), n)
            return TOP
        if c is Prop:
            self.err('TypeError', 'property object is not callable', n)
            return TOP
        return TOP

    def escape(self, args, n, st):
        """Arguments handed to unknown code; functions passed as callbacks are not analysed."""

    def bind_args(self, f, args, n, st):
        """Bind call arguments to the parameters; the environment or None on a definite arity error."""
        a = f.f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        npos = len(params)
        env = {}
        name = f.f.qualname
        pos = args.pos
        for p, v in zip(params, pos):
            env[p] = v
        extra = pos[npos:]
        if a.vararg:
            if args.star is not None:
                env[a.vararg.arg] = self.alloc(st, n, HObj('tuple', elem=join(join_all(extra), args.star)), 'va')
            else:
                env[a.vararg.arg] = self.alloc(st, n, HObj('tuple', items=tuple(extra)), 'va')
        elif extra:
            self.err('TypeError', '{}() takes {} positional arguments but {} were given'.format(name, npos, len(pos)), n)
            return None
        unknown = args.star is not None
        kwextra = {}
        konly = {x.arg for x in a.kwonlyargs}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in args.kw.items():
            if (k in params and k not in posonly) or k in konly:
                if k in env and k not in konly:
                    self.err('TypeError', '{}() got multiple values for argument {!r}'.format(name, k), n)
                    return None
                env[k] = v
            elif a.kwarg:
                kwextra[Const(k)] = v
            else:
                self.err('TypeError', '{}() got an unexpected keyword argument {!r}'.format(name, k), n)
                return None
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, n, HObj('dict', attrs=kwextra,
                                                      elem=args.kwstar if args.kwstar is not None else BOTTOM,
                                                      key=Str() if args.kwstar is not None else BOTTOM), 'kw')
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p in env:
                continue
            di = i - (npos - nd)
            dv = f.defaults[di] if di >= 0 else None
            if unknown or (args.kwstar is not None and p not in posonly):
                src = join(args.star if unknown else BOTTOM, args.kwstar if args.kwstar is not None else BOTTOM)
                if src is BOTTOM:
                    src = TOP
                env[p] = join(dv, src) if dv is not None else src
            elif dv is not None:
                env[p] = dv
            else:
                self.err('TypeError', '{}() missing the required argument {!r}'.format(name, p), n)
                return None
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    dv = f.kwdefaults[x.arg]
                    env[x.arg] = join(dv, args.kwstar) if args.kwstar is not None else dv
                elif args.kwstar is not None:
                    env[x.arg] = args.kwstar
                else:
                    self.err('TypeError', '{}() missing the keyword-only argument {!r}'.format(name, x.arg), n)
                    return None
        return env

    def call_func(self, f, args, n, st, recv=None):
        fi = f.f
        self.call_sites += 1
        self.note_env(st)
        env = self.bind_args(f, args, n, st)
        if env is None:
            return TOP
        for o in self.observers:
            r = o.on_call(self, st, f, recv, env, n)
            if r is not None:
                return r
        key = id(fi.node)
        if key in self.stubs:
            self.stub_calls.setdefault(key, []).append(list(env.values()))
            return self.stubs[key]
        count = self.active.get(key, 0)
        if len(self.frames) > self.MAX_DEPTH or count >= self.MAX_SAME:
            self.incomplete.add('recursion or depth bound at ' + fi.where)
            me = recv if recv is not None else (args.pos[0] if args.pos else None)
            if fi.node.__class__ is not ast.Lambda and fi.node.name == '__init__' and me.__class__ is Ref:
                # the attributes it would have set are unknown
                o = self.get(st, me.oid)
                if o is not None and o.kind == 'inst':
                    st.heap[me.oid] = o.replace(open=True)
            return Top(None, NOLABELS)
        self.analysed.add(fi.where)
        fr = Frame(fi, fi.module, fi.cls, function_locals(fi.node), f.closure, recv)
        if recv is None and fi.cls is not None and args.pos:
            fr.recv = args.pos[0]
        saved_env = st.env
        if self.frames:
            self.frames[-1].env_now = saved_env
        outer = nonlocals(fi.node) if f.closure is not None else ()
        for name in outer:
            c = f.closure
            while c is not None and name not in c.now():
                c = c.parent
            if c is not None:
                env[name] = c.now()[name]
        st.env = env
        self.frames.append(fr)
        self.active[key] = count + 1
        old = self.push_ctx(id(n) if n is not None else 0)
        old2 = self.push_ctx(id(fi.node))
        before = dict(st.heap) if fi.is_generator and algebra.GENERIC[0] else None
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st)
                if not st.dead:
                    fr.returns.append((v, st.copy(), fi.node))
                st.dead = True
            else:
                self.exec_block(fi.node.body, st)
        finally:
            self.frames.pop()
            self.active[key] = count
            self.ctx = old
        # fallthrough
        if not st.dead:
            fr.returns.append((NONE, st.copy(), None))
        fr.env_now = fr.returns[0][1].env if len(fr.returns) == 1 else None
        value = BOTTOM
        out = None
        if algebra.GENERIC[0] and len(fr.returns) > 1:
            r = gate.fold(self, [(v, s) for v, s, node in fr.returns])
            if r is not None:
                value, out = r
        else:
            for v, s, node in fr.returns:
                value = join(value, v)
                out = s if out is None else self.join_states(out, s)
        if fi.is_generator and (fr.returns or fr.yields or not fr.raises):
            self.ctx, keep = old, self.ctx
            self.push_ctx(id(n) if n is not None else 0)
            tmp = out if out is not None else st
            tmp.dead = False
            if before is not None and len(fr.yields) > 1:
                for oid, o in before.items():
                    o2 = tmp.heap.get(oid)
                    if o2 is not o and o2 is not None and o.kind != 'iter' and not same_object(o, o2):
                        # its effects and those of its caller are not made in this order
                        self.incomplete.add('effects of a generator')
                        raise Budget()
            if fr.yields_exact:
                value = self.new_iter(tmp, fi.node, fr.yields)
            else:
                value = self.new_iter(tmp, fi.node, None, join_all(fr.yields))
            out = tmp
            self.ctx = old
            # exceptions of a generator body surface at iteration; kept as ordinary raises
        for exc, s, node in fr.raises:
            s.env = self.rebound(saved_env, outer, s.env, f)
            cur = self.frames[-1] if self.frames else None
            if cur is not None:
                if cur.tries:
                    cur.tries[-1].append((exc, s, node))
                else:
                    cur.raises.append((exc, s, node))
        if out is None:
            st.env = saved_env
            st.dead = True
            return BOTTOM
        out.env = self.rebound(saved_env, outer, out.env, f)
        st.become(out)
        for o in self.observers:
            o.on_return(self, st, f, recv, value, n)
        return value

    def rebound(self, env, names, inner, f):
        """The variables of the caller after a call of *f* that may rebind those of an enclosing function."""
        if not names:
            return env
        fr = self.frames[-1] if self.frames else None
        for name in names:
            if name not in inner:
                continue
            c = f.closure
            while c is not None and name not in c.now():
                c = c.parent
            if c is not None and c.frame is not fr and not (
                    fr is not None and fr.fn is not None and name in nonlocals(fr.fn.node)):
                if algebra.GENERIC[0]:
                    self.incomplete.add('nonlocal variable')
                    raise Budget()
                continue
            env = dict(env)
            env[name] = inner[name]
        return env

    def instantiate(self, f, args, n, st):
        c = f.c
        if c.meta is not None and c.meta.__class__ is Cls:
            mc = c.meta.c.lookup('__call__')[1]
            if mc is not None:
                return self.call(Bound(f, mc), args, n, st, recv=f)
        return self.construct(f, args, n, st)

    def construct(self, f, args, n, st):
        """type.__call__: without the one of the metaclass."""
        c = f.c
        if c.is_enum:
            if args.pos and args.pos[0].__class__ is Enum:
                return args.pos[0]
            if args.pos and args.pos[0].__class__ is Const and set(c.values) == set(c.members) and '_missing_' not in c.ns:
                for m in c.members:
                    if c.values[m] == args.pos[0].v:
                        return Enum(c, m)
                self.err('ValueError', '{!r} is not a valid {}'.format(args.pos[0].v, c.name), n)
                return TOP
            return make_union([Enum(c, m) for m in c.members]) if c.members else TOP
        if any(isinstance(b, str) and getattr(_py_builtins, b.rsplit('.', 1)[-1], None).__class__ is type
               and issubclass(getattr(_py_builtins, b.rsplit('.', 1)[-1]), BaseException)
               for b in c.mro if isinstance(b, str) and b.startswith('builtins.')):
            return self.alloc(st, n, HObj('inst', cls=c, open=True), c.qualname)
        cn, new = c.lookup('__new__')
        if new is not None:
            r = self.call(new, Args([f] + args.pos, args.kw, args.star, args.kwstar), n, st, recv=f)
            if r.__class__ is not Ref:
                return r
            ref = r
        else:
            ref = self.alloc(st, n, HObj('inst', cls=c), c.qualname)
            if self.get(st, ref.oid).summary:
                pass
        for o in self.observers:
            o.on_new(self, st, c, ref.oid, args, n)
        ci, init = c.lookup('__init__')
        if init is not None:
            if init.__class__ is Func:
                # external classes before the project's __init__ in the MRO are ignored
                self.call(Bound(ref, init), args, n, st)
        elif (args.pos or args.kw) and not c.has_external and not c.is_enum and new is None:
            self.err('TypeError', '{}() takes no arguments'.format(c.name), n)
        if st.dead:
            return BOTTOM
        return ref

    ################################################################################################
    # containers

    def iterate(self, v, n, st):
        """(True, [values]) when the elements are known exactly, else (False, element)."""
        c = v.__class__
        if c is Union:
            ms = members(v)
            elem = BOTTOM
            bad = 0
            ways = []
            for m in ms:
                self.sink.append([])
                s = st
                k, items = self.iterate(m, n, s)
                ways.append(list(items) if k else None)
                errs = self.sink.pop()
                if any(e[0] in TYPE_ERRORS for e in errs):
                    bad += 1
                    continue
                elem = join(elem, join_all(items) if k else items)
            if bad == len(ms):
                self.err('TypeError', 'value is not iterable', n)
                return False, TOP
            if not bad and None not in ways and len({len(w) for w in ways}) == 1:
                return True, [join_all(w) for w in zip(*ways)]
            return False, elem
        if c is Const:
            if isinstance(v.v, str):
                return True, [Const(x, v.labels) for x in v.v]
            if isinstance(v.v, bytes):
                return False, Num('int')
            self.err('TypeError', '{} object is not iterable'.format(type(v.v).__name__), n)
            return False, TOP
        if c is Num or c is Bool:
            self.err('TypeError', '{} object is not iterable'.format(self.type_name(v, st)), n)
            return False, TOP
        if c is Str:
            if algebra.GENERIC[0] and v.parts is not None and len(v.parts) < 60:
                # an atom is met as one item: the code cannot tell its characters
                return True, [x for p in v.parts for x in (
                    [Const(ch, v.labels) for ch in p] if p.__class__ is str else [Str(None, v.labels, (p,))])]
            return False, Str(None, v.labels)
        if c is Ref:
            o = self.get(st, v.oid)
            if o is None:
                return False, TOP
            if o.kind == 'inst':
                cl, f = o.cls.lookup('__iter__')
                if f is not None:
                    r = self.call(self.bind(f, v, cl, n, st), Args(), n, st)
                    if st.dead:
                        return False, BOTTOM
                    if r.__class__ is Ref and self.get(st, r.oid) is not None and self.get(st, r.oid).kind == 'inst':
                        # iterator object of the project
                        cl2, nx = self.get(st, r.oid).cls.lookup('__next__')
                        if nx is not None:
                            return False, self.call(self.bind(nx, r, cl2, n, st), Args(), n, st)
                        return False, TOP
                    return self.iterate(r, n, st)
                cl, f = o.cls.lookup('__getitem__')
                if f is not None:
                    cl2, ln = o.cls.lookup('__len__')
                    if ln is not None:
                        r = self.call(self.bind(ln, v, cl2, n, st), Args(), n, st)
                        if r.__class__ is Const and isinstance(r.v, int) and r.v <= 64:
                            return True, [self.call(self.bind(f, v, cl, n, st), Args([Const(i)]), n, st)
                                          for i in range(r.v)]
                    return False, self.call(self.bind(f, v, cl, n, st), Args([Num('int')]), n, st)
                if o.cls.has_external:
                    return False, TOP
                self.err('TypeError', '{} object is not iterable'.format(o.cls.name), n)
                return False, TOP
            if o.kind == 'dict':
                if o.elem is BOTTOM and not o.maybe:
                    return True, list(o.attrs)
                return False, join(join_all(o.attrs), o.key if o.key is not BOTTOM else (TOP if o.elem is not BOTTOM else BOTTOM))
            if o.kind == 'iter':
                if o.items is not None:
                    items = list(o.items)
                    if not o.summary:
                        for ob in self.observers:
                            ob.on_write(self, st, v.oid, o, 'consume', v, n)
                        st.heap[v.oid] = o.replace(items=(), tag='consumed')
                    return True, items
                return False, o.elem if o.elem is not BOTTOM else TOP
            if o.kind in ('list', 'tuple', 'set', 'ndarray'):
                if o.items is not None:
                    if len(o.items) <= MAX_ITEMS:
                        # the order of a set is not the one of its construction
                        return True, list(o.items if o.kind != 'set' else o.items[::-1])
                    return False, join_all(o.items)
                return False, o.elem
            return False, TOP
        if c is Cls:
            if v.c.is_enum:
                return True, [Enum(v.c, m) for m in v.c.members]
            if v.c.meta is not None:
                return False, TOP
            if not v.c.has_external:
                self.err('TypeError', 'class {} is not iterable'.format(v.c.name), n)
            return False, TOP
        if c in (Func, Bound, Mod, Enum):
            self.err('TypeError', '{} is not iterable'.format(self.type_name(v, st)), n)
            return False, TOP
        if c is BBound:
            self.err('TypeError', 'method {} is not iterable'.format(v.name), n)
            return False, TOP
        return False, Top(None, v.labels)

    def getitem(self, o, i, n, st):
        c = o.__class__
        if c is Union:
            return self.distribute(o, lambda m, s: self.getitem(m, i, n, s), st)
        if c is Ref:
            ob = self.get(st, o.oid)
            if ob is None:
                return TOP
            if ob.kind == 'inst':
                cl, f = ob.cls.lookup('__getitem__')
                if f is not None:
                    return self.call(self.bind(f, o, cl, n, st), Args([i]), n, st)
                if not ob.cls.has_external:
                    self.err('TypeError', '{} object is not subscriptable'.format(ob.cls.name), n)
                return TOP
            if ob.kind == 'dict':
                if ob.tag.__class__ is tuple and ob.tag and ob.tag[0] == 'default':
                    k = dict_key(i)
                    if k is None or not all_const(ob.attrs) or ob.elem is not BOTTOM or k in ob.maybe:
                        return TOP
                    if k not in ob.attrs:
                        v = self.call(ob.tag[1], Args(), n, st)
                        if not st.dead:
                            self.setitem(o, i, v, n, st)
                        return v
                return self.dict_get(ob, i, n, st)
            if ob.kind in ('list', 'tuple', 'ndarray'):
                return self.seq_get(o, ob, i, n, st)
            self.doubts.append('IndexError')
            if ob.kind in ('iter', 'set'):
                self.err('TypeError', '{} object is not subscriptable'.format(
                    {'iter': 'iterator'}.get(ob.kind, ob.kind)), n)
                return TOP
            return TOP
        if c is not Cls and c is not Const:
            self.doubts.append('IndexError')
        if c is Const:
            if isinstance(o.v, str):
                if i.__class__ is Const and isinstance(i.v, int):
                    try:
                        return Const(o.v[i.v], o.labels)
                    except IndexError:
                        if algebra.GENERIC[0] and self.caught('IndexError'):
                            self.do_raise('IndexError', st, n)
                            return BOTTOM
                        self.err('IndexError', 'string index out of range', n)
                        return TOP
                if i.__class__ is SliceV and i.const():
                    return Const(o.v[slice(*i.values())], o.labels)
                self.doubts.append('IndexError')
                return Str(None, o.labels)
            if isinstance(o.v, bytes):
                self.doubts.append('IndexError')
                return TOP
            self.err('TypeError', '{} object is not subscriptable'.format(type(o.v).__name__), n)
            return TOP
        if c is Str:
            return self.str_item(o, i)
        if c in (Num, Bool):
            self.err('TypeError', '{} object is not subscriptable'.format(self.type_name(o, st)), n)
            return TOP
        if c is Cls:
            if o.c.is_enum:
                if i.__class__ is Const and isinstance(i.v, str):
                    if i.v in o.c.members:
                        return Enum(o.c, i.v)
                    if algebra.GENERIC[0] and self.caught('KeyError'):
                        self.do_raise('KeyError', st, n)
                        return BOTTOM
                    self.err('KeyError', '{} has no member {!r}'.format(o.c.name, i.v), n)
                    return TOP
                return make_union([Enum(o.c, m) for m in o.c.members])
            return o            # generic alias in an annotation
        if c is Builtin or c is Ext:
            return TOP
        if c in (Bound, Func, BBound):
            self.err('TypeError', '{} object is not subscriptable'.format('method'), n)
            return TOP
        if c is Super:
            f = self.super_getattr(o, '__getitem__', n, st)
            return self.call(f, Args([i]), n, st)
        return Top(None, o.labels)

    def dict_get(self, ob, i, n, st):
        vals = []
        missing = 0
        sure = True
        ms = members(i)
        for m in ms:
            k = dict_key(m)
            if k is None:
                if not ob.attrs and ob.elem is BOTTOM:
                    missing += 1
                    continue
                vals.append(ob.all_elems())
            elif k in ob.attrs:
                vals.append(ob.attrs[k])
            elif ob.elem is not BOTTOM:
                vals.append(ob.elem)
            elif not all_const(ob.attrs):
                vals.append(ob.all_elems())
            else:
                missing += 1
            if k is None or k not in ob.attrs or k in ob.maybe:
                sure = False
        if not sure or missing:
            self.doubts.append('KeyError')
        if not vals:
            if algebra.GENERIC[0] and self.caught('KeyError'):
                self.do_raise('KeyError', st, n)
                return BOTTOM
            key = ', '.join(show_key(m) for m in ms)
            self.err('KeyError', 'key {} is not in the table'.format(key), n)
            return TOP
        return join_all(vals)

    def seq_get(self, o, ob, i, n, st):
        if i.__class__ is Const and i.v is Ellipsis and ob.kind == 'ndarray':
            return o
        if i.__class__ is Union:
            return self.distribute(i, lambda m, s: self.seq_get(o, ob, m, n, s), st)
        items = ob.items
        if i.__class__ is SliceV:
            if items is not None and i.const():
                try:
                    idx = range(len(items))[slice(*i.values())]
                except Exception:
                    idx = None
                if idx is not None:
                    return self.alloc(st, n, HObj(ob.kind, items=tuple(items[j] for j in idx),
                                                  tag=self.view_tag(o, ob, idx)))
            return self.alloc(st, n, HObj(ob.kind, elem=ob.all_elems()))
        if i.__class__ is Ref:
            io = self.get(st, i.oid)
            if io is not None and io.kind == 'tuple' and ob.kind == 'ndarray' and io.items is not None:
                if not io.items:
                    return o
                first = io.items[0]
                if first.__class__ is SliceV:
                    if items is None or not first.const():
                        return TOP
                    idx = range(len(items))[slice(*first.values())]
                    rows = [items[j] for j in idx]
                    if len(io.items) == 1:
                        return self.alloc(st, n, HObj('ndarray', items=tuple(rows), tag=self.view_tag(o, ob, idx)))
                    out = []
                    source = []
                    for k, r in enumerate(rows):
                        if r.__class__ is not Ref:
                            return TOP
                        old = self.push_ctx(('row', k))
                        out.append(self.getitem(r, io.items[1], n, st))
                        self.ctx = old
                        j = io.items[1]
                        ro = self.get(st, r.oid)
                        if j.__class__ is Const and type(j.v) is int and ro is not None and ro.items is not None:
                            source.append((r.oid, j.v % len(ro.items)) if ro.items else None)
                    tag = ('view', tuple(source)) if len(source) == len(rows) else None
                    return self.alloc(st, n, HObj('ndarray', items=tuple(out), tag=tag))
                r = self.seq_get(o, ob, first, n, st)
                if len(io.items) == 2:
                    return self.getitem(r, io.items[1], n, st)
                return r if len(io.items) == 1 else TOP
            if ob.kind != 'ndarray':
                self.err('TypeError', '{} indices must be integers or slices'.format(ob.kind), n)
            return TOP
        if i.__class__ is Const and type(i.v) in (int, bool):
            if items is not None:
                if -len(items) <= i.v < len(items):
                    return items[i.v]
                if algebra.GENERIC[0] and self.caught('IndexError') and not ob.summary:
                    self.do_raise('IndexError', st, n)
                    return BOTTOM
                self.doubts.append('IndexError')
                if self._index_is_certain(n, st):
                    self.err('IndexError', '{} index {} out of range (length {})'.format(ob.kind, i.v, len(items)), n)
                return TOP
            self.doubts.append('IndexError')
            return ob.elem if ob.elem is not BOTTOM else TOP
        self.doubts.append('IndexError')
        if i.__class__ is Top:
            return Top(None, i.labels)
        if i.__class__ is Const or i.__class__ is Str or (i.__class__ is Num and i.k == 'float' and ob.kind != 'ndarray'):
            if ob.kind != 'ndarray':
                self.err('TypeError', '{} indices must be integers or slices, not {}'.format(
                    ob.kind, self.type_name(i, st)), n)
            return ob.all_elems() if ob.all_elems() is not BOTTOM else TOP
        e = ob.all_elems()
        return e if e is not BOTTOM else TOP

    def view_tag(self, o, ob, idx):
        # numpy slices share their elements with the array
        if ob.kind != 'ndarray' or o.__class__ is not Ref:
            return None
        return 'view', tuple((o.oid, j) for j in idx)

    def nd_set(self, oid, j, v, n, st, depth=0):
        """Element *j* of an array of known size, through the views."""
        ob = self.get(st, oid)
        if ob is None or ob.items is None or j >= len(ob.items) or depth > 4:
            return
        items = list(ob.items)
        items[j] = join(items[j], v) if ob.summary else v
        self.write(st, oid, ob, ('set', Const(j)), v, n, ob.replace(items=tuple(items)))
        if ob.tag.__class__ is tuple and ob.tag[0] == 'view' and ob.tag[1][j] is not None:
            self.nd_set(ob.tag[1][j][0], ob.tag[1][j][1], v, n, st, depth + 1)

    def nd_fill(self, o, v, n, st):
        """o[...] = v for an array of known shape."""
        ob = self.get(st, o.oid)
        vo = self.get(st, v.oid) if v.__class__ is Ref else None
        for j, x in enumerate(ob.items):
            y = v
            if vo is not None:
                if vo.kind not in ('ndarray', 'list', 'tuple') or vo.items is None:
                    y = TOP
                elif len(vo.items) == len(ob.items):
                    y = vo.items[j]
                elif len(vo.items) == 1:
                    y = vo.items[0]
                else:
                    self.err('ValueError', 'could not broadcast an array of {} items into {}'.format(
                        len(vo.items), len(ob.items)), n)
                    return
            xo = self.get(st, x.oid) if x.__class__ is Ref else None
            if xo is not None and xo.kind == 'ndarray' and xo.items is not None:
                self.nd_fill(x, y, n, st)
            else:
                self.nd_set(o.oid, j, y if y.__class__ is not Ref else TOP, n, st)

    def setitem(self, o, i, v, n, st):
        c = o.__class__
        if c is Union:
            self.distribute(o, lambda m, s: (self.setitem(m, i, v, n, s), NONE)[1], st)
            return
        if c is Ref:
            ob = self.get(st, o.oid)
            if ob is None:
                return
            if ob.kind == 'inst':
                cl, f = ob.cls.lookup('__setitem__')
                if f is not None:
                    self.call(self.bind(f, o, cl, n, st), Args([i, v]), n, st)
                elif not ob.cls.has_external:
                    self.err('TypeError', '{} object does not support item assignment'.format(ob.cls.name), n)
            elif ob.kind == 'dict':
                k = dict_key(i)
                if k is not None:
                    a = dict(ob.attrs)
                    a[k] = v
                    self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(attrs=a, maybe=ob.maybe - {k}))
                else:
                    self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(elem=join(ob.elem, v), key=join(ob.key, i)))
            elif ob.kind in ('list', 'ndarray'):
                items = ob.items
                if items is not None and ob.kind == 'ndarray':
                    if i.__class__ is Const and i.v is Ellipsis:
                        self.nd_fill(o, v, n, st)
                        return
                    if i.__class__ is SliceV and i.const():
                        part = self.seq_get(o, ob, i, n, st)
                        self.nd_fill(part, v, n, st)
                        return
                    io = self.get(st, i.oid) if i.__class__ is Ref else None
                    if io is not None and io.kind == 'tuple' and io.items is not None and len(io.items) == 2 and all(
                            (x.__class__ is Const and type(x.v) is int) or (x.__class__ is SliceV and x.const())
                            for x in io.items):
                        a, b = io.items
                        part = self.getitem(o, a, n, st)
                        if a.__class__ is Const:
                            self.setitem(part, b, v, n, st)
                            return
                        part = self.getitem(o, i, n, st)
                        if part.__class__ is Ref and self.get(st, part.oid).items is not None:
                            self.nd_fill(part, v, n, st)
                            return
                    if i.__class__ is Const and type(i.v) is int and -len(items) <= i.v < len(items):
                        x = items[i.v]
                        xo = self.get(st, x.oid) if x.__class__ is Ref else None
                        if xo is not None and xo.kind == 'ndarray' and xo.items is not None:
                            self.nd_fill(x, v, n, st)
                        else:
                            self.nd_set(o.oid, i.v % len(items), v, n, st)
                        return
                if items is not None and i.__class__ is Const and type(i.v) is int:
                    if -len(items) <= i.v < len(items):
                        items = list(items)
                        items[i.v] = v
                        self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(items=tuple(items)))
                    elif self._index_is_certain(n, st):
                        self.err('IndexError', 'assignment index {} out of range'.format(i.v), n)
                elif items is not None and ob.kind == 'list' and i.__class__ is SliceV and i.const() and not ob.summary:
                    k, more = self.iterate(v, n, st)
                    if st.dead:
                        return
                    ob = self.get(st, o.oid)
                    items = None
                    if k:
                        items = list(ob.items)
                        try:
                            items[slice(*i.values())] = more
                        except ValueError:
                            items = None
                    if items is not None and len(items) <= MAX_ITEMS:
                        new = ob.replace(items=tuple(items))
                    else:
                        new = ob.replace(items=None, elem=join(ob.all_elems(), join_all(more) if k else more))
                    self.write(st, o.oid, ob, ('set', i), v, n, new)
                elif items is not None and ob.kind == 'ndarray' and i.__class__ is SliceV:
                    self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(items=tuple(TOP for _ in items)))
                elif items is not None and ob.kind == 'ndarray':
                    self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(items=tuple(TOP if x.__class__ is not Ref else x for x in items)))
                else:
                    self.write(st, o.oid, ob, ('set', i), v, n, ob.replace(items=None, elem=join(ob.all_elems(), v)))
            elif ob.kind == 'tuple':
                self.err('TypeError', 'tuple object does not support item assignment', n)
            return
        if c is Const or c in (Str, Num, Bool):
            self.err('TypeError', '{} object does not support item assignment'.format(self.type_name(o, st)), n)

    # -- ndarray helpers

    def nd_map(self, v, fn, n, st):
        if self.nd_depth > 3:
            return TOP
        self.nd_depth += 1
        try:
            return self.nd_map_(v, fn, n, st)
        finally:
            self.nd_depth -= 1

    def nd_map_(self, v, fn, n, st):
        o = self.get(st, v.oid)
        if o.items is not None:
            out = []
            for idx, x in enumerate(o.items):
                if x.__class__ is Ref and self.get(st, x.oid) is not None and self.get(st, x.oid).kind == 'ndarray':
                    old = self.push_ctx(('nd', idx))
                    out.append(self.nd_map(x, fn, n, st))
                    self.ctx = old
                else:
                    out.append(fn(x))
            return self.alloc(st, n, HObj('ndarray', items=tuple(out)))
        return self.alloc(st, n, HObj('ndarray', elem=fn(o.elem) if o.elem is not BOTTOM else BOTTOM))

    def nd_binop(self, op, a, b, n, st):
        if self.nd_depth > 3:
            return TOP
        self.nd_depth += 1
        try:
            return self.nd_binop_(op, a, b, n, st)
        finally:
            self.nd_depth -= 1

    def nd_binop_(self, op, a, b, n, st):
        def arr(v):
            if v.__class__ is Ref:
                o = self.get(st, v.oid)
                if o is not None and o.kind in ('ndarray', 'list', 'tuple'):
                    return o
            return None
        oa, ob = arr(a), arr(b)
        if oa is not None and ob is not None:
            if oa.items is not None and ob.items is not None:
                if len(oa.items) == len(ob.items):
                    out = []
                    for idx, (x, y) in enumerate(zip(oa.items, ob.items)):
                        old = self.push_ctx(('nd', idx))
                        out.append(self.binop(op, x, y, n, st))
                        self.ctx = old
                    return self.alloc(st, n, HObj('ndarray', items=tuple(out)))
                if len(oa.items) != 1 and len(ob.items) != 1 and all(
                        x.__class__ is not Ref for x in oa.items + ob.items):
                    self.err('ValueError', 'operands of shapes ({},) and ({},) cannot be broadcast'.format(
                        len(oa.items), len(ob.items)), n)
                return TOP
            ea, eb = oa.all_elems(), ob.all_elems()
            if BOTTOM in (ea, eb):
                return TOP
            return self.alloc(st, n, HObj('ndarray', elem=self.binop(op, ea, eb, n, st)))
        if oa is not None:
            if b.__class__ is Const and b.v is None:
                self.err('TypeError', 'unsupported operand types: ndarray and NoneType', n)
                return TOP
            if b.__class__ is Top:
                return Top()
            return self.nd_map(a, lambda x: self.binop(op, x, b, n, st), n, st)
        if ob is not None:
            if a.__class__ is Top:
                return Top()
            return self.nd_map(b, lambda x: self.binop(op, a, x, n, st), n, st)
        return TOP


_NONLOCALS = {}


def nonlocals(node):
    """The variables of enclosing functions that a function rebinds."""
    r = _NONLOCALS.get(node)
    if r is None:
        names = []
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, ast.Nonlocal):
                    names.extend(x.names)
                elif not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    stack.extend(ast.iter_child_nodes(x))
        r = _NONLOCALS[node] = tuple(names)
    return r


def same_object(a, b):
    return a.items == b.items and a.attrs == b.attrs and a.elem == b.elem and a.maybe == b.maybe


class CompScope:
    """The variables of a comprehension, for the functions made in it."""

    def __init__(self, targets):
        self.targets = targets
        self.last = {}
        self.env_now = None


class Closure:
    __slots__ = ('env', 'parent', 'frame')

    def __init__(self, env, parent, frame):
        self.env = env
        self.parent = parent
        self.frame = frame

    def now(self):
        """The variables of the enclosing call as they are when the inner function runs."""
        e = self.frame.env_now
        return e if e is not None else self.env


class SliceV(_Keyed):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c
        self._k = (a, b, c)

    def const(self):
        return all(x.__class__ is Const and (x.v is None or isinstance(x.v, int)) for x in (self.a, self.b, self.c))

    def values(self):
        return [x.v for x in (self.a, self.b, self.c)]


def names_of(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def strip(v):
    return Const(v.v) if v.__class__ is Const and v.labels else v


def dict_key(v):
    """Hashable exact key, or None."""
    c = v.__class__
    if c is Const:
        return strip(v)
    if c in (Enum, Cls, Ref, Func, Builtin, Ext, Mod):
        return v
    if c is Str and v.parts is not None:
        return Str(None, NOLABELS, v.parts)
    if c in (Str, Num, Top) and v.sym:
        return c(sym=v.sym) if c is not Num else Num(sym=v.sym)
    return None


def all_const(d):
    return all(k.__class__ in (Const, Enum, Cls, Func, Builtin, Mod) for k in d)


def show_key(k):
    if k.__class__ is Const:
        return repr(k.v)
    return repr(k)


def boolnum(v):
    if v.__class__ is Const and type(v.v) is bool:
        return Const(int(v.v), v.labels)
    if v.__class__ is Bool:
        return Num('int', g=(F0, 0, 0), w=P0, labels=v.labels)
    return v


def filter_is(v, const, positive, identity):
    """Keep the alternatives compatible with ``v is const`` (or its negation)."""
    keep = []
    for m in members(v):
        same = strip(m) == strip(const)
        if positive:
            if same:
                keep.append(m)
            elif m.__class__ is Top:
                keep.append(const if const.__class__ is Const and const.v is None else m)
            elif const.__class__ is Const and type(const.v) is str and m.__class__ is Str:
                keep.append(const.with_labels(m.labels))
            elif m.__class__ in (Num, Str, Bool) and const.__class__ is Const and const.v is not None:
                keep.append(m)
            elif m.__class__ is Ref and const.__class__ is Const and const.v is not None and not identity:
                keep.append(m)
        else:
            if not same:
                keep.append(m)
    if not keep:
        return BOTTOM
    return make_union(keep)


def narrow_truth(v, truth, it=None, st=None):
    keep = []
    for m in members(v):
        if m.__class__ is Const:
            if bool(m.v) == truth:
                keep.append(m)
        elif m.__class__ is Bool:
            keep.append(Const(truth, m.labels))
        elif not truth and m.__class__ in (Cls, Func, Mod, Bound, Enum):
            continue
        elif not truth and m.__class__ is Ref and it is not None:
            o = it.get(st, m.oid)
            if o is not None and o.kind == 'inst' and not o.cls.has_external and o.cls.lookup('__bool__')[1] is None \
                    and o.cls.lookup('__len__')[1] is None:
                continue
            keep.append(m)
        else:
            keep.append(m)
    if not keep:
        return BOTTOM
    return make_union(keep)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
          ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitAnd: '__and__',
          ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.LShift: '__lshift__', ast.RShift: '__rshift__',
          ast.MatMult: '__matmul__'}
AUG = {k: '__i' + v[2:] for k, v in DUNDER.items()}
DIFFERENT_KINDS = ({'number', 'text'}, {'number', 'none'}, {'text', 'none'}, {'number', 'symbol'}, {'text', 'symbol'},
                   {'none', 'symbol'})


def kind_of(v):
    c = v.__class__
    if c is Num or c is Bool or c is Const and isinstance(v.v, (int, float, bool)):
        return 'number'
    if c is Str or c is Const and type(v.v) is str:
        return 'text'
    if c is Const and v.v is None:
        return 'none'
    if c in (Cls, Func, Mod, Builtin) or c is Enum and 'enum.IntEnum' not in v.c.mro:
        return 'symbol'
    return None


CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
CMPD = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
CMPR = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}
