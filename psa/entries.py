"""Enumeration of the analysis entry points: every public operation of every seeded class."""

import ast

from .interp import Args, Budget, Interp, Observer, State
from .program import AnalysisBroken
from .values import *
from . import algebra, models

SKIP_DUNDER = {'__init__', '__new__', '__init_subclass__', '__del__', '__class_getitem__', '__getattr__',
               '__getattribute__', '__setattr__', '__post_init__', '__set_name__'}


class Entry:
    """One call: receiver seed (or module function), attribute, arguments given or left to their defaults."""

    __slots__ = ('seed', 'cls', 'name', 'kind', 'variant', 'func', 'owner', 'params')

    def __init__(self, seed, cls, name, kind, variant, func, owner, params=()):
        self.seed, self.cls, self.name, self.kind, self.variant = seed, cls, name, kind, variant
        self.func, self.owner, self.params = func, owner, params

    @property
    def id(self):
        return '{}.{}{}'.format(self.seed, self.name, {'': '', 'min': '()', 'full': '(*)', 'set': '='}[self.variant])

    @property
    def where(self):
        return self.func.f.where if self.func is not None and self.func.__class__ is Func else self.name


class Result:
    __slots__ = ('given', 'entry', 'errors', 'value', 'state', 'recv', 'args', 'raises', 'incomplete', 'budget', 'before')


class Session:
    """A loaded program with seeds."""

    def __init__(self, program, seeds, param_table, observers=(), budget=60000):
        self.it = it = Interp(program)
        it.STEP_BUDGET = 10**9
        it.load_all()
        it.observers = list(observers)
        self.budget = budget
        st = State()
        self.seeds = {}
        self.seed_env = {}
        self.seed_module = {}
        same, it.MAX_SAME, it.in_entry = it.MAX_SAME, 12, False
        for s in seeds:
            name = 'psa_seeds.' + s
            it.base_state = st
            it.load_module(name, st)
            if name in it.import_errors or it.sink[-1]:
                raise AnalysisBroken('the seeds {} do not load: {} {}'.format(
                    s, it.import_errors.get(name), it.sink[-1][:3]))
            env = it.globals[name]
            for k, v in env.items():
                if v.__class__ is Func and v.f.module.name == name and not k.startswith('_'):
                    self.seeds[k] = v
                    self.seed_module[k] = s
        it.MAX_SAME, it.in_entry = same, True
        it.base.update(st.heap)
        it.sink = [[]]
        self.param_table = param_table
        self.seed_errors = {}

    def make(self, seed, tag, st):
        """Build the seeded value in *st*."""
        it = self.it
        it.sink.append([])
        old = it.push_ctx(('seed', seed, tag))
        try:
            v = it.call(self.seeds[seed], Args([Const(tag)]), None, st)
        finally:
            it.ctx = old
            errs = it.sink.pop()
        if st.dead or errs:
            self.seed_errors.setdefault(seed, []).extend(errs or [('dead', seed, 'the constructor never returns', 0)])
            if st.dead:
                return None
        return v

    def class_of(self, seed):
        st = State()
        v = self.make(seed, 'x', st)
        if v is not None and v.__class__ is Ref:
            o = self.it.get(st, v.oid)
            if o is not None and o.kind == 'inst':
                return o.cls
        return None

    def entries(self, seed, cls, private=False):
        out = []
        seen = set()
        for c in cls.mro:
            if isinstance(c, str):
                continue
            if c.module.split('.')[0] != 'Patro':
                continue
            for name, v in c.ns.items():
                if name in seen:
                    continue
                seen.add(name)
                dunder = name.startswith('__') and name.endswith('__')
                if name.startswith('_') and not dunder and not private:
                    continue
                if name in SKIP_DUNDER:
                    continue
                if v.__class__ is Prop:
                    if v.fget is not None:
                        out.append(Entry(seed, cls, name, 'get', '', v.fget, c))
                    if v.fset is not None:
                        f = v.fset
                        ps = f.f.node.args.args if f.__class__ is Func else []
                        out.append(Entry(seed, cls, name, 'set', 'set', f, c, ps[1:2]))
                elif v.__class__ is Func:
                    a = v.f.node.args
                    ps = list(a.posonlyargs + a.args)
                    if v.kind != 'static':
                        ps = ps[1:]
                    nd = len(v.defaults)
                    req = ps[:len(ps) - nd] if nd else ps
                    konly = a.kwonlyargs
                    out.append(Entry(seed, cls, name, 'call', 'min', v, c, (req, [], a.vararg)))
                    if nd or konly:
                        out.append(Entry(seed, cls, name, 'call', 'full', v, c, (ps, konly, a.vararg)))
        return out

    def argument(self, entry, p, st, recv, idx):
        """An abstract argument for parameter *p* of the entry's function."""
        tag = 'arg.' + p.arg
        return self.param_table(self, entry, p, tag, st, recv)

    def run(self, entry, prepare=None, again=None):
        it = self.it
        st = State()
        r = Result()
        r.entry = entry
        it.steps = 0
        it.STEP_BUDGET = 10**9
        saved_obs, it.observers = it.observers, []
        if again is not None:
            # once more, in the state the first call left
            st = again.state.copy()
            r.recv, r.args = again.recv, again.args
            r.budget = False
            args = Args()
            args.pos, args.kw = again.given
            return self._call(r, entry, st, args, saved_obs, prepare, 'again')
        recv = self.make(entry.seed, 'self', st)
        r.recv = recv
        r.args = []
        r.budget = False
        if recv is None:
            it.observers = saved_obs
            return None
        args = Args()
        if entry.kind == 'set':
            p = entry.params[0] if entry.params else ast.arg(arg='value')
            r.args.append((p.arg, self.argument(entry, p, st, recv, 0)))
        elif entry.kind == 'call':
            pos, konly, vararg = entry.params
            for i, p in enumerate(pos):
                v = self.argument(entry, p, st, recv, i)
                if v is None:
                    it.observers = saved_obs
                    return None
                r.args.append((p.arg, v))
                args.pos.append(v)
            for p in konly:
                v = self.argument(entry, p, st, recv, 0)
                args.kw[p.arg] = v
                r.args.append((p.arg, v))
            if vararg is not None:
                v = self.argument(entry, vararg, st, recv, 0)
                if v is not None:
                    vs = v if isinstance(v, list) else [v]
                    args.pos.extend(vs)
                    r.args.extend((vararg.arg, x) for x in vs)
        return self._call(r, entry, st, args, saved_obs, prepare, 'entry')

    def _call(self, r, entry, st, args, saved_obs, prepare, context):
        it = self.it
        recv = r.recv
        r.given = list(args.pos), dict(args.kw)
        it.observers = saved_obs
        r.before = st.copy()
        it.sink.append([])
        inc, it.incomplete = it.incomplete, set()
        it.steps = 0
        it.STEP_BUDGET = self.budget
        if prepare is not None:
            prepare(r)
        frames = it.frames
        fr = _EntryFrame(it.program.modules[entry.owner.module])
        it.frames = [fr]
        old = it.push_ctx((context, entry.id))
        value = BOTTOM
        n = ast.Name(id='<entry>', ctx=ast.Load(), lineno=0, col_offset=0)
        self.pinned = getattr(self, 'pinned', [])
        self.pinned.append(n)
        try:
            if entry.kind == 'get':
                value = it.getattr(recv, entry.name, n, st)
            elif entry.kind == 'set':
                it.setattr(recv, entry.name, r.args[0][1], n, st)
                value = NONE
            else:
                f = it.getattr(recv, entry.name, n, st)
                value = it.call(f, args, n, st)
                if entry.func.f.is_generator and not st.dead:
                    pass
        except Budget:
            r.budget = True
        finally:
            it.frames = frames
            it.ctx = old
            it.STEP_BUDGET = 10**9
            it.active.clear()
        r.errors = list(dict.fromkeys(it.sink.pop()))
        r.incomplete, it.incomplete = it.incomplete, inc
        r.value = value
        r.state = st
        r.raises = fr.raises
        return r


class Law:
    __slots__ = ('name', 'verdicts', 'errors', 'incomplete', 'dead', 'analysed', 'unsure', 'sure')


def run_law(session, name):
    """Analyse one law function of the seeds; the verdict of each psa_equal of its last analysis."""
    it = session.it
    st = State()
    it.laws = []
    it.unsure = {}
    it.sure = set()
    it.stubs, it.stub_calls = {}, {}
    it.sink.append([])
    inc, it.incomplete = it.incomplete, set()
    analysed, it.analysed = it.analysed, set()
    it.steps = 0
    it.STEP_BUDGET = session.budget * 5
    frames, it.frames = it.frames, [_EntryFrame(it.program.modules['psa_seeds.' + session.seed_module[name]])]
    old = it.push_ctx(('law', name))
    out = Law()
    out.name = name
    terms, Poly.MAX_TERMS = Poly.MAX_TERMS, 1200
    same, it.MAX_SAME = it.MAX_SAME, 12
    algebra.GENERIC[0] = True
    try:
        it.call(session.seeds[name], Args(), None, st)
    except Budget:
        it.incomplete.add('budget')
    finally:
        algebra.GENERIC[0] = False
        it.stubs, it.stub_calls = {}, {}
        Poly.MAX_TERMS = terms
        it.MAX_SAME = same
        it.frames = frames
        it.ctx = old
        it.STEP_BUDGET = 10**9
        it.active.clear()
    out.dead = st.dead
    out.unsure = it.unsure
    out.sure = it.sure
    out.errors = list(dict.fromkeys(it.sink.pop()))
    out.incomplete, it.incomplete = it.incomplete, inc
    out.analysed, it.analysed = it.analysed, analysed | it.analysed
    verdicts = {}
    for label, status, detail, line in it.laws:
        # a law met several times (on several paths or iterations) holds when it holds each time
        old_v = verdicts.get(label)
        rank = {'equal': 0, 'undecided': 1, 'different': 2}
        if old_v is None or rank[status] > rank[old_v[0]]:
            verdicts[label] = (status, detail, line)
    out.verdicts = verdicts
    return out


def _EntryFrame(module):
    from .interp import Frame
    return Frame(None, module)
