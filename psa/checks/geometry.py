"""Checks of the geometry engine."""

import ast
import re

from . import check
from .. import entries, geometry
from ..interp import Observer
from ..program import Program
from ..values import *

INTERNAL = ('AttributeError', 'NameError', 'UnboundLocalError', 'ImportError', 'TypeError', 'IndexError', 'KeyError')
GRADES = {'grade': 'G04', 'affine': 'G05', 'unit': 'G06'}

#: operations documented to modify their receiver
MUTATORS = {'apply_transformation', 'transform', 'mirror', 'x_mirror', 'y_mirror', 'rotate', 'scale', 'recenter',
            'normalise', 'move_to', 'close', 'line_to', 'quadratic_to', 'cubic_to', 'stringed_quadratic_to',
            'stringed_cubic_to', 'arc_to', 'horizontal_to', 'vertical_to', 'absolute_horizontal_to',
            'absolute_vertical_to', 'north_to', 'south_to', 'east_to', 'west_to', 'north_east_to', 'north_west_to',
            'south_east_to', 'south_west_to'}
#: of these, the vectors only have *normalise*
INPLACE = ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__setitem__', '__delitem__', '__ior__', '__iand__')


def is_mutator(e):
    if e.kind == 'set' or e.name in INPLACE:
        return True
    return e.name in MUTATORS and e.variant != 'clone' and not (
        e.cls.name.startswith(('Vector', 'Homogeneous', 'Normalised')) and e.name in ('rotate', 'scale', 'mirror'))


class WriteLog(Observer):
    def __init__(self):
        self.before = {}
        self.base = {}
        self.mine = frozenset()     # what the receiver reaches
        self.log = []
        self.known = None           # during a second call: the objects before the first one

    def on_write(self, it, st, oid, obj, field, value, node):
        old = self.before.get(oid)
        if old is None:
            old = self.base.get(oid)
            if old is None:
                return
        if self.known is not None:
            if oid in self.known or old.kind != 'inst' or not isinstance(field, str):
                return
            prev = old.attrs.get(field)
            if prev is None or prev.__class__ is Const and (prev.v is None or prev == value):
                return
            name = '{}.{}, made by an earlier call and kept'.format(old.cls.name, field)
        elif old.kind == 'inst' and isinstance(field, str):
            prev = old.attrs.get(field)
            if prev is None or (prev.__class__ is Const and prev.v is None):
                return          # a cache filled on demand
            if prev == value:
                return
            name = '{}.{}'.format(old.cls.name, field)
        else:
            name = 'the content of a ' + old.kind
        self.log.append((name, it.frames[-1].where, getattr(node, 'lineno', 0), oid in self.mine))


def reachable(heap, v, seen=None):
    """Identities of the objects *v* reaches."""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        for m in members(todo.pop()):
            if m.__class__ is not Ref or m.oid in seen:
                continue
            o = heap.get(m.oid)
            if o is None:
                continue
            seen.add(m.oid)
            todo.extend(o.attrs.values())
            todo.extend(o.items or ())
            todo.extend((o.elem, o.key))
    return seen


class Sweep:
    """One analysis of every public operation of every seeded class."""

    def __init__(self, again=False):
        self.again = {}
        self.program = Program()
        self.session = s = geometry.session(self.program)
        self.writes = WriteLog()
        s.it.observers.append(self.writes)
        self.results = []
        self.log = {}
        self.receivers = geometry.class_seeds(s)
        for seed, cls in self.receivers:
            for e in s.entries(seed, cls):
                self.writes.before, self.writes.log = {}, []
                r = s.run(e, self._prepare)
                if r is None:
                    continue
                self.results.append(r)
                self.log[e.id] = list(dict.fromkeys(self.writes.log))
                if again and not is_mutator(e) and not r.state.dead and not r.budget:
                    # what the first call left (a cache) is modified by a second one
                    self.writes.log = []
                    self.writes.known = r.before.heap
                    s.run(e, self._prepare, again=r)
                    self.writes.known = None
                    self.again[e.id] = list(dict.fromkeys(self.writes.log))

    def _prepare(self, r):
        self.writes.before = r.before.heap
        self.writes.base = self.session.it.base
        self.writes.mine = reachable(r.before.heap, r.recv)


_sweep = []


def sweep(again=False):
    if not _sweep:
        _sweep.append(Sweep(again))
    return _sweep[0]


def base_counts(rep, sw):
    rep.count('receivers', len(sw.receivers))
    rep.count('operations', len(sw.results))
    rep.count('functions analysed', len([f for f in sw.session.it.analysed if f.startswith('Patro')]))
    rep.expect('operations', 900)
    rep.assumptions.append('IntervalArithmetic and numpy as modelled in psa/models.py and analysed from source')


def seed_errors(sw, kinds):
    for seed, errs in sw.session.seed_errors.items():
        for e in errs:
            if e[0] in kinds:
                yield seed, e


@check('G13')
def internal_failures(rep):
    sw = sweep()
    base_counts(rep, sw)
    rep.rule = ('Every public operation of every geometry class is analysed by abstract interpretation on receivers '
                'and arguments of the documented kinds; a use of an undefined name, a missing attribute, a call that '
                'does not match the signature, or an operand of a wrong type on a reachable path is a violation.')
    found = {}
    for r in sw.results:
        for e in r.errors:
            if e[0] in INTERNAL:
                found.setdefault(e, []).append(r.entry.id)
    for seed, e in seed_errors(sw, INTERNAL + ('dead',)):
        found.setdefault(e, []).append('construction of ' + seed)
    for e, ids in found.items():
        rep.violation(e[0], e[1], e[2], line=e[3], path=ids[:6])
    rep.count('operations not followed to the end', sum(1 for r in sw.results if r.budget or r.incomplete))


def graded(kind, rule):
    def f(rep):
        sw = sweep()
        base_counts(rep, sw)
        rep.rule = rule
        found = {}
        for r in sw.results:
            for e in r.errors:
                if e[0] == kind:
                    found.setdefault(e, []).append(r.entry.id)
        for seed, e in seed_errors(sw, (kind,)):
            found.setdefault(e, []).append('construction of ' + seed)
        for e, ids in found.items():
            rep.violation(e[0], e[1], e[2], line=e[3], path=ids[:6])
        known = 0
        for r in sw.results:
            for v in numbers(r):
                if kind == 'grade' and v.g is not None and v.g[0] is not None:
                    known += 1
                elif kind == 'affine' and v.w is not None:
                    known += 1
                elif kind == 'unit' and v.u:
                    known += 1
        rep.count('results of known grade', known)
        results(rep, sw, kind)
    return f


#: named results: scale degree, translation weight (None: not judged)
RESULTS = {
    'length': (1, 0), 'perimeter': (1, 0), 'magnitude': (1, 0), 'area': (2, 0), 'radius': (1, 0), 'radius_x': (1, 0),
    'radius_y': (1, 0), 'diameter': (1, 0), 'magnitude_square': (2, None), 'width': (1, 0),
    'barycenter': (1, 1), 'point_barycenter': (1, 1), 'centroid': (1, 1), 'center': (1, 1), 'orthocenter': (1, 1),
    'circumcenter': (1, 1), 'start_point': (1, 1), 'end_point': (1, 1), 'stop_point': (1, 1), 'p0': (1, 1),
    'p1': (1, 1), 'p2': (1, 1), 'p3': (1, 1), 'point_at_t': (1, 1), 'interpolate': (1, 1), 'point_at_angle': (1, 1),
    'point_at_distance': (1, 1), 'closest_point': (1, 1), 'projected_point': (1, 1), 'tip_point': (1, 1),
    'distance_to_point': (1, 0), 'signed_distance_to_point': (1, 0), 'distance_to_line': (1, 0),
    'projected_abscissa': (None, 0), 'anchor_point': (1, 1),
}


def numbers(r):
    """The numbers of a result, vectors opened."""
    out = []

    def walk(v, depth):
        for m in members(v):
            if m.__class__ is Num:
                out.append(m)
            elif m.__class__ is Ref and depth < 3:
                o = r.state.heap.get(m.oid)
                if o is None:
                    continue
                if o.kind == 'inst' and '_v' in o.attrs:
                    walk(o.attrs['_v'], depth + 1)
                elif o.kind in ('ndarray', 'tuple', 'list') and o.items is not None:
                    for x in o.items[:8]:
                        walk(x, depth + 1)
                elif o.kind in ('ndarray', 'tuple', 'list'):
                    walk(o.elem, depth + 1)
    walk(r.value, 0)
    return out


def results(rep, sw, kind):
    if kind == 'unit':
        return
    judged = 0
    for r in sw.results:
        e = r.entry
        if e.name not in RESULTS or e.kind == 'set':
            continue
        if e.cls.name.startswith(('AngularDomain', 'Vector', 'Normalised', 'Homogeneous', 'RegularPolygon__')):
            continue
        if any(m.__class__ is Ref and getattr(r.state.heap.get(m.oid), 'kind', '') == 'tuple'
               for m in members(r.value)):
            continue
        degree, weight = RESULTS[e.name]
        for v in numbers(r):
            if kind == 'grade' and degree is not None and v.g is not None and v.g[0] is not None:
                judged += 1
                if v.g[0] != degree:
                    rep.violation('result-degree', e.where, '{} has scale degree {} instead of {}'.format(
                        e.name, v.g[0], degree), path=[e.id])
            if kind == 'affine' and weight is not None and v.w is not None and v.w.is_const:
                judged += 1
                if v.w.value != weight:
                    rep.violation('result-weight', e.where, '{} moves {} times with the drawing instead of {}'.format(
                        e.name, v.w, weight), path=[e.id])
    rep.count('named results judged', judged)


check('G04')(graded('grade', (
    'Degrees of homogeneity (length 1, area 2, ratio 0) are inferred for every value by abstract interpretation '
    'of every public operation; sums, differences and comparisons of different degrees, transcendental functions '
    'of a dimensional quantity, and named results of a wrong degree are violations.')))
check('G05')(graded('affine', (
    'The weight with which a value follows a translation of the drawing (position 1, displacement 0) is inferred '
    'by abstract interpretation; comparisons of different weights and named results of a wrong weight are '
    'violations.')))
check('G06')(graded('unit', (
    'Degrees and radians are inferred for every angle by abstract interpretation; a degree passed to a function of '
    'the math module, a conversion applied twice, and mixed sums or comparisons are violations.')))


@check('G01')
def purity(rep):
    sw = sweep(again=True)
    base_counts(rep, sw)
    rep.rule = ('For every operation that is not documented to modify its receiver (setters, in-place operators, '
                'transformations without clone, path builders), no write on any abstract path reaches an object that '
                'existed before the call, except a field that held None (a cache); called once more, it does not '
                'write into an object which its first call made and kept.')
    n = 0
    for r in sw.results:
        e = r.entry
        # a mutator may change its receiver, never its arguments
        mutator = is_mutator(e)
        n += not mutator
        for name, where, line, mine in sw.log[e.id]:
            if mutator and mine:
                continue
            rep.violation('impure', where, '{} modifies {}'.format(e.name, name), line=line, path=[e.id])
        for name, where, line, mine in sw.again.get(e.id, ()):
            rep.violation('impure', where, '{} modifies {}'.format(e.name, name), line=line, path=[e.id])
        rep.sample(e.id)
    rep.count('pure operations', n)
    rep.expect('pure operations', 500)


def laws(prefix, rule, minimum, labels=None):
    def f(rep):
        run_laws(rep, geometry, prefix, rule, minimum, labels)
    return f


def run_laws(rep, family, prefix, rule, minimum, labels=None):
    """Decide the laws named law_PREFIX_*; with *labels*, only the obligations whose label matches it."""
    program = family.program() if hasattr(family, 'program') else Program()
    s = family.session(program)
    rep.rule = (rep.rule + ' ' + rule).strip()
    functions = set()
    for name in s.seeds:
        if not name.startswith('law_' + prefix + '_'):
            continue
        if labels is not None and not re.search(labels, law_source(s, name)):
            continue
        law = entries.run_law(s, name)
        rep.count('laws')
        fs = sorted(f for f in law.analysed if f.startswith('Patro'))
        functions.update(fs)
        for label, (status, detail, line) in law.verdicts.items():
            if labels is not None and not re.search(labels, label):
                continue
            rep.count('obligations')
            if status == 'equal':
                rep.count('proved')
                rep.sample('{}: {}'.format(name[4:], label))
            elif status == 'different':
                rep.violation('law', locate(program, label, fs), '{} [{}]'.format(label, name[4:]),
                              found=detail, path=fs[:8])
            else:
                rep.count('undecided')
                rep.notes.append('undecided: {} {} {}'.format(name, label, str(detail)[:160]))
        for e in law.errors:
            if e[0] == 'rounding-equality' and labels is None:
                rep.violation(e[0], e[1], '{} [{}]'.format(e[2], name[4:]), line=e[3])
        if labels is not None:
            continue
        # not in a branch of a test of which nothing is known; not
        # None where the law expects an object: a lost value, not a failure, when something else was lost before
        failed = [e for e in law.errors if (e[0] in INTERNAL or e[0] == 'ValueError' and 'unpack' in e[2]) and e in law.sure and not (
            'None' in e[2] and not e[1].startswith('Patro') and law.unsure.get(e, True))]
        for e in failed:
            where = e[1] if e[1].startswith('Patro') else locate(program, name, fs)
            rep.violation('law-fails', where, '{}: {} [{}]'.format(e[0], e[2], name[4:]), line=e[3], path=fs[:8])
        if law.dead and not failed:
            rep.violation('law-fails', fs[-1] if fs else name, 'never returns [{}]'.format(name[4:]), path=fs[:8])
        if law.errors or law.incomplete:
            rep.notes.append('{}: {}'.format(name, (law.errors + sorted(law.incomplete))[:3]))
    rep.count('functions analysed', len(functions))
    rep.expect('obligations', minimum)


def law_source(s, name):
    return ast.unparse(s.seeds[name].f.node)


def locate(program, label, functions):
    """The function a label such as 'Class.method of x' names."""
    head = label.split()[0].split('(')[0]
    for f in functions:
        if f.split(':')[1] == head:
            return f
    method = head.split('.')[-1]
    for f in functions:
        if f.split('.')[-1].split(':')[-1] == method:
            return f
    return head


LAW_RULE = ('Abstract interpretation with polynomial value numbering: every number is a canonical polynomial over the '
            'inputs and interned applications (sqrt, sin, ...); each obligation compares the value number the code '
            'computes with the one of the specification, for all inputs in general position.')

check('G02')(laws('G02', LAW_RULE, 60))
check('G07')(laws('G07', LAW_RULE, 5))
check('G08')(laws('G08', LAW_RULE, 30))
check('G09')(laws('G09', LAW_RULE, 25))
check('G10')(laws('G10', LAW_RULE, 50))
check('G11')(laws('G11', LAW_RULE, 60))
check('G12')(laws('G12', LAW_RULE, 70))

#: obligations on operations that take or return an angle
ANGLES = ('Vector2D.(rotate|from_angle|from_polar|from_ellipse|orientation|angle_with)|Rotation|rotation|'
          'RegularPolygon.(angle|edge_angle)|AngularDomain|_at_angle|point_at_distance|angle_for_point|'
          'Circle2D.(start_point|stop_point|perimeter)|start_angle|Ellipse2D.(bounding_box|to_bezier|major_vector|'
          'minor_vector|point_at)|(north|south)_(east|west)_to|ArcSegment.apply|bulge|svg_arc')

for _prefix in ('G08', 'G09', 'G11', 'G12'):
    check('G06')(laws(_prefix, LAW_RULE if _prefix == 'G08' else '', 8, ANGLES))
