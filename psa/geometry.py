"""Entry points of the geometry engine."""

import re

from .entries import Session
from .interp import Args, F0
from .values import *

SEEDS = ['geometry', 'laws_geometry', 'laws_vectors', 'laws_shapes', 'laws_paths', 'laws_primitives']

#: argument kinds by parameter name; a name not listed gets an opaque value
KINDS = {
    't': 'scalar', 't0': 'scalar', 't1': 'scalar', 't2': 'scalar', 't_start': 'scalar', 't_stop': 'scalar',
    'angle': 'degrees', 'start': 'degrees', 'stop': 'degrees',
    'x': 'x', 'y': 'y',
    'scale': 'scalar', 'scale_x': 'scalar', 'scale_y': 'scalar', 'x_scale': 'scalar', 'y_scale': 'scalar',
    'distance': 'length', 'radius': 'length', 'radius_x': 'length', 'radius_y': 'length', 'length': 'length',
    'shift': 'length', 'width': 'length', 'close_radius': 'length', 'y_height': 'y',
    'dx': 'dx', 'dy': 'dy', 's': 'length', 'abscissa': 'length',
    'counter_clockwise': 'bool', 'absolute': 'bool', 'large_arc': 'bool', 'sweep': 'bool', 'closed': 'bool',
}

POINTS = {'point', 'p0', 'p1', 'p2', 'p3', 'point0', 'point1', 'point2', 'point3', 'center', 'start_point', 'start_point',
          'end_point', 'stop_point', 'p', 'q', 'r'}
VECTORS = {'vector', 'direction', 'offset'}


def argument(session, entry, p, tag, st, recv):
    it = session.it
    name = p.arg
    mk = lambda k: models_value(it, k, tag, st)
    from .models import psa_value
    if entry.cls.name == 'Line2D' and name in ('s', 's0', 's1'):
        return psa_value(it, 'psa_scalar', [Const(tag)], None, st)
    special = SPECIAL.get((entry.owner.name, entry.name, name)) or SPECIAL.get((entry.name, name))
    kind = special or KINDS.get(name)
    if kind is None:
        if name in POINTS:
            kind = '@point'
        elif name in VECTORS:
            kind = '@displacement'
        elif name in ('other', 'v2', 'obj', 'primitive') or name == entry.cls.name.lower():
            kind = '@' + entry.seed
        elif name == 'points':
            kind = '*points'
        elif name == 'transformation':
            kind = '@AffineTransformation2D__rotation_at'
        elif name in ('circle',):
            kind = '@Circle2D'
        elif name in ('line', 'line1', 'line2'):
            kind = '@Line2D'
        elif name in ('segment',):
            kind = '@Segment2D'
        elif name in ('interval', 'bounding_box', 'bbox'):
            kind = '@interval2d'
        elif name == 'domain':
            kind = '@AngularDomain'
    if kind is None:
        ann = p.annotation
        txt = ''
        if ann is not None:
            import ast
            txt = ast.unparse(ann).strip('\'"')
        if txt == 'float':
            kind = 'num'
        elif txt == 'int':
            kind = 'int'
        elif txt == 'bool':
            kind = 'bool'
        elif txt == 'str':
            kind = 'str'
        elif txt in session.seeds:
            kind = '@' + txt
    if kind is None:
        return Top(tag, frozenset([tag]))
    if kind.startswith('@'):
        return session.make(kind[1:], tag, st)
    if kind == '*points':
        if getattr(entry.func.f.node.args.vararg, 'arg', None) == name:
            return [session.make('point', tag + str(i), st) for i in range(3)]
        return session.make('points', tag, st)
    if kind == '*':
        return []
    return psa_value(it, 'psa_' + kind, [Const(tag)], None, st)


SPECIAL = {
    ('Vector2DFloatBase', 'rotate', 'angle'): 'turn',
    ('__mul__', 'scale'): 'scalar',
}


def session(program, observers=()):
    s = Session(program, SEEDS, argument, observers)
    for c in s.it.all_classes():
        for k, v in list(c.ns.items()):
            # absolute tolerances are lengths
            if re.search('[Pp]recision|[Tt]olerance', k) and v.__class__ is Const and isinstance(v.v, float):
                c.ns[k] = Num('float', g=(F0 + 1, 0, 0), w=P0)
    return s


def class_seeds(s):
    """(seed, class) pairs of the receivers, in order."""
    out = []
    for name in s.seeds:
        if not name[0].isupper():
            continue
        c = s.class_of(name)
        if c is not None:
            out.append((name, c))
    return out
