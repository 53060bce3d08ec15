"""Laws of the SVG format, analysed and never executed (see laws_geometry)."""

from psa_seeds.geometry import point, displacement

from Patro.FileFormat.Svg import SvgFormat
from Patro.FileFormat.Svg.SvgFile import RenderState, RenderStateStack, SvgDispatcher, SvgFileInternal
from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute, TransformAttribute
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D


def same(p, x, y, label):
    psa_equal(p.x, x, label)
    psa_equal(p.y, y, label)

def read(text):
    return PathDataAttribute.from_xml(text)

def stop(path):
    return path.stop_segment.stop_point

def head(p, tail):
    return 'M {} {} '.format(p.x, p.y) + tail

####################################################################################################
# path data

def law_S01_move():
    p = point('p')
    q = point('q')
    path = read('M{},{}'.format(p.x, p.y))
    same(path.p0, p.x, p.y, 'PathDataAttribute.to_geometry M')
    psa_equal(len(path), 0, 'PathDataAttribute.to_geometry M')
    psa_true(not path.is_closed, 'PathDataAttribute.to_geometry M')
    path = read('m {} {}'.format(p.x, p.y))
    same(path.p0, p.x, p.y, 'PathDataAttribute.to_geometry m')
    # the points after the first one are lines
    d = displacement('d')
    e = displacement('e')
    path = read('M {} {} {} {}'.format(p.x, p.y, q.x, q.y))
    psa_equal(len(path), 1, 'PathDataAttribute.from_xml implicit line')
    same(stop(path), q.x, q.y, 'PathDataAttribute.from_xml implicit line')
    path = read('m {} {} {} {} {} {}'.format(p.x, p.y, d.x, d.y, e.x, e.y))
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml implicit relative line')
    same(path[0].stop_point, p.x + d.x, p.y + d.y, 'PathDataAttribute.from_xml implicit relative line')
    same(path[1].stop_point, p.x + d.x + e.x, p.y + d.y + e.y, 'PathDataAttribute.from_xml implicit relative line')

def law_S01_line():
    p = point('p')
    q = point('q')
    r = point('r')
    d = displacement('d')
    e = displacement('e')
    path = read(head(p, 'L {} {}'.format(q.x, q.y)))
    psa_equal(len(path), 1, 'PathDataAttribute.to_geometry L')
    same(stop(path), q.x, q.y, 'PathDataAttribute.to_geometry L')
    path = read(head(p, 'l {} {}'.format(d.x, d.y)))
    same(stop(path), p.x + d.x, p.y + d.y, 'PathDataAttribute.to_geometry l')
    # a repeated command is written once
    path = read(head(p, 'L {} {} {} {}'.format(q.x, q.y, r.x, r.y)))
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml repeated L')
    same(path[0].stop_point, q.x, q.y, 'PathDataAttribute.from_xml repeated L')
    same(path[1].stop_point, r.x, r.y, 'PathDataAttribute.from_xml repeated L')
    path = read(head(p, 'l {} {} {} {}'.format(d.x, d.y, e.x, e.y)))
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml repeated l')
    same(path[0].stop_point, p.x + d.x, p.y + d.y, 'PathDataAttribute.from_xml repeated l')
    same(path[1].stop_point, p.x + d.x + e.x, p.y + d.y + e.y, 'PathDataAttribute.from_xml repeated l')

def law_S01_axis():
    p = point('p')
    x = psa_x('x')
    y = psa_y('y')
    dx = psa_dx('dx')
    dy = psa_dy('dy')
    same(stop(read(head(p, 'H {}'.format(x)))), x, p.y, 'PathDataAttribute.to_geometry H')
    same(stop(read(head(p, 'h {}'.format(dx)))), p.x + dx, p.y, 'PathDataAttribute.to_geometry h')
    same(stop(read(head(p, 'V {}'.format(y)))), p.x, y, 'PathDataAttribute.to_geometry V')
    same(stop(read(head(p, 'v {}'.format(dy)))), p.x, p.y + dy, 'PathDataAttribute.to_geometry v')
    path = read(head(p, 'h {} v {} H {} V {}'.format(dx, dy, x, y)))
    psa_equal(len(path), 4, 'PathDataAttribute.from_xml h v H V')
    same(path[1].stop_point, p.x + dx, p.y + dy, 'PathDataAttribute.from_xml h v H V')
    same(path[2].stop_point, x, p.y + dy, 'PathDataAttribute.from_xml h v H V')
    same(path[3].stop_point, x, y, 'PathDataAttribute.from_xml h v H V')

def law_S01_cubic():
    p = point('p')
    a = point('a')
    b = point('b')
    c = point('c')
    path = read(head(p, 'C {} {} {} {} {} {}'.format(a.x, a.y, b.x, b.y, c.x, c.y)))
    psa_equal(len(path), 1, 'PathDataAttribute.to_geometry C')
    curve = path[0].geometry
    same(curve.p0, p.x, p.y, 'PathDataAttribute.to_geometry C')
    same(curve.p1, a.x, a.y, 'PathDataAttribute.to_geometry C')
    same(curve.p2, b.x, b.y, 'PathDataAttribute.to_geometry C')
    same(curve.p3, c.x, c.y, 'PathDataAttribute.to_geometry C')
    e = displacement('e')
    f = displacement('f')
    g = displacement('g')
    path = read(head(p, 'c {} {} {} {} {} {}'.format(e.x, e.y, f.x, f.y, g.x, g.y)))
    curve = path[0].geometry
    same(curve.p0, p.x, p.y, 'PathDataAttribute.to_geometry c')
    same(curve.p1, p.x + e.x, p.y + e.y, 'PathDataAttribute.to_geometry c')
    same(curve.p2, p.x + f.x, p.y + f.y, 'PathDataAttribute.to_geometry c')
    same(curve.p3, p.x + g.x, p.y + g.y, 'PathDataAttribute.to_geometry c')

def law_S01_smooth_cubic():
    p = point('p')
    a = point('a')
    b = point('b')
    c = point('c')
    d = point('d')
    f = point('f')
    start = head(p, 'C {} {} {} {} {} {} '.format(a.x, a.y, b.x, b.y, c.x, c.y))
    path = read(start + 'S {} {} {} {}'.format(d.x, d.y, f.x, f.y))
    psa_equal(len(path), 2, 'PathDataAttribute.to_geometry S')
    curve = path[1].geometry
    same(curve.p0, c.x, c.y, 'PathDataAttribute.to_geometry S')
    same(curve.p1, 2*c.x - b.x, 2*c.y - b.y, 'PathDataAttribute.to_geometry S')
    same(curve.p2, d.x, d.y, 'PathDataAttribute.to_geometry S')
    same(curve.p3, f.x, f.y, 'PathDataAttribute.to_geometry S')
    u = displacement('u')
    v = displacement('v')
    path = read(start + 's {} {} {} {}'.format(u.x, u.y, v.x, v.y))
    curve = path[1].geometry
    same(curve.p1, 2*c.x - b.x, 2*c.y - b.y, 'PathDataAttribute.to_geometry s')
    same(curve.p2, c.x + u.x, c.y + u.y, 'PathDataAttribute.to_geometry s')
    same(curve.p3, c.x + v.x, c.y + v.y, 'PathDataAttribute.to_geometry s')

def law_S01_quadratic():
    p = point('p')
    a = point('a')
    b = point('b')
    c = point('c')
    start = head(p, 'Q {} {} {} {} '.format(a.x, a.y, b.x, b.y))
    curve = read(start)[0].geometry
    same(curve.p0, p.x, p.y, 'PathDataAttribute.to_geometry Q')
    same(curve.p1, a.x, a.y, 'PathDataAttribute.to_geometry Q')
    same(curve.p2, b.x, b.y, 'PathDataAttribute.to_geometry Q')
    e = displacement('e')
    f = displacement('f')
    curve = read(head(p, 'q {} {} {} {} '.format(e.x, e.y, f.x, f.y)))[0].geometry
    same(curve.p1, p.x + e.x, p.y + e.y, 'PathDataAttribute.to_geometry q')
    same(curve.p2, p.x + f.x, p.y + f.y, 'PathDataAttribute.to_geometry q')
    curve = read(start + 'T {} {}'.format(c.x, c.y))[1].geometry
    same(curve.p0, b.x, b.y, 'PathDataAttribute.to_geometry T')
    same(curve.p1, 2*b.x - a.x, 2*b.y - a.y, 'PathDataAttribute.to_geometry T')
    same(curve.p2, c.x, c.y, 'PathDataAttribute.to_geometry T')
    curve = read(start + 't {} {}'.format(e.x, e.y))[1].geometry
    same(curve.p1, 2*b.x - a.x, 2*b.y - a.y, 'PathDataAttribute.to_geometry t')
    same(curve.p2, b.x + e.x, b.y + e.y, 'PathDataAttribute.to_geometry t')

def law_S01_arc():
    p = point('p')
    q = point('q')
    e = displacement('e')
    rx = psa_positive('rx')
    ry = psa_positive('ry')
    angle = psa_degrees('angle')
    path = read(head(p, 'A {} {} {} 1 0 {} {}'.format(rx, ry, angle, q.x, q.y)))
    psa_equal(len(path), 1, 'PathDataAttribute.to_geometry A')
    arc = path[0]
    same(arc.start_point, p.x, p.y, 'PathDataAttribute.to_geometry A')
    same(arc.stop_point, q.x, q.y, 'PathDataAttribute.to_geometry A')
    psa_equal(arc.radius_x, rx, 'PathDataAttribute.to_geometry A radius_x')
    psa_equal(arc.radius_y, ry, 'PathDataAttribute.to_geometry A radius_y')
    psa_equal(arc.angle, angle, 'PathDataAttribute.to_geometry A angle')
    psa_true(arc.large_arc, 'PathDataAttribute.to_geometry A large arc')
    psa_true(not arc.sweep, 'PathDataAttribute.to_geometry A sweep')
    arc = read(head(p, 'a {} {} {} 0 1 {} {}'.format(rx, ry, angle, e.x, e.y)))[0]
    same(arc.stop_point, p.x + e.x, p.y + e.y, 'PathDataAttribute.to_geometry a')
    psa_equal(arc.radius_x, rx, 'PathDataAttribute.to_geometry a radius_x')
    psa_true(not arc.large_arc, 'PathDataAttribute.to_geometry a large arc')
    psa_true(arc.sweep, 'PathDataAttribute.to_geometry a sweep')

def law_S01_close():
    p = point('p')
    d = displacement('d')
    e = displacement('e')
    for z in ('z', 'Z'):
        path = read(head(p, 'l {} {} {} {} {}'.format(d.x, d.y, e.x, e.y, z)))
        psa_true(path.is_closed, 'PathDataAttribute.to_geometry z')
        same(stop(path), p.x, p.y, 'PathDataAttribute.to_geometry z')

def law_S01_separators():
    p = point('p')
    d = psa_positive('d')
    e = psa_positive('e')
    # commas, no space around the letters, signs as separators, exponents, new lines
    path = read('M{},{}l{},{}'.format(p.x, p.y, d, e))
    same(stop(path), p.x + d, p.y + e, 'PathDataAttribute.from_xml separators')
    path = read('M{},{}l-{}-{}'.format(p.x, p.y, d, e))
    psa_equal(len(path), 1, 'PathDataAttribute.from_xml signs')
    same(stop(path), p.x - d, p.y - e, 'PathDataAttribute.from_xml signs')
    path = read('M{} {}\n  l{}-{}\n\th{}'.format(p.x, p.y, d, e, d))
    same(stop(path), p.x + 2*d, p.y - e, 'PathDataAttribute.from_xml new lines')
    path = read('M1e2-1e-1L+5,.5')
    same(path.p0, 100, -.1, 'PathDataAttribute.from_xml exponents')
    same(stop(path), 5, .5, 'PathDataAttribute.from_xml exponents')

def law_S01_python_value():
    path = Path2D(point('p'))
    psa_same_object(PathDataAttribute.from_xml(path), path, 'PathDataAttribute.from_xml a path')

####################################################################################################
# what is written

def law_S02_commands():
    p = point('p')
    d = displacement('d')
    e = displacement('e')
    q = point('q')
    path = Path2D(p)
    path.line_to(d)
    path.horizontal_to(e.x)
    psa_equal(PathDataAttribute.to_xml(path), 'M {} {} L {} {} L {} {}'.format(
        p.x, p.y, p.x + d.x, p.y + d.y, p.x + d.x + e.x, p.y + d.y), 'PathDataAttribute.from_geometry lines')
    path = Path2D(p)
    path.line_to(d)
    path.line_to(q, absolute=True)
    path.close()
    psa_equal(PathDataAttribute.to_xml(path), 'M {} {} L {} {} L {} {} Z'.format(
        p.x, p.y, p.x + d.x, p.y + d.y, q.x, q.y), 'PathDataAttribute.from_geometry closed')

def law_S02_curves():
    p = point('p')
    d = displacement('d')
    e = displacement('e')
    q = point('q')
    path = Path2D(p)
    path.cubic_to(d, e, q, absolute=False)
    psa_equal(PathDataAttribute.to_xml(path), 'M {} {} C {} {} {} {} {} {}'.format(
        p.x, p.y, p.x + d.x, p.y + d.y, p.x + e.x, p.y + e.y, p.x + q.x, p.y + q.y),
        'PathDataAttribute.from_geometry cubic')
    path = Path2D(p)
    path.quadratic_to(d, e, absolute=True)
    psa_equal(PathDataAttribute.to_xml(path), 'M {} {} Q {} {} {} {}'.format(p.x, p.y, d.x, d.y, e.x, e.y),
        'PathDataAttribute.from_geometry quadratic')
    rx = psa_positive('rx')
    ry = psa_positive('ry')
    angle = psa_degrees('angle')
    path = Path2D(p)
    path.arc_to(d, rx, ry, angle, True, False)
    psa_equal(PathDataAttribute.to_xml(path), 'M {} {} A {} {} {} 1 0 {} {}'.format(
        p.x, p.y, rx, ry, angle, p.x + d.x, p.y + d.y), 'PathDataAttribute.from_geometry arc')

def law_S02_list():
    p = point('p')
    d = displacement('d')
    text = PathDataAttribute.to_xml([('M', [p.x, p.y]), ('l', [d.x, d.y]), ('Z', [])])
    path = read(text)
    same(path.p0, p.x, p.y, 'PathDataAttribute.to_xml of commands')
    same(path[0].stop_point, p.x + d.x, p.y + d.y, 'PathDataAttribute.to_xml of commands')
    psa_true(path.is_closed, 'PathDataAttribute.to_xml of commands')

def again(path, n, label):
    copy = read(PathDataAttribute.to_xml(path))
    psa_equal(len(copy), n, label)
    same(copy.p0, path.p0.x, path.p0.y, label)
    psa_true(copy.is_closed == path.is_closed, label)
    for i in range(n):
        a = path[i]
        b = copy[i]
        same(b.start_point, a.start_point.x, a.start_point.y, label)
        same(b.stop_point, a.stop_point.x, a.stop_point.y, label)
    return copy

def law_S02_again_lines():
    path = Path2D(point('p'))
    path.line_to(displacement('d'))
    path.vertical_to(psa_dy('v'))
    path.horizontal_to(psa_dx('h'))
    path.absolute_horizontal_to(psa_x('x'))
    path.line_to(point('q'), absolute=True)
    path.close()
    again(path, 6, 'PathDataAttribute.from_xml of a written path')

def law_S02_again_curves():
    path = Path2D(point('p'))
    path.cubic_to(displacement('d'), displacement('e'), displacement('f'))
    path.stringed_cubic_to(displacement('g'), displacement('h'))
    copy = again(path, 2, 'PathDataAttribute.from_xml of written curves')
    for i in range(2):
        a = path[i].geometry
        b = copy[i].geometry
        same(b.p1, a.p1.x, a.p1.y, 'PathDataAttribute.from_xml of written curves')
        same(b.p2, a.p2.x, a.p2.y, 'PathDataAttribute.from_xml of written curves')
    path = Path2D(point('p'))
    path.quadratic_to(displacement('d'), displacement('e'))
    path.stringed_quadratic_to(displacement('g'))
    copy = again(path, 2, 'PathDataAttribute.from_xml of written curves')
    for i in range(2):
        a = path[i].geometry
        b = copy[i].geometry
        same(b.p1, a.p1.x, a.p1.y, 'PathDataAttribute.from_xml of written curves')

def law_S02_again_arc():
    rx = psa_positive('rx')
    ry = psa_positive('ry')
    angle = psa_degrees('angle')
    for large_arc in (True, False):
        for sweep in (True, False):
            path = Path2D(point('p'))
            path.arc_to(displacement('d'), rx, ry, angle, large_arc, sweep)
            arc = again(path, 1, 'PathDataAttribute.from_xml of a written arc')[0]
            psa_equal(arc.radius_x, rx, 'PathDataAttribute.from_xml of a written arc')
            psa_equal(arc.radius_y, ry, 'PathDataAttribute.from_xml of a written arc')
            psa_equal(arc.angle, angle, 'PathDataAttribute.from_xml of a written arc')
            psa_true(bool(arc.large_arc) == large_arc, 'PathDataAttribute.from_xml of a written arc')
            psa_true(bool(arc.sweep) == sweep, 'PathDataAttribute.from_xml of a written arc')

####################################################################################################
# transformations

def law_S03_matrix():
    p = point('p')
    a = psa_scalar('a')
    b = psa_scalar('b')
    c = psa_scalar('c')
    d = psa_scalar('d')
    e = psa_dx('e')
    f = psa_dy('f')
    for text in ('matrix({} {} {} {} {} {})', 'matrix({},{},{},{},{},{})', ' matrix ( {}, {}, {}, {}, {}, {} ) '):
        t = TransformAttribute.from_xml(text.format(a, b, c, d, e, f))
        q = t * p
        same(q, a*p.x + c*p.y + e, b*p.x + d*p.y + f, 'TransformAttribute.from_xml matrix')
    psa_equal(TransformAttribute.to_xml(t), 'matrix({} {} {} {} {} {})'.format(a, b, c, d, e, f),
              'TransformAttribute.to_xml')
    psa_same_object(TransformAttribute.from_xml(t), t, 'TransformAttribute.from_xml of a transformation')

def law_S03_translate():
    p = point('p')
    e = psa_dx('e')
    f = psa_dy('f')
    q = TransformAttribute.from_xml('translate({} {})'.format(e, f)) * p
    same(q, p.x + e, p.y + f, 'TransformAttribute.to_python translate')
    q = TransformAttribute.from_xml('translate({})'.format(e)) * p
    same(q, p.x + e, p.y, 'TransformAttribute.to_python translate(x)')

def law_S03_scale():
    p = point('p')
    k = psa_scalar('k')
    l = psa_scalar('l')
    q = TransformAttribute.from_xml('scale({} {})'.format(k, l)) * p
    same(q, k*p.x, l*p.y, 'TransformAttribute.to_python scale')
    q = TransformAttribute.from_xml('scale({})'.format(k)) * p
    same(q, k*p.x, k*p.y, 'TransformAttribute.to_python scale(x)')

def law_S03_rotate():
    p = point('p')
    c = point('c')
    a = psa_turn('a')
    q = TransformAttribute.from_xml('rotate({})'.format(a)) * p
    r = AffineTransformation2D.Rotation(a) * p
    same(q, r.x, r.y, 'TransformAttribute.to_python rotate')
    q = TransformAttribute.from_xml('rotate({} {} {})'.format(a, c.x, c.y)) * p
    r = AffineTransformation2D.RotationAt(c, a) * p
    same(q, r.x, r.y, 'TransformAttribute.to_python rotate at a point')

def law_S03_order():
    p = point('p')
    k = psa_scalar('k')
    l = psa_scalar('l')
    e = psa_dx('e')
    f = psa_dy('f')
    # the last one is applied first
    for text in ('translate({} {}) scale({} {})', 'translate({},{}),scale({},{})', 'translate({},{})scale({},{})'):
        q = TransformAttribute.from_xml(text.format(e, f, k, l)) * p
        same(q, k*p.x + e, l*p.y + f, 'TransformAttribute.to_python order')
    q = TransformAttribute.from_xml('scale({} {}) translate({} {})'.format(k, l, e, f)) * p
    same(q, k*(p.x + e), l*(p.y + f), 'TransformAttribute.to_python order')

def law_S03_separate():
    # the transformations of a list, one by one
    p = point('p')
    t = displacement('t')
    k = psa_scalar('k')
    transforms = TransformAttribute.to_python([('translate', [t.x, t.y]), ('scale', [k])], concat=False)
    psa_equal(len(transforms), 2, 'TransformAttribute.to_python without concatenation')
    q = transforms[0] * p
    same(q, p.x + t.x, p.y + t.y, 'TransformAttribute.to_python without concatenation')
    q = transforms[1] * p
    same(q, k*p.x, k*p.y, 'TransformAttribute.to_python without concatenation')

def law_S03_again():
    p = point('p')
    t = AffineTransformation2D.RotationAt(point('c'), psa_turn('a')) * AffineTransformation2D.Scale(
        psa_scalar('k'), psa_scalar('l'))
    a = t * p
    b = TransformAttribute.from_xml(TransformAttribute.to_xml(t)) * p
    same(b, a.x, a.y, 'TransformAttribute.from_xml of a written transformation')

####################################################################################################
# graphics state

def law_S04_defaults():
    state = RenderState()
    psa_equal(state.stroke, None, 'RenderState.__init__ stroke')
    psa_equal(state.fill, None, 'RenderState.__init__ fill')
    psa_equal(state.stroke_width, 1, 'RenderState.__init__ stroke_width')
    psa_equal(state.stroke_linecap, 'butt', 'RenderState.__init__ stroke_linecap')
    psa_equal(state.stroke_linejoin, 'miter', 'RenderState.__init__ stroke_linejoin')
    psa_equal(state.stroke_miterlimit, 4, 'RenderState.__init__ stroke_miterlimit')
    psa_equal(state.opacity, 1, 'RenderState.__init__ opacity')
    psa_equal(state.fill_opacity, 1, 'RenderState.__init__ fill_opacity')
    psa_equal(state.stroke_opacity, 1, 'RenderState.__init__ stroke_opacity')
    psa_equal(state.fill_rule, 'nonzero', 'RenderState.__init__ fill_rule')
    p = point('p')
    q = state.transform * p
    same(q, p.x, p.y, 'RenderState.__init__ transform')

def law_S04_inheritance():
    fill = psa_word('fill')
    stroke = psa_word('stroke')
    cap = psa_word('cap')
    other = psa_word('other')
    w = psa_positive('w')
    stack = RenderStateStack()
    outer = SvgFormat.Group(fill=fill, stroke=stroke)
    outer.stroke_width = w
    stack.push(outer)
    psa_equal(stack.state.fill, fill, 'RenderState.merge fill')
    psa_equal(stack.state.stroke, stroke, 'RenderState.merge stroke')
    psa_equal(stack.state.stroke_width, w, 'RenderState.merge stroke_width')
    psa_equal(stack.state.stroke_linecap, 'butt', 'RenderState.merge keeps the default')
    stack.push(SvgFormat.Group(fill=other, stroke_linecap=cap))
    psa_equal(stack.state.fill, other, 'RenderState.merge the nearest definition wins')
    psa_equal(stack.state.stroke, stroke, 'RenderState.merge inherits')
    psa_equal(stack.state.stroke_width, w, 'RenderState.merge inherits')
    psa_equal(stack.state.stroke_linecap, cap, 'RenderState.merge stroke_linecap')
    stack.pop()
    psa_equal(stack.state.fill, fill, 'RenderStateStack.pop')
    psa_equal(stack.state.stroke_linecap, 'butt', 'RenderStateStack.pop')
    stack.pop()
    psa_equal(stack.state.fill, None, 'RenderStateStack.pop')
    psa_equal(stack.state.stroke_width, 1, 'RenderStateStack.pop')

def law_S04_transform():
    p = point('p')
    k = psa_scalar('k')
    l = psa_scalar('l')
    t = displacement('t')
    stack = RenderStateStack()
    stack.push(SvgFormat.Group(transform=AffineTransformation2D.Translation(t)))
    stack.push(SvgFormat.Group(transform=AffineTransformation2D.Scale(k, l)))
    q = stack.state.transform * p
    same(q, k*p.x + t.x, l*p.y + t.y, 'RenderState.merge transform')
    item = SvgFormat.Path(transform=AffineTransformation2D.Scale(k, k))
    state = stack.state.clone().merge(item)
    q = state.transform * p
    same(q, k*k*p.x + t.x, l*k*p.y + t.y, 'RenderState.merge transform of an item')
    q = stack.state.transform * p
    same(q, k*p.x + t.x, l*p.y + t.y, 'RenderState.clone is another state')
    stack.pop()
    q = stack.state.transform * p
    same(q, p.x + t.x, p.y + t.y, 'RenderStateStack.pop transform')

def law_S04_style():
    fill = psa_word('fill')
    stroke = psa_word('stroke')
    w = psa_positive('w')
    state = RenderState()
    item = SvgFormat.Path(fill='red', style='fill:' + fill + '; stroke : ' + stroke + ';stroke-width:{};'.format(w))
    state.merge(item)
    psa_equal(state.fill, fill, 'RenderState.merge the style wins')
    psa_equal(state.stroke, stroke, 'RenderState.merge style')
    psa_equal(state.stroke_width, w, 'RenderState.merge style number')
    state.merge(SvgFormat.Path(style='stroke:none'))
    psa_equal(state.stroke, None, 'RenderState.merge none')
    psa_equal(state.fill, fill, 'RenderState.merge style inherits')
    p = point('p')
    e = psa_dx('e')
    f = psa_dy('f')
    state = RenderState()
    state.merge(SvgFormat.Path(style='transform: translate({}, {})'.format(e, f)))
    q = state.transform * p
    same(q, p.x + e, p.y + f, 'RenderState.merge style transform')

def law_S04_style_colon():
    state = RenderState()
    state.merge(SvgFormat.Path(style='fill:url(http://foo#a);stroke:red'))
    psa_equal(state.fill, 'url(http://foo#a)', 'RenderState.merge style value with a colon')
    psa_equal(state.stroke, 'red', 'RenderState.merge style value with a colon')

def law_S04_dict():
    state = RenderState()
    fill = psa_word('fill')
    state.merge(SvgFormat.Path(fill=fill))
    d = state.to_dict()
    psa_equal(d['fill'], fill, 'RenderState.to_dict')
    psa_equal(d['stroke_width'], 1, 'RenderState.to_dict')
    psa_true('stroke' not in d, 'RenderState.to_dict skips the unset properties')
    d = state.to_dict(all=True)
    psa_equal(d['fill'], fill, 'RenderState.to_dict all')
    psa_true('stroke' in d and d['stroke'] is None, 'RenderState.to_dict all')

def law_S04_clone():
    w = psa_positive('w')
    state = RenderState()
    state.stroke_width = w
    state.fill = psa_word('fill')
    copy = state.clone()
    psa_other_object(copy, state, 'RenderState.clone')
    psa_equal(copy.stroke_width, w, 'RenderState.clone')
    psa_equal(copy.fill, psa_word('fill'), 'RenderState.clone')
    copy.merge(SvgFormat.Group(fill=psa_word('other')))
    psa_equal(state.fill, psa_word('fill'), 'RenderState.clone')

####################################################################################################
# elements

class Element:
    def __init__(self, tag, children=(), text=None, **attrib):
        self.tag = tag
        self.attrib = attrib
        self.text = text
        self.children = list(children)
    def __iter__(self):
        return iter(self.children)
    def __len__(self):
        return len(self.children)
    def __getitem__(self, index):
        return self.children[index]
    def get(self, name, default=None):
        return self.attrib.get(name, default)

class Reader:
    def __init__(self):
        self.log = []
        self.dispatcher = SvgDispatcher(self)
    def on_group(self, group):
        self.log.append(('group', group.id))
    def on_graphic_item(self, item):
        state = self.dispatcher.state.clone().merge(item)
        self.log.append(('item', item.id, state.fill, item))

def law_S05_rect():
    w = psa_positive('w')
    h = psa_positive('h')
    x = psa_x('x')
    y = psa_y('y')
    path = SvgFormat.Rect(x=x, y=y, width=w, height=h).geometry
    psa_true(path.is_closed, 'Rect.geometry')
    psa_equal(len(path), 4, 'Rect.geometry')
    same(path.p0, x, y, 'Rect.geometry')
    same(path[0].stop_point, x + w, y, 'Rect.geometry')
    same(path[1].stop_point, x + w, y + h, 'Rect.geometry')
    same(path[2].stop_point, x, y + h, 'Rect.geometry')
    same(path[3].stop_point, x, y, 'Rect.geometry')
    path = SvgFormat.Rect(width=w, height=h).geometry
    same(path.p0, 0, 0, 'Rect.geometry without position')
    same(SvgFormat.Rect(x=x, width=w, height=h).geometry.p0, x, 0, 'Rect.geometry without ordinate')
    same(SvgFormat.Rect(y=y, width=w, height=h).geometry.p0, 0, y, 'Rect.geometry without abscissa')
    r = psa_positive('r')
    path = SvgFormat.Rect(x=x, y=y, width=w, height=h, rx=r).geometry
    psa_equal(path[1].radius, r, 'Rect.geometry radius')
    psa_equal(path[2].radius, r, 'Rect.geometry radius')
    psa_equal(path[3].radius, r, 'Rect.geometry radius')
    path = SvgFormat.Rect(x=x, y=y, width=w, height=h, ry=r).geometry
    psa_equal(path[1].radius, r, 'Rect.geometry radius')

def law_S05_elements():
    x = psa_x('x')
    y = psa_y('y')
    r = psa_positive('r')
    s = psa_positive('s')
    name = psa_word('name')
    item = SvgFormat.Circle(Element('circle', cx=str(x), cy=str(y), r=str(r), id=name))
    psa_equal(item.cx, x, 'Circle cx')
    psa_equal(item.cy, y, 'Circle cy')
    psa_equal(item.r, r, 'Circle r')
    psa_equal(item.id, name, 'Circle id')
    psa_equal(item.stroke, None, 'Circle stroke')
    item = SvgFormat.Ellipse(Element('ellipse', cx=str(x), cy=str(y), rx=str(r), ry=str(s), id=name))
    psa_equal(item.cx, x, 'Ellipse cx')
    psa_equal(item.cy, y, 'Ellipse cy')
    psa_equal(item.rx, r, 'Ellipse rx')
    psa_equal(item.ry, s, 'Ellipse ry')
    psa_equal(item.id, name, 'Ellipse id')
    item = SvgFormat.Line(Element('line', x1=str(x), y1=str(y), x2=str(r), y2=str(s)))
    psa_equal(item.x1, x, 'Line x1')
    psa_equal(item.y1, y, 'Line y1')
    psa_equal(item.x2, r, 'Line x2')
    psa_equal(item.y2, s, 'Line y2')
    item = SvgFormat.Rect(Element('rect', x=str(x), y=str(y), width=str(r), height=str(s)))
    psa_equal(item.x, x, 'Rect x')
    psa_equal(item.y, y, 'Rect y')
    psa_equal(float(item.width), r, 'Rect width')
    psa_equal(float(item.height), s, 'Rect height')
    item = SvgFormat.Text(Element('text', text=psa_word('t'), x=str(x), y=str(y), dx=str(r), dy=str(s)))
    psa_equal(item.text, psa_word('t'), 'Text text')
    psa_equal(item.x, x, 'Text x')
    psa_equal(item.y, y, 'Text y')
    psa_equal(item.dx, r, 'Text dx')
    psa_equal(item.dy, s, 'Text dy')

def law_S05_root():
    x = psa_x('x')
    y = psa_y('y')
    w = psa_positive('w')
    h = psa_positive('h')
    for text in ('{} {} {} {}', '{}, {}, {}, {}', '{},{},{},{}'):
        item = SvgFormat.Svg(Element('svg', width=psa_word('w'), height=psa_word('h'), viewBox=text.format(x, y, w, h)))
        psa_equal(item.view_box[0], x, 'Svg view_box')
        psa_equal(item.view_box[1], y, 'Svg view_box')
        psa_equal(item.view_box[2], w, 'Svg view_box')
        psa_equal(item.view_box[3], h, 'Svg view_box')
        psa_equal(item.width, psa_word('w'), 'Svg width')
        psa_equal(item.height, psa_word('h'), 'Svg height')

def law_S05_stroke():
    a = psa_positive('a')
    b = psa_positive('b')
    cap = psa_word('cap')
    join = psa_word('join')
    attrib = {'stroke-linecap': cap, 'stroke-linejoin': join, 'stroke-miterlimit': str(a), 'stroke-width': str(b),
              'stroke-dasharray': '{}, {}'.format(a, b), 'stroke': psa_word('stroke'), 'fill': psa_word('fill'),
              'd': 'M 0 0 L {} {}'.format(a, b)}
    item = SvgFormat.Path(Element('path', **attrib))
    psa_equal(item.stroke_linecap, cap, 'Path stroke-linecap')
    psa_equal(item.stroke_linejoin, join, 'Path stroke-linejoin')
    psa_equal(item.stroke_miterlimit, a, 'Path stroke-miterlimit')
    psa_equal(item.stroke_dasharray[0], a, 'Path stroke-dasharray')
    psa_equal(item.stroke_dasharray[1], b, 'Path stroke-dasharray')
    psa_equal(item.stroke, psa_word('stroke'), 'Path stroke')
    psa_equal(item.fill, psa_word('fill'), 'Path fill')
    same(stop(item.path_data), a, b, 'Path d')
    item = SvgFormat.Path(Element('path', **{'stroke-width': '{}mm'.format(b)}))
    psa_equal(float(item.stroke_width), b, 'PercentLengthAttribute unit')
    psa_equal(item.stroke_width.unit, 'mm', 'PercentLengthAttribute unit')
    item = SvgFormat.Path(Element('path', **{'stroke-width': '{}%'.format(b)}))
    psa_equal(float(item.stroke_width), b/100, 'PercentLengthAttribute percent')
    item = SvgFormat.Path(Element('path', **{'stroke-width': 'inherit'}))
    psa_equal(item.stroke_width, 'inherit', 'InheritAttribute')

def law_S05_lengths():
    # a length is written as it was read
    psa_equal(str(SvgFormat.PercentLengthAttribute.from_xml('25%')), '25%', 'PercentLengthAttribute percent as text')
    psa_equal(str(SvgFormat.PercentLengthAttribute.from_xml('2mm')), '2mm', 'PercentLengthAttribute unit as text')
    for unit in ['em', 'ex', 'px', 'in', 'cm', 'mm', 'pt', 'pc']:
        value = SvgFormat.PercentLengthAttribute.from_xml('3' + unit)
        psa_equal(value.unit, unit, 'PercentLengthAttribute unit ' + unit)
        psa_equal(float(value), 3, 'PercentLengthAttribute unit ' + unit)
    psa_equal(float(SvgFormat.PercentLengthAttribute.from_xml('3')), 3, 'PercentLengthAttribute number')

def law_S05_dispatch():
    reader = Reader()
    a = psa_word('a')
    b = psa_word('b')
    c = psa_word('c')
    g = psa_word('g')
    ns = '{http://www.w3.org/2000/svg}'
    root = Element(ns + 'svg', [
        Element(ns + 'circle', id=a),
        Element(ns + 'g', [Element(ns + 'path', id=b), Element(ns + 'defs')], id=g, fill=psa_word('fill')),
        Element('rect', id=c, fill=psa_word('other')),
    ])
    reader.dispatcher.on_root(root)
    log = reader.log
    psa_equal(len(log), 4, 'SvgDispatcher.on_root')
    psa_equal(log[0][1], a, 'SvgDispatcher.on_root order')
    psa_equal(log[0][2], None, 'SvgDispatcher.on_root state')
    psa_equal(log[1][1], g, 'SvgDispatcher.on_group')
    psa_equal(log[2][1], b, 'SvgDispatcher.on_group items')
    psa_equal(log[2][2], psa_word('fill'), 'SvgDispatcher.on_group state')
    psa_equal(log[3][1], c, 'SvgDispatcher.on_root order')
    psa_equal(log[3][2], psa_word('other'), 'SvgDispatcher.on_root state')
    psa_true(isinstance(log[0][3], SvgFormat.Circle), 'SvgDispatcher.from_xml circle')
    psa_true(isinstance(log[2][3], SvgFormat.Path), 'SvgDispatcher.from_xml path')
    psa_true(isinstance(log[3][3], SvgFormat.Rect), 'SvgDispatcher.from_xml rect')

def law_S05_groups():
    # the properties of a group end with it, whatever it holds
    a = psa_word('a')
    b = psa_word('b')
    fill = psa_word('fill')
    inner = psa_word('inner')
    for children in ([], [Element('defs')], [Element('g', fill=inner)], [Element('path', id=b)],
                     [Element('g', [Element('path', id=b)], fill=inner), Element('title')]):
        reader = Reader()
        reader.dispatcher.on_root(Element('svg', [Element('g', children, fill=fill), Element('circle', id=a)]))
        psa_equal(reader.log[-1][1], a, 'SvgDispatcher.on_group end')
        psa_equal(reader.log[-1][2], None, 'SvgDispatcher.on_group end')
        psa_equal(reader.dispatcher.state.fill, None, 'SvgDispatcher.on_group end')
    # a group inherits from the group around it
    for state, expected in ((None, fill), (inner, inner)):
        reader = Reader()
        group = Element('g', [Element('path', id=b)], stroke='red')
        if state is not None:
            group.attrib['fill'] = state
        reader.dispatcher.on_root(Element('svg', [Element('g', [group, Element('circle', id=a)], fill=fill)]))
        items = [x for x in reader.log if x[0] == 'item']
        psa_equal(len(items), 2, 'SvgDispatcher.on_group inside')
        psa_equal(items[0][2], expected, 'SvgDispatcher.on_group inside')
        psa_equal(items[1][2], fill, 'SvgDispatcher.on_group outside')

def law_S05_tags():
    reader = Reader()
    for tag, cls in (('circle', SvgFormat.Circle), ('ellipse', SvgFormat.Ellipse), ('line', SvgFormat.Line),
                     ('path', SvgFormat.Path), ('polyline', SvgFormat.Polyline), ('polygon', SvgFormat.Polygon),
                     ('rect', SvgFormat.Rect)):
        reader.log = []
        reader.dispatcher.on_root(Element('svg', [Element(tag, id=psa_word('a'))]))
        psa_equal(len(reader.log), 1, 'SvgDispatcher.on_root ' + tag)
        psa_true(reader.log[0][3].__class__ is cls, 'SvgDispatcher.from_xml ' + tag)

####################################################################################################
# more path data

def law_S01_numbers():
    # the numbers of the grammar: signs, fractions and exponents
    for text, x, y in [
            ('1E2 -3', 100, -3), ('1E-1 -3e+1', .1, -30), ('1E+1-3', 10, -3), ('+1+2', 1, 2), ('1+2', 1, 2), ('-1+2', -1, 2),
            ('.5-.5', .5, -.5), ('5.,6.', 5, 6), ('-1e-2,+1e2', -.01, 100), ('0,0', 0, 0), ('1 , -1', 1, -1),
            ('1e2e-1'[:3] + ' 4', 100, 4), ('\n1\t2\n', 1, 2), ('1,\n2', 1, 2), ('007 1.50', 7, 1.5), ('1-2E-1', 1, -.2)]:
        path = read('M' + text)
        same(path.p0, x, y, 'PathDataAttribute.from_xml numbers')
        path = read('M 1 1 L' + text + 'Z')
        same(path[0].stop_point, x, y, 'PathDataAttribute.from_xml numbers')
        psa_true(path.is_closed, 'PathDataAttribute.from_xml numbers')
        path = read('M 10 20l' + text)
        same(stop(path), 10 + x, 20 + y, 'PathDataAttribute.from_xml numbers')

def refused(text):
    try:
        read(text)
    except (ValueError, NameError, TypeError):
        psa_true(True, 'PathDataAttribute.from_xml invalid path')
    else:
        psa_true(False, 'PathDataAttribute.from_xml invalid path')

def law_S01_refused():
    for text in ['M 0 0 L 1 1 Z 5', 'M 0 0 X 1 1', 'L 1 1', '1 2', 'M 0 0 z 1 1 l 2 2', 'M 0 0 n 1 2', 'M 0 0 L 1', 'M 0']:
        refused(text)

def law_S01_repeated():
    # every command is repeated when its letter is not
    path = read('M 1 2 H 3 4 5 V 6 7')
    psa_equal(len(path), 5, 'PathDataAttribute.from_xml repeated H')
    for i, (x, y) in enumerate([(3, 2), (4, 2), (5, 2), (5, 6), (5, 7)]):
        same(path[i].stop_point, x, y, 'PathDataAttribute.from_xml repeated H V')
    path = read('M 1 2 h 3 4 5 v 6 7')
    for i, (x, y) in enumerate([(4, 2), (8, 2), (13, 2), (13, 8), (13, 15)]):
        same(path[i].stop_point, x, y, 'PathDataAttribute.from_xml repeated h v')
    path = read('m 1 2 c 1 1 2 2 3 0 1 1 2 2 4 0')
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml repeated c')
    curve = path[1].geometry
    for p, x, y in [(curve.p0, 4, 2), (curve.p1, 5, 3), (curve.p2, 6, 4), (curve.p3, 8, 2)]:
        same(p, x, y, 'PathDataAttribute.from_xml repeated c')
    path = read('M 1 2 Q 3 4 5 6 7 8 9 0')
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml repeated Q')
    curve = path[1].geometry
    for p, x, y in [(curve.p0, 5, 6), (curve.p1, 7, 8), (curve.p2, 9, 0)]:
        same(p, x, y, 'PathDataAttribute.from_xml repeated Q')
    path = read('M 1 2 Q 3 4 5 6 T 9 9 t 1 0')
    psa_equal(len(path), 3, 'PathDataAttribute.from_xml repeated T')
    curve = path[2].geometry
    for p, x, y in [(curve.p0, 9, 9), (curve.p1, 11, 10), (curve.p2, 10, 9)]:
        same(p, x, y, 'PathDataAttribute.from_xml repeated T')
    path = read('M 1 2 a 3 4 0 1 0 5 6 3 4 10 0 1 -5 -6')
    psa_equal(len(path), 2, 'PathDataAttribute.from_xml repeated a')
    same(path[0].stop_point, 6, 8, 'PathDataAttribute.from_xml repeated a')
    same(path[1].stop_point, 1, 2, 'PathDataAttribute.from_xml repeated a')
    psa_equal(path[1].angle, 10, 'PathDataAttribute.from_xml repeated a')
    psa_true(path[0].large_arc and not path[0].sweep, 'PathDataAttribute.from_xml repeated a')
    psa_true(path[1].sweep and not path[1].large_arc, 'PathDataAttribute.from_xml repeated a')

def law_S01_arc_flags():
    for f in (0, 1):
        for g in (0, 1):
            for c in 'aA':
                arc = read('M 0 0 {} 3,4,0,{},{},7,8'.format(c, f, g))[0]
                psa_true(bool(arc.large_arc) == bool(f), 'PathDataAttribute.to_geometry large arc')
                psa_true(bool(arc.sweep) == bool(g), 'PathDataAttribute.to_geometry sweep')

def law_S01_after_move():
    # the kind of the implicit lines is the one of the move
    path = read('M 10 20 3 4 5 6')
    same(path[0].stop_point, 3, 4, 'PathDataAttribute.from_xml implicit L')
    same(path[1].stop_point, 5, 6, 'PathDataAttribute.from_xml implicit L')
    path = read('m 10 20 3 4 5 6 L 1 1 2 2 l 1 1 2 2')
    for i, (x, y) in enumerate([(13, 24), (18, 30), (1, 1), (2, 2), (3, 3), (5, 5)]):
        same(path[i].stop_point, x, y, 'PathDataAttribute.from_xml implicit l')

def law_S02_numbers():
    # every number is written as it is
    for x, y in [(0, 0), (-1, 2), (.125, -1234567.5), (1e-3, 123456789), (10, 100), (3, -7.0625)]:
        path = Path2D(Vector2D(x, y))
        path.line_to(Vector2D(y, x), absolute=True)
        path.arc_to(Vector2D(1, 2), 3.0625, 1234567.5, 0, False, True, absolute=True)
        path.quadratic_to(Vector2D(y, 3), Vector2D(4, x), absolute=True)
        copy = again(path, 3, 'PathDataAttribute.to_xml numbers')
        psa_equal(copy[1].radius_x, 3.0625, 'PathDataAttribute.to_xml numbers')
        psa_equal(copy[1].radius_y, 1234567.5, 'PathDataAttribute.to_xml numbers')
        psa_equal(copy[1].angle, 0, 'PathDataAttribute.to_xml numbers')
        same(copy[2].geometry.p1, y, 3, 'PathDataAttribute.to_xml numbers')

def law_S02_closed():
    # a closed path of curves and arcs
    for last in range(3):
        path = Path2D(Vector2D(1, 2))
        path.line_to(Vector2D(10, 0))
        if last == 0:
            path.cubic_to(Vector2D(1, 1), Vector2D(2, 3), Vector2D(0, 9))
        elif last == 1:
            path.stringed_quadratic_to(Vector2D(3, 9))
        else:
            path.arc_to(Vector2D(3, 3), 3, 3, 0, True, True)
        path.close()
        again(path, 3, 'PathDataAttribute.from_geometry closed')
    path = Path2D(Vector2D(1, 2))
    copy = read(PathDataAttribute.to_xml(path))
    same(copy.p0, 1, 2, 'PathDataAttribute.from_geometry only a point')
    psa_equal(len(copy), 0, 'PathDataAttribute.from_geometry only a point')
    text = PathDataAttribute.to_xml([('M', [0, -1]), ('a', [1, 2, 3, 0, 1, 4, 5]), ('z', []), ('h', [0])])
    psa_equal(text.split(), 'M 0 -1 a 1 2 3 0 1 4 5 z h 0'.split(), 'PathDataAttribute.to_xml of commands')

####################################################################################################
# more transformations

def law_S03_texts():
    p = Vector2D(3, 5)
    for text, x, y in [
            ('translate(1e-1 -2E1)', 3.1, -15), ('translate(-1-0)'.replace('-0', ',0'), 2, 5), ('scale(2,0)', 6, 0), ('scale(0 2)', 0, 10),
            ('scale(-1)', -3, -5), ('scale(0)', 0, 0), ('translate(0)', 3, 5), ('translate(0,7)', 3, 12),
            ('translate(1,\n2)', 4, 7), ('\ttranslate\n(1\t2)\n', 4, 7), ('translate(1 2)\n\tscale(2)', 7, 12),
            ('translate(1 2)\n,\nscale(2)\n', 7, 12), ('matrix(1e0,0,0\n-1,+2,.5)', 5, -4.5), ('', 3, 5), (' ', 3, 5),
            ('scale(2) translate(1,1) scale(3)', 20, 32), ('translate(1 1) translate(1 1) translate(1 1)', 6, 8)]:
        q = TransformAttribute.from_xml(text) * p
        same(q, x, y, 'TransformAttribute.from_xml texts')

def law_S03_refused():
    for text in ['translate(1 2) scale', 'turn(1)', 'translate(a)', 'scale(1) x', 'rotate 90']:
        try:
            TransformAttribute.from_xml(text)
        except (ValueError, NotImplementedError):
            psa_true(True, 'TransformAttribute.from_xml invalid')
        else:
            psa_true(False, 'TransformAttribute.from_xml invalid')

def law_S03_written():
    # each number of the matrix is written
    for values in [(1, 0, 0, 1, 0, 0), (1, 2, 3, 4, 5, 6), (-1, .125, 1234567.5, -4.0625, 0, 1e-3)]:
        a, b, c, d, e, f = values
        text = TransformAttribute.to_xml(AffineTransformation2D([a, c, e, b, d, f, 0, 0, 1]))
        psa_true(text.startswith('matrix(') and text.endswith(')'), 'TransformAttribute.to_xml')
        numbers = [float(x) for x in text[7:-1].replace(',', ' ').split()]
        psa_equal(len(numbers), 6, 'TransformAttribute.to_xml')
        for i in range(6):
            psa_equal(numbers[i], values[i], 'TransformAttribute.to_xml')

def law_S03_one_by_one():
    transforms = TransformAttribute.to_python(
        [('rotate', [0, 1, 2]), ('scale', [2, 3]), ('translate', [5]), ('matrix', [1, 2, 3, 4, 5, 6])], concat=False)
    psa_equal(len(transforms), 4, 'TransformAttribute.to_python without concatenation')
    for t, (x, y) in zip(transforms, [(1, 1), (2, 3), (6, 1), (9, 12)]):
        same(t * Vector2D(1, 1), x, y, 'TransformAttribute.to_python without concatenation')
    psa_equal(len(TransformAttribute.to_python([], concat=False)), 0, 'TransformAttribute.to_python without concatenation')

####################################################################################################
# more states

def law_S04_falsy():
    # zero and the empty text are values
    state = RenderState()
    group = SvgFormat.Group(fill='red', stroke='')
    group.stroke_width = 0
    group.opacity = 0
    state.merge(group)
    psa_equal(state.stroke_width, 0, 'RenderState.merge zero')
    psa_equal(state.fill, 'red', 'RenderState.merge zero')
    psa_true(state.stroke == '', 'RenderState.merge empty text')
    d = state.to_dict()
    psa_true('stroke_width' in d and d['stroke_width'] == 0, 'RenderState.to_dict zero')
    psa_true('stroke' in d and d['stroke'] == '', 'RenderState.to_dict empty text')
    copy = state.clone()
    psa_equal(copy.stroke_width, 0, 'RenderState.clone zero')
    state = RenderState().merge(SvgFormat.Path(style='fill-opacity:0;stroke-width:0;stroke-dashoffset:0.25'))
    psa_equal(state.fill_opacity, 0, 'RenderState.merge style zero')
    psa_equal(state.stroke_width, 0, 'RenderState.merge style zero')
    psa_equal(state.stroke_dashoffset, .25, 'RenderState.merge style number')
    psa_equal(state.clone().stroke_dashoffset, .25, 'RenderState.clone number')

def law_S04_none():
    # the value none clears a property
    for inner in [SvgFormat.Group(fill='none'), SvgFormat.Path(fill='none'), SvgFormat.Path(style='fill:none'),
                  SvgFormat.Path(fill='red', style='fill: none ;')]:
        stack = RenderStateStack()
        stack.push(SvgFormat.Group(fill='blue', stroke='red', stroke_linejoin='round'))
        stack.push(inner)
        psa_true(stack.state.fill is None, 'RenderState.merge none')
        psa_equal(stack.state.stroke, 'red', 'RenderState.merge none')
        psa_true('fill' not in stack.state.to_dict(), 'RenderState.to_dict none')
        stack.push(SvgFormat.Group(stroke='none', stroke_linejoin='none'))
        psa_true(stack.state.fill is None and stack.state.stroke is None, 'RenderState.merge none stays')
        psa_true(stack.state.stroke_linejoin is None, 'RenderState.merge none clears a default')
        psa_true(stack.state.clone().stroke_linejoin is None, 'RenderState.clone none')
        stack.push(SvgFormat.Group())
        psa_true(stack.state.stroke_linejoin is None, 'RenderState.merge none is inherited')
        stack.pop()
        stack.pop()
        psa_equal(stack.state.stroke_linejoin, 'round', 'RenderStateStack.pop none')
        stack.pop()
        psa_equal(stack.state.fill, 'blue', 'RenderStateStack.pop none')

def law_S04_style_lists():
    # blank pairs, spaces, names of several words, numbers
    state = RenderState().merge(SvgFormat.Path(style=' ; fill : red ;; stroke-line-cap:x;color-interpolation-filters : sRGB; ;glyph-orientation-vertical:90;opacity:.5;  '))
    psa_equal(state.fill, 'red', 'RenderState.merge style')
    psa_equal(state.color_interpolation_filters, 'sRGB', 'RenderState.merge style of several words')
    psa_equal(state.glyph_orientation_vertical, 90, 'RenderState.merge style of several words')
    psa_equal(state.opacity, .5, 'RenderState.merge style after a blank')
    psa_equal(RenderState().merge(SvgFormat.Path(style='')).to_dict().get('fill', 7), 7, 'RenderState.merge empty style')
    state = RenderState().merge(SvgFormat.Path(style='fill:red;fill:blue'))
    psa_equal(state.fill, 'blue', 'RenderState.merge the last one wins')

def law_S04_style_transform():
    # the transformation of the style is on the right of the other ones
    state = RenderState()
    state.merge(SvgFormat.Group(transform=AffineTransformation2D.Scale(2, 3)))
    state.merge(SvgFormat.Path(style='transform:translate(5 7)'))
    same(state.transform * Vector2D(1, 1), 12, 24, 'RenderState.merge style transform')
    state.merge(SvgFormat.Path(style='fill:red;transform:scale(10)', transform=AffineTransformation2D.Translation(Vector2D(1, 0))))
    same(state.transform * Vector2D(1, 1), 2*(10 + 1 + 5), 3*(10 + 7), 'RenderState.merge style transform')
    psa_equal(state.fill, 'red', 'RenderState.merge style transform')
    same(RenderState().transform * Vector2D(1, 1), 1, 1, 'RenderState transform of a new state')

def law_S04_merge_returns():
    state = RenderState()
    psa_same_object(state.merge(SvgFormat.Path(fill='red')), state, 'RenderState.merge')

def law_S04_stack():
    # as many levels as wanted
    stack = RenderStateStack()
    names = ['a', 'b', 'c', 'd', 'e']
    for i, name in enumerate(names):
        stack.push(SvgFormat.Group(fill=name, transform=AffineTransformation2D.Translation(Vector2D(1, i))))
    for i, name in reversed(list(enumerate(names))):
        psa_equal(stack.state.fill, name, 'RenderStateStack')
        same(stack.state.transform * Vector2D(0, 0), i + 1, i*(i + 1)/2, 'RenderStateStack')
        stack.pop()
    psa_true(stack.state.fill is None, 'RenderStateStack')

####################################################################################################
# more elements

def law_S05_rect_radius():
    for rx, ry, radius in [(None, None, None), (0, 0, None), (2, 0, None), (None, 0, None), (0, None, None), (2, 2, 2), (None, 3, 3),
                           (3, None, 3)]:
        path = SvgFormat.Rect(x=1, y=2, width=10, height=20, rx=rx, ry=ry).geometry
        for i in range(1, 4):
            if radius is None:
                psa_true(path[i].radius is None, 'Rect.geometry square corners')
            else:
                psa_equal(path[i].radius, radius, 'Rect.geometry round corners')
        if radius is None:
            psa_true(path[0].radius is None, 'Rect.geometry square corners')
        else:
            psa_equal(path[0].radius, radius, 'Rect.geometry round corners')
        psa_equal(len(path), 4, 'Rect.geometry')
    for x, y in [(0, 5), (5, 0), (-1, -2), (None, 5), (5, None)]:
        same(SvgFormat.Rect(x=x, y=y, width=10, height=20).geometry.p0, x or 0, y or 0, 'Rect.geometry position')

def law_S05_more_lengths():
    for text in ['12.5%', '-3%', '100%', '0%', '0mm', '1.5em', '-2.25px']:
        psa_equal(str(SvgFormat.PercentLengthAttribute.from_xml(text)), text, 'PercentLengthAttribute as text')
    psa_equal(float(SvgFormat.PercentLengthAttribute.from_xml('12.5%')), .125, 'PercentLengthAttribute percent')
    psa_equal(float(SvgFormat.PercentLengthAttribute.from_xml('-1e2')), -100, 'PercentLengthAttribute number')
    psa_equal(float(SvgFormat.PercentLengthAttribute.from_xml('-1.5mm')), -1.5, 'PercentLengthAttribute unit')
    psa_equal(SvgFormat.NumberAttribute.from_xml('inherit'), 'inherit', 'InheritAttribute')
    psa_equal(SvgFormat.NumberAttribute.from_xml('0.5'), .5, 'NumberAttribute')

def law_S05_numbers():
    # zero and negative numbers are values, a missing attribute is None
    item = SvgFormat.Line(Element('line', x1='0', y1='-1.5', x2='1e2'))
    psa_true(item.x1 is not None and item.x1 == 0, 'Line x1 zero')
    psa_equal(item.y1, -1.5, 'Line y1 negative')
    psa_equal(item.x2, 100, 'Line x2 exponent')
    psa_true(item.y2 is None and item.id is None and item.stroke_dasharray is None and item.path_data is None
             if hasattr(item, 'path_data') else item.y2 is None and item.id is None, 'missing attributes')
    item = SvgFormat.Path(Element('path', **{'stroke-dasharray': '20,10,5,5,5,10', 'pathLength': '12.5', 'id': ''}))
    psa_equal(list(item.stroke_dasharray), [20, 10, 5, 5, 5, 10], 'Path stroke-dasharray')
    psa_equal(item.path_length, 12.5, 'Path pathLength')
    psa_true(item.id == '', 'an empty text')
    psa_true(item.path_data is None and item.transform is None and item.style is None, 'missing attributes')
    item = SvgFormat.Group(Element('g', **{'clip-path': 'url(#a)', 'data-name': 'n', 'font-size': '12', 'font-family': 'Foo'}))
    psa_equal(item.clip_path, 'url(#a)', 'Group clip-path')
    psa_equal(item.data_name, 'n', 'Group data-name')
    psa_equal(item.font_size, '12', 'Group font-size')
    psa_equal(item.font_family, 'Foo', 'Group font-family')
    item = SvgFormat.Polygon(Element('polygon', points='200,10 250,190 160,210'))
    psa_equal(item.points, '200,10 250,190 160,210', 'Polygon points')
    item = SvgFormat.Text(Element('text', text='t', style='a:b', **{'class': 'c'}))
    psa_equal(item.style, 'a:b', 'Text style')
    item = SvgFormat.Path(Element('path', transform='translate(1 2)'))
    same(item.transform * Vector2D(0, 0), 1, 2, 'Path transform')
    item = SvgFormat.Svg(Element('svg', viewBox='0 -1.5 1e2 3', version='1.1', preserveAspectRatio='none', zoomAndPan='disable'))
    psa_equal(list(item.view_box), [0, -1.5, 100, 3], 'Svg viewBox')
    psa_equal(item.version, '1.1', 'Svg version')
    psa_equal(item.preserve_aspect_ratio, 'none', 'Svg preserveAspectRatio')
    psa_equal(item.zoom_and_pan, 'disable', 'Svg zoomAndPan')

def law_S05_classes():
    # the class of each tag
    ns = '{http://www.w3.org/2000/svg}'
    dispatcher = Reader().dispatcher
    for tag, cls in [('linearGradient', SvgFormat.LinearGradient), ('clipPath', SvgFormat.ClipPath), ('g', SvgFormat.Group),
                     ('svg', SvgFormat.Svg), ('altGlyphDef', SvgFormat.AltGlyphDef), ('tspan', SvgFormat.TextSpan),
                     ('polygon', SvgFormat.Polygon), ('color-profile', SvgFormat.ColorProfile), ('a', SvgFormat.Anchor),
                     ('image', SvgFormat.Image), ('use', SvgFormat.Use), ('stop', SvgFormat.Stop)]:
        for prefix in ('', ns):
            psa_true(dispatcher.from_xml(Element(prefix + tag)).__class__ is cls, 'SvgDispatcher.from_xml ' + tag)
            psa_equal(dispatcher.element_tag(Element(prefix + tag)), tag, 'SvgDispatcher.element_tag')

def law_S05_document_order():
    # items before, between, inside and after the groups; empty groups too
    reader = Reader()
    reader.dispatcher.on_root(Element('svg', [
        Element('rect', id='1'),
        Element('g', id='2'),
        Element('line', id='3'),
        Element('g', [Element('path', id='5'), Element('g', [Element('circle', id='7')], id='6'), Element('path', id='8'),
                      Element('g', id='9')], id='4', fill='red'),
        Element('metadata'),
        Element('text'),
        Element('g', [Element('ellipse', id='b', fill='none')], id='a', fill='blue'),
        Element('polygon', id='c'),
    ]))
    psa_equal(''.join([x[1] for x in reader.log]), '123456789abc', 'SvgDispatcher.on_root order')
    fills = {x[1]: x[2] for x in reader.log if x[0] == 'item'}
    for i, fill in [('1', None), ('3', None), ('5', 'red'), ('7', 'red'), ('8', 'red'), ('b', None), ('c', None)]:
        psa_equal(fills[i], fill, 'SvgDispatcher.on_root state')

def law_S05_again():
    # a dispatcher can be reset and used again
    reader = Reader()
    root = Element('svg', [Element('g', [Element('path', id='b')], id='a', fill='red'), Element('line', id='c')])
    for i in range(3):
        reader.log = []
        reader.dispatcher.on_root(root)
        psa_equal(''.join([x[1] for x in reader.log]), 'abc', 'SvgDispatcher.on_root again')
        psa_equal(reader.log[1][2], 'red', 'SvgDispatcher.on_root again')
        psa_equal(reader.log[2][2], None, 'SvgDispatcher.on_root again')
        if i == 1:
            reader.dispatcher.reset()
