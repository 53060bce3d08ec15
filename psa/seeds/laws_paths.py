"""Laws of the paths, analysed and never executed (see laws_geometry)."""

from math import cos, pi, radians, sin, sqrt

from psa_seeds.geometry import point, displacement

from Patro.GeometryEngine.Conic import Ellipse2D
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D


def same(p, x, y, label):
    psa_equal(p.x, x, label)
    psa_equal(p.y, y, label)

def dot(a, b):
    return a.x*b.x + a.y*b.y

def square(v):
    return v.x*v.x + v.y*v.y

####################################################################################################

def law_G12_directions():
    p = point('p')
    l = psa_positive('l')
    r = l/sqrt(2)
    path = Path2D(p)
    same(path.horizontal_to(l).stop_point, p.x + l, p.y, 'Path2D.horizontal_to')
    path = Path2D(p)
    same(path.horizontal_to(-l).stop_point, p.x - l, p.y, 'Path2D.horizontal_to')
    path = Path2D(p)
    same(path.vertical_to(l).stop_point, p.x, p.y + l, 'Path2D.vertical_to')
    path = Path2D(p)
    same(path.vertical_to(-l).stop_point, p.x, p.y - l, 'Path2D.vertical_to')
    path = Path2D(p)
    same(path.north_to(l).stop_point, p.x, p.y + l, 'Path2D.north_to')
    path = Path2D(p)
    same(path.south_to(l).stop_point, p.x, p.y - l, 'Path2D.south_to')
    path = Path2D(p)
    same(path.east_to(l).stop_point, p.x + l, p.y, 'Path2D.east_to')
    path = Path2D(p)
    same(path.west_to(l).stop_point, p.x - l, p.y, 'Path2D.west_to')
    path = Path2D(p)
    same(path.north_east_to(l).stop_point, p.x + r, p.y + r, 'Path2D.north_east_to')
    path = Path2D(p)
    same(path.north_west_to(l).stop_point, p.x - r, p.y + r, 'Path2D.north_west_to')
    path = Path2D(p)
    same(path.south_east_to(l).stop_point, p.x + r, p.y - r, 'Path2D.south_east_to')
    path = Path2D(p)
    same(path.south_west_to(l).stop_point, p.x - r, p.y - r, 'Path2D.south_west_to')

def law_G12_absolute_axis():
    p = point('p')
    x, y = psa_x('x'), psa_y('y')
    path = Path2D(p)
    h = path.absolute_horizontal_to(x)
    v = path.absolute_vertical_to(y)
    same(h.start_point, p.x, p.y, 'Path2D.absolute_horizontal_to')
    same(h.stop_point, x, p.y, 'Path2D.absolute_horizontal_to')
    same(v.start_point, x, p.y, 'Path2D.absolute_vertical_to')
    same(v.stop_point, x, y, 'Path2D.absolute_vertical_to')
    path = Path2D(p)
    h = path.horizontal_to(x, absolute=True)
    v = path.vertical_to(y, absolute=True)
    same(h.stop_point, x, p.y, 'Path2D.horizontal_to(absolute)')
    same(v.stop_point, x, y, 'Path2D.vertical_to(absolute)')
    g = v.geometry
    same(g.p0, x, p.y, 'AbsoluteVerticalSegment.geometry')
    same(g.p1, x, y, 'AbsoluteVerticalSegment.geometry')

def law_G12_lines():
    p, q = point('p'), point('q')
    d, e = displacement('d'), displacement('e')
    path = Path2D(p)
    a = path.line_to(d)
    b = path.line_to(q, absolute=True)
    c = path.line_to(e)
    psa_equal(len(path), 3, 'Path2D.__len__')
    same(a.start_point, p.x, p.y, 'Path2D.line_to starts at the start of the path')
    same(a.stop_point, p.x + d.x, p.y + d.y, 'Path2D.line_to(relative)')
    same(b.start_point, p.x + d.x, p.y + d.y, 'Path2D.line_to starts where the previous part stops')
    same(b.stop_point, q.x, q.y, 'Path2D.line_to(absolute)')
    same(c.stop_point, q.x + e.x, q.y + e.y, 'Path2D.line_to(relative after absolute)')
    g = c.geometry
    same(g.p0, q.x, q.y, 'PathSegment.geometry')
    same(g.p1, q.x + e.x, q.y + e.y, 'PathSegment.geometry')
    z = path.close()
    same(z.start_point, q.x + e.x, q.y + e.y, 'Path2D.close')
    same(z.stop_point, p.x, p.y, 'Path2D.close comes back to the start')
    psa_true(path.is_closed, 'Path2D.is_closed')
    psa_true(not Path2D(p).is_closed, 'Path2D.is_closed (open)')
    psa_true(path.line_to(d) is None, 'Path2D.close ends the path')
    psa_same_object(path.start_segment, a, 'Path2D.start_segment')
    psa_same_object(path.stop_segment, z, 'Path2D.stop_segment')
    psa_same_object(b.prev_part, a, 'PathPart.prev_part')
    psa_same_object(b.next_part, c, 'PathPart.next_part')
    psa_true(path[7] is None, 'Path2D.__getitem__ (out of the path)')

def law_G12_curves():
    p = point('p')
    d, e, f, g = displacement('d'), displacement('e'), displacement('f'), displacement('g')
    path = Path2D(p)
    l = path.line_to(d)
    o = p + d
    a = path.quadratic_to(e, f)
    same(a.point1, o.x + e.x, o.y + e.y, 'Path2D.quadratic_to(relative)')
    same(a.point2, o.x + f.x, o.y + f.y, 'Path2D.quadratic_to(relative)')
    same(a.stop_point, o.x + f.x, o.y + f.y, 'Path2D.quadratic_to(relative)')
    m = o + f
    b = path.cubic_to(e, f, g)
    same(b.start_point, m.x, m.y, 'Path2D.cubic_to starts where the previous part stops')
    same(b.point1, m.x + e.x, m.y + e.y, 'Path2D.cubic_to(relative)')
    same(b.point2, m.x + f.x, m.y + f.y, 'Path2D.cubic_to(relative)')
    same(b.point3, m.x + g.x, m.y + g.y, 'Path2D.cubic_to(relative)')
    same(b.stop_point, m.x + g.x, m.y + g.y, 'Path2D.cubic_to(relative)')
    k = b.geometry
    same(k.p0, m.x, m.y, 'CubicBezierSegment.geometry')
    same(k.p1, m.x + e.x, m.y + e.y, 'CubicBezierSegment.geometry')
    same(k.p2, m.x + f.x, m.y + f.y, 'CubicBezierSegment.geometry')
    same(k.p3, m.x + g.x, m.y + g.y, 'CubicBezierSegment.geometry')
    k = a.geometry
    same(k.p0, o.x, o.y, 'QuadraticBezierSegment.geometry')
    same(k.p1, o.x + e.x, o.y + e.y, 'QuadraticBezierSegment.geometry')
    same(k.p2, o.x + f.x, o.y + f.y, 'QuadraticBezierSegment.geometry')
    q, r, s = point('q'), point('r'), point('s')
    c = path.cubic_to(q, r, s, absolute=True)
    same(c.point1, q.x, q.y, 'Path2D.cubic_to(absolute)')
    same(c.point2, r.x, r.y, 'Path2D.cubic_to(absolute)')
    same(c.stop_point, s.x, s.y, 'Path2D.cubic_to(absolute)')
    c = path.quadratic_to(q, r, absolute=True)
    same(c.point1, q.x, q.y, 'Path2D.quadratic_to(absolute)')
    same(c.stop_point, r.x, r.y, 'Path2D.quadratic_to(absolute)')

def law_G12_stringed():
    # the first control point mirrors the last one of the previous curve
    p = point('p')
    q, r, s = point('q'), point('r'), point('s')
    path = Path2D(p)
    path.cubic_to(q, r, s, absolute=True)
    t, u = point('t'), point('u')
    c = path.stringed_cubic_to(t, u, absolute=True)
    same(c.point1, 2*s.x - r.x, 2*s.y - r.y, 'Path2D.stringed_cubic_to')
    same(c.point2, t.x, t.y, 'Path2D.stringed_cubic_to')
    same(c.stop_point, u.x, u.y, 'Path2D.stringed_cubic_to')
    d, e = displacement('d'), displacement('e')
    c = path.stringed_cubic_to(d, e)
    same(c.point1, 2*u.x - t.x, 2*u.y - t.y, 'Path2D.stringed_cubic_to (chained)')
    same(c.point2, u.x + d.x, u.y + d.y, 'Path2D.stringed_cubic_to(relative)')
    same(c.stop_point, u.x + e.x, u.y + e.y, 'Path2D.stringed_cubic_to(relative)')
    g = c.geometry
    same(g.p1, 2*u.x - t.x, 2*u.y - t.y, 'StringedCubicBezierSegment.geometry')
    path = Path2D(p)
    path.quadratic_to(q, r, absolute=True)
    c = path.stringed_quadratic_to(s, absolute=True)
    same(c.point1, 2*r.x - q.x, 2*r.y - q.y, 'Path2D.stringed_quadratic_to')
    same(c.stop_point, s.x, s.y, 'Path2D.stringed_quadratic_to')
    f = path.stringed_quadratic_to(d)
    x, y = 2*r.x - q.x, 2*r.y - q.y
    same(f.point1, 2*s.x - x, 2*s.y - y, 'Path2D.stringed_quadratic_to (chained)')
    same(f.stop_point, s.x + d.x, s.y + d.y, 'Path2D.stringed_quadratic_to(relative)')
    # without a previous curve of the same kind the control point is the current point
    path = Path2D(p)
    path.line_to(q, absolute=True)
    c = path.stringed_cubic_to(r, s, absolute=True)
    same(c.point1, q.x, q.y, 'Path2D.stringed_cubic_to (after a line)')
    path = Path2D(p)
    path.line_to(q, absolute=True)
    c = path.stringed_quadratic_to(s, absolute=True)
    same(c.point1, q.x, q.y, 'Path2D.stringed_quadratic_to (after a line)')

def law_G12_arc():
    p, q = point('p'), point('q')
    d = displacement('d')
    rx, ry, a = psa_positive('rx'), psa_positive('ry'), psa_turn('a')
    large, sweep = psa_bool('large'), psa_bool('sweep')
    path = Path2D(p)
    path.line_to(d)
    o = p + d
    psa_stub(Ellipse2D.svg_arc, None)
    arc = path.arc_to(q, rx, ry, a, True, False, absolute=True)
    same(arc.start_point, o.x, o.y, 'Path2D.arc_to')
    same(arc.stop_point, q.x, q.y, 'Path2D.arc_to(absolute)')
    arc.geometry
    p1, p2, x, y, angle, l, s = psa_args(Ellipse2D.svg_arc)
    same(p1, o.x, o.y, 'ArcSegment.geometry')
    same(p2, q.x, q.y, 'ArcSegment.geometry')
    psa_equal(x, rx, 'ArcSegment.geometry radius_x')
    psa_equal(y, ry, 'ArcSegment.geometry radius_y')
    psa_equal(angle, a, 'ArcSegment.geometry angle')
    psa_true(l, 'ArcSegment.geometry large_arc')
    psa_true(not s, 'ArcSegment.geometry sweep')
    e = displacement('e')
    arc = path.arc_to(e, rx, ry, a, False, True)
    same(arc.stop_point, q.x + e.x, q.y + e.y, 'Path2D.arc_to(relative)')

def curve_path(p):
    path = Path2D(p)
    path.cubic_to(displacement('e'), displacement('f'), displacement('g'))
    path.stringed_cubic_to(displacement('h'), displacement('i'))
    path.quadratic_to(displacement('j'), displacement('k'))
    path.stringed_quadratic_to(displacement('l'))
    return path

def absolute_path(p):
    path = Path2D(p)
    path.line_to(point('s'), absolute=True)
    path.cubic_to(point('t'), point('u'), point('v'), absolute=True)
    path.stringed_cubic_to(point('x'), point('y'), absolute=True)
    path.quadratic_to(point('w'), point('q'), absolute=True)
    path.stringed_quadratic_to(point('r'), absolute=True)
    return path

def straight_path(p):
    path = Path2D(p)
    path.line_to(displacement('d'))
    path.horizontal_to(psa_dx('m'))
    path.vertical_to(psa_dy('n'))
    path.absolute_horizontal_to(psa_x('o'))
    return path

def direction_path(p):
    path = Path2D(p)
    path.line_to(displacement('d'))
    path.absolute_vertical_to(psa_y('q'))
    path.north_east_to(psa_positive('r'))
    path.west_to(psa_positive('s'))
    return path

def cloned(path, label):
    copy = path.clone()
    psa_other_object(copy, path, label)
    psa_equal(len(copy), len(path), label)
    psa_equal(copy.is_closed, path.is_closed, label + ' is_closed')
    for a, b in zip(path, copy):
        psa_other_object(b, a, label + ' copies its parts')
        psa_same_object(b.path, copy, label + ' parts belong to the copy')
        psa_equal(b.index, a.index, label + ' index')
        for u, v in zip(a.geometry.points, b.geometry.points):
            same(v, u.x, u.y, label)

def law_G12_clone_curves():
    cloned(curve_path(point('p')), 'Path2D.clone')

def law_G12_clone_absolute():
    cloned(absolute_path(point('p')), 'Path2D.clone')

def law_G12_clone_straight():
    cloned(straight_path(point('p')), 'Path2D.clone')

def law_G12_clone_directions():
    path = direction_path(point('p'))
    path.close()
    cloned(path, 'Path2D.clone')

def rounded_path(p, r, first, last):
    path = Path2D(p)
    path.horizontal_to(10*r)
    path.vertical_to(10*r, radius=r)
    path.west_to(5*r)
    path.line_to(Vector2D(-5*r, 0))
    path.close(radius=last, close_radius=first)
    return path

def same_corners(path, copy, label):
    psa_equal(len(copy), len(path), label)
    for i in range(len(path)):
        a, b = path[i], copy[i]
        for u, v in zip(a.points, b.points):
            same(v, u.x, u.y, label + ' (part {})'.format(i))
        if a.radius is None:
            psa_true(b.radius is None, label + ' (no radius of part {})'.format(i))
        else:
            psa_equal(b.radius, a.radius, label + ' (radius of part {})'.format(i))
            u, v = a.bulge_start_point, b.bulge_start_point
            same(v, u.x, u.y, label + ' (start of the corner {})'.format(i))
            u, v = a.bulge_center, b.bulge_center
            same(v, u.x, u.y, label + ' (center of the corner {})'.format(i))

def cloned_corners(first, last):
    path = rounded_path(point('p'), psa_positive('r'), first, last)
    label = 'Path2D.clone with {} and {} closing corner'.format('no' if first is None else 'a', 'no' if last is None else 'a')
    same_corners(path, path.clone(), label)

def law_G12_clone_open_corners():
    cloned_corners(None, None)

def law_G12_clone_first_corner():
    cloned_corners(psa_positive('r'), None)

def law_G12_clone_last_corner():
    cloned_corners(None, psa_positive('r'))

def law_G12_clone_corners():
    cloned_corners(psa_positive('r'), psa_positive('r'))

def law_G12_clone_of_clone():
    r = psa_positive('r')
    path = rounded_path(point('p'), r, r, r)
    copy = path.clone().clone()
    for i in range(len(path)):
        for u, v in zip(path[i].points, copy[i].points):
            same(v, u.x, u.y, 'Path2D.clone of a clone')

def law_G12_clone_first_line():
    r = psa_positive('r')
    for absolute in (False, True):
        path = Path2D(point('p'))
        path.line_to(Vector2D(10*r, 0) + (point('p') if absolute else Vector2D(0, 0)), absolute=absolute)
        path.north_to(10*r, radius=r)
        path.absolute_horizontal_to(psa_x('p.x') - 3*r)
        path.close(close_radius=r)
        same_corners(path, path.clone(), 'Path2D.clone with a corner at its start')

def law_G12_clone_circle():
    r = psa_positive('r')
    path = Path2D.circle(point('p'), r)
    same_corners(path, path.clone(), 'Path2D.circle clone')

def law_G12_transform_corners():
    # the corners move with the path
    r = psa_positive('r')
    d = displacement('d')
    path = rounded_path(point('p'), r, r, r)
    image = path.clone().transform(AffineTransformation2D.Translation(d))
    for i in range(len(path)):
        a, b = path[i], image[i]
        for u, v in zip(a.points, b.points):
            same(v, u.x + d.x, u.y + d.y, 'Path2D.transform (corner of part {})'.format(i))
        if a.radius is not None:
            psa_equal(b.radius, r, 'Path2D.transform (radius of part {})'.format(i))
            u, v = a.bulge_center, b.bulge_center
            same(v, u.x + d.x, u.y + d.y, 'Path2D.transform (center of the corner {})'.format(i))

def law_G12_radius():
    r = psa_positive('r')
    path = Path2D(point('p'))
    path.horizontal_to(10*r)
    for value, expected in ((r, r), (-r, r), (0, None), (None, None)):
        part = path.vertical_to(10*r, radius=value)
        if expected is None:
            psa_true(part.radius is None, 'radius of a corner which is not rounded')
        else:
            psa_equal(part.radius, expected, 'radius of a corner')
    psa_true(path[0].radius is None, 'no radius')

def law_G12_closed():
    # nothing is added to a closed path
    path = direction_path(point('p'))
    psa_true(not path.is_closed, 'Path2D.is_closed')
    path.close()
    psa_true(path.is_closed, 'Path2D.is_closed')
    n = len(path)
    path.horizontal_to(psa_positive('l'))
    path.line_to(point('q'))
    psa_equal(len(path), n, 'parts of a closed path')
    same(path[n-1].stop_point, psa_x('p.x'), psa_y('p.y'), 'end of a closed path')

def transformed(path, t, label):
    image = path.clone().transform(t)
    same(image.p0, (t*path.p0).x, (t*path.p0).y, label)
    psa_equal(len(image), len(path), label)
    for a, b in zip(path, image):
        for u, v in zip(a.geometry.points, b.geometry.points):
            w = t*u
            same(v, w.x, w.y, label)

def law_G12_rotation_curve():
    transformed(curve_path(point('p')), AffineTransformation2D.Rotation(30), 'Path2D.transform (rotation)')

def law_G12_rotation_absolute():
    transformed(absolute_path(point('p')), AffineTransformation2D.Rotation(30), 'Path2D.transform (rotation)')

def law_G12_rotation_straight():
    transformed(straight_path(point('p')), AffineTransformation2D.Rotation(30), 'Path2D.transform (rotation)')

def law_G12_rotation_direction():
    transformed(direction_path(point('p')), AffineTransformation2D.Rotation(30), 'Path2D.transform (rotation)')

def law_G12_translation_curve():
    transformed(curve_path(point('p')), AffineTransformation2D.Translation(displacement('z')), 'Path2D.transform (translation)')

def law_G12_translation_absolute():
    transformed(absolute_path(point('p')), AffineTransformation2D.Translation(displacement('z')), 'Path2D.transform (translation)')

def law_G12_translation_straight():
    transformed(straight_path(point('p')), AffineTransformation2D.Translation(displacement('z')), 'Path2D.transform (translation)')

def law_G12_translation_direction():
    transformed(direction_path(point('p')), AffineTransformation2D.Translation(displacement('z')), 'Path2D.transform (translation)')

def law_G12_scale_curve():
    transformed(curve_path(point('p')), AffineTransformation2D.Scale(psa_positive_number('z1'), psa_positive_number('z2')), 'Path2D.transform (scale)')

def law_G12_scale_absolute():
    transformed(absolute_path(point('p')), AffineTransformation2D.Scale(psa_positive_number('z1'), psa_positive_number('z2')), 'Path2D.transform (scale)')

def law_G12_scale_straight():
    transformed(straight_path(point('p')), AffineTransformation2D.Scale(psa_positive_number('z1'), psa_positive_number('z2')), 'Path2D.transform (scale)')

def law_G12_scale_direction():
    transformed(direction_path(point('p')), AffineTransformation2D.Scale(psa_positive_number('z1'), psa_positive_number('z2')), 'Path2D.transform (scale)')

def law_G12_transform_bulge():
    # a radius scales with the drawing
    r, k = psa_positive('r'), psa_positive_number('k')
    path = Path2D(point('p'))
    path.horizontal_to(psa_positive('w'))
    path.vertical_to(psa_positive('h'), radius=r)
    image = path.clone().transform(AffineTransformation2D.Scale(k, k))
    psa_equal(image[1].radius, k*r, 'Path2D.transform (radius)')
    psa_true(image[0].radius is None, 'Path2D.transform (no radius)')

def law_G12_transform_arc():
    p, d = point('p'), displacement('d')
    k = psa_positive_number('k')
    rx, ry = psa_positive('rx'), psa_positive('ry')
    path = Path2D(p)
    path.arc_to(d, rx, ry, 0, True, False)
    psa_stub(Ellipse2D.svg_arc, None)
    image = path.clone().transform(AffineTransformation2D.Scale(k, k))
    image[0].geometry
    p1, p2, x, y, angle, l, s = psa_args(Ellipse2D.svg_arc)
    same(p1, k*p.x, k*p.y, 'ArcSegment.apply_transformation (scale)')
    same(p2, k*(p.x + d.x), k*(p.y + d.y), 'ArcSegment.apply_transformation (scale)')
    psa_equal(x, k*rx, 'ArcSegment.apply_transformation (scale, radius_x)')
    psa_equal(y, k*ry, 'ArcSegment.apply_transformation (scale, radius_y)')
    psa_true(l, 'ArcSegment.apply_transformation (large arc)')
    psa_true(not s, 'ArcSegment.apply_transformation (sweep)')
    image = path.clone().transform(AffineTransformation2D.Scale(-1, 1))
    image[0].geometry
    p1, p2, x, y, angle, l, s = psa_args(Ellipse2D.svg_arc)
    psa_equal(x, rx, 'ArcSegment.apply_transformation (reflection, radius_x)')
    psa_true(s, 'ArcSegment.apply_transformation (reflection, sweep)')

def law_G12_bulge():
    # a rounded right angle, turning left then right
    p = point('p')
    w, r = psa_positive('w'), psa_positive('r')
    for side in (1, -1):
        path = Path2D(p)
        a = path.horizontal_to(2*r + w)
        b = path.vertical_to(side*(2*r + w), radius=r)
        x = p.x + 2*r + w
        same(b.bulge_center, x - r, p.y + side*r, 'LinearSegment.bulge_center')
        same(b.bulge_start_point, x - r, p.y, 'LinearSegment.bulge_start_point')
        same(b.bulge_stop_point, x, p.y + side*r, 'LinearSegment.bulge_stop_point')
        s, t = a.points
        same(s, p.x, p.y, 'LinearSegment.points')
        same(t, x - r, p.y, 'LinearSegment.points stops at the start of the bulge')
        s, t = b.points
        same(s, x, p.y + side*r, 'LinearSegment.points starts at the end of the bulge')
        same(t, x, p.y + side*(2*r + w), 'LinearSegment.points')
        psa_equal(abs(b.bulge_angle), 90, 'LinearSegment.bulge_angle')

def law_G12_bulge_angles():
    # the angle of the corner, at any turn of the path: the arc goes from the first to the second segment
    p = point('p')
    w, r = psa_positive('w'), psa_positive('r')
    l = 4*r + w
    q = p + Vector2D(l, 0)
    for turn, corner in ((60, 120), (90, 90), (120, 60), (-60, -120), (-90, -90), (-120, -60)):
        v = Vector2D.from_polar(l, turn)
        path = Path2D(p)
        a = path.line_to(q, absolute=True)
        b = path.line_to(q + v, radius=r, absolute=True)
        psa_equal(b.bulge_angle, corner, 'LinearSegment.bulge_angle')
        side = 1 if turn > 0 else -1
        same(b.bulge_center, b.bulge_start_point.x, p.y + side*r, 'LinearSegment.bulge_center is over the first segment')
        m = b.bulge_stop_point - q
        psa_equal(m.x*v.y, m.y*v.x, 'LinearSegment.bulge_stop_point is on the second segment')
        psa_positive_value(m.x*v.x + m.y*v.y, 'LinearSegment.bulge_stop_point is after the corner')
        arc = b.bulge_geometry
        psa_equal(arc.radius, r, 'LinearSegment.bulge_geometry radius')
        start, stop = (-90, turn - 90) if turn > 0 else (90 + turn, 90)
        psa_equal(cos(radians(arc.domain.start)), cos(radians(start)), 'LinearSegment.bulge_geometry start')
        psa_equal(sin(radians(arc.domain.start)), sin(radians(start)), 'LinearSegment.bulge_geometry start')
        psa_equal(cos(radians(arc.domain.stop)), cos(radians(stop)), 'LinearSegment.bulge_geometry stop')
        psa_equal(sin(radians(arc.domain.stop)), sin(radians(stop)), 'LinearSegment.bulge_geometry stop')

def law_G12_rounded_rectangle():
    p = point('p')
    w, h, r = psa_positive('w'), psa_positive('h'), psa_positive('r')
    path = Path2D.rounded_rectangle(p, w + 2*r, h + 2*r, r)
    psa_equal(len(path), 4, 'Path2D.rounded_rectangle')
    psa_true(path.is_closed, 'Path2D.rounded_rectangle')
    x, y = p.x + w + 2*r, p.y + h + 2*r
    expected = ((p.x + r, p.y, x - r, p.y), (x, p.y + r, x, y - r), (x - r, y, p.x + r, y), (p.x, y - r, p.x, p.y + r))
    for part, e in zip(path, expected):
        s, t = part.points
        same(s, e[0], e[1], 'Path2D.rounded_rectangle')
        same(t, e[2], e[3], 'Path2D.rounded_rectangle')
        psa_equal(part.radius, r, 'Path2D.rounded_rectangle radius')
    path = Path2D.rounded_rectangle(p, w, h)
    expected = ((p.x + w, p.y), (p.x + w, p.y + h), (p.x, p.y + h), (p.x, p.y))
    for part, e in zip(path, expected):
        same(part.stop_point, e[0], e[1], 'Path2D.rounded_rectangle (no radius)')

def law_G12_circle():
    # the corners of the square are rounded to quarters of a circle
    p, r = point('p'), psa_positive('r')
    path = Path2D.circle(p, r)
    psa_equal(len(path), 4, 'Path2D.circle')
    for part in path:
        same(part.bulge_center, p.x + r, p.y + r, 'Path2D.circle')
        psa_equal(part.radius, r, 'Path2D.circle radius')
        psa_equal(square(part.bulge_start_point - p - Vector2D(r, r)), r*r, 'Path2D.circle')

def law_G12_move():
    p, q, d = point('p'), point('q'), displacement('d')
    path = Path2D(p)
    a = path.line_to(d)
    path.move_to(q)
    same(a.start_point, q.x, q.y, 'Path2D.move_to')
    same(a.stop_point, q.x + d.x, q.y + d.y, 'Path2D.move_to')

def law_G12_to_absolute():
    p, d, e, f, g = point('p'), displacement('d'), displacement('e'), displacement('f'), displacement('g')
    path = Path2D(p)
    a = path.line_to(d)
    b = path.cubic_to(e, f, g)
    c = path.stringed_cubic_to(d, e)
    k = path.quadratic_to(f, g)
    m = path.stringed_quadratic_to(d)
    before = [part.geometry.points for part in path]
    for part in (m, k, c, b, a):
        part.to_absolute()
    for part, points in zip(path, before):
        for u, v in zip(part.geometry.points, points):
            same(u, v.x, v.y, 'to_absolute keeps the points of a path')

