"""Laws of lines, segments, triangles, rectangles, polygons and conics, analysed and never executed (see laws_geometry)."""

from math import cos, hypot, pi, radians, sin, sqrt, tan

from psa_seeds.geometry import point, displacement, direction

from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Mixin import AngularDomain
from Patro.GeometryEngine.Polygon import (
    Polygon2D, RegularPolygon, convex_hull, is_three_point_ccw, is_three_point_collinear, is_three_point_cw,
)
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
from Patro.GeometryEngine.Triangle import Triangle2D, same_side, triangle_orientation
from Patro.GeometryEngine.Vector import Vector2D


def same(p, x, y, label):
    psa_equal(p.x, x, label)
    psa_equal(p.y, y, label)

def cross(a, b):
    return a.x*b.y - a.y*b.x

def dot(a, b):
    return a.x*b.x + a.y*b.y

def square(v):
    return v.x*v.x + v.y*v.y

def line(tag):
    return Line2D(point(tag + '.p'), displacement(tag + '.v'))

####################################################################################################
# lines

def law_G10_line_points():
    l = line('l')
    s = psa_scalar('s')
    p, v = l.p, l.v
    same(l.interpolate(s), p.x + s*v.x, p.y + s*v.y, 'Line2D.interpolate')
    same(l.point_at_s(s), p.x + s*v.x, p.y + s*v.y, 'Line2D.point_at_s')
    d = psa_length('d')
    n = sqrt(square(v))
    q = l.point_at_distance(d)
    psa_equal((q.x - p.x)*n, d*v.x, 'Line2D.point_at_distance')
    psa_equal((q.y - p.y)*n, d*v.y, 'Line2D.point_at_distance')
    r = point('r')
    q = l.point_at_distance(d, r)
    psa_equal((q.x - r.x)*n, d*v.x, 'Line2D.point_at_distance(point)')
    psa_equal((q.y - r.y)*n, d*v.y, 'Line2D.point_at_distance(point)')
    psa_equal(cross(Vector2D(psa_scalar('x'), l.get_y_from_x(psa_scalar('x'))) - p, v), 0, 'Line2D.get_y_from_x')
    psa_equal(cross(Vector2D(l.get_x_from_y(psa_scalar('y')), psa_scalar('y')) - p, v), 0, 'Line2D.get_x_from_y')
    s1 = psa_scalar('s1')
    psa_equal(l.compute_distance_between_abscissae(s, s1), abs(s1 - s)*n, 'Line2D.compute_distance_between_abscissae')
    a = l.compute_distance([s, s1, psa_scalar('s2')])
    psa_equal(len(a), 2, 'Line2D.compute_distance')
    psa_equal(a[0], abs(s1 - s)*n, 'Line2D.compute_distance')
    psa_equal(a[1], abs(psa_scalar('s2') - s1)*n, 'Line2D.compute_distance')
    m = Line2D.from_two_points(p, r)
    same(m.interpolate(0), p.x, p.y, 'Line2D.from_two_points')
    same(m.interpolate(1), r.x, r.y, 'Line2D.from_two_points')

def law_G10_line_relatives():
    l = line('l')
    p, v = l.p, l.v
    r = point('r')
    m = l.parallel_line_at(r)
    psa_equal(cross(m.v, v), 0, 'Line2D.parallel_line_at')
    same(m.p, r.x, r.y, 'Line2D.parallel_line_at')
    m = l.orthogonal_line_at(r)
    psa_equal(dot(m.v, v), 0, 'Line2D.orthogonal_line_at')
    same(m.p, r.x, r.y, 'Line2D.orthogonal_line_at')
    s = psa_scalar('s')
    m = l.orthogonal_line_at_abscissa(s)
    psa_equal(dot(m.v, v), 0, 'Line2D.orthogonal_line_at_abscissa')
    same(m.p, p.x + s*v.x, p.y + s*v.y, 'Line2D.orthogonal_line_at_abscissa')
    d = psa_positive('d')
    m = l.shifted_parallel_line(d)
    psa_equal(cross(m.v, v), 0, 'Line2D.shifted_parallel_line')
    psa_equal(cross(v, m.p - p), d*sqrt(square(v)), 'Line2D.shifted_parallel_line on the left side')
    psa_equal(dot(l.vn, l.vn), 1, 'Line2D.vn')
    psa_equal(cross(l.vn, v), 0, 'Line2D.vn')

def law_G10_line_intersection():
    a, b = line('a'), line('b')
    p = a.intersection(b)
    psa_equal(cross(p - a.p, a.v), 0, 'Line2D.intersection is on the first line')
    psa_equal(cross(p - b.p, b.v), 0, 'Line2D.intersection is on the second line')
    s, t = a.intersection_abscissae(b)
    psa_equal(a.interpolate(s), b.interpolate(t), 'Line2D.intersection_abscissae')
    k = psa_positive_number('k')
    psa_true(a.intersection(Line2D(point('c'), a.v*k)) is None, 'Line2D.intersection of parallel lines')
    psa_true(a.is_parallel(Line2D(point('c'), a.v*k)), 'Line2D.is_parallel')
    psa_true(a.is_orthogonal(Line2D(point('c'), a.v.normal)), 'Line2D.is_orthogonal')

def law_G10_line_projection():
    l = line('l')
    q = point('q')
    p = l.projected_point(q)
    psa_equal(dot(p - q, l.v), 0, 'Line2D.projected_point')
    psa_equal(cross(p - l.p, l.v), 0, 'Line2D.projected_point is on the line')
    n = sqrt(square(l.v))
    psa_equal(l.projected_abscissa(q)*n, dot(q - l.p, l.v), 'Line2D.projected_abscissa')
    psa_equal(l.distance_to_line(q)*n, cross(l.v, q - l.p), 'Line2D.distance_to_line')
    d, s = l.distance_and_abscissa_to_line(q)
    psa_equal(d*n, cross(l.v, q - l.p), 'Line2D.distance_and_abscissa_to_line')
    psa_equal(s*n, dot(q - l.p, l.v), 'Line2D.distance_and_abscissa_to_line')

def law_G10_line_triangle():
    h, b = psa_positive('h'), psa_positive('b')
    d = sqrt(b*b + h*h)
    l = Line2D(Vector2D(0, 0), Vector2D(1, 0))
    q = Vector2D(psa_x('x'), h)
    same(l.triangle_projected_point(q, d), psa_x('x') + b, 0, 'Line2D.triangle_projected_point')
    same(l.triangle_projected_point(q, d, reverse=True), psa_x('x') - b, 0, 'Line2D.triangle_projected_point(reverse)')

def law_G10_line_box():
    w, h = psa_positive('w'), psa_positive('h')
    x, y = psa_x('x'), psa_y('y')
    box = Rectangle2D(Vector2D(x, y), Vector2D(x + w, y + h)).bounding_box
    c = Vector2D(x + w/2, y + h/2)
    a, b = Line2D(c, Vector2D(1, 0)).get_x_y_from_bounding_box(box)
    same(a, x, y + h/2, 'Line2D.get_x_y_from_bounding_box (horizontal)')
    same(b, x + w, y + h/2, 'Line2D.get_x_y_from_bounding_box (horizontal)')
    a, b = Line2D(c, Vector2D(0, 1)).get_x_y_from_bounding_box(box)
    same(a, x + w/2, y, 'Line2D.get_x_y_from_bounding_box (vertical)')
    same(b, x + w/2, y + h, 'Line2D.get_x_y_from_bounding_box (vertical)')
    # the diagonal of half the slope
    a, b = Line2D(c, Vector2D(2*w, h)).get_x_y_from_bounding_box(box)
    same(a, x, y + h/4, 'Line2D.get_x_y_from_bounding_box')
    same(b, x + w, y + 3*h/4, 'Line2D.get_x_y_from_bounding_box')
    a, b = Line2D(c, Vector2D(w, 2*h)).get_x_y_from_bounding_box(box)
    same(a, x + w/4, y, 'Line2D.get_x_y_from_bounding_box (steep)')
    same(b, x + 3*w/4, y + h, 'Line2D.get_x_y_from_bounding_box (steep)')

####################################################################################################
# segments

def law_G10_segment():
    s = Segment2D(point('p'), point('q'))
    p, q = s.p0, s.p1
    same(s.vector, q.x - p.x, q.y - p.y, 'Segment2D.vector')
    psa_equal(s.length, sqrt(square(q - p)), 'Segment2D.length')
    same(s.center, (p.x + q.x)/2, (p.y + q.y)/2, 'Segment2D.center')
    t = psa_unit('t')
    same(s.point_at_t(t), p.x + t*(q.x - p.x), p.y + t*(q.y - p.y), 'Segment2D.point_at_t')
    psa_equal(s.cross_product, cross(p, q), 'Segment2D.cross_product')
    l = s.to_line()
    same(l.interpolate(t), p.x + t*(q.x - p.x), p.y + t*(q.y - p.y), 'Segment2D.to_line')
    o = Segment2D(point('u'), point('v'))
    psa_equal(s.cross(o), cross(q - p, o.p1 - o.p0), 'Segment2D.cross')
    r = point('r')
    psa_equal(s.side_of(r), cross(q - p, r - p), 'Segment2D.side_of')
    m = s.reverse()
    same(m.start_point, q.x, q.y, 'Segment2D reverse')
    same(m.end_point, p.x, p.y, 'Segment2D reverse')

def law_G10_segment_sides():
    # left of an horizontal, a vertical and a generic segment
    d, h, k = psa_positive('d'), psa_positive('h'), psa_scalar('k')
    p = point('p')
    for v in (Vector2D(d, 0), Vector2D(0, d), Vector2D(-d, 0), Vector2D(0, -d), Vector2D(d, h), Vector2D(-h, d)):
        s = Segment2D(p, p + v)
        r = p + v*k + v.normal
        psa_true(s.left_of(r), 'Segment2D.left_of')
        psa_true(not s.right_of(r), 'Segment2D.right_of')
        r = p + v*k - v.normal
        psa_true(s.right_of(r), 'Segment2D.right_of')
        psa_true(not s.left_of(r), 'Segment2D.left_of')
        psa_true(not s.is_collinear(r), 'Segment2D.is_collinear')

def law_G10_segment_distance():
    l, h, e = psa_positive('l'), psa_positive('h'), psa_positive('e')
    t = psa_unit('t')
    p = point('p')
    s = Segment2D(p, p + Vector2D(l, 0))
    psa_equal(s.distance_to_point(p + Vector2D(l*t, h)), h, 'Segment2D.distance_to_point (over the segment)')
    psa_equal(s.distance_to_point(p + Vector2D(l*t, -h)), h, 'Segment2D.distance_to_point (below the segment)')
    psa_equal(s.distance_to_point(p + Vector2D(-e, h)), sqrt(e*e + h*h), 'Segment2D.distance_to_point (before the start)')
    psa_equal(s.distance_to_point(p + Vector2D(l + e, h)), sqrt(e*e + h*h), 'Segment2D.distance_to_point (after the end)')
    s = Segment2D(p, p + Vector2D(0, l))
    psa_equal(s.distance_to_point(p + Vector2D(h, l*t)), h, 'Segment2D.distance_to_point (vertical)')
    psa_equal(s.distance_to_point(p + Vector2D(h, l + e)), sqrt(e*e + h*h), 'Segment2D.distance_to_point (vertical, after the end)')
    psa_equal(s.distance_to_point(p + Vector2D(h, -e)), sqrt(e*e + h*h), 'Segment2D.distance_to_point (vertical, before the start)')
    psa_true(s.contain_point(p + Vector2D(0, l*t)), 'Segment2D.contain_point')
    psa_true(not s.contain_point(p + Vector2D(0, l + e)), 'Segment2D.contain_point (after the end)')
    psa_true(not s.contain_point(p + Vector2D(0, -e)), 'Segment2D.contain_point (before the start)')

def law_G10_segment_intersection():
    l, h, e, f = psa_positive('l'), psa_positive('h'), psa_positive('e'), psa_positive('f')
    t = psa_unit('t')
    p = point('p')
    s = Segment2D(p, p + Vector2D(l, 0))
    c = p + Vector2D(l*t, 0)
    i, inside = s.intersection(Segment2D(c - Vector2D(e, h), c + Vector2D(e, h)))
    same(i, c.x, c.y, 'Segment2D.intersection')
    psa_true(inside, 'Segment2D.intersection (crossing)')
    i, inside = s.intersection(Segment2D(c + Vector2D(e, h), c + Vector2D(e, h)*2))
    psa_true(not inside, 'Segment2D.intersection (beyond the second segment)')
    i, inside = s.intersection(Segment2D(p + Vector2D(-e, -h), p + Vector2D(-e, h)))
    psa_true(not inside, 'Segment2D.intersection (before the first segment)')
    i, inside = s.intersection(Segment2D(p + Vector2D(l + e, -h), p + Vector2D(l + e, h)))
    psa_true(not inside, 'Segment2D.intersection (beyond the first segment)')
    psa_true(s.intersect_with(Segment2D(c - Vector2D(e, h), c + Vector2D(e, h))), 'Segment2D.intersect_with (crossing)')
    psa_true(not s.intersect_with(Segment2D(c + Vector2D(e, h), c + Vector2D(e, h)*2)),
             'Segment2D.intersect_with (beyond the second segment)')
    psa_true(not s.intersect_with(Segment2D(p + Vector2D(l + e, -h), p + Vector2D(l + e, h))),
             'Segment2D.intersect_with (beyond the first segment)')
    q = point('q')
    r = point('r')
    a, b = Segment2D(p, q), Segment2D(q, r)
    psa_equal(a.share_vertex_with(b), q, 'Segment2D.share_vertex_with')
    psa_equal(b.share_vertex_with(a), q, 'Segment2D.share_vertex_with')
    psa_equal(Segment2D(q, p).share_vertex_with(b), q, 'Segment2D.share_vertex_with')
    psa_equal(Segment2D(p, q).share_vertex_with(Segment2D(r, q)), q, 'Segment2D.share_vertex_with')
    psa_true(Segment2D(p, q).share_vertex_with(Segment2D(r, point('w'))) is None, 'Segment2D.share_vertex_with')

####################################################################################################
# triangles

def law_G10_triangle():
    p, q, r = point('p'), point('q'), point('r')
    t = Triangle2D(p, q, r)
    area = cross(q - p, r - p)/2
    psa_equal(t.area, abs(area), 'Triangle2D.area')
    psa_equal(Triangle2D(p, r, q).area, t.area, 'Triangle2D.area of the other orientation')
    psa_equal(t.perimeter, sqrt(square(q - p)) + sqrt(square(r - q)) + sqrt(square(p - r)), 'Triangle2D.perimeter')
    es = t.edges
    psa_equal(len(es), 3, 'Triangle2D.edges')
    psa_equal(es[0].p0, p, 'Triangle2D.edges')
    psa_equal(es[0].p1, q, 'Triangle2D.edges')
    psa_equal(es[1].p0, q, 'Triangle2D.edges')
    psa_equal(es[1].p1, r, 'Triangle2D.edges')
    psa_equal(es[2].p0, r, 'Triangle2D.edges')
    psa_equal(es[2].p1, p, 'Triangle2D.edges')

def law_G10_triangle_bisectors():
    # the bisector makes the same angle with both edges
    p, q, r = point('p'), point('q'), point('r')
    t = Triangle2D(p, q, r)
    for line, a, b, c in ((t.bisector_line0, p, q, r), (t.bisector_line1, q, r, p), (t.bisector_line2, r, p, q)):
        v = line.v
        psa_equal(line.p, a, 'Triangle2D bisector_line')
        m, n = b - a, c - a
        psa_equal(cross(m, v)*sqrt(square(n)), cross(v, n)*sqrt(square(m)), 'Triangle2D bisector_line')

def law_G10_triangle_kinds():
    # base, apex
    b, h = psa_positive('b'), psa_positive('h')
    p = point('p')
    t = Triangle2D(p, p + Vector2D(2*b, 0), p + Vector2D(b, h))
    psa_true(t.is_isosceles, 'Triangle2D.is_isosceles')
    psa_true(not t.is_equilateral, 'Triangle2D.is_equilateral (isosceles)')
    psa_true(not t.is_scalene, 'Triangle2D.is_scalene (isosceles)')
    t = Triangle2D(p, p + Vector2D(2*b, 0), p + Vector2D(3*b, h))
    psa_true(t.is_scalene, 'Triangle2D.is_scalene')
    psa_true(not t.is_isosceles, 'Triangle2D.is_isosceles (scalene)')
    u = psa_unit('u')
    q = p + Vector2D(b, 0)
    x = Vector2D(b*u, h*(1 - u)/2)
    t = Triangle2D(p, q, p + Vector2D(0, h))
    psa_true(t.is_point_inside(p + x), 'Triangle2D.is_point_inside')
    psa_true(not t.is_point_inside(p + Vector2D(b + h, h)), 'Triangle2D.is_point_inside (outside)')
    psa_true(not t.is_point_inside(p + Vector2D(-b, h/2)), 'Triangle2D.is_point_inside (outside)')
    psa_true(not t.is_point_inside(p + Vector2D(b*u, -h)), 'Triangle2D.is_point_inside (outside)')

def law_G10_triangle_orientation():
    # counter-clockwise, clockwise, and the three orders of three points on a line
    p = point('p')
    b, h, k, e = psa_positive('b'), psa_positive('h'), psa_scalar('k'), psa_positive_number('e')
    for v in (Vector2D(b, 0), Vector2D(0, b), Vector2D(-b, 0), Vector2D(0, -b), Vector2D(b, h), Vector2D(-h, b)):
        q = p + v
        psa_equal(triangle_orientation(p, q, p + v*k + v.normal), 1, 'triangle_orientation (left turn)')
        psa_equal(triangle_orientation(p, q, p + v*k - v.normal), -1, 'triangle_orientation (right turn)')
        psa_equal(triangle_orientation(p, q, p - v*e), -1, 'triangle_orientation (on the line, before)')
        psa_equal(triangle_orientation(p, q, p + v/(1 + e)), 0, 'triangle_orientation (on the line, between)')
        psa_equal(triangle_orientation(p, q, q), 0, 'triangle_orientation (end point)')
        psa_equal(triangle_orientation(p, q, q + v*e), 1, 'triangle_orientation (on the line, beyond)')

def law_G10_triangle_same_side():
    a = point('a')
    b, h, e, k, m = psa_positive('b'), psa_positive('h'), psa_positive('e'), psa_scalar('k'), psa_scalar('m')
    for v in (Vector2D(b, 0), Vector2D(0, b), Vector2D(-b, h), Vector2D(b, h)):
        l = a + v*k + v.normal*e
        r = a + v*m - v.normal*h
        psa_true(same_side(l, a + v*m + v.normal*h, a, a + v), 'same_side (left)')
        psa_true(same_side(r, a + v*k - v.normal*e, a, a + v), 'same_side (right)')
        psa_true(not same_side(l, r, a, a + v), 'same_side (opposite)')
        psa_true(not same_side(r, l, a, a + v), 'same_side (opposite)')
        psa_true(same_side(a + v*k, r, a, a + v), 'same_side (on the line)')
        psa_true(same_side(r, a + v*k, a, a + v), 'same_side (on the line)')
        psa_true(same_side(l, a + v*m, a, a + v), 'same_side (on the line)')

def law_G10_triangle_bisector_direction():
    # between both edges, not the opposite direction
    p = point('p')
    b, h = psa_positive('b'), psa_positive('h')
    q, r = p + Vector2D(b, 0), p + Vector2D(0, h)
    t = Triangle2D(p, q, r)
    same(t.bisector_vector0, 1, 1, 'Triangle2D.bisector_vector0')
    t = Triangle2D(q, r, p)
    same(t.bisector_vector2, 1, 1, 'Triangle2D.bisector_vector2')
    t = Triangle2D(r, p, q)
    same(t.bisector_vector1, 1, 1, 'Triangle2D.bisector_vector1')
    d = sqrt(b*b + h*h)
    t = Triangle2D(p, q, r)
    same(t.bisector_vector1*d, -b - d, h, 'Triangle2D.bisector_vector1')
    same(t.bisector_vector2*d, b, -h - d, 'Triangle2D.bisector_vector2')

def law_G10_triangle_angles():
    p = point('p')
    b, h, e = psa_positive('b'), psa_positive('h'), psa_positive('e')
    # an equilateral triangle
    q, r = p + Vector2D(2*b, 0), p + Vector2D(b, sqrt(3*b*b))
    t = Triangle2D(p, q, r)
    psa_true(t.is_equilateral, 'Triangle2D.is_equilateral')
    psa_true(not t.is_isosceles, 'Triangle2D.is_isosceles (equilateral)')
    psa_true(not t.is_scalene, 'Triangle2D.is_scalene (equilateral)')
    psa_true(t.is_acute, 'Triangle2D.is_acute (equilateral)')
    psa_true(not t.is_obtuse, 'Triangle2D.is_obtuse (equilateral)')
    psa_true(not t.is_oblique, 'Triangle2D.is_oblique (equilateral)')
    a, c = p + Vector2D(0, 0), p + Vector2D(b, 0)
    o = p + Vector2D(-b, b)
    for t in (Triangle2D(a, c, o), Triangle2D(c, o, a), Triangle2D(o, a, c), Triangle2D(a, o, c), Triangle2D(c, a, o), Triangle2D(o, c, a)):
        psa_true(t.is_obtuse, 'Triangle2D.is_obtuse')
        psa_true(not t.is_acute, 'Triangle2D.is_acute (obtuse)')
    o = p + Vector2D(b/2, b)
    for t in (Triangle2D(a, c, o), Triangle2D(c, o, a), Triangle2D(o, a, c), Triangle2D(a, o, c), Triangle2D(c, a, o), Triangle2D(o, c, a)):
        psa_true(t.is_acute, 'Triangle2D.is_acute')
        psa_true(not t.is_obtuse, 'Triangle2D.is_obtuse (acute)')

def law_G10_triangle_isosceles():
    # whichever two of the sides are equal
    p = point('p')
    b, h = psa_positive('b'), psa_positive('h')
    q, r = p + Vector2D(2*b, 0), p + Vector2D(b, h)
    for t in (Triangle2D(p, q, r), Triangle2D(q, r, p), Triangle2D(r, p, q)):
        psa_true(t.is_isosceles, 'Triangle2D.is_isosceles')
        psa_true(not t.is_scalene, 'Triangle2D.is_scalene (isosceles)')

def law_G10_triangle_flat():
    p, v = point('p'), displacement('v')
    k = psa_positive_number('k')
    try:
        Triangle2D(p, p + v, p + v*k)
        flat = False
    except ValueError:
        flat = True
    psa_true(flat, 'Triangle2D refuses three points of a line')

####################################################################################################
# rectangles, polylines

def law_G10_rectangle():
    w, h = psa_positive('w'), psa_positive('h')
    p = point('p')
    for sx, sy in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
        d = Vector2D(sx*w, sy*h)
        r = Rectangle2D(p, p + d)
        psa_equal(r.area, w*h, 'Rectangle2D.area')
        psa_equal(r.perimeter, 2*(w + h), 'Rectangle2D.perimeter')
        same(r.diagonal, sx*w, sy*h, 'Rectangle2D.diagonal')
        psa_true(r.is_point_inside(p + d*psa_unit('t')), 'Rectangle2D.is_point_inside')
        psa_true(not r.is_point_inside(p - d), 'Rectangle2D.is_point_inside (outside)')
        psa_true(not r.is_point_inside(p + Vector2D(d.x*2, d.y/2)), 'Rectangle2D.is_point_inside (outside)')
        psa_true(not r.is_point_inside(p + Vector2D(d.x/2, d.y*2)), 'Rectangle2D.is_point_inside (outside)')
        b = r.bounding_box
        psa_equal(b.x.sup - b.x.inf, w, 'Rectangle2D.bounding_box')
        psa_equal(b.y.sup - b.y.inf, h, 'Rectangle2D.bounding_box')
        psa_equal(b.x.inf + b.x.sup, 2*p.x + d.x, 'Rectangle2D.bounding_box')
        psa_equal(b.y.inf + b.y.sup, 2*p.y + d.y, 'Rectangle2D.bounding_box')

def law_G10_rectangle_edges():
    p, q = point('p'), point('q')
    r = Rectangle2D(p, q)
    same(r.p01, p.x, q.y, 'Rectangle2D.p01')
    same(r.p10, q.x, p.y, 'Rectangle2D.p10')
    es = r.edges
    psa_equal(len(es), 4, 'Rectangle2D.edges')
    previous = es[3]
    length = 0
    for e in es:
        psa_equal(previous.p1, e.p0, 'Rectangle2D.edges are joined')
        previous = e
        length += e.length
    psa_equal(length, r.perimeter, 'Rectangle2D.edges')
    d = displacement('d')
    r = Rectangle2D.from_point_and_offset(p, d)
    psa_equal(r.p0, p, 'Rectangle2D.from_point_and_offset')
    psa_equal(r.p1, p + d, 'Rectangle2D.from_point_and_offset')
    r = Rectangle2D.from_point_and_radius(p, d)
    psa_equal(r.p0, p - d, 'Rectangle2D.from_point_and_radius')
    psa_equal(r.p1, p + d, 'Rectangle2D.from_point_and_radius')

def law_G10_polyline():
    p, q, r = point('p'), point('q'), point('r')
    l = Polyline2D(p, q, r)
    psa_equal(l.length, sqrt(square(q - p)) + sqrt(square(r - q)), 'Polyline2D.length')
    es = list(l.edges)
    psa_equal(len(es), 2, 'Polyline2D.edges')
    psa_equal(es[0].p0, p, 'Polyline2D.edges')
    psa_equal(es[0].p1, q, 'Polyline2D.edges')
    psa_equal(es[1].p0, q, 'Polyline2D.edges')
    psa_equal(es[1].p1, r, 'Polyline2D.edges')
    path = l.to_path()
    psa_equal(path.p0, p, 'Polyline2D.to_path')
    parts = list(path)
    psa_equal(len(parts), 2, 'Polyline2D.to_path')
    psa_equal(parts[0].stop_point, q, 'Polyline2D.to_path')
    psa_equal(parts[1].stop_point, r, 'Polyline2D.to_path')

def law_G10_polyline_distance():
    w, h = psa_positive('w'), psa_positive('h')
    t = psa_unit('t')
    p = point('p')
    l = Polyline2D(p, p + Vector2D(w, 0), p + Vector2D(w, -w))
    psa_equal(l.distance_to_point(p + Vector2D(w*t, h)), h, 'Polyline2D.distance_to_point (nearest to the first edge)')
    psa_equal(l.distance_to_point(p + Vector2D(w + h, -w*t)), h, 'Polyline2D.distance_to_point (nearest to the last edge)')
    psa_equal(l.distance_to_point(p + Vector2D(w + h, h)), sqrt(2*h*h), 'Polyline2D.distance_to_point (nearest to a vertex)')

####################################################################################################
# polygons

def quadrilateral(p, w, h, e):
    """A convex counter-clockwise trapezium."""
    return p, p + Vector2D(w + e, 0), p + Vector2D(w, h), p + Vector2D(0, h)

def law_G11_triangle_polygon():
    p = point('p')
    w, h, e = psa_positive('w'), psa_positive('h'), psa_positive('e')
    q, r = p + Vector2D(w, 0), p + Vector2D(w + e, h)
    t = Polygon2D(p, q, r)
    psa_true(t.is_simple, 'Polygon2D.is_simple (triangle)')
    psa_equal(t.area, w*h/2, 'Polygon2D.area (triangle)')
    same(t.barycenter, (p.x + q.x + r.x)/3, (p.y + q.y + r.y)/3, 'Polygon2D.barycenter (triangle)')
    psa_true(t.is_counterclockwise, 'Polygon2D.is_counterclockwise')
    psa_true(not t.is_clockwise, 'Polygon2D.is_clockwise')
    t = Polygon2D(p, r, q)
    psa_true(t.is_clockwise, 'Polygon2D.is_clockwise')
    psa_equal(t.area, w*h/2, 'Polygon2D.area (clockwise)')
    same(t.barycenter, (p.x + q.x + r.x)/3, (p.y + q.y + r.y)/3, 'Polygon2D.barycenter (clockwise)')
    psa_true(t.is_convex, 'Polygon2D.is_convex (triangle)')
    psa_true(t.is_triangle, 'Polygon2D.is_triangle')
    psa_equal(t.to_triangle().area, w*h/2, 'Polygon2D.to_triangle')

def law_G11_polygon():
    p = point('p')
    w, h, e = psa_positive('w'), psa_positive('h'), psa_positive('e')
    a, b, c, d = quadrilateral(p, w, h, e)
    t = Polygon2D(a, b, c, d)
    psa_true(t.is_simple, 'Polygon2D.is_simple')
    psa_true(t.is_convex, 'Polygon2D.is_convex')
    psa_true(not t.is_concave, 'Polygon2D.is_concave')
    psa_equal(t.area, h*(2*w + e)/2, 'Polygon2D.area')
    m = t.barycenter
    # first moments of the rectangle and of the triangle
    psa_equal(m.x*t.area, (p.x + w/2)*w*h + (p.x + w + e/3)*e*h/2, 'Polygon2D.barycenter')
    psa_equal(m.y*t.area, (p.y + h/2)*w*h + (p.y + h/3)*e*h/2, 'Polygon2D.barycenter')
    psa_equal(t.perimeter, (w + e) + sqrt(e*e + h*h) + w + h, 'Polygon2D.perimeter')
    same(t.point_barycenter, (a.x + b.x + c.x + d.x)/4, (a.y + b.y + c.y + d.y)/4, 'Polygon2D.point_barycenter')
    psa_equal(t.number_of_edges, 4, 'Polygon2D.number_of_edges')
    es = t.edges
    psa_equal(es[3].p0, d, 'Polygon2D.edges')
    psa_equal(es[3].p1, a, 'Polygon2D.edges')
    psa_equal(es[1].p0, b, 'Polygon2D.edges')
    psa_equal(es[1].p1, c, 'Polygon2D.edges')

def law_G11_polygon_concave():
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    t = Polygon2D(p, p + Vector2D(3*w, 0), p + Vector2D(3*w, 3*h), p + Vector2D(2*w, h))
    psa_true(t.is_simple, 'Polygon2D.is_simple (concave)')
    psa_true(not t.is_convex, 'Polygon2D.is_convex (concave)')
    psa_true(t.is_concave, 'Polygon2D.is_concave')
    psa_equal(t.area, 3*w*h, 'Polygon2D.area (concave)')
    # crossing edges
    t = Polygon2D(p, p + Vector2D(w, 0), p + Vector2D(0, h), p + Vector2D(w, h))
    psa_true(not t.is_simple, 'Polygon2D.is_simple (crossing edges)')
    psa_true(t.area is None, 'Polygon2D.area (crossing edges)')

def law_G11_polygon_inside():
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    u = psa_unit('u')
    t = Polygon2D(p, p + Vector2D(w, 0), p + Vector2D(w, h), p + Vector2D(0, h))
    r = Polygon2D(p, p + Vector2D(0, h), p + Vector2D(w, h), p + Vector2D(w, 0))
    for x, y in ((w*u, h*u), (w*u, h/2), (w/3, h*u)):
        q = p + Vector2D(x, y)
        psa_true(t.is_point_inside(q), 'Polygon2D.is_point_inside')
        psa_true(r.is_point_inside(q), 'Polygon2D.is_point_inside (clockwise)')
    for x, y in ((-w, h*u), (2*w, h*u), (w*u, 2*h), (w*u, -h), (2*w, 2*h)):
        q = p + Vector2D(x, y)
        psa_true(not t.is_point_inside(q), 'Polygon2D.is_point_inside (outside)')
        psa_true(not r.is_point_inside(q), 'Polygon2D.is_point_inside (clockwise, outside)')
    # at the height of a vertex
    t = Polygon2D(p, p + Vector2D(2*w, -h), p + Vector2D(2*w, h))
    psa_true(t.is_point_inside(p + Vector2D(2*w*u, 0)), 'Polygon2D.is_point_inside (height of a vertex)')
    psa_true(not t.is_point_inside(p + Vector2D(3*w, 0)), 'Polygon2D.is_point_inside (height of a vertex, after)')
    psa_true(not t.is_point_inside(p + Vector2D(-w, 0)), 'Polygon2D.is_point_inside (height of a vertex, before)')

def law_G11_polygon_recenter():
    p = point('p')
    w, h, e = psa_positive('w'), psa_positive('h'), psa_positive('e')
    t = Polygon2D(*quadrilateral(p, w, h, e))
    area, perimeter = t.area, t.perimeter
    t.recenter()
    same(t.barycenter, 0, 0, 'Polygon2D.recenter')
    psa_equal(t.area, area, 'Polygon2D.recenter')
    psa_equal(t.perimeter, perimeter, 'Polygon2D.recenter')

def law_G11_polygon_simplify():
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    t = Polygon2D(p, p + Vector2D(w, 0), p + Vector2D(2*w, 0), p + Vector2D(2*w, h), p + Vector2D(0, h)).simplify(0)
    psa_equal(t.number_of_points, 4, 'Polygon2D.simplify')
    psa_equal(t.area, 2*w*h, 'Polygon2D.simplify')

def law_G11_regular():
    c = point('c')
    r = psa_positive('r')
    for n, a in ((3, 0), (4, 0), (6, 0), (4, 45), (6, 30)):
        g = RegularPolygon(c, r, n, a)
        psa_equal(g.edge_angle, 360/n, 'RegularPolygon.edge_angle')
        psa_equal(g.number_of_edges, n, 'RegularPolygon.number_of_edges')
        psa_equal(g.perimeter, 2*n*r*sin(pi/n), 'RegularPolygon.perimeter')
        psa_equal(g.area, n*r*r*sin(2*pi/n)/2, 'RegularPolygon.area')
        same(g.barycenter, c.x, c.y, 'RegularPolygon.barycenter')
        q = g.start_point
        same(q, c.x + r*cos(radians(a)), c.y + r*sin(radians(a)), 'RegularPolygon.angle')
        for v in g.points:
            psa_equal(square(v - c), r*r, 'RegularPolygon vertices are on the circumcircle')
        o = g.circumcircle
        same(o.center, c.x, c.y, 'RegularPolygon.circumcircle')
        psa_equal(o.radius, r, 'RegularPolygon.circumcircle')
        psa_true(g.is_counterclockwise, 'RegularPolygon turns counter-clockwise')

####################################################################################################
# angular domains

def law_G11_domain():
    a, b = psa_turn('a'), psa_turn('b')
    d = AngularDomain(a, b)
    psa_equal(d.start, a, 'AngularDomain.start')
    psa_equal(d.stop, b, 'AngularDomain.stop')
    psa_equal(d.start_radians, radians(a), 'AngularDomain.start_radians')
    psa_equal(d.stop_radians, radians(b), 'AngularDomain.stop_radians')
    psa_equal(d.span, abs(b - a), 'AngularDomain.span')
    m = AngularDomain(radians(a), radians(b), degrees=False)
    psa_equal(m.start, a, 'AngularDomain(radians)')
    psa_equal(m.stop, b, 'AngularDomain(radians)')
    t = psa_turn('t')
    m = d.transform(False, t)
    psa_equal(m.start, a + t, 'AngularDomain.transform')
    psa_equal(m.stop, b + t, 'AngularDomain.transform')
    m = d.transform(True, t)
    psa_equal(m.start, t - b, 'AngularDomain.transform (mirror)')
    psa_equal(m.stop, t - a, 'AngularDomain.transform (mirror)')

def law_G11_domain_kinds():
    a, u = psa_turn('a'), psa_unit('u')
    d = AngularDomain(a, a + 360*u)
    psa_equal(d.length, 2*pi*u, 'AngularDomain.length')
    psa_true(d.is_counterclockwise, 'AngularDomain.is_counterclockwise')
    psa_true(not d.is_clockwise, 'AngularDomain.is_clockwise')
    psa_true(not d.is_closed, 'AngularDomain.is_closed')
    psa_true(not d.is_null, 'AngularDomain.is_null')
    psa_true(not d.is_over_closed, 'AngularDomain.is_over_closed')
    psa_true(d.is_inside(a + 180*u), 'AngularDomain.is_inside')
    psa_true(not d.is_inside(a + 180 + 180*u), 'AngularDomain.is_inside (out)')
    for turns in (-2, -1, 1, 2):
        psa_true(d.is_inside(a + 180*u + 360*turns), 'AngularDomain.is_inside (other turns)')
        psa_true(not d.is_inside(a + 180 + 180*u + 360*turns), 'AngularDomain.is_inside (out, other turns)')
    e = AngularDomain(a + 360*u, a)
    psa_true(e.is_clockwise, 'AngularDomain.is_clockwise')
    psa_true(not e.is_counterclockwise, 'AngularDomain.is_counterclockwise')
    psa_true(e.is_inside(a), 'AngularDomain.is_inside (stop)')
    psa_true(e.is_inside(a + 360*u), 'AngularDomain.is_inside (start)')
    psa_true(e.is_inside(a + 180 + 180*u), 'AngularDomain.is_inside (a domain through 360)')
    psa_true(not e.is_inside(a + 180*u), 'AngularDomain.is_inside (out of a domain through 360)')
    psa_equal(e.length, 2*pi*(1 - u), 'AngularDomain.length (through 360)')
    psa_true(d.is_inside(a), 'AngularDomain.is_inside (start)')
    psa_true(d.is_inside(a + 360*u), 'AngularDomain.is_inside (stop)')
    f = AngularDomain(a, a + 360)
    psa_true(f.is_closed, 'AngularDomain.is_closed (full turn)')
    psa_true(not f.is_over_closed, 'AngularDomain.is_over_closed (full turn)')
    psa_equal(f.length, 2*pi, 'AngularDomain.length (full turn)')
    psa_true(AngularDomain(a, a).is_null, 'AngularDomain.is_null')
    psa_true(AngularDomain(a, a + 361).is_over_closed, 'AngularDomain.is_over_closed')

def law_G11_domain_inside():
    for start, stop in ((-90, 90), (300, 400), (350, 10), (0, 180), (-400, -100), (200, 100), (0, 359), (10, 360)):
        d = AngularDomain(start, stop)
        span = (stop - start) % 360
        label = 'AngularDomain({}, {}).is_inside'.format(start, stop)
        for turns in (-2, -1, 0, 1, 2):
            psa_true(d.is_inside(start + 360*turns), label + ' (start)')
            psa_true(d.is_inside(start + span + 360*turns), label + ' (stop)')
            psa_true(d.is_inside(start + span/2 + 360*turns), label + ' (middle)')
            psa_true(not d.is_inside(start - .5 + 360*turns), label + ' (before)')
            psa_true(not d.is_inside(start + span + .5 + 360*turns), label + ' (after)')
    for d in (AngularDomain(), AngularDomain(-180, 180), AngularDomain(0, 400)):
        for angle in (-400, -180, 0, 10, 180, 359, 360, 500):
            psa_true(d.is_inside(angle), 'AngularDomain.is_inside (full turn)')

def law_G11_arc_distance():
    c = point('c')
    r = psa_positive('r')
    for start, stop in ((-90, 90), (45, 135), (270, 450), (315, 45), (180, 360)):
        for shift in (0, 360, -360):
            o = Circle2D(c, r, domain=AngularDomain(start + shift, stop + shift))
            middle = start + ((stop - start) % 360)/2
            label = 'Circle2D.distance_to_point (arc from {} to {})'.format(start + shift, stop + shift)
            psa_equal(o.distance_to_point(c + Vector2D.from_polar(3*r, middle)), 2*r, label)
            psa_equal(o.distance_to_point(c + Vector2D.from_polar(r/2, middle)), r/2, label + ' (inside the circle)')
            if abs(stop - start) == 180 or stop < start and stop - start == -180:
                psa_equal(o.distance_to_point(c + Vector2D.from_polar(r, middle + 180)), r*sqrt(2), label + ' (opposite)')

####################################################################################################
# circles

def law_G11_circle():
    c = point('c')
    r = psa_positive('r')
    o = Circle2D(c, r)
    a = psa_turn('a')
    ca, sa = cos(radians(a)), sin(radians(a))
    same(o.point_at_angle(a), c.x + r*ca, c.y + r*sa, 'Circle2D.point_at_angle')
    psa_equal(o.perimeter, 2*pi*r, 'Circle2D.perimeter')
    psa_equal(o.area, pi*r*r, 'Circle2D.area')
    psa_equal(o.diameter, 2*r, 'Circle2D.diameter')
    d = psa_length('d')
    same(o.point_at_distance(d), c.x + r*cos(d/r), c.y + r*sin(d/r), 'Circle2D.point_at_distance')
    l = o.tangent_at_angle(a)
    same(l.p, c.x + r*ca, c.y + r*sa, 'Circle2D.tangent_at_angle')
    psa_equal(dot(l.v, Vector2D(ca, sa)), 0, 'Circle2D.tangent_at_angle')
    b = o.bounding_box
    psa_equal(b.x.inf, c.x - r, 'Circle2D.bounding_box')
    psa_equal(b.x.sup, c.x + r, 'Circle2D.bounding_box')
    psa_equal(b.y.inf, c.y - r, 'Circle2D.bounding_box')
    psa_equal(b.y.sup, c.y + r, 'Circle2D.bounding_box')
    psa_equal(Circle2D(c, r, diameter=True).radius, r/2, 'Circle2D(diameter)')
    q = point('q')
    f = Circle2D.from_two_points(c, q)
    same(f.center, c.x, c.y, 'Circle2D.from_two_points')
    psa_equal(f.radius, sqrt(square(q - c)), 'Circle2D.from_two_points')

def law_G11_circle_points():
    c = point('c')
    r, e = psa_positive('r'), psa_positive('e')
    u = psa_unit('u')
    a = psa_turn('a')
    n = Vector2D(3, 4)/5
    o = Circle2D(c, r)
    psa_equal(o.signed_distance_to_point(c + n*(r + e)), e, 'Circle2D.signed_distance_to_point (outside)')
    psa_equal(o.signed_distance_to_point(c + n*(r*u)), r*u - r, 'Circle2D.signed_distance_to_point (inside)')
    psa_equal(o.distance_to_point(c + n*(r + e)), e, 'Circle2D.distance_to_point (outside)')
    psa_equal(o.distance_to_point(c + n*(r*u)), r - r*u, 'Circle2D.distance_to_point (inside)')
    psa_true(o.is_point_inside(c + n*(r*u)), 'Circle2D.is_point_inside')
    psa_true(not o.is_point_inside(c + n*(r + e)), 'Circle2D.is_point_inside (outside)')
    for x, y in ((3, 4), (-3, 4), (-3, -4), (3, -4)):
        g = radians(o.angle_for_point(c + Vector2D(x, y)*e))
        psa_equal(cos(g), x/5, 'Circle2D.angle_for_point')
        psa_equal(sin(g), y/5, 'Circle2D.angle_for_point')
    psa_equal(o.angle_for_point(c + Vector2D(0, -e)), 270, 'Circle2D.angle_for_point (south)')

def law_G11_arc():
    c = point('c')
    r, e = psa_positive('r'), psa_positive('e')
    a, u = psa_turn('a'), psa_unit('u')
    o = Circle2D(c, r, domain=AngularDomain(a, a + 360*u))
    psa_equal(o.perimeter, 2*pi*u*r, 'Circle2D.perimeter (arc)')
    same(o.start_point, c.x + r*cos(radians(a)), c.y + r*sin(radians(a)), 'Circle2D.start_point')
    b = a + 360*u
    same(o.stop_point, c.x + r*cos(radians(b)), c.y + r*sin(radians(b)), 'Circle2D.stop_point')
    psa_true(not o.is_closed, 'Circle2D.is_closed (arc)')
    psa_true(Circle2D(c, r).is_closed, 'Circle2D.is_closed')
    # an arc of a given length
    d = pi*r*u
    o = Circle2D(c, r, start_angle=a, distance=d)
    psa_equal(o.domain.start, a, 'Circle2D(start_angle)')
    psa_equal(o.domain.stop - a, 180*u, 'Circle2D(distance)')
    psa_true(not o.is_closed, 'Circle2D(distance)')
    psa_true(Circle2D(c, r, start_angle=a, distance=r*7).is_closed, 'Circle2D(distance) over a turn')
    o = Circle2D(c, r, start_angle=a, distance=r*6)
    psa_equal(o.domain.stop - a, 1080/pi, 'Circle2D(distance) nearly a turn')
    o = Circle2D(c, 2*r, diameter=True)
    psa_equal(o.radius, r, 'Circle2D(diameter)')
    psa_equal(Circle2D.from_two_points(c, c + Vector2D(3, 4)*r).radius, 5*r, 'Circle2D.from_two_points')

def law_G11_circle_segment():
    c = point('c')
    r = psa_positive('r')
    u = psa_unit('u')
    h = r*u
    m = sqrt(r*r - h*h)
    o = Circle2D(c, r)
    # an horizontal and a vertical chord, in both directions
    p, q = o.intersect_segment(Segment2D(c + Vector2D(-2*r, h), c + Vector2D(2*r, h)))
    same(p, c.x - m, c.y + h, 'Circle2D.intersect_segment (first point)')
    same(q, c.x + m, c.y + h, 'Circle2D.intersect_segment (second point)')
    for s in (Segment2D(c + Vector2D(h, -2*r), c + Vector2D(h, 2*r)), Segment2D(c + Vector2D(h, 2*r), c + Vector2D(h, -2*r)),
              Segment2D(c + Vector2D(-2*r, 0), c + Vector2D(r, r)), Segment2D(c + Vector2D(2*r, 0), c + Vector2D(-r, h))):
        ps = o.intersect_segment(s)
        for p in ps:
            psa_equal(square(p - c), r*r, 'Circle2D.intersect_segment is on the circle')
            psa_equal(s.side_of(p), 0, 'Circle2D.intersect_segment is on the line')
    t = o.intersect_segment(Segment2D(c + Vector2D(-2*r, r), c + Vector2D(2*r, r)))
    same(t, c.x, c.y + r, 'Circle2D.intersect_segment (tangent)')
    psa_true(o.intersect_segment(Segment2D(c + Vector2D(-2*r, 2*r), c + Vector2D(2*r, 2*r))) is None,
             'Circle2D.intersect_segment (no intersection)')

def law_G11_circle_circle():
    c = point('c')
    r = psa_positive('r')
    u = psa_unit('u')
    # second center at a distance of (1 + u)*r, same radius
    a = Circle2D(c, r)
    for n in (Vector2D(1, 0), Vector2D(0, 1), Vector2D(-3, 4)/5):
        d = c + n*((1 + u)*r)
        b = Circle2D(d, r)
        p, q = a.intersect_circle(b)
        for i in (p, q):
            psa_equal(square(i - c), r*r, 'Circle2D.intersect_circle is on the first circle')
            psa_equal(square(i - d), r*r, 'Circle2D.intersect_circle is on the second circle')
    b = Circle2D(c + Vector2D(3*r, 0), 2*r)
    same(a.intersect_circle(b), c.x + r, c.y, 'Circle2D.intersect_circle (tangent circles)')
    psa_true(a.intersect_circle(Circle2D(c + Vector2D(4*r, 0), r)) is None, 'Circle2D.intersect_circle (no intersection)')

####################################################################################################
# ellipses

def on_ellipse(e, p, label):
    c = cos(radians(e.angle))
    s = sin(radians(e.angle))
    x = (c*(p.x - e.center.x) + s*(p.y - e.center.y))*e.radius_y
    y = (c*(p.y - e.center.y) - s*(p.x - e.center.x))*e.radius_x
    r = e.radius_x*e.radius_y
    psa_equal(x*x + y*y, r*r, label)

def law_G11_ellipse():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    t, g = psa_turn('t'), psa_turn('g')
    e = Ellipse2D(c, a, b, g)
    cg, sg = cos(radians(g)), sin(radians(g))
    ct, st = cos(radians(t)), sin(radians(t))
    p = e.point_at_angle(t)
    same(p, c.x + a*ct*cg - b*st*sg, c.y + a*ct*sg + b*st*cg, 'Ellipse2D.point_at_angle')
    on_ellipse(e, p, 'Ellipse2D.point_at_angle is on the ellipse')
    same(e.major_vector, a*cg, a*sg, 'Ellipse2D.major_vector')
    same(e.minor_vector, -b*sg, b*cg, 'Ellipse2D.minor_vector')
    q = point('q')
    f = e.point_in_ellipse_frame(q)
    psa_equal(e.point_from_ellipse_frame(f), q, 'Ellipse2D.point_from_ellipse_frame')
    psa_equal(f.x, dot(q - c, Vector2D(cg, sg)), 'Ellipse2D.point_in_ellipse_frame')
    psa_equal(f.y, dot(q - c, Vector2D(-sg, cg)), 'Ellipse2D.point_in_ellipse_frame')
    m = e.matrix()
    psa_equal(m[0][0]*p.x*p.x + 2*m[0][1]*p.x*p.y + m[1][1]*p.y*p.y + 2*m[0][2]*p.x + 2*m[1][2]*p.y + m[2][2], 0,
              'Ellipse2D.matrix vanishes on the ellipse')

def law_G11_ellipse_box():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    g = psa_turn('g')
    e = Ellipse2D(c, a, b, g)
    k = e.bounding_box
    cg, sg = cos(radians(g)), sin(radians(g))
    psa_equal(k.x.sup - k.x.inf, 2*sqrt(a*a*cg*cg + b*b*sg*sg), 'Ellipse2D.bounding_box')
    psa_equal(k.y.sup - k.y.inf, 2*sqrt(a*a*sg*sg + b*b*cg*cg), 'Ellipse2D.bounding_box')
    psa_equal(k.x.sup + k.x.inf, 2*c.x, 'Ellipse2D.bounding_box')
    psa_equal(k.y.sup + k.y.inf, 2*c.y, 'Ellipse2D.bounding_box')
    psa_equal(Ellipse2D(c, 5, 3).eccentricity, 4/5, 'Ellipse2D.eccentricity')

def law_G11_ellipse_arc():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    g = psa_turn('g')
    for start, stop in ((10, 80), (-45, 300), (0, 360), (200, 20), (90, -100)):
        e = Ellipse2D(c, a, b, g, AngularDomain(start, stop))
        curves = e.to_bezier()
        same(curves[0].p0, e.start_point.x, e.start_point.y, 'Ellipse2D.to_bezier starts at the start of the arc')
        same(curves[-1].p3, e.stop_point.x, e.stop_point.y, 'Ellipse2D.to_bezier stops at the end of the arc')
        for left, right in zip(curves, curves[1:]):
            psa_equal(left.p3, right.p0, 'Ellipse2D.to_bezier pieces are joined')
    curves = Ellipse2D(c, a, b, g).to_bezier()
    psa_equal(curves[0].p0, curves[-1].p3, 'Ellipse2D.to_bezier (full)')

def law_G11_ellipse_bezier():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    g = psa_turn('g')
    e = Ellipse2D(c, a, b, g, AngularDomain(20, 80))
    curve = e.to_bezier()[0]
    # tangent at both ends
    for angle, v in ((20, curve.p1 - curve.p0), (80, curve.p3 - curve.p2)):
        d = Vector2D(-a*sin(radians(angle)), b*cos(radians(angle))).rotate(g)
        psa_equal(cross(d, v), 0, 'Ellipse2D.to_bezier is tangent to the ellipse')

def law_G11_ellipse_bezier_quarter():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    # one curve by quarter of turn at most, in the order of the angles
    for start, stop, count in ((0, 60, 1), (30, 90, 1), (90, 180, 1), (0, 180, 2), (90, 360, 3), (60, 0, 1), (180, 0, 2), (-90, 90, 2)):
        e = Ellipse2D(c, a, b, 0, AngularDomain(start, stop))
        curves = e.to_bezier()
        psa_equal(len(curves), count, 'Ellipse2D.to_bezier number of curves')
        same(curves[0].p0, c.x + a*cos(radians(start)), c.y + b*sin(radians(start)), 'Ellipse2D.to_bezier start')
        same(curves[-1].p3, c.x + a*cos(radians(stop)), c.y + b*sin(radians(stop)), 'Ellipse2D.to_bezier stop')
        for i in range(len(curves) - 1):
            psa_equal(curves[i].p3, curves[i + 1].p0, 'Ellipse2D.to_bezier is continuous')
        for curve in curves:
            on_ellipse(e, curve.point_at_t(1/2), 'Ellipse2D.to_bezier middle of the curves is on the ellipse')
            for t in (0, 1):
                v = curve.tangent_at(t)
                r = curve.point_at_t(t) - c
                psa_equal(r.x*v.x*b*b + r.y*v.y*a*a, 0, 'Ellipse2D.to_bezier is tangent to the ellipse at both ends')
    e = Ellipse2D(c, a, b)
    psa_equal(len(e.to_bezier()), 4, 'Ellipse2D.to_bezier of a closed ellipse')

def law_G11_ellipse_segment():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    u = psa_unit('u')
    e = Ellipse2D(c, a, b)
    for s in (Segment2D(c + Vector2D(-2*a, b*u), c + Vector2D(2*a, b*u)), Segment2D(c + Vector2D(a*u, -2*b), c + Vector2D(a*u, 2*b))):
        for p in e.intersect_segment(s):
            on_ellipse(e, p, 'Ellipse2D.intersect_segment is on the ellipse')
            psa_equal(s.side_of(p), 0, 'Ellipse2D.intersect_segment is on the line')
    ps = e.intersect_segment(Segment2D(c + Vector2D(-2*a, b), c + Vector2D(2*a, b)))
    psa_equal(len(ps), 1, 'Ellipse2D.intersect_segment (tangent)')
    same(ps[0], c.x, c.y + b, 'Ellipse2D.intersect_segment (tangent)')
    psa_true(e.intersect_segment(Segment2D(c + Vector2D(-2*a, 2*b), c + Vector2D(2*a, 2*b))) is None,
             'Ellipse2D.intersect_segment (no intersection)')

def law_G11_ellipse_distance():
    c = point('c')
    a, b, h = psa_positive('a'), psa_positive('b'), psa_positive('h')
    e = Ellipse2D(c, a + b, b)
    for s in (1, -1):
        d, p = e.distance_to_point(c + Vector2D(0, s*(b + h)), return_point=True)
        psa_equal(d, h, 'Ellipse2D.distance_to_point (on the minor axis)')
        same(p, c.x, c.y + s*b, 'Ellipse2D.distance_to_point (on the minor axis)')
        d, p = e.distance_to_point(c + Vector2D(s*(a + b + h), 0), return_point=True)
        psa_equal(d, h, 'Ellipse2D.distance_to_point (on the major axis)')
        same(p, c.x + s*(a + b), c.y, 'Ellipse2D.distance_to_point (on the major axis)')
    d, p = Ellipse2D(c, b, a + b).distance_to_point(c + Vector2D(0, a + b + h), return_point=True)
    psa_equal(d, h, 'Ellipse2D.distance_to_point (tall)')
    same(p, c.x, c.y + a + b, 'Ellipse2D.distance_to_point (tall)')
    psa_true(not e.is_point_inside(c + Vector2D(0, b + h)), 'Ellipse2D.is_point_inside (outside)')
    psa_true(e.is_point_inside(c + Vector2D(0, b*psa_unit('u'))), 'Ellipse2D.is_point_inside')

def law_G11_svg_arc():
    # the frame of a half turn: the center is the middle
    p = point('p')
    r = psa_positive('r')
    u = psa_unit('u')
    q = p + Vector2D(2*r*u, 0)
    for large in (False, True):
        for sweep in (False, True):
            e = Ellipse2D.svg_arc(p, q, r, r, 0, large, sweep)
            same(e.start_point, p.x, p.y, 'Ellipse2D.svg_arc starts at the first point')
            same(e.stop_point, q.x, q.y, 'Ellipse2D.svg_arc stops at the second point')
            psa_equal(e.radius_x, r, 'Ellipse2D.svg_arc radius')
            psa_equal(e.center.x, p.x + r*u, 'Ellipse2D.svg_arc center')
            # the center of a small arc of increasing angles is on the left
            side = 1 if large != sweep else -1
            psa_equal((e.center.y - p.y)*side, r*sqrt(1 - u*u), 'Ellipse2D.svg_arc center')
    same(Ellipse2D.svg_arc(p, q, 0, r, 0, True, True).p0, p.x, p.y, 'Ellipse2D.svg_arc of radius zero is a segment')

def law_G11_svg_arc_angles():
    # between two ends of axes: a quarter of turn or the rest of it, in the direction of the sweep
    p = point('p')
    a, b = psa_positive('a'), psa_positive('b')
    for v, low in ((Vector2D(a, b), 1), (Vector2D(-a, -b), 1), (Vector2D(a, -b), -1), (Vector2D(-a, b), -1)):
        for large in (False, True):
            for sweep in (False, True):
                e = Ellipse2D.svg_arc(p, p + v, a, b, 0, large, sweep)
                turn = (270 if large else 90)*(1 if sweep else -1)
                psa_equal(e.domain.stop - e.domain.start, turn, 'Ellipse2D.svg_arc angle')
                same(e.start_point, p.x, p.y, 'Ellipse2D.svg_arc starts at the first point (quarter)')
                same(e.stop_point, p.x + v.x, p.y + v.y, 'Ellipse2D.svg_arc stops at the second point (quarter)')

def law_G11_conic_clones():
    c = point('c')
    a, b, t = psa_positive('a'), psa_positive('b'), psa_turn('t')
    for o in (Circle2D(c, a, domain=AngularDomain(t, t + 30)), Ellipse2D(c, a, b, t, AngularDomain(t, t + 30))):
        k = o.clone()
        psa_other_object(k, o, 'a clone is another object')
        psa_other_object(k.domain, o.domain, 'a clone has its own domain')
        psa_other_object(k.center, o.center, 'a clone has its own center')
        psa_equal(k.domain.start, t, 'the domain of a clone')
        psa_equal(k.domain.stop, t + 30, 'the domain of a clone')
        same(k.center, c.x, c.y, 'the center of a clone')

def law_G11_ellipse_major_axis():
    # a point of the major axis, nearer to the sides than to the vertex
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    major = a + b
    y = a*a/major
    k = major*y/(major*major - b*b)
    expected = sqrt((major*k - y)*(major*k - y) + b*b*(1 - k*k))
    for s in (1, -1):
        wide = Ellipse2D(c, major, b)
        psa_equal(wide.distance_to_point(c + Vector2D(s*y, 0)), expected, 'Ellipse2D.distance_to_point (inside, on the major axis)')
        tall = Ellipse2D(c, b, major)
        psa_equal(tall.distance_to_point(c + Vector2D(0, s*y)), expected, 'Ellipse2D.distance_to_point (taller than wide)')

####################################################################################################
# more of polygons

def law_G11_polygon_convex():
    # turning on the same side at every vertex, in both directions
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    # a notch at each of the vertices
    a, b, c, d = p, p + Vector2D(3*w, 0), p + Vector2D(3*w, 3*h), p + Vector2D(0, 3*h)
    for points in ((p + Vector2D(2*w, 2*h), b, c, d), (a, p + Vector2D(w, 2*h), c, d),
                   (a, b, p + Vector2D(w, h), d), (a, b, c, p + Vector2D(2*w, h))):
        t = Polygon2D(*points)
        psa_true(not t.is_convex, 'Polygon2D.is_convex (notch)')
        psa_true(t.is_concave, 'Polygon2D.is_concave (notch)')
        psa_true(t.is_counterclockwise, 'Polygon2D.is_counterclockwise (notch)')
        t = Polygon2D(*reversed(points))
        psa_true(not t.is_convex, 'Polygon2D.is_convex (notch, clockwise)')
        psa_true(t.is_clockwise, 'Polygon2D.is_clockwise (notch)')
    t = Polygon2D(a, b, c, d)
    psa_true(t.is_convex, 'Polygon2D.is_convex (rectangle)')
    t = Polygon2D(d, c, b, a)
    psa_true(t.is_convex, 'Polygon2D.is_convex (clockwise rectangle)')

def law_G11_polygon_axes():
    # the long side of a rectangle, at any angle
    w, h = psa_positive('w'), psa_positive('h')
    for u, angle in ((Vector2D(1, 0), 0), (Vector2D(0, 1), 90)):
        a, b = u*(w + h), u.normal*h
        t = Polygon2D(a + b, b - a, a*-1 - b, a - b)
        psa_equal(t.major_axis_angle, angle, 'Polygon2D.major_axis_angle')
        psa_equal(t.major_axis, 4*(w + h), 'Polygon2D.major_axis')
        psa_equal(t.minor_axis, 4*h, 'Polygon2D.minor_axis')
        psa_equal(t.axis_ratio*h, w + h, 'Polygon2D.axis_ratio')
    a, b = Vector2D(w + h, w + h), Vector2D(-h, h)
    t = Polygon2D(a + b, b - a, a*-1 - b, a - b)
    psa_equal(tan(radians(t.major_axis_angle)), 1, 'Polygon2D.major_axis_angle (slanted)')
    psa_equal(t.major_axis*t.major_axis, 32*(w + h)*(w + h), 'Polygon2D.major_axis (slanted)')
    psa_equal(t.minor_axis*t.minor_axis, 32*h*h, 'Polygon2D.minor_axis (slanted)')

def law_G11_polygon_crossing_number():
    p = point('p')
    w, h, u, v = psa_positive('w'), psa_positive('h'), psa_unit('u'), psa_unit('v')
    t = Polygon2D(p, p + Vector2D(3*w, -h), p + Vector2D(4*w, 2*h), p + Vector2D(-w, 3*h))
    r = Polygon2D(p, p + Vector2D(-w, 3*h), p + Vector2D(4*w, 2*h), p + Vector2D(3*w, -h))
    for g in (t, r):
        for test in (g._crossing_number_test, g._winding_number_test, g.is_point_inside):
            psa_true(test(p + Vector2D(3*w*u, h*v)), 'Polygon2D.is_point_inside (slanted)')
            psa_true(not test(p + Vector2D(4*w + w*u, h*v)), 'Polygon2D.is_point_inside (slanted, right)')
            psa_true(not test(p + Vector2D(-w - w*u, h*v)), 'Polygon2D.is_point_inside (slanted, left)')
            psa_true(not test(p + Vector2D(w*u, 3*h + h*v)), 'Polygon2D.is_point_inside (slanted, above)')
            psa_true(not test(p + Vector2D(w*u, -h - h*v)), 'Polygon2D.is_point_inside (slanted, below)')

def law_G11_polygon_simplify_corners():
    # the vertices in the middle of straight edges go, wherever the list starts, the others stay in order
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    a, b, c, d = p, p + Vector2D(3*w, 0), p + Vector2D(3*w, 3*h), p + Vector2D(0, 3*h)
    ab, bc, cd, da = p + Vector2D(w, 0), p + Vector2D(3*w, h), p + Vector2D(2*w, 3*h), p + Vector2D(0, 2*h)
    ab2 = p + Vector2D(2*w, 0)
    for points, corners in (((a, ab, b, c, d), (a, b, c, d)),
                            ((a, ab, ab2, b, c, d), (a, b, c, d)),
                            ((a, b, bc, c, d), (a, b, c, d)),
                            ((a, b, c, cd, d), (a, b, c, d)),
                            ((a, b, c, d, da), (a, b, c, d)),
                            ((a, ab, b, bc, c, cd, d, da), (a, b, c, d)),
                            ((a, b, c, d), (a, b, c, d))):
        t = Polygon2D(*points).simplify(0)
        psa_equal(t.number_of_points, 4, 'Polygon2D.simplify keeps the corners')
        found = list(t.points)
        for i in range(4):
            psa_equal(found[i], corners[i], 'Polygon2D.simplify keeps the corners')
    # a vertex at a distance
    e = w*psa_unit('u')/2
    points = (p, p + Vector2D(w, -e), p + Vector2D(3*w, 0), p + Vector2D(3*w, 3*w), p + Vector2D(0, 3*w))
    psa_equal(Polygon2D(*points).simplify(e).number_of_points, 4, 'Polygon2D.simplify (deviation at the threshold)')
    psa_equal(Polygon2D(*points).simplify(2*e).number_of_points, 4, 'Polygon2D.simplify (deviation below the threshold)')

def law_G11_polygon_turns():
    p = point('p')
    b, h, k = psa_positive('b'), psa_positive('h'), psa_scalar('k')
    for v in (Vector2D(b, 0), Vector2D(0, b), Vector2D(-b, h), Vector2D(b, h)):
        q = p + v
        l, r, m = p + v*k + v.normal, p + v*k - v.normal, p + v*k
        psa_true(is_three_point_ccw(p, q, l), 'is_three_point_ccw')
        psa_true(not is_three_point_ccw(p, q, r), 'is_three_point_ccw (right)')
        psa_true(not is_three_point_ccw(p, q, m), 'is_three_point_ccw (collinear)')
        psa_true(is_three_point_cw(p, q, r), 'is_three_point_cw')
        psa_true(not is_three_point_cw(p, q, l), 'is_three_point_cw (left)')
        psa_true(not is_three_point_cw(p, q, m), 'is_three_point_cw (collinear)')
        psa_true(is_three_point_collinear(p, q, m), 'is_three_point_collinear')
        psa_true(not is_three_point_collinear(p, q, l), 'is_three_point_collinear (left)')
        psa_true(not is_three_point_collinear(p, q, r), 'is_three_point_collinear (right)')

def law_G11_polygon_names():
    for n, name in ((3, 'triangle'), (4, 'quadrilateral'), (5, 'pentagon'), (6, 'hexagon'), (8, 'octagon'), (12, 'dodecagon'),
                    (20, 'icosagon'), (24, 'icositetragon'), (100, 'hectogon')):
        psa_equal(RegularPolygon.ngon_name(n), name, 'RegularPolygon.ngon_name')
    psa_true(RegularPolygon.ngon_name(21) is None, 'RegularPolygon.ngon_name (unnamed)')
    g = RegularPolygon(point('c'), psa_positive('r'), 5)
    psa_equal(g.str_name, 'pentagon', 'RegularPolygon.str_name')

def law_G11_convex_hull():
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    a, b, c, d = p, p + Vector2D(3*w, h), p + Vector2D(2*w, 3*h), p + Vector2D(-w, 2*h)
    i, j = p + Vector2D(w, h), p + Vector2D(w, 2*h)
    corners = (a, b, c, d)
    for points in ((a, b, c, d), (i, c, a, d, b), (d, i, c, j, b, a), (j, b, i, d, c, a)):
        t = convex_hull(points)
        psa_equal(t.number_of_points, 4, 'convex_hull')
        found = list(t.points)
        for k in range(4):
            psa_equal(found[k], corners[k], 'convex_hull')
        psa_true(t.is_convex, 'convex_hull is convex')
        psa_true(t.is_counterclockwise, 'convex_hull is counter-clockwise')

####################################################################################################
# borders of segments and lines

def law_G10_segment_borders():
    l, h = psa_positive('l'), psa_positive('h')
    k = psa_positive_number('k')
    p = point('p')
    for u in (Vector2D(l, 0), Vector2D(0, l), Vector2D(-l, 0), Vector2D(0, -l)):
        s = Segment2D(p, p + u)
        n = u.normal*k
        for r, name in ((p, 'start'), (p + u, 'end'), (p + u/2, 'middle')):
            psa_equal(s.distance_to_point(r), 0, 'Segment2D.distance_to_point (its ' + name + ')')
            psa_equal(s.distance_to_point(r + n), l*k, 'Segment2D.distance_to_point (over its ' + name + ')')
            psa_equal(s.distance_to_point(r - n), l*k, 'Segment2D.distance_to_point (below its ' + name + ')')
            psa_true(s.contain_point(r), 'Segment2D.contain_point (its ' + name + ')')
        for r, name in ((p - u*k, 'before'), (p + u + u*k, 'after')):
            psa_equal(s.distance_to_point(r), l*k, 'Segment2D.distance_to_point (' + name + ')')
            psa_true(not s.contain_point(r), 'Segment2D.contain_point (' + name + ')')
        for r in (p, p + u, p + u*k, p - u*k):
            psa_true(s.is_collinear(r), 'Segment2D.is_collinear')
            psa_true(not s.left_of(r), 'Segment2D.left_of (on the line)')
            psa_true(not s.right_of(r), 'Segment2D.right_of (on the line)')
        for r in (p + n, p + u + n, p - u + n):
            psa_true(s.left_of(r), 'Segment2D.left_of')
            psa_true(not s.right_of(r), 'Segment2D.right_of')
            psa_true(not s.is_collinear(r), 'Segment2D.is_collinear')

def law_G10_segment_point():
    p = point('p')
    d = displacement('d')
    s = Segment2D(p, p)
    psa_equal(s.distance_to_point(p + d), d.magnitude, 'Segment2D.distance_to_point (reduced to a point)')
    psa_equal(s.distance_to_point(p), 0, 'Segment2D.distance_to_point (reduced to a point)')
    psa_equal(s.length, 0, 'Segment2D.length (reduced to a point)')

def law_G10_segment_touch():
    l, h = psa_positive('l'), psa_positive('h')
    p = point('p')
    for u, n in ((Vector2D(l, 0), Vector2D(0, h)), (Vector2D(0, l), Vector2D(-h, 0)), (Vector2D(-l, 0), Vector2D(0, h))):
        s = Segment2D(p, p + u)
        for c, name in ((p, 'start'), (p + u/2, 'middle'), (p + u, 'end')):
            t = Segment2D(c, c + n)
            psa_true(s.intersect_with(t), 'Segment2D.intersect_with (an end on its ' + name + ')')
            psa_true(t.intersect_with(s), 'Segment2D.intersect_with (an end on its ' + name + ')')
            t = Segment2D(c - n, c + n)
            psa_true(s.intersect_with(t), 'Segment2D.intersect_with (crossing at its ' + name + ')')
            i, inside = s.intersection(t)
            same(i, c.x, c.y, 'Segment2D.intersection (crossing at its ' + name + ')')
            psa_true(inside, 'Segment2D.intersection (crossing at its ' + name + ')')
            t = Segment2D(c + n, c + n*2)
            psa_true(not s.intersect_with(t), 'Segment2D.intersect_with (far over its ' + name + ')')
            i, inside = s.intersection(t)
            psa_true(not inside, 'Segment2D.intersection (far over its ' + name + ')')
            t = Segment2D(c - n*3, c - n)
            psa_true(not s.intersect_with(t), 'Segment2D.intersect_with (far below its ' + name + ')')
            psa_true(not t.intersect_with(s), 'Segment2D.intersect_with (far below its ' + name + ')')
        for c in (p - u, p + u*2):
            t = Segment2D(c - n, c + n)
            psa_true(not s.intersect_with(t), 'Segment2D.intersect_with (crossing its line outside)')
            psa_true(not t.intersect_with(s), 'Segment2D.intersect_with (crossing its line outside)')
            i, inside = s.intersection(t)
            psa_true(not inside, 'Segment2D.intersection (crossing its line outside)')
        # on the same line
        psa_true(not s.intersect_with(Segment2D(p + u*2, p + u*3)), 'Segment2D.intersect_with (after it on its line)')
        psa_true(not s.intersect_with(Segment2D(p - u*2, p - u)), 'Segment2D.intersect_with (before it on its line)')
        psa_true(s.intersect_with(Segment2D(p + u/2, p + u*3)), 'Segment2D.intersect_with (overlapping)')
        psa_true(s.intersect_with(Segment2D(p - u, p + u*3)), 'Segment2D.intersect_with (covered)')
        psa_true(s.intersect_with(Segment2D(p + u/4, p + u/2)), 'Segment2D.intersect_with (inside it)')
        # parallel
        t = Segment2D(p + n, p + n + u)
        psa_true(not s.intersect_with(t), 'Segment2D.intersect_with (parallel)')
        i, inside = s.intersection(t)
        psa_true(i is None, 'Segment2D.intersection (parallel)')

def law_G10_line_borders():
    l = Line2D(point('p'), displacement('v'))
    psa_equal(l.distance_and_abscissa_to_line(l.p), (0, 0), 'Line2D.distance_and_abscissa_to_line (its point)')
    psa_equal(l.distance_to_line(l.p), 0, 'Line2D.distance_to_line (its point)')
    psa_equal(l.projected_abscissa(l.p), 0, 'Line2D.projected_abscissa (its point)')
    same(l.projected_point(l.p), l.p.x, l.p.y, 'Line2D.projected_point (its point)')
    a, h = psa_positive('a'), psa_positive('h')
    k = psa_scalar('k')
    p = point('p')
    for u in (Vector2D(a, 0), Vector2D(0, a), Vector2D(-a, 0), Vector2D(0, -a)):
        l = Line2D(p, u)
        for e, sign in ((h, 1), (-h, -1)):
            r = p + u*k + u.normal*(e/a)
            d, s = l.distance_and_abscissa_to_line(r)
            psa_equal(s, k*a, 'Line2D.distance_and_abscissa_to_line (abscissa)')
            psa_equal(abs(d), h, 'Line2D.distance_and_abscissa_to_line (distance)')
            psa_equal(d, l.distance_to_line(r), 'Line2D.distance_to_line')
            c = l.projected_point(r)
            same(c, p.x + k*u.x, p.y + k*u.y, 'Line2D.projected_point')
        psa_true(l.is_parallel(Line2D(point('q'), u*2)), 'Line2D.is_parallel')
        psa_true(l.is_parallel(Line2D(point('q'), -u)), 'Line2D.is_parallel (opposite)')
        psa_true(not l.is_parallel(Line2D(point('q'), u.normal)), 'Line2D.is_parallel (orthogonal)')
        psa_true(l.is_orthogonal(Line2D(point('q'), u.normal)), 'Line2D.is_orthogonal')
        psa_true(not l.is_orthogonal(Line2D(point('q'), u)), 'Line2D.is_orthogonal (parallel)')
        psa_true(l.intersection(Line2D(p + u.normal, u)) is None, 'Line2D.intersection (parallel)')
        psa_equal(l.intersection_abscissae(Line2D(p + u.normal, u)), (None, None), 'Line2D.intersection_abscissae (parallel)')

def law_G10_line_triangle_side():
    # the third side of a triangle on a line: in the direction of the line, or against it
    a, h, e = psa_positive('a'), psa_positive('h'), psa_positive('e')
    p = point('p')
    for u in (Vector2D(a, 0), Vector2D(0, a), Vector2D(-a, 0)):
        l = Line2D(p, u)
        apex = p + u + u.normal*(h/a)
        d = sqrt(h*h + e*e)
        c = l.triangle_projected_point(apex, d)
        q = p + u + u*(e/a)
        same(c, q.x, q.y, 'Line2D.triangle_projected_point')
        c = l.triangle_projected_point(apex, d, reverse=True)
        q = p + u - u*(e/a)
        same(c, q.x, q.y, 'Line2D.triangle_projected_point (reverse)')
        c = l.triangle_projected_point(p, d)
        q = p + u*(d/a)
        same(c, q.x, q.y, 'Line2D.triangle_projected_point (on the line)')

####################################################################################################
# transformed conics

def law_G11_circle_transform():
    c = point('c')
    r = psa_positive('r')
    d = displacement('d')
    T, A = Transformation2D, AffineTransformation2D
    for t, factor, start, stop in (
            (A.Translation(d), 1, 20, 70), (A.Rotation(30), 1, 50, 100), (A.Rotation(-45), 1, -25, 25), (T.Rotation(90), 1, 110, 160),
            (T.Scale(2), 2, 20, 70), (A.Scale(3, 3), 3, 20, 70), (T.Parity(), 1, 200, 250), (A.Scale(-2, -2), 2, 200, 250),
            (T.XReflection(), 1, 110, 160), (T.YReflection(), 1, -70, -20), (A.Translation(d)*A.Rotation(60), 1, 80, 130),
            (A.Rotation(30)*A.Scale(1, -1), 1, -40, 10), (A.Scale(2, 2)*A.Translation(d), 2, 20, 70)):
        o = Circle2D(c, r)
        o.apply_transformation(t)
        image = t*c
        same(o.center, image.x, image.y, 'Circle2D.apply_transformation center')
        psa_equal(o.radius, factor*r, 'Circle2D.apply_transformation radius')
        psa_true(o.is_closed, 'Circle2D.apply_transformation domain')
        o = Circle2D(c, r, AngularDomain(20, 70))
        ends = t*o.start_point, t*o.stop_point
        o.apply_transformation(t)
        same(o.center, image.x, image.y, 'an arc.apply_transformation center')
        psa_equal(o.radius, factor*r, 'an arc.apply_transformation radius')
        psa_equal(cos(radians(o.domain.start)), cos(radians(start)), 'an arc.apply_transformation start angle')
        psa_equal(sin(radians(o.domain.start)), sin(radians(start)), 'an arc.apply_transformation start angle')
        psa_equal(cos(radians(o.domain.stop)), cos(radians(stop)), 'an arc.apply_transformation stop angle')
        psa_equal(sin(radians(o.domain.stop)), sin(radians(stop)), 'an arc.apply_transformation stop angle')
        psa_equal(o.domain.stop - o.domain.start, 50, 'an arc.apply_transformation span')

def law_G11_ellipse_transform():
    c = point('c')
    a, b = psa_positive('a'), psa_positive('b')
    d = displacement('d')
    T, A = Transformation2D, AffineTransformation2D
    for t, factor, angle, mirror in (
            (A.Translation(d), 1, 60, False), (A.Rotation(30), 1, 90, False), (A.Rotation(-45), 1, 15, False),
            (T.Rotation(90), 1, 150, False), (T.Scale(2), 2, 60, False), (A.Scale(3, 3), 3, 60, False), (T.Parity(), 1, 240, False),
            (T.XReflection(), 1, 120, True), (T.YReflection(), 1, -60, True), (A.Translation(d)*A.Rotation(60), 1, 120, False),
            (A.Rotation(30)*A.Scale(1, -1), 1, -30, True), (A.Rotation(-30)*A.Scale(-1, 1), 1, 90, True), (A.Rotation(210)*A.Scale(1, -1), 1, 150, True), (A.Scale(2, 2)*A.Translation(d), 2, 60, False)):
        o = Ellipse2D(c, a, b, 60)
        o.apply_transformation(t)
        image = t*c
        same(o.center, image.x, image.y, 'Ellipse2D.apply_transformation center')
        psa_equal(o.radius_x, factor*a, 'Ellipse2D.apply_transformation radius_x')
        psa_equal(o.radius_y, factor*b, 'Ellipse2D.apply_transformation radius_y')
        psa_equal(cos(radians(o.angle)), cos(radians(angle)), 'Ellipse2D.apply_transformation angle')
        psa_equal(sin(radians(o.angle)), sin(radians(angle)), 'Ellipse2D.apply_transformation angle')
        o = Ellipse2D(c, a, b, 60, AngularDomain(20, 70))
        o.apply_transformation(t)
        psa_equal(o.domain.start, -70 if mirror else 20, 'Ellipse2D.apply_transformation domain')
        psa_equal(o.domain.stop, -20 if mirror else 70, 'Ellipse2D.apply_transformation domain')

def law_G11_domain_defaults():
    d = AngularDomain()
    psa_equal((d.start, d.stop), (0, 360), 'AngularDomain()')
    psa_true(d.is_closed, 'AngularDomain() is_closed')
    d = AngularDomain(10)
    psa_equal((d.start, d.stop), (10, 360), 'AngularDomain(start)')
    d = AngularDomain(pi, 2*pi, degrees=False)
    psa_equal((d.start, d.stop), (180, 360), 'AngularDomain in radians')
    d = AngularDomain(20, 70)
    m = d.transform()
    psa_other_object(m, d, 'AngularDomain.transform()')
    psa_equal((m.start, m.stop), (20, 70), 'AngularDomain.transform()')
    m = d.transform(True)
    psa_equal((m.start, m.stop), (-70, -20), 'AngularDomain.transform(mirror)')
    m = d.transform(angle=30)
    psa_equal((m.start, m.stop), (50, 100), 'AngularDomain.transform(angle)')
    m = d.clone()
    psa_other_object(m, d, 'AngularDomain.clone')
    psa_equal((m.start, m.stop), (20, 70), 'AngularDomain.clone')

def law_G10_line_signed_distances():
    # null, negative and unordered distances and abscissae
    for vx, vy in ((3, 4), (-3, 4), (4, -3), (-4, -3)):
        l = Line2D(Vector2D(1, 2), Vector2D(vx, vy))
        r = Vector2D(7, -5)
        for d in (0, 5, -5, 10):
            same(l.point_at_distance(d), 1 + d*vx/5, 2 + d*vy/5, 'Line2D.point_at_distance ({})'.format(d))
            same(l.point_at_distance(d, r), 7 + d*vx/5, -5 + d*vy/5, 'Line2D.point_at_distance ({}, point)'.format(d))
            same(l.point_at_distance(d, Vector2D(0, 0)), d*vx/5, d*vy/5, 'Line2D.point_at_distance ({}, origin)'.format(d))
            m = l.shifted_parallel_line(d)
            same(m.p, 1 - d*vy/5, 2 + d*vx/5, 'Line2D.shifted_parallel_line ({})'.format(d))
            same(m.v, vx, vy, 'Line2D.shifted_parallel_line ({})'.format(d))
            same(l.interpolate(d), 1 + d*vx, 2 + d*vy, 'Line2D.interpolate ({})'.format(d))
            m = l.orthogonal_line_at_abscissa(d)
            same(m.p, 1 + d*vx, 2 + d*vy, 'Line2D.orthogonal_line_at_abscissa ({})'.format(d))
            same(m.v, -vy, vx, 'Line2D.orthogonal_line_at_abscissa ({})'.format(d))
            q = Vector2D(1 + d*vx/5, 2 + d*vy/5)
            for h in (0, 5, -5):
                p = q + Vector2D(-vy, vx)*(h/5)
                psa_equal(l.projected_abscissa(p), d, 'Line2D.projected_abscissa ({})'.format(d))
                psa_equal(l.projected_point(p), q, 'Line2D.projected_point ({})'.format(d))
                psa_equal(l.distance_to_line(p), h, 'Line2D.distance_to_line ({})'.format(h))
                found = l.distance_and_abscissa_to_line(p)
                psa_equal(found[0], h, 'Line2D.distance_and_abscissa_to_line ({})'.format(h))
                psa_equal(found[1], d, 'Line2D.distance_and_abscissa_to_line ({})'.format(d))
        psa_equal(l.compute_distance_between_abscissae(2, 5), 15, 'Line2D.compute_distance_between_abscissae')
        psa_equal(l.compute_distance_between_abscissae(5, 2), 15, 'Line2D.compute_distance_between_abscissae (backward)')
        psa_equal(l.compute_distance_between_abscissae(-1, 2), 15, 'Line2D.compute_distance_between_abscissae (across)')
        a = l.compute_distance([0, 3, 1, 1, -1])
        psa_equal(len(a), 4, 'Line2D.compute_distance (unordered)')
        for found, expected in zip(a, (15, 10, 0, 10)):
            psa_equal(found, expected, 'Line2D.compute_distance (unordered)')

def law_G10_line_meetings():
    # the intersection can be at the point of one line, of both, or behind
    points = (Vector2D(0, 0), Vector2D(2, 3), Vector2D(-4, 1))
    for p in points:
        for a, b in ((Vector2D(1, 0), Vector2D(0, 1)), (Vector2D(3, 4), Vector2D(-1, 2)), (Vector2D(0, -2), Vector2D(5, 1))):
            for s, t in ((0, 0), (0, 2), (-1, 0), (2, 3), (-2, 1), (1, -1), (1, 1)):
                l, m = Line2D(p - a*s, a), Line2D(p - b*t, b)
                label = '({}, {})'.format(s, t)
                psa_equal(l.intersection(m), p, 'Line2D.intersection at ' + label)
                psa_equal(m.intersection(l), p, 'Line2D.intersection at ' + label)
                found = l.intersection_abscissae(m)
                psa_equal(found[0], s, 'Line2D.intersection_abscissae at ' + label)
                psa_equal(found[1], t, 'Line2D.intersection_abscissae at ' + label)
    l = Line2D(Vector2D(0, 0), Vector2D(3, 4))
    for k in (1, -1, 2, -.5):
        for p in (Vector2D(0, 0), Vector2D(3, 4), Vector2D(1, 5)):
            m = Line2D(p, Vector2D(3, 4)*k)
            psa_true(l.is_parallel(m), 'Line2D.is_parallel')
            psa_true(l.intersection(m) is None, 'Line2D.intersection of parallel lines')
            psa_equal(l.intersection_abscissae(m), (None, None), 'Line2D.intersection_abscissae of parallel lines')
            psa_true(l.is_orthogonal(Line2D(p, Vector2D(-4, 3)*k)), 'Line2D.is_orthogonal')
            psa_true(not l.is_orthogonal(Line2D(p, Vector2D(4, 3)*k)), 'Line2D.is_orthogonal')
            psa_true(not l.is_parallel(Line2D(p, Vector2D(4, 3)*k)), 'Line2D.is_parallel')

def law_G10_line_copies():
    p, v = Vector2D(1, 2), Vector2D(3, 4)
    l = Line2D(p, v)
    c = l.clone()
    same(c.p, 1, 2, 'Line2D.clone')
    same(c.v, 3, 4, 'Line2D.clone')
    c.p.x = 10
    c.v.x = 30
    same(l.p, 1, 2, 'Line2D does not follow its clone')
    same(l.v, 3, 4, 'Line2D does not follow its clone')
    m = Line2D.from_two_points(Vector2D(5, 6), Vector2D(5, 6) + v)
    same(m.p, 5, 6, 'Line2D.from_two_points')
    same(m.v, 3, 4, 'Line2D.from_two_points')

####################################################################################################
# regular polygons which are moved

def law_G11_regular_moved():
    c = point('c')
    d = displacement('d')
    r = psa_positive('r')
    g = RegularPolygon(c, r, 4, 30)
    points = tuple(g.points)
    m = g.transform(AffineTransformation2D.Translation(d), clone=True)
    same(m.center, c.x + d.x, c.y + d.y, 'RegularPolygon moved')
    psa_equal(m.radius, r, 'RegularPolygon moved')
    psa_equal(m.angle, 30, 'RegularPolygon moved')
    m = g.transform(Transformation2D.Scale(2), clone=True)
    same(m.center, 2*c.x, 2*c.y, 'RegularPolygon scaled')
    psa_equal(m.radius, 2*r, 'RegularPolygon scaled')
    psa_equal(m.angle, 30, 'RegularPolygon scaled')
    psa_equal(m.area, 4*g.area, 'RegularPolygon scaled')
    m = g.transform(Transformation2D.Rotation(60), clone=True)
    psa_equal(m.radius, r, 'RegularPolygon turned')
    psa_equal(m.number_of_edges, 4, 'RegularPolygon turned')
    back = g.reverse()
    psa_equal(len(tuple(back.points)), 4, 'RegularPolygon.reverse')
    for p, q in zip(back.points, points[::-1]):
        same(p, q.x, q.y, 'RegularPolygon.reverse')
    psa_true(back.is_clockwise, 'RegularPolygon.reverse turns clockwise')
    for p, q in zip(g.points, points):
        same(p, q.x, q.y, 'RegularPolygon.reverse keeps the original')
    g.recenter()
    same(g.center, 0, 0, 'RegularPolygon.recenter')
    psa_equal(g.radius, r, 'RegularPolygon.recenter')
    for p, q in zip(g.points, points):
        same(p, q.x - c.x, q.y - c.y, 'RegularPolygon.recenter')

def law_G11_regular_names():
    for n, name in ((3, 'triangle'), (4, 'quadrilateral'), (5, 'pentagon'), (6, 'hexagon'), (8, 'octagon'),
                    (12, 'dodecagon'), (20, 'icosagon'), (30, 'triacontagon'), (100, 'hectogon'), (21, None)):
        psa_true(RegularPolygon.ngon_name(n) == name, 'name of a regular polygon of {} edges'.format(n))
    psa_true(RegularPolygon(point('c'), psa_positive('r'), 6).str_name == 'hexagon', 'RegularPolygon.str_name')
    for n in (2, 1, 0):
        failed = False
        try:
            RegularPolygon(point('c'), psa_positive('r'), n)
        except ValueError:
            failed = True
        psa_true(failed, 'a regular polygon has three edges at least')

def law_G11_triangle_and_polygon():
    p = point('p')
    w, h, e = psa_positive('w'), psa_positive('h'), psa_positive('e')
    t = Polygon2D(p, p + Vector2D(w, 0), p + Vector2D(e, h))
    psa_true(t.is_triangle, 'Polygon2D.is_triangle')
    psa_true(not Polygon2D(p, p + Vector2D(w, 0), p + Vector2D(w, h), p + Vector2D(0, h)).is_triangle, 'Polygon2D.is_triangle')
    psa_equal(t.to_triangle().area, w*h/2, 'Polygon2D.to_triangle')
    for a, b in zip(t.to_triangle().points, t.points):
        same(a, b.x, b.y, 'Polygon2D.to_triangle')
    c = t.point_barycenter
    same(c, p.x + (w + e)/3, p.y + h/3, 'Polygon2D.point_barycenter')
    same(t.barycenter, p.x + (w + e)/3, p.y + h/3, 'Polygon2D.barycenter of a triangle')

####################################################################################################
# crossings in every direction

def law_G11_circle_chords():
    c = point('c')
    k = psa_positive('k')
    o = Circle2D(c, 5*k)
    u, v = Vector2D(-3*k, 4*k), Vector2D(4*k, -3*k)
    w, x = Vector2D(-4*k, -3*k), Vector2D(3*k, 4*k)
    for a, b in ((u, v), (v, u), (w, x), (x, w), (u, w), (w, u), (v, x), (x, v), (u, x), (x, u)):
        step = (b - a)/2
        ps = o.intersect_segment(Segment2D(c + a - step, c + b + step))
        psa_equal(len(ps), 2, 'Circle2D.intersect_segment (chord)')
        psa_equal(ps[0].x + ps[1].x, 2*c.x + a.x + b.x, 'Circle2D.intersect_segment (chord)')
        psa_equal(ps[0].y + ps[1].y, 2*c.y + a.y + b.y, 'Circle2D.intersect_segment (chord)')
        psa_equal((ps[0].x - c.x - a.x)*(ps[0].x - c.x - b.x), 0, 'Circle2D.intersect_segment (chord)')
        psa_equal((ps[0].y - c.y - a.y)*(ps[0].y - c.y - b.y), 0, 'Circle2D.intersect_segment (chord)')
        for p in ps:
            psa_equal(square(p - c), 25*k*k, 'Circle2D.intersect_segment (end of a chord)')
            psa_equal(cross(p - c - a, b - a), 0, 'Circle2D.intersect_segment (end of a chord)')

def law_G11_circle_circle_sizes():
    # the chord is between the centers or behind one of them
    c = point('c')
    k = psa_positive('k')
    for r, x, y, far, other in ((13, 5, 12, 14, 15), (13, -5, 12, 4, 15), (15, 9, 12, 14, 13), (15, 9, 12, 4, 13), (5, 3, 4, 6, 5)):
        for n in (Vector2D(1, 0), Vector2D(-1, 0), Vector2D(0, -1), Vector2D(-3, -4)/5):
            d = c + n*(far*k)
            ps = Circle2D(c, r*k).intersect_circle(Circle2D(d, other*k))
            psa_equal(len(ps), 2, 'Circle2D.intersect_circle')
            for p, side in zip(ps, (-1, 1)):
                psa_equal(dot(p - c, n), x*k, 'Circle2D.intersect_circle (along the centers)')
                psa_equal(abs(cross(n, p - c)), y*k, 'Circle2D.intersect_circle (across the centers)')
            psa_equal(cross(n, ps[0] - c), -cross(n, ps[1] - c), 'Circle2D.intersect_circle gives both points')

def law_G11_svg_arc_radii():
    # negative radii are made positive, the ones too small are scaled
    p = point('p')
    a, b = psa_positive('a'), psa_positive('b')
    for x, y in ((-a, b), (a, -b), (-a, -b)):
        for large in (False, True):
            for sweep in (False, True):
                e = Ellipse2D.svg_arc(p, p + Vector2D(a, b), x, y, 0, large, sweep)
                psa_equal(e.radius_x, a, 'Ellipse2D.svg_arc radius given negative')
                psa_equal(e.radius_y, b, 'Ellipse2D.svg_arc radius given negative')
                same(e.center, p.x + (a if large == sweep else 0), p.y + (0 if large == sweep else b), 'Ellipse2D.svg_arc center, radius given negative')
                same(e.start_point, p.x, p.y, 'Ellipse2D.svg_arc starts at the first point (negative radius)')
                same(e.stop_point, p.x + a, p.y + b, 'Ellipse2D.svg_arc stops at the second point (negative radius)')
    for factor in (1.25, 2, 3):
        for v in (Vector2D(2*factor*a, 0), Vector2D(0, 2*factor*b), Vector2D(-2*factor*a, 0)):
            for large in (False, True):
                for sweep in (False, True):
                    e = Ellipse2D.svg_arc(p, p + v, a, b, 0, large, sweep)
                    psa_equal(e.radius_x, factor*a, 'Ellipse2D.svg_arc radius too small')
                    psa_equal(e.radius_y, factor*b, 'Ellipse2D.svg_arc radius too small')
                    same(e.center, p.x + v.x/2, p.y + v.y/2, 'Ellipse2D.svg_arc center, radius too small')
                    psa_equal(e.domain.stop - e.domain.start, 180 if sweep else -180, 'Ellipse2D.svg_arc half of turn')
                    same(e.start_point, p.x, p.y, 'Ellipse2D.svg_arc starts at the first point (small radius)')
                    same(e.stop_point, p.x + v.x, p.y + v.y, 'Ellipse2D.svg_arc stops at the second point (small radius)')

def law_G11_hull_aligned():
    # points aligned with the lowest one
    p = point('p')
    w, h = psa_positive('w'), psa_positive('h')
    a, b, c, d = p, p + Vector2D(3*w, 0), p + Vector2D(3*w, 3*h), p + Vector2D(0, 3*h)
    i, j, k = p + Vector2D(w, 0), p + Vector2D(2*w, 2*h), p + Vector2D(0, h)
    corners = (a, b, c, d)
    for points in ((a, i, b, c, d), (b, i, a, d, c), (i, b, j, c, a, d), (c, j, a, b, d), (k, a, d, c, b), (d, k, b, a, c),
                   (j, k, i, d, c, b, a)):
        t = convex_hull(points)
        psa_equal(t.number_of_points, 4, 'convex_hull (aligned points)')
        found = list(t.points)
        for n in range(4):
            psa_equal(found[n], corners[n], 'convex_hull (aligned points)')

def law_G10_flat_triangle():
    p = point('p')
    v = displacement('v')
    for points in ((p, p + v, p), (p, p, p + v), (p + v, p, p), (p, p + v, p + v*3), (p, p + v, p - v)):
        failed = False
        try:
            Triangle2D(*points)
        except ValueError:
            failed = True
        psa_true(failed, 'a flat triangle is refused')
    a, b = Vector2D(1, 2), Vector2D(4, 6)
    for points in ((a, b, a), (a, a, b), (b, a, a), (a, b, Vector2D(7, 10)), (b, a, Vector2D(-2, -2))):
        failed = False
        try:
            Triangle2D(*points)
        except ValueError:
            failed = True
        psa_true(failed, 'a flat triangle is refused (known points)')
