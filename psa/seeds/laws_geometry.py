"""Laws of the geometry engine, analysed and never executed (see seeds/geometry.py).

``psa_equal(found, expected, label)`` is an obligation of the analysis.  The label names the operation.
``psa_stub(function, value)`` records the calls of a function and answers *value*; ``psa_args`` gives the
arguments of its last call.
"""

from math import sqrt

import numpy as np

from psa_seeds.geometry import point, displacement, direction

from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Interpolation import interpolate_two_points
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Spline import QuadraticUniformSpline2D, CubicUniformSpline2D, BSpline2D
from Patro.GeometryEngine.Vector import Vector2D


def quadratic(tag):
    return QuadraticBezier2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'))

def cubic(tag):
    return CubicBezier2D(point(tag + '.p0'), point(tag + '.p1'), point(tag + '.p2'), point(tag + '.p3'))

def cross(a, b):
    return a.x*b.y - a.y*b.x

def dot(a, b):
    return a.x*b.x + a.y*b.y

def equal_points(p, x, y, label):
    psa_equal(p.x, x, label)
    psa_equal(p.y, y, label)

def proportional(found, expected, pivot, label):
    """The polynomials of both coefficient lists have the same roots."""
    k = expected[pivot]
    for i in range(len(expected)):
        psa_equal(found[i]*k, expected[i]*found[pivot], label)

####################################################################################################

def law_G07_interpolation():
    p, q = point('p'), point('q')
    t = psa_unit('t')
    m = interpolate_two_points(p, q, t)
    equal_points(m, p.x + (q.x - p.x)*t, p.y + (q.y - p.y)*t, 'interpolate_two_points')

def law_G07_quadratic_evaluation():
    c = quadratic('c')
    t = psa_unit('t')
    psa_equal(c.point_at_t(0), c.p0, 'QuadraticBezier2D.point_at_t(0)')
    psa_equal(c.point_at_t(1), c.p2, 'QuadraticBezier2D.point_at_t(1)')
    p = c.point_at_t(t)
    u = 1 - t
    psa_equal(p.x, c.p0.x*u*u + 2*c.p1.x*u*t + c.p2.x*t*t, 'QuadraticBezier2D.point_at_t')
    psa_equal(p.y, c.p0.y*u*u + 2*c.p1.y*u*t + c.p2.y*t*t, 'QuadraticBezier2D.point_at_t')
    psa_equal(c.start_point, c.p0, 'QuadraticBezier2D.start_point')
    psa_equal(c.end_point, c.p2, 'QuadraticBezier2D.end_point')

def law_G07_quadratic_split():
    c = quadratic('c')
    t, s = psa_unit('t'), psa_unit('s')
    left, right = c.split_at_t(t)
    psa_equal(left.point_at_t(s), c.point_at_t(t*s), 'QuadraticBezier2D.split_at_t left')
    psa_equal(right.point_at_t(s), c.point_at_t(t + (1 - t)*s), 'QuadraticBezier2D.split_at_t right')

def law_G07_quadratic_split_two():
    c = quadratic('c')
    a, b, s = psa_unit('a'), psa_unit('b'), psa_unit('s')
    t1, t2 = a*b, b             # t1 < t2
    part = c.split_at_two_t(t1, t2)
    psa_equal(part.point_at_t(s), c.point_at_t(t1 + (t2 - t1)*s), 'QuadraticBezier2D.split_at_two_t')

def split_two_edges(c, name):
    a, b, s = psa_unit('a'), psa_unit('b'), psa_unit('s')
    t1, t2 = a*b, b
    part = c.split_at_two_t(t2, t1)
    psa_equal(part.point_at_t(s), c.point_at_t(t1 + (t2 - t1)*s), name + '.split_at_two_t (reversed)')
    part = c.split_at_two_t(a, 1)
    psa_equal(part.point_at_t(s), c.point_at_t(a + (1 - a)*s), name + '.split_at_two_t (to the end)')
    part = c.split_at_two_t(0, a)
    psa_equal(part.point_at_t(s), c.point_at_t(a*s), name + '.split_at_two_t (from the start)')
    part = c.split_at_two_t(0, 1)
    psa_equal(part.point_at_t(s), c.point_at_t(s), name + '.split_at_two_t (whole curve)')
    psa_equal(c.split_at_two_t(a, a), c.point_at_t(a), name + '.split_at_two_t (a point)')

def law_G07_quadratic_split_edges():
    split_two_edges(quadratic('c'), 'QuadraticBezier2D')

def law_G07_cubic_split_edges():
    split_two_edges(cubic('c'), 'CubicBezier2D')

def law_G07_t_at_length_edges():
    for c in (quadratic('c'), cubic('c')):
        psa_equal(c.t_at_length(0), 0, 'Bezier t_at_length(0)')
        try:
            c.t_at_length(-1)
            refused = False
        except ValueError:
            refused = True
        psa_true(refused, 'Bezier t_at_length refuses a negative length')

def law_G07_non_parametric():
    p, t = point('p'), psa_unit('t')
    v = displacement('v')
    line = Line2D(p, v)
    n = sqrt(v.x*v.x + v.y*v.y)
    for c in (quadratic('c'), cubic('c')):
        q = c.non_parametric_curve(line).point_at_t(t)
        psa_equal(q.x, t, 'Bezier non_parametric_curve abscissa')
        psa_equal(q.y*n, cross(v, c.point_at_t(t) - p), 'Bezier non_parametric_curve distance')

def law_G07_fat_lines():
    # the bounds of the distance of the curve to its chord
    p = point('p')
    l, h, e = psa_positive('l'), psa_positive('h'), psa_positive('e')
    k, m = psa_scalar('k'), psa_scalar('m')
    for side in (1, -1):
        line, low, high = QuadraticBezier2D(p, p + Vector2D(l*k, side*h), p + Vector2D(l, 0)).fat_line()
        psa_equal(low if side < 0 else high, side*h/2, 'QuadraticBezier2D.fat_line')
        psa_equal(high if side < 0 else low, 0, 'QuadraticBezier2D.fat_line')
        psa_equal(cross(line.v, Vector2D(l, 0)), 0, 'QuadraticBezier2D.fat_line')
        psa_equal(cross(line.v, p - line.p), 0, 'QuadraticBezier2D.fat_line')
        for y1, y2 in ((h, h + e), (h + e, h)):
            line, low, high = CubicBezier2D(p, p + Vector2D(l*k, side*y1), p + Vector2D(l*m, side*y2), p + Vector2D(l, 0)).fat_line()
            psa_equal(low if side < 0 else high, side*(h + e)*3/4, 'CubicBezier2D.fat_line (same side)')
            psa_equal(high if side < 0 else low, 0, 'CubicBezier2D.fat_line (same side)')
        line, low, high = CubicBezier2D(p, p + Vector2D(l*k, side*h), p + Vector2D(l*m, -side*e), p + Vector2D(l, 0)).fat_line()
        psa_equal(low, -4*(e if side > 0 else h)/9, 'CubicBezier2D.fat_line (both sides)')
        psa_equal(high, 4*(h if side > 0 else e)/9, 'CubicBezier2D.fat_line (both sides)')

def law_G07_quadratic_tangent():
    c = quadratic('c')
    t = psa_unit('t')
    p = c.point_at_t(t)
    d = Vector2D(psa_derivative(p.x, t), psa_derivative(p.y, t))
    psa_equal(cross(c.tangent_at(t), d), 0, 'QuadraticBezier2D.tangent_at')
    psa_positive_multiple(dot(c.tangent_at(t), d), dot(d, d), 'QuadraticBezier2D.tangent_at direction')
    e = c.p1 - c.p0
    f = c.p2 - c.p1
    psa_equal(cross(c.tangent0, e), 0, 'QuadraticBezier2D.tangent0')
    psa_equal(cross(c.tangent1, f), 0, 'QuadraticBezier2D.tangent1')
    psa_equal(dot(c.normal0, e), 0, 'QuadraticBezier2D.normal0')
    psa_equal(dot(c.normal1, f), 0, 'QuadraticBezier2D.normal1')
    psa_positive_multiple(dot(c.tangent0, e), dot(e, e), 'QuadraticBezier2D.tangent0 direction')
    psa_positive_multiple(dot(c.tangent1, f), dot(f, f), 'QuadraticBezier2D.tangent1 direction')
    psa_equal(dot(c.tangent0, c.tangent0), 1, 'QuadraticBezier2D.tangent0 is a unit vector')
    psa_equal(dot(c.tangent1, c.tangent1), 1, 'QuadraticBezier2D.tangent1 is a unit vector')

def law_G07_quadratic_to_cubic():
    c = quadratic('c')
    t = psa_unit('t')
    psa_equal(c.to_cubic().point_at_t(t), c.point_at_t(t), 'QuadraticBezier2D.to_cubic')

def law_G07_quadratic_reverse():
    c = quadratic('c')
    t = psa_unit('t')
    psa_equal(c.reverse().point_at_t(t), c.point_at_t(1 - t), 'QuadraticBezier2D reverse')

def law_G07_quadratic_area_free():
    # the baseline of the fat line goes through the end points
    c = quadratic('c')
    line = c.fat_line()[0]
    psa_equal(cross(line.v, c.p0 - line.p), 0, 'QuadraticBezier2D.fat_line')
    psa_equal(cross(line.v, c.p2 - line.p), 0, 'QuadraticBezier2D.fat_line')

def law_G07_cubic_evaluation():
    c = cubic('c')
    t = psa_unit('t')
    psa_equal(c.point_at_t(0), c.p0, 'CubicBezier2D.point_at_t(0)')
    psa_equal(c.point_at_t(1), c.p3, 'CubicBezier2D.point_at_t(1)')
    p = c.point_at_t(t)
    u = 1 - t
    psa_equal(p.x, c.p0.x*u*u*u + 3*c.p1.x*u*u*t + 3*c.p2.x*u*t*t + c.p3.x*t*t*t, 'CubicBezier2D.point_at_t')
    psa_equal(p.y, c.p0.y*u*u*u + 3*c.p1.y*u*u*t + 3*c.p2.y*u*t*t + c.p3.y*t*t*t, 'CubicBezier2D.point_at_t')
    psa_equal(c.start_point, c.p0, 'CubicBezier2D.start_point')
    psa_equal(c.end_point, c.p3, 'CubicBezier2D.end_point')

def law_G07_cubic_split():
    c = cubic('c')
    t, s = psa_unit('t'), psa_unit('s')
    left, right = c.split_at_t(t)
    psa_equal(left.point_at_t(s), c.point_at_t(t*s), 'CubicBezier2D.split_at_t left')
    psa_equal(right.point_at_t(s), c.point_at_t(t + (1 - t)*s), 'CubicBezier2D.split_at_t right')

def law_G07_cubic_split_two():
    c = cubic('c')
    a, b, s = psa_unit('a'), psa_unit('b'), psa_unit('s')
    t1, t2 = a*b, b             # t1 < t2
    part = c.split_at_two_t(t1, t2)
    psa_equal(part.point_at_t(s), c.point_at_t(t1 + (t2 - t1)*s), 'CubicBezier2D.split_at_two_t')

def law_G07_cubic_tangent():
    c = cubic('c')
    t = psa_unit('t')
    p = c.point_at_t(t)
    d = Vector2D(psa_derivative(p.x, t), psa_derivative(p.y, t))
    psa_equal(cross(c.tangent_at(t), d), 0, 'CubicBezier2D.tangent_at')
    psa_positive_multiple(dot(c.tangent_at(t), d), dot(d, d), 'CubicBezier2D.tangent_at direction')
    f = c.p3 - c.p2
    psa_equal(cross(c.tangent1, f), 0, 'CubicBezier2D.tangent1')
    psa_positive_multiple(dot(c.tangent1, f), dot(f, f), 'CubicBezier2D.tangent1 direction')
    psa_equal(dot(c.tangent1, c.tangent1), 1, 'CubicBezier2D.tangent1 is a unit vector')

def law_G07_cubic_reverse():
    c = cubic('c')
    t = psa_unit('t')
    psa_equal(c.reverse().point_at_t(t), c.point_at_t(1 - t), 'CubicBezier2D reverse')

def law_G07_cubic_mid_point():
    c = cubic('c')
    q = c.mid_point_quadratic_approximation()
    psa_equal(q.p0, c.p0, 'CubicBezier2D.mid_point_quadratic_approximation start')
    psa_equal(q.p2, c.p3, 'CubicBezier2D.mid_point_quadratic_approximation end')
    psa_equal(q.point_at_t(.5), c.point_at_t(.5), 'CubicBezier2D.mid_point_quadratic_approximation middle')

def law_G07_cubic_fat_line():
    c = cubic('c')
    line = c.fat_line()[0]
    psa_equal(cross(line.v, c.p0 - line.p), 0, 'CubicBezier2D.fat_line')
    psa_equal(cross(line.v, c.p3 - line.p), 0, 'CubicBezier2D.fat_line')

def law_G07_cubic_area():
    # Green's formula on the curve and its chord
    c = cubic('c')
    t = psa_unit('t')
    p = c.point_at_t(t)
    integrand = p.x*psa_derivative(p.y, t) - p.y*psa_derivative(p.x, t)
    chord = c.p3.x*c.p0.y - c.p3.y*c.p0.x
    area = (psa_integral(integrand, t) + chord)/2
    psa_equal(c.area*c.area, area*area, 'CubicBezier2D.area')

def law_G07_cubic_spline():
    c = cubic('c')
    t = psa_unit('t')
    s = c.to_spline()
    psa_equal(s.point_at_t(t), c.point_at_t(t), 'CubicBezier2D.to_spline')

def law_G07_bezier_basis():
    t = psa_unit('t')
    for cls, n in ((QuadraticBezier2D, 3), (CubicBezier2D, 4)):
        product = np.dot(cls.BASIS, cls.INVERSE_BASIS)
        for i in range(n):
            for j in range(n):
                psa_equal(product[i][j], 1 if i == j else 0, cls.__name__ + '.INVERSE_BASIS')

def law_G07_spline_basis():
    for cls, n in ((QuadraticUniformSpline2D, 3), (CubicUniformSpline2D, 4)):
        product = np.dot(cls.BASIS, cls.INVERSE_BASIS)
        for i in range(n):
            for j in range(n):
                psa_equal(product[i][j], 1 if i == j else 0, cls.__name__ + '.INVERSE_BASIS')

def law_G07_quadratic_uniform_spline():
    c = QuadraticUniformSpline2D(point('p0'), point('p1'), point('p2'))
    t = psa_unit('t')
    u = 1 - t
    p = c.point_at_t(t)
    for a, p0, p1, p2 in ((p.x, c.p0.x, c.p1.x, c.p2.x), (p.y, c.p0.y, c.p1.y, c.p2.y)):
        psa_equal(a, (p0*u*u + p1*(1 + 2*t*u) + p2*t*t)/2, 'QuadraticUniformSpline2D.point_at_t')
    psa_equal(c.to_bezier().point_at_t(t), p, 'QuadraticUniformSpline2D.to_bezier')

def law_G07_cubic_uniform_spline():
    c = CubicUniformSpline2D(point('p0'), point('p1'), point('p2'), point('p3'))
    t = psa_unit('t')
    u = 1 - t
    p = c.point_at_t(t)
    for a, p0, p1, p2, p3 in ((p.x, c.p0.x, c.p1.x, c.p2.x, c.p3.x), (p.y, c.p0.y, c.p1.y, c.p2.y, c.p3.y)):
        psa_equal(a, (p0*u*u*u + p1*(3*t*t*t - 6*t*t + 4) + p2*(3*u*u*u - 6*u*u + 4) + p3*t*t*t)/6,
                  'CubicUniformSpline2D.point_at_t')
    psa_equal(c.to_bezier().point_at_t(t), p, 'CubicUniformSpline2D.to_bezier')

def law_G07_quadratic_intersect_line():
    c = quadratic('c')
    line = Line2D(point('l.p'), displacement('l.v'))
    psa_stub(quadratic_root, None)
    c.intersect_line(line)
    found = psa_args(quadratic_root)
    q0, q1, q2 = [cross(line.v, p - line.p) for p in (c.p0, c.p1, c.p2)]
    proportional(found, (q0 - 2*q1 + q2, 2*(q1 - q0), q0), 2, 'QuadraticBezier2D.intersect_line')

def law_G07_cubic_intersect_line():
    c = cubic('c')
    line = Line2D(point('l.p'), displacement('l.v'))
    psa_stub(cubic_root, None)
    c.intersect_line(line)
    found = psa_args(cubic_root)
    q0, q1, q2, q3 = [cross(line.v, p - line.p) for p in (c.p0, c.p1, c.p2, c.p3)]
    proportional(found, (q3 - 3*q2 + 3*q1 - q0, 3*(q0 - 2*q1 + q2), 3*(q1 - q0), q0), 3,
                 'CubicBezier2D.intersect_line')

def law_G07_quadratic_closest_point():
    c = quadratic('c')
    t = psa_unit('t')
    q = point('q')
    psa_stub(cubic_root, [t])
    found = c.closest_point(q)
    psa_equal(found, c.point_at_t(t), 'QuadraticBezier2D.closest_point at the root')
    p = c.point_at_t(t)
    expected = (p.x - q.x)*psa_derivative(p.x, t) + (p.y - q.y)*psa_derivative(p.y, t)
    a3, a2, a1, a0 = psa_args(cubic_root)
    polynomial = ((a3*t + a2)*t + a1)*t + a0
    reference = (c.p0.x - q.x)*2*(c.p1.x - c.p0.x) + (c.p0.y - q.y)*2*(c.p1.y - c.p0.y)
    psa_equal(polynomial*reference, expected*a0, 'QuadraticBezier2D.closest_point')

def law_G07_cubic_closest_point():
    c = cubic('c')
    t = psa_unit('t')
    q = point('q')
    psa_stub(fifth_root, [t])
    found = c.closest_point(q)
    psa_equal(found, c.point_at_t(t), 'CubicBezier2D.closest_point at the root')
    p = c.point_at_t(t)
    expected = (p.x - q.x)*psa_derivative(p.x, t) + (p.y - q.y)*psa_derivative(p.y, t)
    a5, a4, a3, a2, a1, a0 = psa_args(fifth_root)[0]
    polynomial = ((((a5*t + a4)*t + a3)*t + a2)*t + a1)*t + a0
    reference = (c.p0.x - q.x)*3*(c.p1.x - c.p0.x) + (c.p0.y - q.y)*3*(c.p1.y - c.p0.y)
    psa_equal(polynomial*reference, expected*a0, 'CubicBezier2D.closest_point')

def law_G07_degenerate_lengths():
    def q(*points):
        return QuadraticBezier2D(*[Vector2D(x, y) for x, y in points])
    def c(*points):
        return CubicBezier2D(*[Vector2D(x, y) for x, y in points])
    psa_equal(q((0, 0), (3, 4), (6, 8)).length, 10, 'QuadraticBezier2D.length (segment)')
    psa_equal(q((0, 0), (1, 0), (4, 0)).length, 4, 'QuadraticBezier2D.length (collinear control points)')
    psa_equal(q((4, 0), (1, 0), (0, 0)).length, 4, 'QuadraticBezier2D.length (collinear control points, backward)')
    psa_equal(q((0, 0), (4, 0), (4, 0)).length, 4, 'QuadraticBezier2D.length (handle on the end)')
    psa_equal(q((0, 0), (0, 0), (4, 0)).length, 4, 'QuadraticBezier2D.length (handle on the start)')
    psa_equal(c((0, 0), (1, 0), (2, 0), (3, 0)).length, 3, 'CubicBezier2D.length (segment)')
    psa_equal(c((0, 0), (0, 2), (0, 4), (0, 6)).length, 6, 'CubicBezier2D.length (segment)')
    psa_equal(q((0, 0), (1, 0), (4, 0)).to_cubic().length, 4, 'CubicBezier2D.length (quadratic curve)')
    psa_equal(q((0, 0), (3, 4), (6, 8)).length_at_t(0), 0, 'QuadraticBezier2D.length_at_t(0)')
    psa_equal(c((0, 0), (1, 0), (2, 0), (3, 0)).length_at_t(0), 0, 'CubicBezier2D.length_at_t(0)')
    psa_equal(q((0, 0), (3, 4), (6, 8)).length_at_t(.5), 5, 'QuadraticBezier2D.length_at_t(.5)')
    psa_equal(c((0, 0), (1, 0), (2, 0), (3, 0)).length_at_t(.5), 1.5, 'CubicBezier2D.length_at_t(.5)')

def law_G07_interpolated_length():
    def q(*points):
        return QuadraticBezier2D(*[Vector2D(x, y) for x, y in points])
    psa_equal(q((0, 0), (3, 4), (6, 8)).interpolated_length(.5), 10, 'QuadraticBezier2D.interpolated_length (segment)')
    psa_equal(q((0, 0), (0, 2), (4, 0)).interpolated_length(1), 4, 'QuadraticBezier2D.interpolated_length (chord)')
    psa_equal(q((0, 0), (4, 0), (0, 0)).interpolated_length(.5), 4, 'QuadraticBezier2D.interpolated_length (closed curve)')

####################################################################################################
# B-splines

def bspline(n, degree):
    return BSpline2D([point('p{}'.format(i)) for i in range(n)], degree)

def law_G07_bspline_ends():
    for n, degree in ((4, 3), (5, 3), (6, 3), (4, 2), (5, 2)):
        s = bspline(n, degree)
        psa_equal(s.point_at_t(0), s.points_list[0] if False else list(s.points)[0], 'BSpline2D.point_at_t(start)')
        psa_equal(s.point_at_t(s.end_knot), list(s.points)[n - 1], 'BSpline2D.point_at_t(end)')

def law_G07_bspline_first_span():
    t = (psa_unit('t') + 1)/3
    for n, degree in ((4, 3), (5, 3), (4, 2), (5, 2)):
        s = bspline(n, degree)
        psa_equal(s.point_at_t(t), s.point_at_t(t, naive=True), 'BSpline2D.point_at_t')
        psa_equal(s.to_bezier()[0].point_at_t(t), s.point_at_t(t), 'BSpline2D.to_bezier')
        b = sum([s.basis_function(i, degree, t) for i in range(n)])
        psa_equal(b, 1, 'BSpline2D.basis_function is a partition of unity')


def law_G07_bspline_other_knots():
    points = [point('p{}'.format(i)) for i in range(4)]
    for degree, knots in ((2, [0, 0, 0, 1, 3, 3, 3]), (3, [1, 1, 1, 1, 5, 5, 5, 5])):
        s = BSpline2D(points, degree, knots=knots)
        label = 'BSpline2D (knots, degree {})'.format(degree)
        for naive in (False, True):
            psa_equal(s.point_at_t(s.start_knot, naive=naive), points[0], label + '.point_at_t(start)')
            psa_equal(s.point_at_t(s.end_knot, naive=naive), points[3], label + '.point_at_t(end)')
        t = psa_unit('t')*(knots[degree + 1] - knots[0]) + knots[0]
        psa_equal(s.point_at_t(t), s.point_at_t(t, naive=True), label + '.point_at_t')
        psa_equal(s.reverse().point_at_t(s.start_knot), points[3], label + '.reverse')
        psa_equal(s.clone().knots, knots, label + '.clone')

def law_G07_bspline_insert_knot():
    for n, degree in ((4, 2), (5, 3)):
        s = bspline(n, degree)
        i = s.insert_knot(1)
        label = 'BSpline2D.insert_knot (degree {})'.format(degree)
        psa_equal(i.number_of_points, n + 1, label)
        psa_equal(s.number_of_points, n, label)
        psa_equal(i.point_at_t(i.end_knot), list(s.points)[n - 1], label + ' end')
        psa_equal(i.point_at_t(i.start_knot), list(s.points)[0], label + ' start')
        psa_equal(i.knot_multiplicity(1), s.knot_multiplicity(1) + 1, label)
        for t in (psa_unit('t'), psa_unit('t') + 1):
            psa_equal(i.point_at_t(t), s.point_at_t(t), label + ' point_at_t')

def law_G07_bspline_refusals():
    s = bspline(6, 4)
    try:
        s.to_bezier()
        refused = False
    except NotImplementedError:
        refused = True
    psa_true(refused, 'BSpline2D.to_bezier refuses a degree higher than 3')
    for t in (-1, 3):
        try:
            s.point_at_t(t)
            refused = False
        except ValueError:
            refused = True
        psa_true(refused, 'BSpline2D.point_at_t refuses a parameter out of the knots')
    for degree in (2, 3):
        try:
            BSpline2D([point('a'), point('b')], degree)
            refused = False
        except ValueError:
            refused = True
        psa_true(refused, 'BSpline2D refuses too few points')
