"""Laws of the point lists of the primitives, analysed and never executed (see laws_geometry)."""

from psa_seeds.geometry import point, displacement

from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Mixin import AngularDomain
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Shape.ArrowHead import TriangularCurvyHead, TriangularHead
from Patro.GeometryEngine.Spline import QuadraticUniformSpline2D, CubicUniformSpline2D, BSpline2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D


def make(cls, tags):
    return cls(*[point(t) for t in tags])

KINDS = (
    (Segment2D, 'pq'), (Polyline2D, 'pqr'), (Triangle2D, 'pqr'), (QuadraticBezier2D, 'pqr'), (CubicBezier2D, 'pqrs'),
    (QuadraticUniformSpline2D, 'pqr'), (CubicUniformSpline2D, 'pqrs'), (Polygon2D, 'pqrs'), (Rectangle2D, 'pq'),
)

def check_points(found, expected, label):
    psa_equal(len(found), len(expected), label + ' (count)')
    for a, b in zip(found, expected):
        psa_equal(a.x, b.x, label)
        psa_equal(a.y, b.y, label)

def check_copies(found, expected, label):
    """Equal points, other objects."""
    check_points(found, expected, label)
    for a, b in zip(found, expected):
        psa_other_object(a, b, label + ' (own points)')

####################################################################################################

def law_G02_points():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        check_copies(tuple(o.points), expected, n + '.points')
        psa_equal(o.number_of_points, len(tags), n + '.number_of_points')
        psa_equal(len(o), len(tags), n + ' len')
        psa_equal(o.dimension, 2, n + '.dimension')
        psa_equal(o.is_infinite, False, n + '.is_infinite')
        psa_equal(o.is_composed, False, n + '.is_composed')
        psa_equal(o.is_closed, cls in (Triangle2D, Polygon2D, Rectangle2D), n + '.is_closed')
        a = o.point_array
        for i in range(len(tags)):
            psa_equal(a[0, i], expected[i].x, n + '.point_array')
            psa_equal(a[1, i], expected[i].y, n + '.point_array')

def law_G02_ends():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        check_points((o.start_point, o.end_point), (expected[0], expected[-1]), n + ' ends')
        if cls is not Rectangle2D:
            check_points(tuple(o.iter_from_second_point()), expected[1:], n + '.iter_from_second_point')
        check_points(tuple(o.reversed_points), expected[::-1], n + '.reversed_points')
        psa_true(o.is_reversible, n + '.is_reversible')

def law_G02_reverse():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        r = o.reverse()
        psa_true(isinstance(r, cls), n + '.reverse class')
        psa_other_object(r, o, n + '.reverse is a new object')
        check_points(tuple(r.points), expected[::-1], n + '.reverse')
        check_points(tuple(o.points), expected, n + '.reverse keeps the original')
        check_points(tuple(r.reverse().points), expected, n + '.reverse twice')

def law_G02_clone():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        c = o.clone()
        psa_true(isinstance(c, cls), n + '.clone class')
        psa_other_object(c, o, n + '.clone is a new object')
        check_copies(tuple(c.points), tuple(o.points), n + '.clone')
        psa_true(c == o, n + ' equals its clone')
        # moving the clone does not move the original
        c.transform(AffineTransformation2D.Translation(displacement('d')))
        check_points(tuple(o.points), expected, n + '.clone keeps the original')
        psa_true(not c == o, n + ' differs from its moved clone')

def law_G02_clone_in_place():
    # in-place operations on the points of a clone
    d = displacement('d')
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        c = o.clone()
        for p in c.points:
            p += d
        check_points(tuple(c.points), [p + d for p in expected], n + ' points changed in place')
        check_points(tuple(o.points), [point(t) for t in tags], n + ' after its clone changed in place')

def law_G02_setters():
    for cls, tags in KINDS:
        if cls in (Polyline2D, Polygon2D):
            continue
        n = cls.__name__
        expected = [point(t) for t in tags]
        z = point('z')
        for i in range(len(tags)):
            o = cls(*expected)
            name = 'p{}'.format(i)
            setattr(o, name, z)
            psa_equal(getattr(o, name).x, z.x, n + ' point setter')
            psa_equal(getattr(o, name).y, z.y, n + ' point setter')
            psa_other_object(getattr(o, name), z, n + ' point setter (own point)')
            check_points(tuple(o.points), expected[:i] + [z] + expected[i+1:], n + ' points after a setter')

def law_G02_transform():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        d = displacement('d')
        moved = [p + d for p in expected]
        t = AffineTransformation2D.Translation(d)
        o = cls(*expected)
        c = o.transform(t, clone=True)
        psa_other_object(c, o, n + '.transform(clone=True)')
        psa_true(isinstance(c, cls), n + '.transform(clone=True)')
        check_points(tuple(c.points), moved, n + '.transform(clone=True)')
        check_points(tuple(o.points), expected, n + '.transform(clone=True) keeps the original')
        c = o.transform(t)
        psa_same_object(c, o, n + '.transform in place')
        check_points(tuple(o.points), moved, n + '.transform in place')
        c = o.transform(t, False)
        psa_same_object(c, o, n + '.transform in place again')
        check_points(tuple(o.points), [p + d for p in moved], n + '.transform in place again')

def law_G02_transform_identity():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        for t in (Transformation2D.Identity(), AffineTransformation2D.Identity(), Transformation2D.Scale(1)):
            o = cls(*expected)
            c = o.transform(t, clone=True)
            psa_other_object(c, o, n + '.transform(identity, clone=True)')
            check_points(tuple(c.points), expected, n + '.transform(identity, clone=True)')
            psa_same_object(o.transform(t), o, n + '.transform(identity)')
            check_points(tuple(o.points), expected, n + '.transform(identity)')

def law_G02_mirror():
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        for name, x, y in (('mirror', -1, -1), ('x_mirror', -1, 1), ('y_mirror', 1, -1)):
            o = cls(*expected)
            images = [Vector2D(x*p.x, y*p.y) for p in expected]
            c = getattr(o, name)(clone=True)
            psa_other_object(c, o, n + '.' + name + ' with a copy')
            check_points(tuple(c.points), images, n + '.' + name + ' with a copy')
            check_points(tuple(o.points), expected, n + '.' + name + ' keeps the original')
            psa_same_object(getattr(o, name)(), o, n + '.' + name)
            check_points(tuple(o.points), images, n + '.' + name)

def law_G02_rotate_scale():
    a = psa_turn('a')
    t = Transformation2D.Rotation(a)
    k, m = psa_scalar('k'), psa_scalar('m')
    for cls, tags in KINDS:
        n = cls.__name__
        expected = [point(t) for t in tags]
        for name, arguments, images in (
                ('rotate', (a,), [t*p for p in expected]),
                ('scale', (k,), [Vector2D(k*p.x, k*p.y) for p in expected]),
                ('scale', (k, m), [Vector2D(k*p.x, m*p.y) for p in expected])):
            o = cls(*expected)
            c = getattr(o, name)(*arguments, clone=True)
            psa_other_object(c, o, n + '.' + name + ' with a copy')
            check_points(tuple(c.points), images, n + '.' + name + ' with a copy')
            check_points(tuple(o.points), expected, n + '.' + name + ' keeps the original')
            psa_same_object(getattr(o, name)(*arguments), o, n + '.' + name)
            check_points(tuple(o.points), images, n + '.' + name)

def law_G02_closed():
    for cls, tags in ((Triangle2D, 'pqr'), (Polygon2D, 'pqrs')):
        n = cls.__name__
        expected = [point(t) for t in tags]
        o = cls(*expected)
        psa_true(o.is_closed, n + '.is_closed')
        check_points(o.vertices, expected, n + '.vertices')
        check_points(tuple(o.closed_points), expected + expected[:1], n + '.closed_points')
        pairs = tuple(o.closed_pairwise_points)
        psa_equal(len(pairs), len(tags), n + '.closed_pairwise_points')
        for i, (a, b) in enumerate(pairs):
            check_points((a, b), (expected[i], expected[(i + 1) % len(tags)]), n + '.closed_pairwise_points')
        a = o.closed_point_array
        psa_equal(a.shape, (2, len(tags) + 1), n + '.closed_point_array')
        for i, p in enumerate(expected + expected[:1]):
            psa_equal(a[0, i], p.x, n + '.closed_point_array')
            psa_equal(a[1, i], p.y, n + '.closed_point_array')

def law_G02_rectangle_vertices():
    p, q = point('p'), point('q')
    o = Rectangle2D(p, q)
    vertices = (p, Vector2D(p.x, q.y), q, Vector2D(q.x, p.y))
    psa_true(o.is_closed, 'Rectangle2D.is_closed')
    check_points(o.vertices, vertices, 'Rectangle2D.vertices')
    check_points(tuple(o.iter_from_second_point()), vertices[1:], 'Rectangle2D.iter_from_second_point')
    check_points(tuple(o.closed_points), vertices + vertices[:1], 'Rectangle2D.closed_points')
    check_points([e.p0 for e in o.edges], vertices, 'Rectangle2D.edges')
    check_points([e.p1 for e in o.edges], vertices[1:] + vertices[:1], 'Rectangle2D.edges')
    check_points(o.to_polygon().vertices, vertices, 'Rectangle2D.to_polygon')

def law_G02_conversions():
    for cls, tags in ((Triangle2D, 'pqr'), (Polygon2D, 'pqrs'), (Rectangle2D, 'pq')):
        n = cls.__name__
        o = make(cls, tags)
        vertices = o.vertices
        path = o.to_path()
        check_points((path.p0,), vertices[:1], n + '.to_path start')
        parts = list(path)
        check_points([part.stop_point for part in parts], vertices[1:] + vertices[:1], n + '.to_path')
        check_points([part.start_point for part in parts], vertices, n + '.to_path')
        psa_true(path.is_closed, n + '.to_path is closed')
        if cls is not Polygon2D:
            polygon = o.to_polygon()
            psa_true(isinstance(polygon, Polygon2D), n + '.to_polygon')
            check_copies(polygon.vertices, vertices, n + '.to_polygon')

def law_G02_sequence():
    p, q, r, s = [point(t) for t in 'pqrs']
    for cls in (Polyline2D, Polygon2D):
        n = cls.__name__
        o = cls(p, q, r, s)
        check_points((o[0], o[1], o[2], o[3], o[-1]), (p, q, r, s, s), n + ' items')
        check_points(o[1:3], (q, r), n + ' slice')
        for size in (1, 2, 3, 4):
            found = list(o.iter_on_nuplets(size))
            psa_equal(len(found), 5 - size, n + '.iter_on_nuplets (count)')
            for i, nuplet in enumerate(found):
                check_points(nuplet, (p, q, r, s)[i:i+size], n + '.iter_on_nuplets')
        failed = False
        try:
            list(o.iter_on_nuplets(5))
        except ValueError:
            failed = True
        psa_true(failed, n + '.iter_on_nuplets (too large)')

def law_G02_equality():
    p, q, r = [point(t) for t in 'pqr']
    z = displacement('z')
    for cls in (Polyline2D, Triangle2D, QuadraticBezier2D, Polygon2D):
        n = cls.__name__
        o = cls(p, q, r)
        psa_true(o == cls(p.clone(), q.clone(), r.clone()), n + ' == with the same points')
        psa_true(not o == cls(p + z, q, r), n + ' == (first point)')
        psa_true(not o == cls(p, q + z, r), n + ' == (second point)')
        psa_true(not o == cls(p, q, r + z), n + ' == (last point)')
        psa_true(not o == cls(p, r, q), n + ' == (order)')

def law_G02_bspline():
    points = [point(t) for t in 'pqrstu']
    o = BSpline2D(points, 3)
    check_copies(tuple(o.points), points, 'BSpline2D.points')
    psa_equal(o.degree, 3, 'BSpline2D.degree')
    c = o.clone()
    psa_other_object(c, o, 'BSpline2D.clone')
    psa_equal(c.degree, 3, 'BSpline2D.clone degree')
    check_copies(tuple(c.points), tuple(o.points), 'BSpline2D.clone')
    psa_equal(list(c.knots), list(o.knots), 'BSpline2D.clone knots')
    psa_equal(c.uniform, o.uniform, 'BSpline2D.clone uniform')
    psa_equal((c.start_knot, c.end_knot), (o.start_knot, o.end_knot), 'BSpline2D.clone end knots')
    r = o.reverse()
    check_points(tuple(r.points), points[::-1], 'BSpline2D.reverse')
    psa_equal(r.degree, 3, 'BSpline2D.reverse degree')
    check_points(tuple(o.points), points, 'BSpline2D.reverse keeps the original')
    d = displacement('d')
    m = o.transform(AffineTransformation2D.Translation(d), clone=True)
    check_points(tuple(m.points), [p + d for p in points], 'BSpline2D.transform')
    check_points(tuple(o.points), points, 'BSpline2D.transform keeps the original')

def law_G02_line():
    l = Line2D(point('p'), displacement('v'))
    psa_true(l.is_infinite, 'Line2D.is_infinite')
    psa_true(not l.is_closed, 'Line2D.is_closed')
    psa_true(l.bounding_box is None, 'Line2D.bounding_box')
    c = l.clone()
    psa_other_object(c, l, 'Line2D.clone')
    check_copies((c.p, c.v), (l.p, l.v), 'Line2D.clone')

def law_G02_regular():
    c = point('c')
    o = RegularPolygon(c, psa_positive("r"), 4)
    m = o.clone()
    psa_other_object(m, o, 'RegularPolygon.clone')
    check_copies(tuple(m.points), tuple(o.points), 'RegularPolygon.clone')
    check_points((m.center,), (c,), 'RegularPolygon.clone center')
    d = displacement('d')
    before = tuple(o.points)
    t = o.transform(AffineTransformation2D.Translation(d), clone=True)
    check_points((t.center, o.center), (c + d, c), 'RegularPolygon.transform center')
    check_points(tuple(t.points), [p + d for p in before], 'RegularPolygon.transform')
    check_points(tuple(o.points), before, 'RegularPolygon.transform keeps the original')

def law_G02_box():
    a, b, c, d = psa_positive('a'), psa_positive('b'), psa_positive('c'), psa_positive('d')
    p = point('p')
    # an edge of the box touched by each point
    left, bottom = p + Vector2D(-a, 0), p + Vector2D(0, -b)
    right, top = p + Vector2D(c, 0), p + Vector2D(0, d)
    for o in (Polygon2D(left, bottom, right, top), Polyline2D(left, top, right, bottom),
              Polygon2D(top, right, bottom, left)):
        box = o.bounding_box
        n = o.__class__.__name__ + '.bounding_box'
        psa_equal(box.x.inf, p.x - a, n)
        psa_equal(box.x.sup, p.x + c, n)
        psa_equal(box.y.inf, p.y - b, n)
        psa_equal(box.y.sup, p.y + d, n)
    box = Rectangle2D(p + Vector2D(c, -b), p + Vector2D(-a, d)).bounding_box
    psa_equal(box.x.inf, p.x - a, 'Rectangle2D.bounding_box')
    psa_equal(box.x.sup, p.x + c, 'Rectangle2D.bounding_box')
    psa_equal(box.y.inf, p.y - b, 'Rectangle2D.bounding_box')
    psa_equal(box.y.sup, p.y + d, 'Rectangle2D.bounding_box')

COORDINATES = ((0, 0), (3, 0), (4, 5), (-1, 2))

def law_G02_concrete_equality():
    # same points in another order, one moved coordinate, mirrored coordinates
    for cls, tags in KINDS:
        n = len(tags)
        if cls is Rectangle2D or n < 2 or n > 4:
            continue
        coordinates = COORDINATES[:n]
        name = cls.__name__
        o = cls(*[Vector2D(x, y) for x, y in coordinates])
        psa_true(o == cls(*[Vector2D(x, y) for x, y in coordinates]), name + ' == with the same points')
        psa_true(o.is_point_close(cls(*[Vector2D(x + 1e-10, y) for x, y in coordinates])), name + '.is_point_close')
        orders = [coordinates[::-1], coordinates[1:] + coordinates[:1]]
        for points in orders:
            psa_true(not o == cls(*[Vector2D(x, y) for x, y in points]), name + ' == with another order')
            psa_true(o != cls(*[Vector2D(x, y) for x, y in points]), name + ' != with another order')
        for i in range(n):
            for dx, dy in ((1, 0), (0, 1), (0, -.01)):
                points = [Vector2D(x, y) for x, y in coordinates]
                points[i] = Vector2D(coordinates[i][0] + dx, coordinates[i][1] + dy)
                other = cls(*points)
                psa_true(not o == other, name + ' == with a moved point')
                psa_true(not o.is_point_close(other), name + '.is_point_close with a moved point')

def law_G02_other_number_of_points():
    for cls in (Polyline2D, Polygon2D):
        points = [Vector2D(x, y) for x, y in COORDINATES]
        psa_true(not cls(*points) == cls(*points[:3]), cls.__name__ + ' == with fewer points')
        psa_true(not cls(*points[:3]) == cls(*points), cls.__name__ + ' == with more points')

def law_G02_transform_of_the_origin():
    # a point at the origin, on an axis, or equal to another one is transformed too
    d = Vector2D(10, 20)
    t = AffineTransformation2D.Translation(d)
    for cls, tags in KINDS:
        n = len(tags)
        if cls is Rectangle2D or n < 2 or n > 4:
            continue
        name = cls.__name__
        o = cls(*[Vector2D(x, y) for x, y in COORDINATES[:n]])
        c = o.transform(t, clone=True)
        for p, (x, y) in zip(c.points, COORDINATES):
            psa_equal(p, Vector2D(x + 10, y + 20), name + '.transform (translation)')
        for p, (x, y) in zip(o.points, COORDINATES):
            psa_equal(p, Vector2D(x, y), name + '.transform with clone leaves the points')
        c.transform(AffineTransformation2D.Translation(-d))
        for p, (x, y) in zip(c.points, COORDINATES):
            psa_equal(p, Vector2D(x, y), name + '.transform back')
        for angle, f in ((90, lambda x, y: (-y, x)), (180, lambda x, y: (-x, -y)), (270, lambda x, y: (y, -x)),
                         (-90, lambda x, y: (y, -x)), (360, lambda x, y: (x, y))):
            for p, (x, y) in zip(o.rotate(angle, clone=True).points, COORDINATES):
                psa_equal(p, Vector2D(*f(x, y)), name + '.rotate({})'.format(angle))
        for a, b in ((0, 1), (1, 0), (2, None), (2, 0), (-1, 3), (1, 1)):
            for p, (x, y) in zip(o.scale(a, b, clone=True).points, COORDINATES):
                psa_equal(p, Vector2D(a*x, (a if b is None else b)*y), name + '.scale({}, {})'.format(a, b))

####################################################################################################
# arrow heads

def arrow_places(v, length, width, offset):
    """The tip, the back of the tip, the left and right points and the offset back."""
    p = point('p')
    u = v/5
    n = Vector2D(-u.y, u.x)
    back = p - u*length
    return p, back, back + n*width, back - n*width, back - u*offset

SIDES = ((True, True), (True, False), (False, True))

def law_G02_arrow_points():
    l, w, o = psa_length('l'), psa_length('w'), psa_positive('o')
    for v in (Vector2D(3, 4), Vector2D(0, 5), Vector2D(-5, 0), Vector2D(4, -3)):
        for left, right in SIDES:
            for offset in (0, o):
                tip, back, left_point, right_point, offseted = arrow_places(v, l, w, offset)
                a = TriangularHead(tip, v, l, w, axial_offset=offset, left_side=left, right_side=right)
                label = 'TriangularHead({}, {})'.format(left, right)
                expected = [tip]
                if left:
                    expected.append(left_point)
                if offset:
                    expected.append(offseted)
                elif not (left and right):
                    expected.append(back)
                if right and left:
                    expected.append(right_point)
                elif right:
                    expected[1:1] = [right_point]
                check_points(tuple(a.points), expected, label + ' points')
                check_points((a.tip_point, a.anchor_point, a.back_tip_point, a.offseted_back_tip_point),
                             (tip, tip, back, offseted), label + ' tip and back')
                psa_equal((a.length, a.width, a.axial_offset), (l, w, offset), label + ' measures')
                psa_equal((a.left_side, a.right_side), (left, right), label + ' sides')
                psa_equal((a.both_side, a.only_left, a.only_right),
                          (left and right, left and not right, right and not left), label + ' sides')
                psa_equal(bool(a.has_axial_offset), bool(offset), label + ' has_axial_offset')
                if left:
                    check_points((a.left_point,), (left_point,), label + ' left_point')
                else:
                    psa_true(a.left_point is None, label + ' left_point')
                if right:
                    check_points((a.right_point,), (right_point,), label + ' right_point')
                else:
                    psa_true(a.right_point is None, label + ' right_point')
                c = a.clone()
                psa_other_object(c, a, label + ' clone')
                check_copies(tuple(c.points), expected, label + ' clone')
                psa_equal((c.length, c.width, c.axial_offset, c.left_side, c.right_side),
                          (l, w, offset, left, right), label + ' clone')
                check_points(tuple(a.reverse().points), [expected[0]] + expected[:0:-1]
                             if tuple(a.reverse().points)[0] == expected[0] else expected[::-1], label + ' reverse')

def law_G02_arrow_sides():
    failed = False
    try:
        TriangularHead(point('p'), Vector2D(3, 4), psa_length('l'), psa_length('w'), left_side=False, right_side=False)
    except ValueError:
        failed = True
    psa_true(failed, 'an arrow head without side is refused')

def law_G02_arrow_moved():
    l, w, o = psa_positive('l'), psa_positive('w'), psa_positive('o')
    v = Vector2D(3, 4)
    d = displacement('d')
    tip, back, left_point, right_point, offseted = arrow_places(v, l, w, o)
    translation = AffineTransformation2D.Translation(d)
    for clone in (False, True):
        a = TriangularHead(tip, v, l, w, axial_offset=o)
        psa_equal(a.back_tip_point.x, back.x, 'TriangularHead.back_tip_point')
        m = a.transform(translation, clone=clone)
        check_points(tuple(m.points), (tip + d, left_point + d, offseted + d, right_point + d), 'TriangularHead moved')
        check_points((m.tip_point, m.back_tip_point, m.left_point, m.right_point, m.offseted_back_tip_point),
                     (tip + d, back + d, left_point + d, right_point + d, offseted + d), 'TriangularHead moved')
        if clone:
            check_points(tuple(a.points), (tip, left_point, offseted, right_point), 'TriangularHead kept')
            check_points((a.tip_point, a.back_tip_point, a.left_point), (tip, back, left_point), 'TriangularHead kept')
    scale = Transformation2D.Scale(2)
    a = TriangularHead(tip, v, l, w, axial_offset=o)
    m = a.transform(scale, clone=True)
    check_points(tuple(m.points), (tip*2, left_point*2, offseted*2, right_point*2), 'TriangularHead scaled')
    psa_equal((m.length, m.width, m.axial_offset), (2*l, 2*w, 2*o), 'TriangularHead scaled')
    check_points((m.tip_point, m.back_tip_point, m.left_point), (tip*2, back*2, left_point*2), 'TriangularHead scaled')

def law_G02_curvy_arrow():
    l, w, o, h = psa_length('l'), psa_length('w'), psa_positive('o'), psa_positive_number('h')
    v = Vector2D(3, 4)
    for left, right in SIDES:
        for offset in (0, o):
            tip, back, left_point, right_point, offseted = arrow_places(v, l, w, offset)
            a = TriangularCurvyHead(tip, v, l, w, h, axial_offset=offset, left_side=left, right_side=right)
            label = 'TriangularCurvyHead({}, {})'.format(left, right)
            stops = [left_point if left else right_point]
            if offset:
                stops.append(offseted)
            elif not (left and right):
                stops.append(back)
            if left and right:
                stops.extend([right_point, tip])
            check_points([part.stop_point for part in a][:len(stops)], stops, label + ' stops')
            psa_true(a.is_closed, label + ' is closed')
            psa_equal(a.curve_depth, h, label + ' curve_depth')
            first = stops[0]
            side = first - tip
            bow = Vector2D(-side.y, side.x)*h*(-1 if left else 1)
            control = a[0].points[1]
            check_points((control,), ((first + tip)/2 + bow,), label + ' control')
            if left and right:
                side = right_point - tip
                check_points((a[len(stops) - 1].points[1],), ((right_point + tip)/2 + Vector2D(-side.y, side.x)*h,),
                             label + ' second control')
            c = a.clone()
            psa_other_object(c, a, label + ' clone')
            check_points([part.stop_point for part in c][:len(stops)], stops, label + ' clone')
            psa_equal((c.length, c.width, c.axial_offset, c.curve_depth, c.left_side, c.right_side),
                      (l, w, offset, h, left, right), label + ' clone')
