"""Laws of the DXF importer, analysed and never executed (see laws_geometry)."""

import ezdxf

from Patro.FileFormat.Dxf.Importer import DxfImporter
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D
from Patro.GeometryEngine.Vector import Vector2D
from psa_seeds.geometry import point


def place(name):
    """A point of the file: three coordinates."""
    return (psa_x(name + '.x'), psa_y(name + '.y'), psa_scalar(name + '.z'))

def read(*entities):
    ezdxf.READ.append(list(entities))
    return DxfImporter('foo.dxf')

def at(p, name, label):
    psa_equal(p.x, psa_x(name + '.x'), label)
    psa_equal(p.y, psa_y(name + '.y'), label)

def law_D01_line():
    items = read(ezdxf.Entity('LINE', start=place('a'), end=place('b')))
    psa_equal(len(items), 1, 'one item')
    s = items[0]
    psa_true(type(s) is Segment2D, 'a segment')
    at(s.p0, 'a', 'start')
    at(s.p1, 'b', 'end')

def law_D01_circle():
    items = read(ezdxf.Entity('CIRCLE', center=place('a'), radius=psa_length('r')))
    psa_equal(len(items), 1, 'one item')
    c = items[0]
    psa_true(type(c) is Circle2D, 'a circle')
    at(c.center, 'a', 'center')
    psa_equal(c.radius, psa_length('r'), 'radius')
    psa_true(c.domain is None, 'a whole circle')

def law_D01_arc():
    items = read(ezdxf.Entity('ARC', center=place('a'), radius=psa_length('r'), start_angle=psa_degrees('s'),
                              end_angle=psa_degrees('e')))
    psa_equal(len(items), 1, 'one item')
    c = items[0]
    psa_true(type(c) is Circle2D, 'an arc')
    at(c.center, 'a', 'center')
    psa_equal(c.radius, psa_length('r'), 'radius')
    psa_equal(c.domain.start, psa_degrees('s'), 'start')
    psa_equal(c.domain.stop, psa_degrees('e'), 'stop')

def law_D01_arc_angles():
    for start, stop in ((0, 90), (0, 180), (270, 0), (0, 270), (350, 10), (90, 360)):
        c = read(ezdxf.Entity('ARC', center=place('a'), radius=psa_length('r'), start_angle=start, end_angle=stop))[0]
        psa_true(c.domain is not None, 'an arc from {} to {}'.format(start, stop))
        psa_equal(c.domain.start, start, 'start of an arc from {} to {}'.format(start, stop))
        psa_equal(c.domain.stop, stop, 'stop of an arc from {} to {}'.format(start, stop))

def law_D01_ellipse_whole():
    from math import pi
    e = read(ezdxf.Entity('ELLIPSE', center=place('a'), major_axis=(3, 0, 0), ratio=1/3, start_param=0, end_param=2*pi))[0]
    psa_equal(e.radius_x, 3, 'major radius')
    psa_equal(e.radius_y, 1, 'minor radius')
    psa_equal(e.domain.start, 0, 'start')
    psa_equal(e.domain.stop, 360, 'stop')
    e = read(ezdxf.Entity('ELLIPSE', center=place('a'), major_axis=(-3, 0, 0), ratio=1, start_param=0, end_param=pi/2))[0]
    psa_equal(abs(e.angle), 180, 'angle')
    psa_equal(e.radius_y, 3, 'minor radius')
    psa_equal(e.domain.stop, 90, 'stop')

def law_D01_empty():
    psa_equal(len(read()), 0, 'no entity')

def law_D01_twice():
    # a second file has its own entities
    a = read(ezdxf.Entity('LINE', start=place('a'), end=place('b')))
    b = read(ezdxf.Entity('LINE', start=place('c'), end=place('d')), ezdxf.Entity('LINE', start=place('d'), end=place('a')))
    psa_equal(len(a), 1, 'items of the first file')
    psa_equal(len(b), 2, 'items of the second file')
    at(b[0].p0, 'c', 'items of the second file')
    at(b[1].p1, 'a', 'items of the second file')

def law_D01_closed_spline():
    points = [place('a'), place('b'), place('c'), place('d'), place('e')]
    for closed in (False, True):
        s = read(ezdxf.Entity('SPLINE', points=points, degree=2, closed=closed))[0]
        psa_equal(s.degree, 2, 'degree')
        psa_true(s.is_closed is closed, 'closed spline')

def law_D01_ellipse():
    from math import radians
    k = psa_positive_number('k')
    items = read(ezdxf.Entity('ELLIPSE', center=place('a'), major_axis=place('m'), ratio=k,
                              start_param=radians(psa_degrees('s')), end_param=radians(psa_degrees('e'))))
    psa_equal(len(items), 1, 'one item')
    e = items[0]
    m = Vector2D(psa_x('m.x'), psa_y('m.y'))
    psa_true(type(e) is Ellipse2D, 'an ellipse')
    at(e.center, 'a', 'center')
    psa_equal(e.radius_x, m.magnitude, 'major radius')
    psa_equal(e.radius_y, m.magnitude * k, 'minor radius')
    psa_equal(e.angle, m.orientation, 'angle')
    psa_equal(e.domain.start, psa_degrees('s'), 'start')
    psa_equal(e.domain.stop, psa_degrees('e'), 'stop')

def law_D01_vertical_ellipse():
    from math import radians
    l = psa_positive('l')
    items = read(ezdxf.Entity('ELLIPSE', center=(0, 0, 0), major_axis=(0, 2*l, 0), ratio=.5,
                              start_param=radians(psa_degrees('s')), end_param=radians(psa_degrees('e'))))
    e = items[0]
    p = e.point_at_angle(0)
    psa_equal(p.x, 0, 'end of the major axis')
    psa_equal(p.y, 2*l, 'end of the major axis')
    psa_equal(e.domain.start, psa_degrees('s'), 'start')

def law_D01_spline():
    points = [place('a'), place('b'), place('c'), place('d'), place('e')]
    items = read(ezdxf.Entity('SPLINE', points=points, degree=3))
    psa_equal(len(items), 1, 'one item')
    s = items[0]
    psa_true(type(s) is BSpline2D, 'a spline')
    psa_equal(s.degree, 3, 'degree')
    psa_equal(s.number_of_points, 5, 'control points')
    for p, name in zip(s.points, 'abcde'):
        at(p, name, 'control points')

def law_D01_order():
    items = read(
        ezdxf.Entity('LINE', start=place('a'), end=place('b')),
        ezdxf.Entity('HATCH'),
        ezdxf.Entity('CIRCLE', center=place('a'), radius=psa_length('r')),
        ezdxf.Entity('TEXT'),
        ezdxf.Entity('LINE', start=place('b'), end=place('c')),
    )
    psa_equal(len(items), 3, 'other entities are skipped')
    psa_true([type(x).__name__ for x in items] == ['Segment2D', 'Circle2D', 'Segment2D'], 'order')
    at(items[2].p1, 'c', 'order')
    psa_equal(len(list(items)), 3, 'iteration')

def law_D02_open():
    items = read(ezdxf.Entity('LWPOLYLINE', points=[
        (psa_x('a.x'), psa_y('a.y'), 0, 0, 0), (psa_x('b.x'), psa_y('b.y'), 0, 0, 0), (psa_x('c.x'), psa_y('c.y'), 0, 0, 0)]))
    psa_equal(len(items), 1, 'one item')
    segments = items[0]
    psa_equal(len(segments), 2, 'segments')
    at(segments[0].p0, 'a', 'segment')
    at(segments[0].p1, 'b', 'segment')
    at(segments[1].p0, 'b', 'segment')
    at(segments[1].p1, 'c', 'segment')

def law_D02_closed():
    items = read(ezdxf.Entity('LWPOLYLINE', closed=True, points=[
        (psa_x('a.x'), psa_y('a.y'), 0, 0, 0), (psa_x('b.x'), psa_y('b.y'), 0, 0, 0), (psa_x('c.x'), psa_y('c.y'), 0, 0, 0)]))
    segments = items[0]
    psa_equal(len(segments), 3, 'segments')
    at(segments[2].p0, 'c', 'closing segment')
    at(segments[2].p1, 'a', 'closing segment')

def bulged(bulge, closed=False):
    l = psa_positive('l')
    polyline = Polyline(closed)
    polyline.add(Vector2D(0, 0), bulge)
    polyline.add(Vector2D(2*l, 0))
    return polyline

def law_D02_bulge_measures():
    b = psa_positive_number('b')
    for bulge in [b, -b]:
        v = bulged(bulge)[0]
        l = psa_positive('l')
        psa_equal(v.sagitta, bulge * l, 'sagitta')
        psa_equal(v.demi_chord, l, 'demi_chord')
        # the triangle of the center, an end and the middle of the chord
        psa_equal(v.bulge_radius**2, v.sagitta_dual**2 + l**2, 'bulge_radius')
        psa_equal(v.bulge_radius - v.sagitta_dual, v.sagitta, 'sagitta_dual')
    v = bulged(0)[0]
    psa_equal(v.bulge_radius, 0, 'no bulge')
    psa_equal(v.sagitta, 0, 'no bulge')

def law_D02_arc_circle():
    b = psa_positive_number('b')
    l = psa_positive('l')
    for bulge in [b, -b]:
        items = bulged(bulge).geometry()
        psa_equal(len(items), 1, 'an arc')
        c = items[0]
        psa_true(type(c) is Circle2D, 'an arc')
        psa_equal(c.radius**2, c.center.x**2 + c.center.y**2, 'through the first vertex')
        psa_equal(c.radius**2, (c.center.x - 2*l)**2 + c.center.y**2, 'through the second vertex')
        psa_equal(c.radius * 2*b, l * (b*b + 1), 'radius')
        psa_equal(c.center.y * 2*bulge, l * (1 - b*b), 'center')

def law_D02_semicircle():
    l = psa_positive('l')
    c = bulged(1).geometry()[0]
    # counterclockwise, at the right of the line
    psa_equal(c.domain.start % 360, 180, 'start')
    psa_equal(c.domain.stop % 360, 0, 'stop')
    c = bulged(-1).geometry()[0]
    psa_equal(c.domain.start % 360, 0, 'start')
    psa_equal(c.domain.stop % 360, 180, 'stop')

def law_D02_vertical_semicircle():
    l = psa_positive('l')
    for bulge, start, stop in [(1, 270, 90), (-1, 90, 270)]:
        p = Polyline(False)
        p.add(Vector2D(0, 0), bulge)
        p.add(Vector2D(0, 2*l), 0)
        domain = p.geometry()[0].domain
        psa_equal(domain.start, start, 'start of a vertical semicircle')
        psa_equal(domain.stop, stop, 'stop of a vertical semicircle')

def law_D02_ends():
    b = psa_positive_number('b')
    l = psa_positive('l')
    c = bulged(b).geometry()[0]
    psa_equal(c.start_point.x, 0, 'start')
    psa_equal(c.start_point.y, 0, 'start')
    psa_equal(c.stop_point.x, 2*l, 'stop')
    psa_equal(c.stop_point.y, 0, 'stop')
    c = bulged(-b).geometry()[0]
    psa_equal(c.start_point.x, 2*l, 'start')
    psa_equal(c.start_point.y, 0, 'start')
    psa_equal(c.stop_point.x, 0, 'stop')
    psa_equal(c.stop_point.y, 0, 'stop')

def law_D02_mixed():
    l = psa_positive('l')
    polyline = Polyline(True)
    polyline.add(Vector2D(0, 0))
    polyline.add(Vector2D(2*l, 0), 1)
    polyline.add(Vector2D(2*l, 2*l))
    items = polyline.geometry()
    psa_true([type(x).__name__ for x in items] == ['Segment2D', 'Circle2D', 'Segment2D'], 'parts')
    psa_equal(items[1].center.x, 2*l, 'center')
    psa_equal(items[1].center.y, l, 'center')
    psa_equal(items[1].radius, l, 'radius')
    psa_equal(items[2].p1.x, 0, 'closing segment')

def law_D02_neighbours():
    for closed in [False, True]:
        polyline = Polyline(closed)
        for i in range(3):
            polyline.add(Vector2D(psa_x('x' + str(i)), psa_y('y' + str(i))))
        psa_equal(len(polyline), 3, 'len')
        a, b, c = list(polyline)
        psa_same_object(a.next, b, 'next')
        psa_same_object(b.next, c, 'next')
        psa_same_object(c.prev, b, 'prev')
        psa_same_object(b.prev, a, 'prev')
        if closed:
            psa_same_object(c.next, a, 'next of the last')
            psa_same_object(a.prev, c, 'prev of the first')
        else:
            psa_true(c.next is None, 'next of the last')
            psa_true(a.prev is None, 'prev of the first')
        psa_equal(b.x, psa_x('x1'), 'x')
        psa_equal(b.y, psa_y('y1'), 'y')
