"""Laws of the graphic scene, analysed and never executed (see laws_geometry)."""

from psa_seeds.geometry import point, displacement

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Mixin import AngularDomain
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D, CubicUniformSpline2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicItem import (
    CircleItem, CubicBezierItem, EllipseItem, ImageItem, PathItem, PolygonItem, PolylineItem, QuadraticBezierItem,
    RectangleItem, SegmentItem, TextItem)
from Patro.GraphicEngine.GraphicScene.GraphicItemMixin import GraphicItem
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicBezierStyle, GraphicPathStyle
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene, GraphicSceneScope
from Patro.GraphicEngine.GraphicScene.TypographyUnit import InchUnit, MmUnit, PointUnit
from Patro.GraphicStyle import CapStyle, Colors, JoinStyle, StrokeStyle


def same(p, q, label):
    psa_equal(p.x, q.x, label)
    psa_equal(p.y, q.y, label)

def points_same(a, b, label):
    a = list(a)
    b = list(b)
    psa_equal(len(a), len(b), label)
    for p, q in zip(a, b):
        same(p, q, label)

def put(item):
    scene = GraphicScene()
    style = GraphicPathStyle()
    return scene, style, scene.add_geometry(item, style)

def kept(scene, style, item, source, cls, label):
    psa_true(isinstance(item, cls), label)
    psa_true(item.path_style is style, label)
    psa_true(item.user_data is source, label)
    psa_true(item.scene is scene, label)
    psa_equal(len(scene), 1, label)
    psa_true(list(scene)[0] is item, label)

####################################################################################################
# the item of a primitive has its geometry

def law_N01_segment():
    source = Segment2D(point('p0'), point('p1'))
    scene, style, item = put(source)
    kept(scene, style, item, source, SegmentItem, 'add_geometry segment')
    points_same(item.get_geometry().points, source.points, 'add_geometry segment')
    psa_true(isinstance(item.get_geometry(), Segment2D), 'add_geometry segment')

def law_N01_quadratic():
    source = QuadraticBezier2D(point('p0'), point('p1'), point('p2'))
    scene, style, item = put(source)
    kept(scene, style, item, source, QuadraticBezierItem, 'add_geometry quadratic')
    points_same(item.get_geometry().points, source.points, 'add_geometry quadratic')
    points_same(item.cubic_positions, source.to_cubic().points, 'QuadraticBezierItem.cubic_positions')

def law_N01_cubic():
    source = CubicBezier2D(point('p0'), point('p1'), point('p2'), point('p3'))
    scene, style, item = put(source)
    kept(scene, style, item, source, CubicBezierItem, 'add_geometry cubic')
    points_same(item.get_geometry().points, source.points, 'add_geometry cubic')

def law_N01_circle():
    source = Circle2D(point('c'), psa_length('r'))
    scene, style, item = put(source)
    kept(scene, style, item, source, CircleItem, 'add_geometry circle')
    circle = item.get_geometry()
    same(circle.center, source.center, 'add_geometry circle')
    psa_equal(circle.radius, source.radius, 'add_geometry circle')
    psa_true(item.is_closed, 'add_geometry circle')
    psa_equal(item.start_angle, 0, 'add_geometry circle')
    psa_equal(item.stop_angle, 360, 'add_geometry circle')

def law_N01_circle_arc():
    start = psa_degrees('start')
    stop = psa_degrees('stop')
    source = Circle2D(point('c'), psa_length('r'), domain=AngularDomain(start, stop))
    scene, style, item = put(source)
    kept(scene, style, item, source, CircleItem, 'add_geometry arc')
    psa_equal(item.start_angle, start, 'add_geometry arc')
    psa_equal(item.stop_angle, stop, 'add_geometry arc')
    circle = item.get_geometry()
    same(circle.center, source.center, 'add_geometry arc')
    psa_equal(circle.radius, source.radius, 'add_geometry arc')
    psa_equal(circle.domain.start, start, 'add_geometry arc')
    psa_equal(circle.domain.stop, stop, 'add_geometry arc')

def law_N01_ellipse():
    source = Ellipse2D(point('c'), psa_length('rx'), psa_length('ry'), psa_degrees('a'))
    scene, style, item = put(source)
    kept(scene, style, item, source, EllipseItem, 'add_geometry ellipse')
    ellipse = item.get_geometry()
    same(ellipse.center, source.center, 'add_geometry ellipse')
    psa_equal(ellipse.radius_x, source.radius_x, 'add_geometry ellipse')
    psa_equal(ellipse.radius_y, source.radius_y, 'add_geometry ellipse')
    psa_equal(ellipse.angle, source.angle, 'add_geometry ellipse')
    psa_true(item.is_closed, 'add_geometry ellipse')

def law_N01_ellipse_arc():
    start = psa_degrees('start')
    stop = psa_degrees('stop')
    source = Ellipse2D(point('c'), psa_length('rx'), psa_length('ry'), psa_degrees('a'), domain=AngularDomain(start, stop))
    scene, style, item = put(source)
    ellipse = item.get_geometry()
    same(ellipse.center, source.center, 'add_geometry elliptic arc')
    psa_equal(ellipse.radius_x, source.radius_x, 'add_geometry elliptic arc')
    psa_equal(ellipse.radius_y, source.radius_y, 'add_geometry elliptic arc')
    psa_equal(ellipse.angle, source.angle, 'add_geometry elliptic arc')
    psa_equal(ellipse.domain.start, start, 'add_geometry elliptic arc')
    psa_equal(ellipse.domain.stop, stop, 'add_geometry elliptic arc')

def law_N01_rectangle():
    source = Rectangle2D(point('p0'), point('p1'))
    scene, style, item = put(source)
    kept(scene, style, item, source, RectangleItem, 'add_geometry rectangle')
    points_same([item.get_geometry().p0, item.get_geometry().p1], [source.p0, source.p1], 'add_geometry rectangle')

def law_N01_polyline():
    source = Polyline2D(point('p0'), point('p1'), point('p2'))
    scene, style, item = put(source)
    kept(scene, style, item, source, PolylineItem, 'add_geometry polyline')
    points_same(item.get_geometry().points, source.points, 'add_geometry polyline')
    psa_true(not isinstance(item, PolygonItem), 'add_geometry polyline')

def law_N01_polygon():
    source = Polygon2D(point('p0'), point('p1'), point('p2'), point('p3'))
    scene, style, item = put(source)
    kept(scene, style, item, source, PolygonItem, 'add_geometry polygon')
    points_same(item.get_geometry().points, source.points, 'add_geometry polygon')
    psa_true(isinstance(item.get_geometry(), Polygon2D), 'add_geometry polygon')

def law_N01_triangle():
    source = Triangle2D(point('p0'), point('p1'), point('p2'))
    scene, style, item = put(source)
    kept(scene, style, item, source, PolygonItem, 'add_geometry triangle')
    points_same(item.get_geometry().points, source.points, 'add_geometry triangle')

def law_N01_spline():
    source = BSpline2D((point('p0'), point('p1'), point('p2'), point('p3'), point('p4')), 3)
    scene, style, items = put(source)
    curves = source.to_bezier()
    psa_equal(len(items), len(curves), 'add_geometry spline')
    psa_equal(len(scene), len(curves), 'add_geometry spline')
    for item, curve in zip(items, curves):
        psa_true(isinstance(item, CubicBezierItem), 'add_geometry spline')
        psa_true(item.path_style is style, 'add_geometry spline')
        psa_true(item.user_data is source, 'add_geometry spline')
        points_same(item.get_geometry().points, curve.points, 'add_geometry spline')

def law_N01_quadratic_spline():
    source = BSpline2D((point('p0'), point('p1'), point('p2'), point('p3')), 2)
    scene, style, items = put(source)
    curves = source.to_bezier()
    psa_equal(len(items), len(curves), 'add_geometry quadratic spline')
    for item, curve in zip(items, curves):
        psa_true(isinstance(item, QuadraticBezierItem), 'add_geometry quadratic spline')
        points_same(item.get_geometry().points, curve.points, 'add_geometry quadratic spline')

def law_N01_line():
    scene = GraphicScene()
    try:
        scene.add_geometry(Line2D(point('p'), displacement('d')), GraphicPathStyle())
    except NotImplementedError:
        psa_true(True, 'add_geometry line')
    else:
        psa_true(False, 'add_geometry line')
    psa_equal(len(scene), 0, 'add_geometry line')

####################################################################################################
# paths

def mixed_path():
    path = Path2D(point('p0'))
    path.line_to(point('p1'), absolute=True)
    path.quadratic_to(point('p2'), point('p3'), absolute=True)
    path.cubic_to(point('p4'), point('p5'), point('p6'), absolute=True)
    return path

def law_N02_segments():
    path = mixed_path()
    scene, style, items = put(path)
    psa_equal(len(items), 3, 'add_as_path_segments')
    psa_equal(len(scene), 3, 'add_as_path_segments')
    for item, cls, segment in zip(items, (SegmentItem, QuadraticBezierItem, CubicBezierItem), path):
        psa_true(isinstance(item, cls), 'add_as_path_segments')
        psa_true(item.path_style is style, 'add_as_path_segments')
        psa_true(item.user_data is path, 'add_as_path_segments')
        points_same(item.get_geometry().points, segment.points, 'add_as_path_segments')

def law_N02_stringed():
    path = Path2D(point('p0'))
    path.cubic_to(point('p1'), point('p2'), point('p3'), absolute=True)
    path.stringed_cubic_to(point('p4'), point('p5'), absolute=True)
    scene, style, items = put(path)
    psa_equal(len(items), 2, 'add_as_path_segments stringed cubic')
    points_same(items[1].get_geometry().points, path[1].points, 'add_as_path_segments stringed cubic')
    item = scene.add_path(path, style, as_segments=False)
    psa_equal(len(item), 2, 'add_as_path stringed cubic')
    points_same(item.get_geometry()[1].points, path[1].points, 'add_as_path stringed cubic')
    path = Path2D(point('p0'))
    path.quadratic_to(point('p1'), point('p2'), absolute=True)
    path.stringed_quadratic_to(point('p3'), absolute=True)
    scene, style, items = put(path)
    psa_equal(len(items), 2, 'add_as_path_segments stringed quadratic')
    points_same(items[1].get_geometry().points, path[1].points, 'add_as_path_segments stringed quadratic')
    item = scene.add_path(path, style, as_segments=False)
    psa_equal(len(item), 2, 'add_as_path stringed quadratic')
    points_same(item.get_geometry()[1].points, path[1].points, 'add_as_path stringed quadratic')

def law_N02_bulge():
    path = Path2D(point('p0'))
    path.line_to(point('p1'), absolute=True)
    path.line_to(point('p2'), radius=psa_length('r'), absolute=True)
    scene, style, items = put(path)
    psa_equal(len(items), 3, 'add_as_path_segments bulge')
    psa_true(isinstance(items[0], SegmentItem), 'add_as_path_segments bulge')
    psa_true(isinstance(items[1], CircleItem), 'add_as_path_segments bulge')
    psa_true(isinstance(items[2], SegmentItem), 'add_as_path_segments bulge')
    arc = path[1].bulge_geometry
    same(items[1].get_geometry().center, arc.center, 'add_as_path_segments bulge')
    psa_equal(items[1].radius, arc.radius, 'add_as_path_segments bulge')
    psa_equal(items[1].start_angle, arc.domain.start, 'add_as_path_segments bulge')
    psa_equal(items[1].stop_angle, arc.domain.stop, 'add_as_path_segments bulge')
    points_same(items[0].get_geometry().points, path[0].points, 'add_as_path_segments bulge')
    points_same(items[2].get_geometry().points, path[1].points, 'add_as_path_segments bulge')

def law_N02_arc():
    path = Path2D(point('p0'))
    path.arc_to(point('p1'), psa_length('rx'), psa_length('ry'), psa_degrees('a'), False, True, absolute=True)
    scene, style, items = put(path)
    psa_equal(len(items), 1, 'add_as_path_segments arc')
    item = items[0]
    psa_true(isinstance(item, EllipseItem), 'add_as_path_segments arc')
    ellipse = path[0].geometry
    same(item.get_geometry().center, ellipse.center, 'add_as_path_segments arc')
    psa_equal(item.radius_x, ellipse.radius_x, 'add_as_path_segments arc')
    psa_equal(item.radius_y, ellipse.radius_y, 'add_as_path_segments arc')
    psa_equal(item.angle, ellipse.angle, 'add_as_path_segments arc')
    psa_equal(item.start_angle, ellipse.domain.start, 'add_as_path_segments arc')
    psa_equal(item.stop_angle, ellipse.domain.stop, 'add_as_path_segments arc')

def law_N02_flat_arc():
    # an arc of null radius is a line
    path = Path2D(point('p0'))
    path.arc_to(point('p1'), 0, psa_length('ry'), psa_degrees('a'), False, True, absolute=True)
    scene, style, items = put(path)
    psa_equal(len(items), 1, 'add_as_path_segments flat arc')
    psa_true(isinstance(items[0], SegmentItem), 'add_as_path_segments flat arc')
    points_same(items[0].get_geometry().points, [point('p0'), point('p1')], 'add_as_path_segments flat arc')
    item = scene.add_path(path, style, as_segments=False)
    psa_equal(len(item), 1, 'add_as_path flat arc')
    points_same(item.get_geometry()[0].points, [point('p0'), point('p1')], 'add_as_path flat arc')

def law_N01_closed_arcs():
    scene = GraphicScene()
    style = GraphicPathStyle()
    for start, stop, closed in [(0, 360, True), (90, 360, False), (90, 450, True), (-90, 270, True), (360, 0, True),
                                (-180, 0, False), (0, 90, False)]:
        c = scene.circle(point('c'), psa_length('r'), style, None, start, stop)
        e = scene.ellipse(point('c'), psa_length('rx'), psa_length('ry'), 0, style, None, start, stop)
        psa_true(c.is_closed == closed, 'is_closed of a circle')
        psa_true(e.is_closed == closed, 'is_closed of an ellipse')
    for item in [scene.circle(point('c'), psa_length('r'), style, None),
                 scene.ellipse(point('c'), psa_length('rx'), psa_length('ry'), 0, style, None)]:
        psa_equal(item.start_angle, 0, 'default start')
        psa_equal(item.stop_angle, 360, 'default stop')
        psa_true(item.is_closed, 'closed by default')

def law_N02_closed():
    path = Path2D(point('p0'))
    path.line_to(point('p1'), absolute=True)
    path.line_to(point('p2'), absolute=True)
    path.close()
    scene, style, items = put(path)
    psa_equal(len(items), 3, 'add_as_path_segments closed')
    points_same(items[2].get_geometry().points, (path.stop_segment.start_point, path.p0), 'add_as_path_segments closed')

def law_N02_path_item():
    path = mixed_path()
    scene = GraphicScene()
    style = GraphicPathStyle()
    data = Vector2D(psa_x('data'), psa_y('data'))
    item = scene.add_path(path, style, user_data=data, as_segments=False)
    psa_true(isinstance(item, PathItem), 'add_as_path')
    psa_true(item.user_data is data, 'add_as_path')
    psa_true(item.path_style is style, 'add_as_path')
    psa_equal(len(scene), 1, 'add_as_path')
    psa_equal(len(item), 3, 'add_as_path')
    psa_true(not item.is_closed, 'add_as_path')
    geometry = item.get_geometry()
    same(geometry.p0, path.p0, 'add_as_path')
    psa_equal(len(geometry), 3, 'add_as_path')
    psa_true(not geometry.is_closed, 'add_as_path')
    for segment, source in zip(geometry, path):
        points_same(segment.points, source.points, 'add_as_path')

def law_N02_closed_path_item():
    path = Path2D(point('p0'))
    path.line_to(point('p1'), absolute=True)
    path.line_to(point('p2'), absolute=True)
    path.close()
    scene = GraphicScene()
    item = scene.add_path(path, GraphicPathStyle(), as_segments=False)
    psa_true(item.is_closed, 'add_as_path closed')
    geometry = item.get_geometry()
    psa_true(geometry.is_closed, 'add_as_path closed')
    same(geometry.p0, path.p0, 'add_as_path closed')
    same(geometry[0].stop_point, path[0].stop_point, 'add_as_path closed')
    same(geometry[1].stop_point, path[1].stop_point, 'add_as_path closed')

def law_N02_path_item_steps():
    # the geometry follows the segments added after it was asked for
    scene = GraphicScene()
    item = scene.add_item(PathItem, point('p0'), GraphicPathStyle(), None)
    item.line_to(point('p1'))
    psa_equal(len(item.geometry), 1, 'PathItem.geometry')
    item.quadratic_to(point('p2'), point('p3'))
    psa_equal(len(item.geometry), 2, 'PathItem.geometry')
    points_same(item.geometry[1].points, (point('p1'), point('p2'), point('p3')), 'PathItem.geometry')
    item.cubic_to(point('p4'), point('p5'), point('p6'))
    psa_equal(len(item.geometry), 3, 'PathItem.geometry')
    points_same(item.geometry[2].points, (point('p3'), point('p4'), point('p5'), point('p6')), 'PathItem.geometry')
    psa_true(not item.geometry.is_closed, 'PathItem.geometry')
    item.close()
    psa_true(item.geometry.is_closed, 'PathItem.geometry')

def law_N02_bezier_path():
    a = [point('p0'), point('p1'), point('p2'), point('p3'), point('p4'), point('p5'), point('p6')]
    for degree, cls in ((1, SegmentItem), (2, QuadraticBezierItem), (3, CubicBezierItem)):
        scene = GraphicScene()
        style = GraphicPathStyle()
        items = scene.bezier_path(a, degree, style, user_data=None)
        psa_equal(len(items), 6 // degree, 'bezier_path')
        psa_equal(len(scene), 6 // degree, 'bezier_path')
        for i in range(6 // degree):
            psa_true(isinstance(items[i], cls), 'bezier_path')
            psa_true(items[i].path_style is style, 'bezier_path')
            points_same(items[i].get_geometry().points, a[degree * i:degree * (i + 1) + 1], 'bezier_path')

def law_N02_bezier_path_errors():
    a = [point('p0'), point('p1'), point('p2'), point('p3')]
    for degree, number in ((2, 4), (3, 3), (4, 4), (0, 4)):
        scene = GraphicScene()
        try:
            scene.bezier_path(a[:number], degree, GraphicPathStyle(), user_data=None)
        except ValueError:
            psa_true(True, 'bezier_path error')
        else:
            psa_true(False, 'bezier_path error')
        psa_equal(len(scene), 0, 'bezier_path error')

####################################################################################################
# positions

def law_N03_named():
    scene = GraphicScene()
    p = point('p')
    q = point('q')
    r = point('r')
    coordinate = scene.add_coordinate('A', p)
    scene.add_coordinate('B', q)
    psa_true(coordinate.name == 'A', 'add_coordinate')
    same(coordinate.position, p, 'add_coordinate')
    same(scene.coordinate('B').position, q, 'coordinate')
    same(scene.cast_position('A'), p, 'cast_position')
    same(scene.cast_position('B'), q, 'cast_position')
    same(scene.cast_position(r), r, 'cast_position')
    psa_equal(len(scene.coordinates), 2, 'coordinates')
    item = scene.segment('A', 'B', GraphicPathStyle(), user_data=None)
    points_same(item.get_geometry().points, (p, q), 'segment of named positions')
    item = scene.cubic_bezier('B', r, 'A', q, GraphicPathStyle(), user_data=None)
    points_same(item.get_geometry().points, (q, r, p, q), 'curve of named positions')
    # a coordinate which moves
    scene.add_coordinate('A', r)
    same(scene.cast_position('A'), r, 'cast_position')
    scene.remove_coordinate('A')
    psa_equal(len(scene.coordinates), 1, 'remove_coordinate')

def moved(label):
    v = displacement('v')
    scene = GraphicSceneScope(AffineTransformation2D.Translation(v))
    scene.add_coordinate('A', point('a'))
    return scene, GraphicPathStyle(), v

def law_N03_transformation():
    scene, style, v = moved('t')
    a = point('a')
    p = point('p')
    q = point('q')
    r = point('r')
    s = point('s')
    same(scene.cast_position(p), p + v, 'cast_position transformation')
    same(scene.cast_position('A'), a + v, 'cast_position transformation')
    item = scene.segment('A', q, style, user_data=None)
    points_same(item.casted_positions, (a + v, q + v), 'casted_positions')
    points_same(item.positions[1:], (q,), 'positions')
    points_same(item.get_geometry().points, (a + v, q + v), 'SegmentItem.get_geometry')
    item = scene.quadratic_bezier(p, q, r, style, user_data=None)
    points_same(item.get_geometry().points, (p + v, q + v, r + v), 'QuadraticBezierItem.get_geometry')
    item = scene.cubic_bezier(p, q, r, s, style, user_data=None)
    points_same(item.get_geometry().points, (p + v, q + v, r + v, s + v), 'CubicBezierItem.get_geometry')
    item = scene.rectangle(p, q, style, user_data=None)
    points_same([item.get_geometry().p0, item.get_geometry().p1], (p + v, q + v), 'RectangleItem.get_geometry')
    item = scene.polyline([p, q, r], style, user_data=None)
    points_same(item.get_geometry().points, (p + v, q + v, r + v), 'PolylineItem.get_geometry')
    item = scene.polygon([p, q, r, s], style, user_data=None)
    points_same(item.get_geometry().points, (p + v, q + v, r + v, s + v), 'PolygonItem.get_geometry')
    item = scene.circle(p, psa_length('l'), style, user_data=None)
    same(item.get_geometry().center, p + v, 'CircleItem.get_geometry')
    item = scene.ellipse(p, psa_length('l'), psa_length('m'), psa_degrees('d'), style, user_data=None)
    same(item.get_geometry().center, p + v, 'EllipseItem.get_geometry')
    item = scene.add_item(PathItem, p, style, None)
    item.line_to('A')
    item.quadratic_to(q, r)
    item.cubic_to(p, 'A', s)
    path = item.get_geometry()
    same(path.p0, p + v, 'PathItem.get_geometry')
    same(path[0].stop_point, a + v, 'PathItem.get_geometry')
    points_same(path[1].points, (a + v, q + v, r + v), 'PathItem.get_geometry')
    points_same(path[2].points, (r + v, p + v, a + v, s + v), 'PathItem.get_geometry')
    item = scene.text(p, psa_str('text'), Font('family', 12), None)
    same(item.get_geometry().p0, p + v, 'TextItem.get_geometry')
    item = scene.image(p, q, None, None)
    points_same([item.get_geometry().p0, item.get_geometry().p1], (p + v, q + v), 'ImageItem.get_geometry')

def law_N03_identity():
    p = point('p')
    same(GraphicScene().cast_position(p), p, 'GraphicScene.transformation')
    same(GraphicScene().transformation * p, p, 'GraphicScene.transformation')

####################################################################################################
# the items of a scene

def segments(scene, data):
    style = GraphicPathStyle()
    return [scene.segment(point('p'), point('q'), style, user_data=x) for x in data]

def law_N04_order():
    scene = GraphicScene()
    a, b, c, d = segments(scene, (None, None, None, None))
    items = list(scene.z_value_iter())
    psa_equal(len(items), 4, 'z_value_iter')
    for x, y in zip(items, (a, b, c, d)):
        psa_true(x is y, 'z_value_iter')
    a.z_value = 2
    b.z_value = -1
    d.z_value = 2
    items = list(scene.z_value_iter())
    psa_equal(len(items), 4, 'z_value_iter')
    for x, y in zip(items, (b, c, a, d)):
        psa_true(x is y, 'z_value_iter')
    # the layers are numbers
    a.z_value = -.5
    b.z_value = -.25
    c.z_value = -.75
    d.z_value = .125
    items = list(scene.z_value_iter())
    for x, y in zip(items, (c, a, b, d)):
        psa_true(x is y, 'z_value_iter of the fractional layers')
    a.z_value = 2
    b.z_value = -1
    c.z_value = 0
    d.z_value = 2
    c.visible = False
    items = list(scene.z_value_iter())
    psa_equal(len(items), 3, 'z_value_iter')
    for x, y in zip(items, (b, a, d)):
        psa_true(x is y, 'z_value_iter')
    # the scene itself keeps the order of insertion
    items = list(scene)
    for x, y in zip(items, (a, b, c, d)):
        psa_true(x is y, 'GraphicScene.__iter__')
    psa_equal(scene.number_of_items, 4, 'GraphicScene.__iter__')

def law_N04_selection():
    scene = GraphicScene()
    a, b, c = segments(scene, (None, None, None))
    psa_equal(len(scene.selected_items), 0, 'selected_items')
    a.selected = True
    c.selected = True
    items = scene.selected_items
    psa_equal(len(items), 2, 'selected_items')
    psa_true(items[0] is a, 'selected_items')
    psa_true(items[1] is c, 'selected_items')
    psa_true(not b.selected, 'selected_items')
    scene.unselect_items()
    psa_equal(len(scene.selected_items), 0, 'unselect_items')
    psa_true(not a.selected, 'unselect_items')

def law_N04_defaults():
    scene = GraphicScene()
    item, = segments(scene, (None,))
    psa_true(item.visible, 'GraphicItem')
    psa_true(not item.selected, 'GraphicItem')
    psa_equal(item.z_value, 0, 'GraphicItem')
    psa_true(item.dirty, 'GraphicItem')

def law_N04_user_data():
    scene = GraphicScene()
    x = Segment2D(point('p'), point('q'))
    y = Segment2D(point('r'), point('s'))
    z = Segment2D(point('t'), point('u'))
    a, b, c, d = segments(scene, (x, y, x, None))
    items = scene.item_for_user_data(x)
    psa_equal(len(items), 2, 'item_for_user_data')
    psa_true(items[0] is a, 'item_for_user_data')
    psa_true(items[1] is c, 'item_for_user_data')
    items = scene.item_for_user_data(y)
    psa_equal(len(items), 1, 'item_for_user_data')
    psa_true(items[0] is b, 'item_for_user_data')
    psa_true(scene.item_for_user_data(z) is None, 'item_for_user_data')
    scene.remove_item(a)
    items = scene.item_for_user_data(x)
    psa_equal(len(items), 1, 'remove_item')
    psa_true(items[0] is c, 'remove_item')
    psa_equal(len(scene), 3, 'remove_item')
    scene.remove_item(d)
    psa_equal(len(scene), 2, 'remove_item')
    items = list(scene)
    psa_true(items[0] is b, 'remove_item')
    psa_true(items[1] is c, 'remove_item')

####################################################################################################
# the boxes

def boxed(scene, tag):
    # a rectangle of known orientation
    x = psa_x(tag + '.x')
    y = psa_y(tag + '.y')
    w = psa_positive(tag + '.w')
    h = psa_positive(tag + '.h')
    item = scene.rectangle(Vector2D(x, y), Vector2D(x + w, y + h), GraphicPathStyle(), user_data=None)
    return item, (x, y, x + w, y + h)

def box_same(box, values, label):
    for x, y in zip(box, values):
        psa_equal(x, y, label)
    psa_equal(len(box), 4, label)

def law_N05_update():
    scene = GraphicScene()
    a, box_a = boxed(scene, 'a')
    b, box_b = boxed(scene, 'b')
    scene.update_rtree()
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 2, 'update_rtree')
    psa_equal(boxes[0][0], id(a), 'update_rtree')
    psa_equal(boxes[1][0], id(b), 'update_rtree')
    box_same(boxes[0][1], box_a, 'update_rtree')
    box_same(boxes[1][1], box_b, 'update_rtree')
    # nothing to do
    scene.update_rtree()
    psa_equal(len(scene._rtree.boxes), 2, 'update_rtree')
    # an item is added
    c, box_c = boxed(scene, 'c')
    scene.update_rtree()
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 3, 'update_rtree')
    box_same(boxes[2][1], box_c, 'update_rtree')
    # an item is removed
    scene.remove_item(a)
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 2, 'remove_item box')
    psa_equal(boxes[0][0], id(b), 'remove_item box')
    psa_equal(boxes[1][0], id(c), 'remove_item box')

def law_N05_moved():
    # the box follows a position which moved
    scene = GraphicScene()
    x = psa_x('x')
    y = psa_y('y')
    w = psa_positive('w')
    h = psa_positive('h')
    scene.add_coordinate('A', Vector2D(x, y))
    scene.add_coordinate('B', Vector2D(x + w, y + h))
    item = scene.rectangle('A', 'B', GraphicPathStyle(), user_data=None)
    scene.update_rtree()
    d = psa_dx('d')
    scene.add_coordinate('A', Vector2D(x + d, y))
    scene.add_coordinate('B', Vector2D(x + d + w, y + h))
    item.dirty = True
    scene.update_rtree()
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 1, 'update_rtree moved item')
    psa_equal(boxes[0][0], id(item), 'update_rtree moved item')
    box_same(boxes[0][1], (x + d, y, x + d + w, y + h), 'update_rtree moved item')
    # and also when the geometry was asked for in between
    scene.add_coordinate('A', Vector2D(x, y))
    scene.add_coordinate('B', Vector2D(x + w, y + h))
    item.dirty = True
    same(item.geometry.p0, Vector2D(x, y), 'GraphicItem.dirty')
    scene.update_rtree()
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 1, 'update_rtree moved item')
    box_same(boxes[0][1], (x, y, x + w, y + h), 'update_rtree moved item')

def law_N05_cubic():
    # the cubic points of a quadratic curve follow its positions
    scene = GraphicScene()
    x = psa_x('x')
    y = psa_y('y')
    scene.add_coordinate('A', Vector2D(x, y))
    p1 = point('p1')
    p2 = point('p2')
    item = scene.quadratic_bezier('A', p1, p2, GraphicPathStyle(), user_data=None)
    points_same(item.cubic_positions, QuadraticBezier2D(Vector2D(x, y), p1, p2).to_cubic().points, 'QuadraticBezierItem.cubic_positions')
    d = psa_dx('d')
    scene.add_coordinate('A', Vector2D(x + d, y))
    item.dirty = True
    points_same(item.cubic_positions, QuadraticBezier2D(Vector2D(x + d, y), p1, p2).to_cubic().points, 'cubic positions of a moved curve')

def law_N05_dirty():
    scene = GraphicScene()
    item, box = boxed(scene, 'a')
    psa_true(item.dirty, 'GraphicItem.dirty')
    geometry = item.geometry
    psa_true(not item.dirty, 'GraphicItem.geometry')
    psa_true(item.geometry is geometry, 'GraphicItem.geometry')
    box_same(item.bounding_box.bounding_box, box, 'GraphicItem.bounding_box')
    item.dirty = True
    psa_true(item.dirty, 'GraphicItem.dirty')
    psa_true(item.geometry is not geometry, 'GraphicItem.dirty')

def law_N05_item_at():
    scene = GraphicScene()
    style = GraphicPathStyle()
    p = point('p')
    a = scene.circle(point('a'), psa_length('ra'), style, user_data=None)
    b = scene.circle(point('b'), psa_length('rb'), style, user_data=None)
    scene.update_rtree()
    r = psa_length('r')
    items = scene.item_at(p, r)
    box_same(scene._rtree.query, (p.x - r, p.y - r, p.x + r, p.y + r), 'item_at')

class Near(GraphicItem):
    # an item at a known distance of everything
    def __init__(self, scene, distance, user_data):
        GraphicItem.__init__(self, scene, user_data)
        self.known = distance

    def get_geometry(self):
        return Segment2D(point('near.p0'), point('near.p1'))

    def distance_to_point(self, p):
        return self.known

class Unknown(Near):
    def distance_to_point(self, p):
        raise NotImplementedError

def law_N05_item_at_distance():
    d = psa_positive('d')
    e = psa_positive('e')
    f = psa_positive('f')
    scene = GraphicScene()
    c = scene.add_item(Near, d + e, None)
    far = scene.add_item(Near, d + e + f + psa_positive('g'), None)
    a = scene.add_item(Near, 0, None)
    none = scene.add_item(Near, None, None)
    b = scene.add_item(Near, d, None)
    unknown = scene.add_item(Unknown, None, None)
    limit = scene.add_item(Near, d + e + f, None)
    scene.update_rtree()
    pairs = scene.item_at(point('p'), d + e + f)
    psa_equal(len(pairs), 4, 'item_at distance')
    for pair, item, distance in zip(pairs, (a, b, c, limit), (0, d, d + e, d + e + f)):
        psa_true(pair[1] is item, 'item_at order')
        psa_equal(pair[0], distance, 'item_at order')

def law_N05_item_in_bounding_box():
    scene = GraphicScene()
    a, box_a = boxed(scene, 'a')
    b, box_b = boxed(scene, 'b')
    scene.update_rtree()
    box = (psa_x('x0'), psa_y('y0'), psa_x('x1'), psa_y('y1'))
    items = scene.item_in_bounding_box(box)
    box_same(scene._rtree.query, box, 'item_in_bounding_box')
    psa_equal(len(items), 2, 'item_in_bounding_box')
    psa_true(items[0] is a, 'item_in_bounding_box')
    psa_true(items[1] is b, 'item_in_bounding_box')

def law_N05_distance():
    scene = GraphicScene()
    source = Circle2D(point('c'), psa_length('r'), domain=AngularDomain(psa_degrees('start'), psa_degrees('stop')))
    item = scene.add_geometry(source, GraphicPathStyle())
    p = point('p')
    psa_equal(item.distance_to_point(p), source.distance_to_point(p), 'GraphicItem.distance_to_point')

####################################################################################################
# styles and units

def law_N06_defaults():
    style = GraphicPathStyle()
    psa_true(style.stroke_style is StrokeStyle.SolidLine, 'GraphicPathStyle')
    psa_equal(style.line_width, 1, 'GraphicPathStyle')
    psa_true(style.stroke_color == Colors.black, 'GraphicPathStyle')
    psa_equal(style.stroke_alpha, 1, 'GraphicPathStyle')
    psa_true(style.fill_color is None, 'GraphicPathStyle')
    psa_equal(style.fill_alpha, 1, 'GraphicPathStyle')
    psa_true(style.cap_style is CapStyle.SquareCap, 'GraphicPathStyle')
    psa_true(style.join_style is JoinStyle.BevelJoin, 'GraphicPathStyle')
    style = GraphicBezierStyle()
    psa_true(style.show_control is False, 'GraphicBezierStyle')
    psa_true(style.control_color is None, 'GraphicBezierStyle')

def full(cls, **kwargs):
    return cls(stroke_style=StrokeStyle.DashLine, line_width=psa_length('w'), stroke_color=Colors.red,
               stroke_alpha=psa_scalar('sa'), fill_color=Colors.blue, fill_alpha=psa_scalar('fa'),
               cap_style=CapStyle.RoundCap, join_style=JoinStyle.MiterJoin, **kwargs)

def check_full(style, label):
    psa_true(style.stroke_style is StrokeStyle.DashLine, label)
    psa_equal(style.line_width, psa_length('w'), label)
    psa_true(style.stroke_color == Colors.red, label)
    psa_equal(style.stroke_alpha, psa_scalar('sa'), label)
    psa_true(style.fill_color == Colors.blue, label)
    psa_equal(style.fill_alpha, psa_scalar('fa'), label)
    psa_true(style.cap_style is CapStyle.RoundCap, label)
    psa_true(style.join_style is JoinStyle.MiterJoin, label)

def law_N06_arguments():
    check_full(full(GraphicPathStyle), 'GraphicPathStyle arguments')
    style = full(GraphicBezierStyle, show_control=True, control_color=Colors.green)
    check_full(style, 'GraphicBezierStyle arguments')
    psa_true(style.show_control is True, 'GraphicBezierStyle arguments')
    psa_true(style.control_color == Colors.green, 'GraphicBezierStyle arguments')

def law_N06_clone():
    style = full(GraphicPathStyle)
    clone = style.clone()
    psa_true(clone is not style, 'GraphicPathStyle.clone')
    check_full(clone, 'GraphicPathStyle.clone')
    clone.line_width = psa_length('v')
    clone.stroke_style = StrokeStyle.DotLine
    clone.stroke_color = Colors.black
    clone.fill_color = None
    check_full(style, 'GraphicPathStyle.clone')
    psa_true(clone.stroke_style is StrokeStyle.DotLine, 'GraphicPathStyle.clone')
    psa_true(clone.fill_color is None, 'GraphicPathStyle.clone')
    style = full(GraphicBezierStyle, show_control=True, control_color=Colors.green)
    clone = style.clone()
    psa_true(isinstance(clone, GraphicBezierStyle), 'GraphicBezierStyle.clone')
    check_full(clone, 'GraphicBezierStyle.clone')
    psa_true(clone.show_control is True, 'GraphicBezierStyle.clone')
    psa_true(clone.control_color == Colors.green, 'GraphicBezierStyle.clone')

def law_N06_setters():
    style = GraphicPathStyle()
    style.stroke_style = StrokeStyle.DashDotLine
    psa_true(style.stroke_style is StrokeStyle.DashDotLine, 'GraphicPathStyle.stroke_style')
    style.cap_style = CapStyle.FlatCap
    psa_true(style.cap_style is CapStyle.FlatCap, 'GraphicPathStyle.cap_style')
    style.join_style = JoinStyle.RoundJoin
    psa_true(style.join_style is JoinStyle.RoundJoin, 'GraphicPathStyle.join_style')
    style.stroke_color = 'red'
    psa_true(style.stroke_color == Colors.red, 'GraphicPathStyle.stroke_color')
    style.fill_color = 'blue'
    psa_true(style.fill_color == Colors.blue, 'GraphicPathStyle.fill_color')
    psa_true(style.stroke_color == Colors.red, 'GraphicPathStyle.fill_color')
    style.stroke_alpha = psa_scalar('a')
    style.fill_alpha = psa_scalar('b')
    psa_equal(style.stroke_alpha, psa_scalar('a'), 'GraphicPathStyle.stroke_alpha')
    psa_equal(style.fill_alpha, psa_scalar('b'), 'GraphicPathStyle.fill_alpha')
    style.line_width = MmUnit(psa_scalar('w'))
    psa_equal(style.line_width_as_float, psa_scalar('w'), 'GraphicPathStyle.line_width_as_float')

def law_N06_falsy_values():
    # zero, False and None are values
    style = GraphicPathStyle(line_width=0, stroke_color=None, stroke_alpha=0, fill_alpha=0, fill_color=None)
    for s in [style, style.clone()]:
        psa_equal(s.line_width, 0, 'line width zero')
        psa_equal(s.line_width_as_float, 0, 'line width zero')
        psa_true(s.stroke_color is None, 'no stroke colour')
        psa_equal(s.stroke_alpha, 0, 'transparent stroke')
        psa_equal(s.fill_alpha, 0, 'transparent fill')
        psa_true(s.fill_color is None, 'no fill colour')
    style = GraphicBezierStyle(line_width=0, show_control=False, control_color=None, stroke_color=None)
    for s in [style, style.clone()]:
        psa_equal(s.line_width, 0, 'line width zero')
        psa_true(s.show_control is False, 'no control')
        psa_true(s.control_color is None, 'no control colour')
        psa_true(s.stroke_color is None, 'no stroke colour')

def law_N06_set_again():
    style = GraphicBezierStyle(stroke_color='red', fill_color='#0a80ff', control_color='green', line_width=2, show_control=1)
    psa_equal(str(style.fill_color), '#0a80ff', 'colour given as a text')
    psa_true(style.show_control is True, 'a flag')
    style.stroke_color = None
    style.fill_color = None
    style.control_color = None
    style.show_control = 0
    psa_true(style.stroke_color is None, 'stroke colour set to None')
    psa_true(style.fill_color is None, 'fill colour set to None')
    psa_true(style.control_color is None, 'control colour set to None')
    psa_true(style.show_control is False, 'a flag')
    for value in [0, 2.5, 10, psa_length('w')]:
        style.line_width = value
        psa_equal(style.line_width, value, 'line width set')
    style.line_width = .1
    psa_equal(style.line_width_as_float, .1, 'line width as a float')
    for value in [0, .25, 1]:
        style.stroke_alpha = value
        style.fill_alpha = 1 - value
        psa_equal(style.stroke_alpha, value, 'alpha set')
        psa_equal(style.fill_alpha, 1 - value, 'alpha set')
    for s in StrokeStyle:
        style.stroke_style = s
        psa_true(style.stroke_style is s, 'stroke style set')
    for s in CapStyle:
        style.cap_style = s
        psa_true(style.cap_style is s, 'cap style set')
    for s in JoinStyle:
        style.join_style = s
        psa_true(style.join_style is s, 'join style set')

def law_N06_refused_colors():
    for name in ['stroke_color', 'fill_color', 'control_color']:
        style = GraphicBezierStyle(stroke_color='red', fill_color='red', control_color='red')
        try:
            setattr(style, name, 12)
        except ValueError:
            psa_true(True, 'not a colour')
        else:
            psa_true(False, 'not a colour')
        psa_true(getattr(style, name) == Colors.red, 'not a colour')

def law_N06_independent():
    a = GraphicBezierStyle(line_width=2, show_control=True, control_color='red')
    b = a.clone()
    c = b.clone()
    a.line_width = 3
    a.show_control = False
    a.control_color = 'blue'
    for s in [b, c]:
        psa_equal(s.line_width, 2, 'a clone is independent')
        psa_true(s.show_control is True, 'a clone is independent')
        psa_true(s.control_color == Colors.red, 'a clone is independent')
    psa_true(type(GraphicPathStyle().clone()) is GraphicPathStyle, 'class of a clone')

def law_N06_unit_numbers():
    psa_equal(float(MmUnit(25.4).to_inch()), 1, 'MmUnit')
    psa_equal(float(MmUnit(254).to_point()), 720, 'MmUnit')
    psa_equal(float(InchUnit(.5).to_mm()), 12.7, 'InchUnit')
    psa_equal(float(InchUnit(1.5).to_point()), 108, 'InchUnit')
    psa_equal(float(PointUnit(36).to_inch()), .5, 'PointUnit')
    psa_equal(float(PointUnit(36).to_mm()), 12.7, 'PointUnit')
    psa_equal(float(PointUnit(0).to_mm()), 0, 'PointUnit')
    psa_equal(float(MmUnit(-25.4).to_inch()), -1, 'MmUnit')
    x = MmUnit(3)
    psa_equal(float(x.to_inch().to_point().to_mm()), 3, 'back to millimetres')
    psa_equal(float(x), 3, 'a conversion changes nothing')

def law_N06_units():
    v = psa_scalar('v')
    # 1 in = 25.4 mm = 72 pt
    psa_equal(float(InchUnit(v)), v, 'TypographyUnit')
    psa_equal(float(InchUnit(v).to_inch()), v, 'InchUnit')
    psa_equal(float(InchUnit(v).to_mm()) * 10, v * 254, 'InchUnit')
    psa_equal(float(InchUnit(v).to_point()), v * 72, 'InchUnit')
    psa_equal(float(MmUnit(v).to_mm()), v, 'MmUnit')
    psa_equal(float(MmUnit(v).to_inch()) * 254, v * 10, 'MmUnit')
    psa_equal(float(MmUnit(v).to_point()) * 254, v * 720, 'MmUnit')
    psa_equal(float(PointUnit(v).to_point()), v, 'PointUnit')
    psa_equal(float(PointUnit(v).to_inch()) * 72, v, 'PointUnit')
    psa_equal(float(PointUnit(v).to_mm()) * 720, v * 254, 'PointUnit')
    psa_true(isinstance(InchUnit(v).to_mm(), MmUnit), 'TypographyUnit')
    psa_true(isinstance(InchUnit(v).to_point(), PointUnit), 'TypographyUnit')
    psa_true(isinstance(MmUnit(v).to_inch(), InchUnit), 'TypographyUnit')
    psa_true(isinstance(PointUnit(v).to_mm(), MmUnit), 'TypographyUnit')

####################################################################################################
# combinations

def law_N04_hidden():
    # hidden items are items of the scene
    scene = GraphicScene()
    a, b, c, d = segments(scene, (None, None, None, None))
    a.visible = False
    c.visible = False
    a.selected = True
    b.selected = True
    a.z_value = 5
    psa_true(scene.selected_items[0] is a and scene.selected_items[1] is b, 'selected items, hidden or not')
    psa_equal(len(scene.selected_items), 2, 'selected items, hidden or not')
    psa_equal(len(scene), 4, 'number of items, hidden or not')
    psa_equal(scene.number_of_items, 4, 'number of items, hidden or not')
    for x, y in zip(scene, (a, b, c, d)):
        psa_true(x is y, 'iteration, hidden or not')
    items = list(scene.z_value_iter())
    psa_equal(len(items), 2, 'z_value_iter of the visible items')
    psa_true(items[0] is b and items[1] is d, 'z_value_iter of the visible items')
    scene.unselect_items()
    psa_true(not a.selected and not b.selected, 'unselect_items, hidden or not')
    a.visible = True
    items = list(scene.z_value_iter())
    psa_equal(len(items), 3, 'shown again')
    psa_true(items[2] is a, 'shown again')

def law_N04_user_data_many():
    scene = GraphicScene()
    x = Segment2D(point('p'), point('q'))
    empty = []
    nothing = {}
    a, b, c, d, e = segments(scene, (x, empty, x, x, nothing))
    for data, expected in [(x, (a, c, d)), (empty, (b,)), (nothing, (e,))]:
        items = scene.item_for_user_data(data)
        psa_true(items is not None and len(items) == len(expected), 'items of a datum')
        for i, j in zip(items, expected):
            psa_true(i is j, 'items of a datum')
    # the second, then the last, then the first one
    scene.remove_item(c)
    items = scene.item_for_user_data(x)
    psa_true(items is not None and len(items) == 2, 'second item of a datum removed')
    psa_true(items[0] is a and items[1] is d, 'second item of a datum removed')
    scene.remove_item(d)
    items = scene.item_for_user_data(x)
    psa_true(items is not None and len(items) == 1 and items[0] is a, 'last item of a datum removed')
    scene.remove_item(a)
    psa_true(not scene.item_for_user_data(x), 'all the items of a datum removed')
    f, = segments(scene, (x,))
    items = scene.item_for_user_data(x)
    psa_true(items is not None and len(items) == 1 and items[0] is f, 'an item added again')
    psa_equal(len(scene), 3, 'items left')
    for i, j in zip(scene, (b, e, f)):
        psa_true(i is j, 'items left')

def law_N04_other_scene():
    one, two = GraphicScene(), GraphicScene()
    x = Segment2D(point('p'), point('q'))
    a, b = segments(one, (x, x))
    c, = segments(two, (x,))
    psa_equal(len(one), 2, 'scenes are independent')
    psa_equal(len(two), 1, 'scenes are independent')
    psa_equal(len(two.item_for_user_data(x)), 1, 'scenes are independent')
    psa_true(c.scene is two and a.scene is one, 'scene of an item')
    one.add_coordinate('A', point('a'))
    psa_equal(len(list(two.coordinates)), 0, 'scenes are independent')
    c.selected = True
    psa_equal(len(one.selected_items), 0, 'scenes are independent')

def law_N04_flags():
    scene = GraphicScene()
    a, = segments(scene, (None,))
    a.visible = 0
    psa_true(a.visible is False, 'visible is a boolean')
    a.visible = 'yes'
    psa_true(a.visible is True, 'visible is a boolean')
    a.selected = 1
    psa_true(a.selected is True, 'selected is a boolean')
    a.selected = None
    psa_true(a.selected is False, 'selected is a boolean')
    a.z_value = psa_scalar('z')
    psa_equal(a.z_value, psa_scalar('z'), 'z value')

def law_N04_change_while_drawn():
    # an item whose flag changes is seen by the next iteration
    scene = GraphicScene()
    a, b, c = segments(scene, (None, None, None))
    psa_equal(len(list(scene.z_value_iter())), 3, 'iteration')
    b.z_value = 1
    items = list(scene.z_value_iter())
    psa_true(items[0] is a and items[1] is c and items[2] is b, 'next iteration after a change')
    scene.remove_item(c)
    items = list(scene.z_value_iter())
    psa_equal(len(items), 2, 'next iteration after a removal')
    d, = segments(scene, (None,))
    items = list(scene.z_value_iter())
    psa_equal(len(items), 3, 'next iteration after an addition')
    psa_true(items[0] is a and items[1] is d and items[2] is b, 'next iteration after an addition')

def law_N05_hidden():
    scene = GraphicScene()
    a, box_a = boxed(scene, 'a')
    b, box_b = boxed(scene, 'b')
    a.visible = False
    scene.update_rtree()
    boxes = scene._rtree.boxes
    psa_equal(len(boxes), 2, 'boxes of hidden items')
    box_same(boxes[0][1], box_a, 'boxes of hidden items')
    near = scene.add_item(Near, 0, None)
    near.visible = False
    near.selected = True
    scene.update_rtree()
    psa_true(near in [pair[1] for pair in scene.item_at(point('p'), psa_positive('r'))], 'hidden item at a position')

def law_N05_closed_path():
    # the box of a path follows each step
    scene = GraphicScene()
    item = scene.add_item(PathItem, point('p'), GraphicPathStyle(), None)
    item.line_to(point('q'))
    item.line_to(point('r'))
    psa_true(item.dirty, 'a step')
    psa_equal(len(list(item.geometry)), 2, 'steps')
    psa_true(not item.dirty, 'geometry')
    for step in [lambda: item.line_to(point('s')), lambda: item.quadratic_to(point('t'), point('u')),
                 lambda: item.cubic_to(point('t'), point('u'), point('v')), item.close]:
        item.geometry
        step()
        psa_true(item.dirty, 'a further step')
    psa_true(item.geometry.is_closed, 'closed')
    psa_equal(len(item), 5, 'steps')
    psa_true(item.is_closed, 'closed')

def law_N05_two_moved():
    # several items moved, some of them removed, in several rounds
    scene = GraphicScene()
    w, h = psa_positive('w'), psa_positive('h')
    names = 'ABC'
    items = []
    for name in names:
        scene.add_coordinate(name, Vector2D(psa_x(name), psa_y(name)))
        scene.add_coordinate(name + '2', Vector2D(psa_x(name) + w, psa_y(name) + h))
        items.append(scene.rectangle(name, name + '2', GraphicPathStyle(), user_data=None))
    scene.update_rtree()
    for name, item in zip(names, items):
        if name != 'B':
            scene.add_coordinate(name, Vector2D(psa_x(name) - w, psa_y(name)))
            item.dirty = True
    scene.update_rtree()
    boxes = dict(scene._rtree.boxes)
    psa_equal(len(scene._rtree.boxes), 3, 'one box per item')
    box_same(boxes[id(items[0])], (psa_x('A') - w, psa_y('A'), psa_x('A') + w, psa_y('A') + h), 'box of a moved item')
    box_same(boxes[id(items[1])], (psa_x('B'), psa_y('B'), psa_x('B') + w, psa_y('B') + h), 'box of an item that did not move')
    box_same(boxes[id(items[2])], (psa_x('C') - w, psa_y('C'), psa_x('C') + w, psa_y('C') + h), 'box of a moved item')
    scene.remove_item(items[1])
    scene.remove_item(items[0])
    psa_equal(len(scene._rtree.boxes), 1, 'boxes of the items left')
    psa_equal(scene._rtree.boxes[0][0], id(items[2]), 'boxes of the items left')
    scene.update_rtree()
    psa_equal(len(scene._rtree.boxes), 1, 'boxes of the items left')
    # never in the index
    new, box = boxed(scene, 'new')
    scene.remove_item(new)
    psa_equal(len(scene._rtree.boxes), 1, 'an item that was not yet in the index')

def law_N03_cast_is_new():
    scene = GraphicScene()
    p = point('p')
    scene.add_coordinate('A', p)
    q = scene.cast_position('A')
    psa_true(q is not p, 'a cast position is a new vector')
    r = scene.cast_position(p)
    psa_true(r is not p, 'a cast position is a new vector')
    item = scene.segment('A', p, GraphicPathStyle(), user_data=None)
    item.geometry.p0.x = psa_x('moved')
    same(p, point('p'), 'the geometry of an item has its own points')
    same(scene.cast_position('A'), point('p'), 'the geometry of an item has its own points')

def law_N03_general():
    t = AffineTransformation2D.Translation(displacement('v')) * AffineTransformation2D.Rotation(90)
    scene = GraphicSceneScope(t)
    p, q, r = point('p'), point('q'), point('r')
    scene.add_coordinate('A', p)
    psa_true(scene.transformation is t, 'transformation')
    for x, y in zip(scene.segment('A', q, GraphicPathStyle(), user_data=None).casted_positions, [t * p, t * q]):
        same(x, y, 'rotated and translated')
    item = scene.add_item(PathItem, 'A', GraphicPathStyle(), None)
    item.line_to(q)
    item.line_to('A')
    item.quadratic_to('A', r)
    path = item.get_geometry()
    same(path.p0, t * p, 'path rotated and translated')
    parts = list(path)
    same(parts[0].stop_point, t * q, 'path rotated and translated')
    same(parts[1].stop_point, t * p, 'path rotated and translated')
    same(parts[2].stop_point, t * r, 'path rotated and translated')

def law_N02_own_positions():
    scene = GraphicScene()
    positions = [point('p'), point('q'), point('r')]
    a = scene.polyline(positions, GraphicPathStyle(), user_data=None)
    b = scene.polygon(positions, GraphicPathStyle(), user_data=None)
    positions.append(point('s'))
    psa_equal(len(a.positions), 3, 'positions of a polyline')
    psa_equal(len(b.positions), 3, 'positions of a polygon')
    c = scene.polyline((x for x in positions), GraphicPathStyle(), user_data=None)
    psa_equal(len(c.positions), 4, 'positions from a generator')
    points_same(c.get_geometry().points, positions, 'positions from a generator')

def law_N02_bezier_path_counts():
    scene = GraphicScene()
    p = [point('p' + str(i)) for i in range(8)]
    for degree, n, count in [(1, 1, 0), (1, 2, 1), (1, 4, 3), (2, 1, 0), (2, 3, 1), (2, 7, 3), (3, 1, 0), (3, 4, 1), (3, 7, 2)]:
        items = scene.bezier_path(p[:n], degree, GraphicPathStyle(), user_data=None)
        psa_equal(len(items), count, 'curves of a path')
        for i, item in enumerate(items):
            points_same(item.positions, p[degree*i:degree*i + degree + 1], 'points of a curve')
            psa_true(type(item) is (SegmentItem, QuadraticBezierItem, CubicBezierItem)[degree - 1], 'class of a curve')
    for degree, n in [(2, 2), (2, 4), (3, 2), (3, 3), (3, 5), (3, 6), (0, 3), (4, 5)]:
        try:
            scene.bezier_path(p[:n], degree, GraphicPathStyle(), user_data=None)
        except (ValueError, ZeroDivisionError):
            psa_true(True, 'wrong number of points')
        else:
            psa_true(False, 'wrong number of points')

def law_N01_arc_from_zero():
    # an arc whose start or stop angle is zero
    for start, stop in [(0, 90), (-90, 0), (90, 0), (0, 180)]:
        domain = AngularDomain(start, stop)
        for source in [Circle2D(point('c'), psa_length('r'), domain=domain),
                       Ellipse2D(point('c'), psa_length('rx'), psa_length('ry'), 30, domain=domain)]:
            scene, style, item = put(source)
            psa_equal(item.start_angle, domain.start, 'start angle of an arc')
            psa_equal(item.stop_angle, domain.stop, 'stop angle of an arc')
            psa_true(not item.is_closed, 'an arc is open')
            psa_equal(item.get_geometry().domain.start, domain.start, 'start angle of the geometry of an arc')
            psa_equal(item.get_geometry().domain.stop, domain.stop, 'stop angle of the geometry of an arc')

def law_N02_closed_flag():
    style = GraphicPathStyle()
    for closed in (False, True):
        path = Path2D(point('p'))
        path.line_to(point('q'), absolute=True)
        path.line_to(point('r'), absolute=True)
        if closed:
            path.close()
        item = GraphicScene().add_path(path, style, as_segments=False)
        psa_true(item.is_closed is closed, 'closed path item')
        psa_true(item.get_geometry().is_closed is closed, 'closed path item')
        psa_true(item.path_style is style, 'style of a path item')
        psa_true(item.user_data is None, 'user data of a path item')
        data = Segment2D(point('a'), point('b'))
        items = GraphicScene().add_path(path, style, data)
        for x in items:
            psa_true(x.user_data is data, 'user data of the segments')
            psa_true(x.path_style is style, 'style of the segments')
        for x in GraphicScene().add_path(path, style):
            psa_true(x.user_data is path, 'user data of the segments')

####################################################################################################
# near distances, removed after a change

def law_N05_near_distances():
    # nearest first, whatever the size of the distances
    for factor in (1, 1/100, 100):
        scene = GraphicScene()
        items = [scene.add_item(Near, x*factor, None) for x in (.3, .1, .45, .2, .41)]
        scene.update_rtree()
        pairs = scene.item_at(Vector2D(3, 4), .42*factor)
        psa_equal(len(pairs), 4, 'item_at near distances')
        for pair, i in zip(pairs, (1, 3, 0, 4)):
            psa_true(pair[1] is items[i], 'item_at near distances')

def law_N05_changed_then_removed():
    # an item marked as changed has still its box in the index until it is removed
    scene = GraphicScene()
    a, box_a = boxed(scene, 'a')
    b, box_b = boxed(scene, 'b')
    c, box_c = boxed(scene, 'c')
    scene.update_rtree()
    b.dirty = True
    scene.remove_item(b)
    psa_equal(len(scene._rtree.boxes), 2, 'remove_item after a change')
    a.visible = False
    c.selected = True
    scene.remove_item(c)
    psa_equal(len(scene._rtree.boxes), 1, 'remove_item selected')
    scene.remove_item(a)
    psa_equal(len(scene._rtree.boxes), 0, 'remove_item hidden')
    scene.update_rtree()
    psa_equal(len(scene._rtree.boxes), 0, 'update_rtree after remove_item')
    psa_equal(scene.number_of_items, 0, 'update_rtree after remove_item')

def law_N02_short_closed_path_item():
    # a closed path of two parts: a curve and its chord
    path = Path2D(point('p0'))
    path.quadratic_to(point('p1'), point('p2'), absolute=True)
    path.close()
    scene = GraphicScene()
    style = GraphicPathStyle()
    item = scene.add_path(path, style, as_segments=False)
    psa_true(item.is_closed, 'add_as_path closed curve')
    geometry = item.get_geometry()
    psa_true(geometry.is_closed, 'add_as_path closed curve')
    points_same(geometry[0].points, path[0].points, 'add_as_path closed curve')
    items = scene.add_path(path, style)
    psa_equal(len(items), 2, 'add_as_path_segments closed curve')
    points_same(items[0].get_geometry().points, path[0].points, 'add_as_path_segments closed curve')
    points_same(items[1].get_geometry().points, (point('p2'), point('p0')), 'add_as_path_segments closed curve')
