"""Laws of the sketches, analysed and never executed (see laws_geometry)."""

from psa_seeds.geometry import point, displacement

from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicStyle import Colors, StrokeStyle
from Patro.Pattern import SketchOperation
from Patro.Pattern.Calculator import Calculator, Expression, NamedExpression
from Patro.Pattern.Pattern import Pattern
from Patro.Pattern.SketchStyle import DetailSketchStyle


class Measure:
    def __init__(self, name, value):
        self.name = name
        self.value = value

    def __float__(self):
        return self.value


class Measures:
    def __init__(self, values):
        self.values = [Measure(name, value) for name, value in values.items()]

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, name):
        for x in self.values:
            if x.name == name.replace('@', 'C_'):
                return x
        raise KeyError(name)


def measures():
    return Measures({'height': psa_length('height'), 'waist': psa_length('waist'), 'C_ease': psa_length('ease')})

def new_sketch(measurements=None):
    return Pattern(measurements, 'cm').add_scope('piece').sketch

def offset():
    return displacement('label')

def same(p, q, label):
    psa_equal(p.x, q.x, label)
    psa_equal(p.y, q.y, label)

def start(*names):
    """A sketch with single points at known places."""
    sketch = new_sketch(measures())
    for name in names:
        sketch.SinglePoint(name, psa_x(name + '.x'), psa_y(name + '.y'), offset())
    return sketch

def place(name):
    return Vector2D(psa_x(name + '.x'), psa_y(name + '.y'))

def vector(sketch, name):
    return sketch.get_operation(name).vector

####################################################################################################
# points

def law_P01_single():
    sketch = start('A')
    sketch.eval()
    same(vector(sketch, 'A'), place('A'), 'SinglePoint')
    same(sketch.get_operation('A').geometry(), place('A'), 'Point.geometry')

def law_P01_along_line():
    sketch = start('A', 'B')
    l = psa_length('l')
    sketch.AlongLinePoint('C', 'A', 'B', l, offset())
    sketch.eval()
    d = place('B') - place('A')
    c = vector(sketch, 'C') - place('A')
    psa_equal(c.x * d.magnitude, d.x * l, 'AlongLinePoint')
    psa_equal(c.y * d.magnitude, d.y * l, 'AlongLinePoint')

def law_P01_end_line():
    sketch = start('A')
    l = psa_length('l')
    a = psa_degrees('a')
    sketch.EndLinePoint('C', 'A', a, l, offset())
    sketch.eval()
    same(vector(sketch, 'C'), place('A') + Vector2D.from_angle(a) * l, 'EndLinePoint')

def law_P01_line_intersect():
    sketch = start('A', 'B', 'C', 'D')
    sketch.LineIntersectPoint('E', 'A', 'B', 'C', 'D', offset())
    sketch.eval()
    e = vector(sketch, 'E')
    # on both lines
    psa_equal((e - place('A')).cross(place('B') - place('A')), 0, 'LineIntersectPoint')
    psa_equal((e - place('C')).cross(place('D') - place('C')), 0, 'LineIntersectPoint')

def law_P01_normal():
    sketch = start('A', 'B')
    l = psa_length('l')
    sketch.NormalPoint('C', 'A', 'B', 0, l, offset())
    a = psa_positive_number('a')
    sketch.NormalPoint('D', 'A', 'B', a, l, offset())
    sketch.eval()
    d = place('B') - place('A')
    n = Vector2D(-d.y, d.x)
    c = vector(sketch, 'C') - place('A')
    psa_equal(c.x * d.magnitude, n.x * l, 'NormalPoint')
    psa_equal(c.y * d.magnitude, n.y * l, 'NormalPoint')
    c = vector(sketch, 'D') - place('A')
    r = n.rotate(a)
    psa_equal(c.x * d.magnitude, r.x * l, 'NormalPoint angle')
    psa_equal(c.y * d.magnitude, r.y * l, 'NormalPoint angle')

def law_P01_point_of_intersection():
    sketch = start('A', 'B')
    sketch.PointOfIntersection('C', 'A', 'B', offset())
    sketch.eval()
    psa_equal(vector(sketch, 'C').x, place('A').x, 'PointOfIntersection')
    psa_equal(vector(sketch, 'C').y, place('B').y, 'PointOfIntersection')

def law_P01_line():
    sketch = start('A', 'B')
    line = sketch.Line('A', 'B')
    sketch.eval()
    same(line.geometry().p0, place('A'), 'Line.geometry')
    same(line.geometry().p1, place('B'), 'Line.geometry')
    psa_true(line.line_style is StrokeStyle.SolidLine, 'Line defaults')
    psa_true(line.line_color == Colors.black, 'Line defaults')

def law_P01_spline():
    sketch = start('A', 'B')
    l = psa_length('l')
    m = psa_length('m')
    a = psa_degrees('a')
    b = psa_degrees('b')
    spline = sketch.SimpleInteractiveSpline('A', 'B', a, l, b, m)
    sketch.eval()
    same(spline.control_point1, place('A') + Vector2D.from_angle(a) * l, 'SimpleInteractiveSpline')
    same(spline.control_point2, place('B') + Vector2D.from_angle(b) * m, 'SimpleInteractiveSpline')
    curve = spline.geometry()
    same(curve.p0, place('A'), 'SimpleInteractiveSpline.geometry')
    same(curve.p1, spline.control_point1, 'SimpleInteractiveSpline.geometry')
    same(curve.p2, spline.control_point2, 'SimpleInteractiveSpline.geometry')
    same(curve.p3, place('B'), 'SimpleInteractiveSpline.geometry')

def law_P01_spline_not_evaluated():
    sketch = start('A', 'B')
    spline = sketch.SimpleInteractiveSpline('A', 'B', psa_degrees('a'), psa_length('l'), psa_degrees('b'), psa_length('m'))
    try:
        spline.geometry()
    except NameError:
        psa_true(True, 'SimpleInteractiveSpline.geometry not evaluated')
    else:
        psa_true(False, 'SimpleInteractiveSpline.geometry not evaluated')

def law_P01_contact():
    l = psa_positive('l')
    sketch = new_sketch(measures())
    sketch.SinglePoint('A', -2*l, 0, offset())
    sketch.SinglePoint('B', 4*l, 0, offset())
    sketch.SinglePoint('C', 0, 0, offset())
    sketch.PointOfContact('D', 'A', 'B', 'C', 3*l, offset())
    sketch.PointOfContact('E', 'B', 'A', 'C', 3*l, offset())
    sketch.eval()
    psa_true(vector(sketch, 'D') is not None, 'PointOfContact')
    same(vector(sketch, 'D'), Vector2D(3*l, 0), 'PointOfContact')
    same(vector(sketch, 'E'), Vector2D(3*l, 0), 'PointOfContact')

def law_P01_no_contact():
    l = psa_positive('l')
    sketch = new_sketch(measures())
    sketch.SinglePoint('A', -2*l, 5*l, offset())
    sketch.SinglePoint('B', 4*l, 5*l, offset())
    sketch.SinglePoint('C', 0, 0, offset())
    sketch.PointOfContact('D', 'A', 'B', 'C', 3*l, offset())
    sketch.eval()
    psa_true(vector(sketch, 'D') is None, 'PointOfContact without intersection')

####################################################################################################
# expressions

def expression(text, points=()):
    sketch = start(*points)
    sketch.eval()
    return Expression(text, sketch.calculator)

def law_P02_measurement():
    psa_equal(expression('height').value, psa_length('height'), 'measurement')
    psa_equal(expression('height/2 - waist*3').value, psa_length('height')/2 - 3*psa_length('waist'), 'measurements')
    psa_equal(expression('-(height + waist)').value, -psa_length('height') - psa_length('waist'), 'measurements')

def law_P02_custom():
    psa_equal(expression('@ease').value, psa_length('ease'), 'custom measurement')
    psa_equal(expression('height + @ease/2').value, psa_length('height') + psa_length('ease')/2, 'custom measurement')

def law_P02_number():
    x = psa_scalar('x')
    psa_equal(expression(x).value, x, 'number')
    psa_equal(expression(12).value, 12, 'number')
    psa_equal(expression('12.5').value, 12.5, 'number')
    psa_equal(expression('2e3').value, 2000, 'number')
    psa_true(expression(12).is_float(), 'is_float')
    psa_true(expression('-12.5').is_float(), 'is_float')
    psa_true(not expression('height').is_float(), 'is_float')
    psa_equal(str(expression('height/2')), 'height/2', 'str')
    psa_equal(expression('height/2').expression, 'height/2', 'expression')

def law_P02_line():
    e = expression('Line_A_B', ['A', 'B'])
    psa_equal(e.value, (place('B') - place('A')).magnitude, 'Line_A_B')
    e = expression('height - Line_A_B*2', ['A', 'B'])
    psa_equal(e.value, psa_length('height') - 2*(place('B') - place('A')).magnitude, 'Line_A_B')

def law_P02_angle_line():
    e = expression('AngleLine_A_B', ['A', 'B'])
    psa_equal(e.value, (place('B') - place('A')).orientation, 'AngleLine_A_B')

def law_P02_current_length():
    sketch = start('A', 'B')
    sketch.AlongLinePoint('C', 'A', 'B', 'CurrentLength/2', offset())
    sketch.eval()
    same(vector(sketch, 'C'), (place('A') + place('B')) * .5, 'CurrentLength')

def law_P02_current_length_normal():
    sketch = start('A', 'B')
    sketch.NormalPoint('C', 'A', 'B', 0, 'CurrentLength', offset())
    sketch.eval()
    d = place('B') - place('A')
    same(vector(sketch, 'C'), place('A') + Vector2D(-d.y, d.x), 'CurrentLength')

def law_P02_dependencies():
    e = expression('Line_A_B + AngleLine_B_C', ['A', 'B', 'C'])
    e.eval()
    names = sorted([x.name for x in e.dependencies])
    psa_true(names == ['A', 'B', 'B', 'C'] or names == ['A', 'B', 'C'], 'dependencies')
    e = expression('height', ['A'])
    e.eval()
    psa_equal(len(e.dependencies), 0, 'no dependencies')

def law_P02_nested_dependencies():
    e = expression('abs(Line_A_B)', ['A', 'B', 'C'])
    e.eval()
    names = sorted([x.name for x in e.dependencies])
    psa_true(names == ['A', 'B'], 'dependencies of arguments')

def law_P02_unknown_name():
    e = expression('foo + 1')
    psa_true(e.value is None, 'unknown name')

def law_P02_dirty():
    sketch = start('A', 'B')
    sketch.eval()
    e = Expression('Line_A_B', sketch.calculator)
    psa_equal(e.value, (place('B') - place('A')).magnitude, 'Line_A_B')
    b = sketch.get_operation('B')
    b._vector = place('C')
    e.set_dirty()
    psa_equal(e.value, (place('C') - place('A')).magnitude, 'value after set_dirty')

def law_P02_known_later():
    sketch = start('A', 'B')
    sketch.eval()
    calculator = sketch.calculator
    e = Expression('later + 2', calculator)
    psa_true(e.value is None, 'unknown name')
    psa_true(e.value is None, 'unknown name again')
    h = psa_scalar('h')
    calculator.cache['later'] = h
    e.set_dirty()
    psa_equal(e.value, h + 2, 'a name known later, after set_dirty')
    k = psa_scalar('k')
    calculator.cache['later'] = k
    e.set_dirty()
    psa_equal(e.value, k + 2, 'a changed name, after set_dirty')

def law_P02_named():
    sketch = new_sketch(measures())
    e = NamedExpression('half', 'height/2', sketch.calculator)
    psa_equal(e.name, 'half', 'NamedExpression')
    psa_equal(e.value, psa_length('height')/2, 'NamedExpression')

####################################################################################################
# the sketch

def law_P03_lookup():
    sketch = new_sketch()
    a = sketch.SinglePoint('A', 0, 0, offset())
    b = sketch.SinglePoint('B', 1, 0, offset(), id=7)
    line = sketch.Line('A', 'B', id=12)
    psa_same_object(sketch.get_operation('A'), a, 'get_operation by name')
    psa_same_object(sketch.get_operation('B'), b, 'get_operation by name')
    psa_same_object(sketch.get_operation(7), b, 'get_operation by id')
    psa_same_object(sketch.get_operation(a.id), a, 'get_operation by generated id')
    psa_same_object(sketch.get_operation(12), line, 'get_operation by id')
    psa_true(sketch.has_operation_id(7), 'has_operation_id')
    psa_true(not sketch.has_operation_id(99), 'has_operation_id')
    psa_equal(len(sketch.operations), 3, 'operations')
    psa_same_object(sketch.operations[0], a, 'operations order')
    psa_same_object(sketch.operations[2], line, 'operations order')
    psa_same_object(line.first_point, a, 'operands by name')
    psa_same_object(sketch.Line(a, 7).second_point, b, 'operands by id')

def law_P03_duplicate():
    sketch = new_sketch()
    sketch.SinglePoint('A', 0, 0, offset(), id=7)
    try:
        sketch.SinglePoint('B', 0, 0, offset(), id=7)
    except NameError:
        psa_true(True, 'duplicate id')
    else:
        psa_true(False, 'duplicate id')
    psa_equal(len(sketch.operations), 1, 'duplicate id is not registered')

def law_P03_dependencies():
    sketch = new_sketch(measures())
    a = sketch.SinglePoint('A', 0, 0, offset())
    b = sketch.SinglePoint('B', 1, 0, offset())
    c = sketch.EndLinePoint('C', 'A', 90, 'height', offset())
    d = sketch.LineIntersectPoint('D', 'A', 'B', 'B', 'C', offset())
    line = sketch.Line('C', 'D')
    psa_equal(len(a.dependencies), 0, 'SinglePoint')
    psa_equal(len(c.dependencies), 1, 'EndLinePoint')
    psa_true(a in c.dependencies, 'EndLinePoint')
    psa_equal(len(d.dependencies), 3, 'LineIntersectPoint')
    psa_true(a in d.dependencies and b in d.dependencies and c in d.dependencies, 'LineIntersectPoint')
    psa_equal(len(line.dependencies), 2, 'Line')
    psa_true(c in line.dependencies and d in line.dependencies, 'Line')

def law_P03_dependencies_others():
    sketch = start('A', 'B', 'C')
    a = sketch.get_operation('A')
    b = sketch.get_operation('B')
    c = sketch.get_operation('C')
    for x in [sketch.AlongLinePoint('D', 'A', 'B', 1, offset()),
              sketch.NormalPoint('E', 'A', 'B', 0, 1, offset()),
              sketch.PointOfIntersection('F', 'A', 'B', offset()),
              sketch.SimpleInteractiveSpline('A', 'B', 10, 1, 20, 1)]:
        psa_equal(len(x.dependencies), 2, 'first and second points')
        psa_true(a in x.dependencies and b in x.dependencies, 'first and second points')
    x = sketch.PointOfContact('G', 'A', 'B', 'C', 1, offset())
    psa_equal(len(x.dependencies), 3, 'PointOfContact')
    psa_true(a in x.dependencies and b in x.dependencies and c in x.dependencies, 'PointOfContact')

def law_P03_expression_dependencies():
    sketch = new_sketch(measures())
    a = sketch.SinglePoint('A', 0, 0, offset())
    b = sketch.SinglePoint('B', psa_positive('l'), 0, offset())
    c = sketch.EndLinePoint('C', 'A', 90, 'Line_A_B', offset())
    sketch.eval()
    same(c.vector, Vector2D(0, psa_positive('l')), 'EndLinePoint')
    psa_equal(len(c.dependencies), 2, 'expression dependencies')
    psa_true(b in c.dependencies, 'expression dependencies')
    nodes = sketch.calculator.dag
    nc = c._dag_node
    psa_equal(len(nc.ancestors), 2, 'graph')
    psa_true(a._dag_node in nc.ancestors and b._dag_node in nc.ancestors, 'graph')
    psa_true(nc in a._dag_node.descendants and nc in b._dag_node.descendants, 'graph')
    psa_true(a._dag_node.is_root and b._dag_node.is_root and not nc.is_root, 'graph roots')
    psa_true(nc.is_leaf and not a._dag_node.is_leaf, 'graph leafs')

def law_P03_bounding_box():
    sketch = new_sketch()
    l = psa_positive('l')
    sketch.SinglePoint('A', 0, 0, offset())
    sketch.SinglePoint('B', l, 2*l, offset())
    sketch.SinglePoint('C', -3*l, l, offset())
    sketch.Line('A', 'B')
    sketch.eval()
    box = sketch.bounding_box
    psa_equal(box.x.inf, -3*l, 'bounding_box')
    psa_equal(box.x.sup, l, 'bounding_box')
    psa_equal(box.y.inf, 0, 'bounding_box')
    psa_equal(box.y.sup, 2*l, 'bounding_box')

def law_P03_detail_scene():
    sketch = start('A', 'B')
    sketch.AlongLinePoint('C', 'A', 'B', psa_length('l'), offset(), StrokeStyle.DashLine, Colors.red)
    sketch.Line('A', 'C', StrokeStyle.DotLine, Colors.blue)
    sketch.SimpleInteractiveSpline('A', 'B', 10, 1, 20, 1)
    sketch.eval()
    scene = sketch.detail_scene()
    same(scene.coordinate('A').position, place('A'), 'coordinates')
    same(scene.coordinate('B').position, place('B'), 'coordinates')
    same(scene.coordinate('C').position, vector(sketch, 'C'), 'coordinates')
    items = list(scene.z_value_iter())
    names = [type(x).__name__ for x in items]
    psa_equal(len([x for x in names if x == 'CircleItem']), 3, 'a circle per point')
    psa_equal(len([x for x in names if x == 'CubicBezierItem']), 1, 'a curve per spline')
    psa_equal(len([x for x in names if x == 'TextItem']), 3, 'a label per point')

####################################################################################################
# detail scene

def items_of(scene, operation):
    return [x for x in scene.z_value_iter() if x.user_data is operation]

def of_class(items, name):
    return [x for x in items if type(x).__name__ == name]

class OtherScene(GraphicScene):
    pass

def styled():
    return DetailSketchStyle(point_size=psa_length('point'), point_color='#010203', font_size=psa_positive_number('font'),
                             label_line_width=psa_positive_number('label'), line_width=psa_positive_number('line'),
                             construction_line_width=psa_positive_number('construction'))

def detail(style=None):
    sketch = start('A', 'B')
    sketch.AlongLinePoint('C', 'A', 'B', psa_length('l'), offset(), StrokeStyle.DashLine, Colors.red)
    sketch.EndLinePoint('D', 'B', psa_degrees('angle'), psa_length('d'), offset(), StrokeStyle.DotLine, Colors.green)
    sketch.NormalPoint('E', 'A', 'B', psa_degrees('normal'), psa_length('e'), offset(), StrokeStyle.DashDotLine, Colors.yellow)
    sketch.PointOfIntersection('F', 'A', 'B', offset())
    sketch.Line('A', 'C', StrokeStyle.SolidLine, Colors.blue)
    sketch.SimpleInteractiveSpline('A', 'B', psa_degrees('a1'), psa_length('l1'), psa_degrees('a2'), psa_length('l2'),
                                   StrokeStyle.DashDotDotLine, Colors.red)
    sketch.eval()
    if style is None:
        return sketch, sketch.detail_scene()
    return sketch, sketch.detail_scene(style=style)

def law_P06_points():
    sketch, scene = detail(styled())
    for name in 'ABCDEF':
        operation = sketch.get_operation(name)
        at = vector(sketch, name)
        circles = of_class(items_of(scene, operation), 'CircleItem')
        psa_equal(len(circles), 1, 'a circle per point')
        same(circles[0].casted_position, at, 'center of the circle')
        psa_equal(circles[0].radius, psa_length('point'), 'radius of the circle')
        psa_equal(str(circles[0].path_style.fill_color), '#010203', 'colour of the circle')
        labels = of_class(items_of(scene, operation), 'TextItem')
        psa_equal(len(labels), 1, 'a label per point')
        psa_equal(labels[0].text, name, 'text of the label')
        psa_equal(labels[0].font.point_size, psa_positive_number('font'), 'font of the label')
        same(labels[0].casted_position, at + Vector2D(offset().x, -offset().y), 'position of the label')
        lines = of_class(items_of(scene, operation), 'SegmentItem')
        same(lines[0].casted_positions[0], at, 'line to the label')
        same(lines[0].casted_positions[1], labels[0].casted_position, 'line to the label')
        psa_equal(lines[0].path_style.line_width, psa_positive_number('label'), 'width of the line to the label')

def law_P06_construction():
    sketch, scene = detail(styled())
    for name, first, stroke, color in [('C', 'A', StrokeStyle.DashLine, Colors.red),
                                       ('D', 'B', StrokeStyle.DotLine, Colors.green),
                                       ('E', 'A', StrokeStyle.DashDotLine, Colors.yellow)]:
        lines = of_class(items_of(scene, sketch.get_operation(name)), 'SegmentItem')
        psa_equal(len(lines), 2, 'a construction line')
        same(lines[1].casted_positions[0], place(first), 'construction line')
        same(lines[1].casted_positions[1], vector(sketch, name), 'construction line')
        psa_equal(lines[1].path_style.line_width, psa_positive_number('construction'), 'width of a construction line')
        psa_equal(lines[1].path_style.stroke_style, stroke, 'style of a construction line')
        psa_equal(str(lines[1].path_style.stroke_color), str(color), 'colour of a construction line')
    for name in 'ABF':
        lines = of_class(items_of(scene, sketch.get_operation(name)), 'SegmentItem')
        psa_equal(len(lines), 1, 'no construction line')

def law_P06_lines():
    sketch, scene = detail(styled())
    line, spline = sketch.operations[-2], sketch.operations[-1]
    items = items_of(scene, line)
    psa_equal(len(items), 1, 'a segment per line')
    psa_equal(type(items[0]).__name__, 'SegmentItem', 'a segment per line')
    same(items[0].casted_positions[0], place('A'), 'segment of a line')
    same(items[0].casted_positions[1], vector(sketch, 'C'), 'segment of a line')
    psa_equal(items[0].path_style.line_width, psa_positive_number('line'), 'width of a line')
    psa_equal(items[0].path_style.stroke_style, StrokeStyle.SolidLine, 'style of a line')
    psa_equal(str(items[0].path_style.stroke_color), str(Colors.blue), 'colour of a line')
    items = items_of(scene, spline)
    psa_equal(len(items), 1, 'a curve per spline')
    psa_equal(type(items[0]).__name__, 'CubicBezierItem', 'a curve per spline')
    for p, q in zip(items[0].casted_positions,
                    [place('A'), spline.control_point1, spline.control_point2, place('B')]):
        same(p, q, 'curve of a spline')
    psa_equal(items[0].path_style.line_width, psa_positive_number('line'), 'width of a curve')
    psa_equal(items[0].path_style.stroke_style, StrokeStyle.DashDotDotLine, 'style of a curve')
    psa_equal(str(items[0].path_style.stroke_color), str(Colors.red), 'colour of a curve')

def law_P06_default():
    sketch, scene = detail()
    style = DetailSketchStyle()
    items = list(scene.z_value_iter())
    psa_equal(len(items), 6*3 + 3 + 2, 'items')
    psa_equal(of_class(items, 'CircleItem')[0].radius, style.point_size, 'default point size')
    psa_equal(items[-1].path_style.line_width, style.line_width, 'default line width')
    psa_equal(len(list(scene.coordinates)), 6, 'a coordinate per point')

def law_P06_scene_class():
    sketch = start('A', 'B')
    sketch.Line('A', 'B')
    sketch.eval()
    scene = sketch.detail_scene(OtherScene)
    psa_true(type(scene) is OtherScene, 'class of the scene')
    psa_equal(len(list(scene.z_value_iter())), 7, 'items')
    again = sketch.detail_scene(OtherScene)
    psa_true(again is not scene, 'a new scene')
    psa_equal(len(list(again.z_value_iter())), 7, 'a new scene')
    box = sketch.bounding_box
    psa_equal(scene.bounding_box.x.inf, box.x.inf, 'bounding box of the scene')
    psa_equal(scene.bounding_box.y.sup, box.y.sup, 'bounding box of the scene')

def law_P06_style():
    style = DetailSketchStyle()
    for name in ['point_size', 'label_line_width', 'line_width', 'construction_line_width']:
        setattr(style, name, psa_positive_number(name))
    for name in ['point_size', 'label_line_width', 'line_width', 'construction_line_width']:
        psa_equal(getattr(style, name), psa_positive_number(name), 'style given by attribute')
    style.point_color = '#040506'
    psa_equal(str(style.point_style.fill_color), '#040506', 'colour of the points')
    psa_equal(style.label_line_style.line_width, psa_positive_number('label_line_width'), 'style of the lines to the labels')

####################################################################################################
# scopes

def law_P05_scopes():
    pattern = Pattern(None, 'cm')
    a = pattern.add_scope('a')
    b = pattern.add_scope('b')
    psa_same_object(pattern.scope('a'), a, 'scope')
    psa_same_object(pattern.scope('b'), b, 'scope')
    psa_same_object(pattern.scope(0), a, 'scope by index')
    psa_same_object(pattern.scope(1), b, 'scope by index')
    psa_true(pattern.scope('c') is None, 'unknown scope')
    psa_true(pattern.scope_names() == ['a', 'b'], 'scope_names')
    psa_equal(b.unit, 'cm', 'unit')
    psa_equal(b.sketch.unit, 'cm', 'unit')
    psa_other_object(a.sketch, b.sketch, 'a sketch per scope')
    psa_other_object(a.sketch.calculator, b.sketch.calculator, 'a calculator per scope')
    pattern.remove_scope('a')
    psa_true(pattern.scope('a') is None, 'remove_scope')
    psa_same_object(pattern.scope('b'), b, 'remove_scope keeps the other')
    pattern.remove_scope('z')
    psa_true(pattern.scope_names() == ['b'], 'remove_scope of an unknown name')

####################################################################################################
# to_python

def law_P04_to_python():
    sketch = new_sketch()
    a = sketch.SinglePoint('A', '1.5', 'height', Vector2D(1, 2))
    psa_equal(a.to_python(), "SinglePoint(sketch, name='A', x=1.5, y='height', label_offset=Vector2D(1.0, 2.0))", 'SinglePoint')
    b = sketch.SinglePoint('B', 0, 0, Vector2D(0, 0))
    c = sketch.EndLinePoint('C', 'A', 90, 'Line_A_B', Vector2D(0, 0))
    psa_equal(c.to_python(), "EndLinePoint(sketch, name='C', base_point='A', angle=90, length='Line_A_B', label_offset=Vector2D(0.0, 0.0), line_style=None, line_color=None)", 'EndLinePoint')

def law_P04_points():
    sketch = start('A', 'B', 'C', 'D')
    o = Vector2D(1, 2)
    x = sketch.AlongLinePoint('E', 'A', 'B', '12.5', o, StrokeStyle.DashLine, Colors.red)
    psa_equal(x.to_python(), "AlongLinePoint(sketch, name='E', first_point='A', second_point='B', length=12.5, label_offset=Vector2D(1.0, 2.0), line_style=StrokeStyle.DashLine, line_color=Color('#ff0000'))", 'AlongLinePoint')
    x = sketch.LineIntersectPoint('F', 'A', 'B', 'C', 'D', o)
    psa_equal(x.to_python(), "LineIntersectPoint(sketch, name='F', point1_line1='A', point2_line1='B', point1_line2='C', point2_line2='D', label_offset=Vector2D(1.0, 2.0))", 'LineIntersectPoint')
    x = sketch.NormalPoint('G', 'B', 'A', '30', 'height', o)
    psa_equal(x.to_python(), "NormalPoint(sketch, name='G', first_point='B', second_point='A', angle=30, length='height', label_offset=Vector2D(1.0, 2.0), line_style=None, line_color=None)", 'NormalPoint')
    x = sketch.PointOfContact('H', 'A', 'B', 'C', '@ease', o)
    psa_equal(x.to_python(), "PointOfContact(sketch, name='H', first_point='A', second_point='B', center='C', radius='@ease', label_offset=Vector2D(1.0, 2.0))", 'PointOfContact')
    x = sketch.PointOfIntersection('I', 'C', 'D', o)
    psa_equal(x.to_python(), "PointOfIntersection(sketch, name='I', first_point='C', second_point='D', label_offset=Vector2D(1.0, 2.0))", 'PointOfIntersection')

def law_P04_lines():
    sketch = start('A', 'B')
    x = sketch.Line('B', 'A', StrokeStyle.DotLine, Colors.blue)
    psa_equal(x.to_python(), "Line(sketch, first_point='B', second_point='A', line_style=StrokeStyle.DotLine, line_color=Color('#0000ff'))", 'Line')
    x = sketch.SimpleInteractiveSpline('A', 'B', '45', 'height/2', '-10', 'waist', StrokeStyle.DashLine, Colors.red)
    psa_equal(x.to_python(), "SimpleInteractiveSpline(sketch, first_point='A', second_point='B', angle1=45, length1='height/2', angle2=-10, length2='waist', line_style=StrokeStyle.DashLine, line_color=Color('#ff0000'))", 'SimpleInteractiveSpline')

####################################################################################################
# negative values, second evaluations, several expressions

def law_P01_negative():
    sketch = start('A', 'B')
    l = psa_positive('l')
    sketch.NormalPoint('C', 'A', 'B', -90, l, offset())
    sketch.NormalPoint('D', 'A', 'B', 180, l, offset())
    sketch.AlongLinePoint('E', 'A', 'B', -l, offset())
    sketch.EndLinePoint('F', 'A', -90, l, offset())
    sketch.EndLinePoint('G', 'A', 0, -l, offset())
    sketch.eval()
    d = place('B') - place('A')
    c = vector(sketch, 'C') - place('A')
    psa_equal(c.x * d.magnitude, d.x * l, 'NormalPoint, negative angle')
    psa_equal(c.y * d.magnitude, d.y * l, 'NormalPoint, negative angle')
    c = vector(sketch, 'D') - place('A')
    psa_equal(c.x * d.magnitude, d.y * l, 'NormalPoint, half a turn')
    psa_equal(c.y * d.magnitude, -d.x * l, 'NormalPoint, half a turn')
    c = vector(sketch, 'E') - place('A')
    psa_equal(c.x * d.magnitude, -d.x * l, 'AlongLinePoint, negative length')
    psa_equal(c.y * d.magnitude, -d.y * l, 'AlongLinePoint, negative length')
    same(vector(sketch, 'F'), place('A') + Vector2D(0, -l), 'EndLinePoint, negative angle')
    same(vector(sketch, 'G'), place('A') + Vector2D(-l, 0), 'EndLinePoint, negative length')

def law_P01_second_evaluation():
    sketch = start('A', 'B', 'C')
    l = psa_positive('l')
    sketch.AlongLinePoint('D', 'A', 'B', l, offset())
    sketch.EndLinePoint('E', 'B', 90, l, offset())
    sketch.NormalPoint('F', 'A', 'B', 0, l, offset())
    sketch.PointOfIntersection('G', 'B', 'C', offset())
    sketch.LineIntersectPoint('H', 'A', 'B', 'B', 'C', offset())
    spline = sketch.SimpleInteractiveSpline('A', 'B', 0, l, 90, 2*l)
    sketch.eval()
    b = sketch.get_operation('B')
    b._x, b._y = Expression('C_ease', sketch.calculator), Expression('height', sketch.calculator)
    sketch.eval()
    p = Vector2D(psa_length('ease'), psa_length('height'))
    d = p - place('A')
    same(vector(sketch, 'B'), p, 'SinglePoint moved')
    c = vector(sketch, 'D') - place('A')
    psa_equal(c.x * d.magnitude, d.x * l, 'AlongLinePoint evaluated again')
    psa_equal(c.y * d.magnitude, d.y * l, 'AlongLinePoint evaluated again')
    same(vector(sketch, 'E'), p + Vector2D(0, l), 'EndLinePoint evaluated again')
    c = vector(sketch, 'F') - place('A')
    psa_equal(c.x * d.magnitude, -d.y * l, 'NormalPoint evaluated again')
    psa_equal(c.y * d.magnitude, d.x * l, 'NormalPoint evaluated again')
    same(vector(sketch, 'G'), Vector2D(p.x, place('C').y), 'PointOfIntersection evaluated again')
    same(vector(sketch, 'H'), p, 'LineIntersectPoint evaluated again')
    same(spline.control_point1, place('A') + Vector2D(l, 0), 'SimpleInteractiveSpline evaluated again')
    same(spline.control_point2, p + Vector2D(0, 2*l), 'SimpleInteractiveSpline evaluated again')
    same(spline.geometry().p3, p, 'SimpleInteractiveSpline.geometry evaluated again')

def law_P01_single_geometry_clone():
    sketch = start('A')
    sketch.eval()
    a = sketch.get_operation('A')
    g = a.geometry()
    psa_true(g is not a.vector, 'geometry is a copy')
    g.x = psa_x('moved')
    same(a.vector, place('A'), 'geometry is a copy')

def law_P01_contact_far_second():
    # the segment reaches the circle once, at its far end or at its near end
    l = psa_positive('l')
    sketch = new_sketch(measures())
    sketch.SinglePoint('A', -4*l, 0, offset())
    sketch.SinglePoint('B', 2*l, 0, offset())
    sketch.SinglePoint('C', 0, 0, offset())
    sketch.PointOfContact('D', 'A', 'B', 'C', 3*l, offset())
    sketch.PointOfContact('E', 'B', 'A', 'C', 3*l, offset())
    sketch.eval()
    same(vector(sketch, 'D'), Vector2D(-3*l, 0), 'PointOfContact, other side')
    same(vector(sketch, 'E'), Vector2D(-3*l, 0), 'PointOfContact, other side')

def law_P02_measurement_names():
    m = Measures({'height': psa_length('height'), 'Height': psa_length('capital'), 'currentlength': psa_length('lower'),
                  'Line': psa_length('line'), 'Spl': psa_length('spl'), 'aLine_b': psa_length('a'), 'h1_2': psa_length('h')})
    calculator = new_sketch(m).calculator
    for name, value in [('height', 'height'), ('Height', 'capital'), ('currentlength', 'lower'), ('Line', 'line'),
                        ('Spl', 'spl'), ('aLine_b', 'a'), ('h1_2', 'h')]:
        psa_equal(Expression(name, calculator).value, psa_length(value), 'measurement called ' + name)
    psa_equal(Expression('height*2+Height', calculator).value, 2*psa_length('height') + psa_length('capital'), 'two names')

def law_P02_several_lines():
    e = expression('Line_A_B - Line_C_A', ['A', 'B', 'C'])
    ab, ca = [(place(x[1]) - place(x[0])).magnitude for x in ('AB', 'CA')]
    psa_equal(e.value, ab - ca, 'several lines')
    e = expression('Line_A_B/Line_B_A + AngleLine_B_A - 1', ['A', 'B'])
    psa_equal(e.value, (place('A') - place('B')).orientation, 'reversed line')
    e = expression('Line_A1_B2', ['A1', 'B2'])
    psa_equal(e.value, (place('B2') - place('A1')).magnitude, 'names with digits')

def law_P02_point_moved():
    # the value asked for again without being marked as dirty is the value kept, an other expression sees the new point
    sketch = start('A', 'B')
    sketch.eval()
    e = Expression('Line_A_B', sketch.calculator)
    first = e.value
    psa_equal(e.value, first, 'value asked for twice')
    sketch.get_operation('B')._vector = place('C')
    psa_equal(Expression('Line_A_B', sketch.calculator).value, (place('C') - place('A')).magnitude, 'another expression')
    e.eval()
    psa_equal(e.value, (place('C') - place('A')).magnitude, 'value after eval')

def law_P02_other_calculator():
    one = new_sketch(Measures({'height': psa_length('one')}))
    two = new_sketch(Measures({'height': psa_length('two')}))
    psa_equal(Expression('height', one.calculator).value, psa_length('one'), 'calculator of the expression')
    psa_equal(Expression('height', two.calculator).value, psa_length('two'), 'calculator of the expression')
    psa_equal(Expression('height', one.calculator).value, psa_length('one'), 'calculator of the expression')
    psa_true('height' in one.calculator.cache, 'cache')
    psa_true(new_sketch(None).calculator.measurements is None, 'no measurements')

def law_P02_current_length_scope():
    # CurrentLength is the one of the operation, for each operation
    sketch = start('A', 'B', 'C')
    sketch.AlongLinePoint('D', 'A', 'B', 'CurrentLength/2', offset())
    sketch.AlongLinePoint('E', 'B', 'C', 'CurrentLength/2', offset())
    sketch.NormalPoint('F', 'A', 'C', 0, 'CurrentLength*2', offset())
    sketch.eval()
    same(vector(sketch, 'D'), (place('A') + place('B')) * .5, 'CurrentLength of each operation')
    same(vector(sketch, 'E'), (place('B') + place('C')) * .5, 'CurrentLength of each operation')
    d = place('C') - place('A')
    same(vector(sketch, 'F'), place('A') + Vector2D(-d.y, d.x)*2, 'CurrentLength of each operation')
    psa_true(sketch.calculator._current_segment is None, 'no current segment afterwards')

def law_P03_two_expressions():
    sketch = start('A', 'B', 'C', 'D')
    x = sketch.NormalPoint('E', 'A', 'B', 'AngleLine_A_C', 'Line_B_D', offset())
    spline = sketch.SimpleInteractiveSpline('A', 'B', 'AngleLine_A_C', 'Line_A_B', 'AngleLine_B_D', 'Line_A_E', id=31)
    y = sketch.EndLinePoint('F', 'A', 'AngleLine_A_B', 'Line_A_B', offset())
    sketch.eval()
    for operation, names in [(x, 'ABCD'), (spline, 'ABCDE'), (y, 'AB')]:
        psa_equal(len(operation.dependencies), len(names), 'dependencies of several expressions')
        psa_equal(len(operation._dag_node.ancestors), len(names), 'graph of several expressions')
        for name in names:
            point = sketch.get_operation(name)
            psa_true(point in operation.dependencies, 'dependencies of several expressions')
            psa_true(point._dag_node in operation._dag_node.ancestors, 'graph of several expressions')
            psa_true(operation._dag_node in point._dag_node.descendants, 'graph of several expressions')
    sketch.eval()
    psa_equal(len(x.dependencies), 4, 'dependencies after a second evaluation')
    psa_equal(len(x._dag_node.ancestors), 4, 'graph after a second evaluation')

def law_P03_chain():
    sketch = start('A', 'B')
    c = sketch.AlongLinePoint('C', 'A', 'B', 'Line_A_B/2', offset())
    d = sketch.AlongLinePoint('D', 'A', 'C', 'Line_A_C/2', offset())
    e = sketch.Line('D', 'D')
    sketch.eval()
    a, b = sketch.get_operation('A'), sketch.get_operation('B')
    psa_equal(len(c.dependencies), 2, 'chain')
    psa_equal(len(d.dependencies), 2, 'chain')
    psa_true(a in d.dependencies and c in d.dependencies and b not in d.dependencies, 'chain')
    psa_equal(len(e.dependencies), 1, 'both ends the same')

def law_P03_lookup_after():
    sketch = start('A', 'B')
    line = sketch.Line('A', 'B', id=40)
    spline = sketch.SimpleInteractiveSpline('A', 'B', 0, 1, 0, 1, id=50)
    c = sketch.SinglePoint('C', 0, 0, offset(), id=60)
    d = sketch.SinglePoint('D', 0, 0, offset())
    for operation in [line, spline, c, d]:
        psa_true(sketch.has_operation_id(operation.id), 'has_operation_id of each')
        psa_same_object(sketch.get_operation(operation.id), operation, 'get_operation of each')
    psa_true(d.id > 60, 'a new id')
    for x in [-5, 41, 'Z', d.id + 1]:
        psa_true(not sketch.has_operation_id(x), 'has_operation_id of others')
        try:
            sketch.get_operation(x)
        except KeyError:
            psa_true(True, 'get_operation of others')
        else:
            psa_true(False, 'get_operation of others')
    psa_true([type(x).__name__ for x in sketch.operations] == ['SinglePoint', 'SinglePoint', 'Line', 'SimpleInteractiveSpline', 'SinglePoint', 'SinglePoint'], 'operations')

def law_P03_duplicate_later():
    sketch = start('A', 'B')
    line = sketch.Line('A', 'B', id=40)
    for build in [lambda: sketch.SinglePoint('C', 0, 0, offset(), id=40), lambda: sketch.Line('A', 'B', id=40),
                  lambda: sketch.EndLinePoint('C', 'A', 0, 1, offset(), id=40)]:
        try:
            build()
        except NameError:
            psa_true(True, 'duplicate id of another class')
        else:
            psa_true(False, 'duplicate id of another class')
    psa_equal(len(sketch.operations), 3, 'duplicates are not registered')
    psa_same_object(sketch.get_operation(40), line, 'the first is kept')
    psa_true(not sketch.has_operation_id('C'), 'duplicates are not registered')

def law_P03_bounding_box_negative():
    l = psa_positive('l')
    sketch = new_sketch()
    sketch.SinglePoint('A', -5*l, -3*l, offset())
    sketch.SinglePoint('B', -l, -2*l, offset())
    sketch.Line('A', 'B')
    sketch.eval()
    box = sketch.bounding_box
    psa_equal(box.x.inf, -5*l, 'bounding_box of negative coordinates')
    psa_equal(box.x.sup, -l, 'bounding_box of negative coordinates')
    psa_equal(box.y.inf, -3*l, 'bounding_box of negative coordinates')
    psa_equal(box.y.sup, -2*l, 'bounding_box of negative coordinates')
    sketch.SinglePoint('C', 7*l, -l, offset())
    sketch.eval()
    box = sketch.bounding_box
    psa_equal(box.x.sup, 7*l, 'bounding_box after an addition')
    psa_equal(box.y.sup, -l, 'bounding_box after an addition')
    psa_true(new_sketch().bounding_box is None, 'bounding_box of nothing')

def law_P04_numbers():
    sketch = start('A', 'B')
    o = Vector2D(.125, -1234567.5)
    x = sketch.SinglePoint('C', '12345678', '-0.001', o)
    psa_equal(x.to_python(), "SinglePoint(sketch, name='C', x=12345678, y=-0.001, label_offset=Vector2D(0.125, -1234567.5))", 'numbers')
    x = sketch.SinglePoint('D', 2.5, -3, o)
    psa_equal(x.to_python(), "SinglePoint(sketch, name='D', x=2.5, y=-3, label_offset=Vector2D(0.125, -1234567.5))", 'numbers')
    x = sketch.AlongLinePoint('E', 'A', 'B', '1.23456789', o, StrokeStyle.SolidLine, Colors.black)
    psa_equal(x.to_python(), "AlongLinePoint(sketch, name='E', first_point='A', second_point='B', length=1.23456789, label_offset=Vector2D(0.125, -1234567.5), line_style=StrokeStyle.SolidLine, line_color=Color('#000000'))", 'numbers')
    x = sketch.NormalPoint('F', 'A', 'B', 'AngleLine_A_B + 10', 'CurrentLength * 2', o, None, Colors.white)
    psa_equal(x.to_python(), "NormalPoint(sketch, name='F', first_point='A', second_point='B', angle='AngleLine_A_B + 10', length='CurrentLength * 2', label_offset=Vector2D(0.125, -1234567.5), line_style=None, line_color=Color('#ffffff'))", 'expressions')
    psa_equal(x.to_python(), x.to_python(), 'called again')

def law_P05_same_names():
    pattern = Pattern(None, 'mm')
    a = pattern.add_scope('a')
    b = pattern.add_scope('b')
    c = pattern.add_scope('a')
    psa_same_object(pattern.scope('a'), a, 'the first of this name')
    psa_same_object(pattern.scope(2), c, 'scope by index')
    psa_same_object(pattern.scope(-1), c, 'scope by negative index')
    psa_true(list(pattern.scopes)[2] is c, 'scopes')
    pattern.remove_scope('a')
    psa_true(pattern.scope_names() == ['b', 'a'], 'remove_scope removes one scope')
    psa_same_object(pattern.scope('a'), c, 'remove_scope removes the first of this name')
    psa_same_object(pattern.scope(0), b, 'remove_scope')
    psa_equal(pattern.unit, 'mm', 'unit')
    psa_equal(len(list(pattern.scopes)), 2, 'scopes')

def law_P05_sketches():
    m = measures()
    pattern = Pattern(m, 'cm')
    a, b = pattern.add_scope('a'), pattern.add_scope('b')
    psa_same_object(a.measurements, m, 'measurements')
    psa_same_object(b.sketch.measurements, m, 'measurements')
    psa_same_object(a.sketch, a.sketch, 'the sketch of a scope')
    psa_same_object(a.sketch.pattern, a, 'scope of a sketch')
    a.sketch.SinglePoint('A', 1, 2, offset())
    b.sketch.SinglePoint('A', 3, 4, offset())
    b.sketch.SinglePoint('B', 5, 6, offset())
    a.sketch.eval()
    b.sketch.eval()
    psa_equal(a.sketch.get_operation('A').vector.x, 1, 'points of each scope')
    psa_equal(b.sketch.get_operation('A').vector.x, 3, 'points of each scope')
    psa_true(not a.sketch.has_operation_id('B'), 'points of each scope')
    psa_equal(Expression('Line_A_B', b.sketch.calculator).value**2, 8, 'points of each calculator')
    psa_equal(len(a.sketch.operations), 1, 'operations of each scope')

####################################################################################################
# names which look alike, offsets of any sign

def law_P02_names_alike():
    m = Measures({'CurrentLength2': psa_length('two'), 'CurrentLengths': psa_length('many'), 'C_EaseBig': psa_length('big'),
                  'C_easebig': psa_length('small'), 'C_lengthLine_x': psa_length('x')})
    calculator = new_sketch(m).calculator
    for name, value in [('CurrentLength2', 'two'), ('CurrentLengths', 'many'), ('@EaseBig', 'big'), ('@easebig', 'small'),
                        ('@lengthLine_x', 'x')]:
        psa_equal(Expression(name, calculator).value, psa_length(value), 'measurement called ' + name)
    psa_equal(Expression('@EaseBig - @easebig*2', calculator).value, psa_length('big') - 2*psa_length('small'), 'two names alike')

def law_P02_unknown_again():
    # a name which is not known any more leaves the expression without value
    calculator = new_sketch(None).calculator
    calculator.cache['later'] = psa_scalar('h')
    e = Expression('later', calculator)
    psa_equal(e.value, psa_scalar('h'), 'known name')
    del calculator.cache['later']
    e.eval()
    psa_true(e.value is None, 'a name which is not known any more')

def law_P03_points_of_expressions():
    sketch = start('A', 'B', 'C', 'D')
    x = sketch.EndLinePoint('E', 'A', 'AngleLine_B_C', 'Line_D_A', offset())
    y = sketch.EndLinePoint('F', 'A', '0', 'Line_C_A + Line_D_A', offset())
    sketch.eval()
    for operation, names in [(x, 'ABCD'), (y, 'ACD')]:
        psa_equal(len(operation.dependencies), len(names), 'points named by expressions')
        for name in names:
            psa_true(sketch.get_operation(name) in operation.dependencies, 'points named by expressions')

def law_P05_case():
    pattern = Pattern(None, 'mm')
    a = pattern.add_scope('front')
    b = pattern.add_scope('Front')
    c = pattern.add_scope('Front 2')
    psa_same_object(pattern.scope('front'), a, 'names with capitals')
    psa_same_object(pattern.scope('Front'), b, 'names with capitals')
    psa_same_object(pattern.scope('Front 2'), c, 'names with capitals')
    psa_true(pattern.scope('FRONT') is None, 'names with capitals')
    pattern.remove_scope('FRONT')
    psa_equal(len(pattern.scope_names()), 3, 'names with capitals')
    pattern.remove_scope('Front')
    psa_true(pattern.scope_names() == ['front', 'Front 2'], 'names with capitals')

def law_P06_offsets():
    for x, y in [(0, -2), (0, 2), (3, 0), (-3, 0), (-1, -2), (0, 0)]:
        sketch = new_sketch()
        a = sketch.SinglePoint('A', 1, 2, Vector2D(x, y))
        sketch.eval()
        scene = sketch.detail_scene()
        labels = of_class(items_of(scene, a), 'TextItem')
        lines = of_class(items_of(scene, a), 'SegmentItem')
        psa_equal(len(labels), 1, 'label at any offset')
        same(labels[0].casted_position, Vector2D(1 + x, 2 - y), 'label at any offset')
        if x or y:
            psa_equal(len(lines), 1, 'label at any offset')

def law_P02_letters():
    calculator = Calculator(Measures({'C_été': psa_length('summer'), 'C_x1': psa_length('one'), 'dos': psa_length('dos'),
                                      'C_höhe_2': psa_length('high'), 'taille_é': psa_length('waist')}))
    for text, value in [('@été', psa_length('summer')), ('dos + @été/2', psa_length('dos') + psa_length('summer')/2),
                        ('@höhe_2*2 - @x1', psa_length('high')*2 - psa_length('one')),
                        ('taille_é', psa_length('waist')), ('@x1+taille_é*3', psa_length('one') + psa_length('waist')*3),
                        ('(@été-@höhe_2)', psa_length('summer') - psa_length('high'))]:
        psa_equal(Expression(text, calculator).value, value, 'measurement in ' + text)
