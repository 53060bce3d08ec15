"""Laws of the Valentina files, analysed and never executed (see laws_geometry)."""

import io

from lxml import etree

from Patro.Common.Xml.Objectivity import (
    Attribute, BoolAttribute, FloatAttribute, FloatListAttribute, IntAttribute, StringAttribute,
    TextXmlObjectAdaptator, XmlObjectAdaptator,
)
from Patro.Common.Xml.XmlFile import XmlFileMixin
from Patro.FileFormat.Valentina import Pattern as ValentinaPattern
from Patro.FileFormat.Valentina.Measurement import VitFile
from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter, CalculationDispatcher, Modeling
from Patro.FileFormat.Valentina.VitFormat import (
    Detail, DetailData, DetailGrainline, DetailNode, ModelingPoint, ModelingSpline,
)
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicStyle import Colors, StrokeStyle
from Patro.Measurement.PersonalData import Gender
from Patro.Pattern import SketchOperation
from Patro.Pattern.Pattern import Pattern


def element(tag, **attributes):
    return etree.Element(tag, attributes)

def children(root, tag):
    return [x for x in root if x.tag == tag]

def child(root, tag):
    return children(root, tag)[0]

def new_sketch():
    return Pattern(None, 'cm').add_scope('piece').sketch

def text(tag):
    """The text of a number in a file."""
    return str(psa_scalar(tag))

def offset_is(operation, mx, my, label):
    psa_equal(operation.label_offset.x, psa_scalar(mx), label)
    psa_equal(operation.label_offset.y, psa_scalar(my), label)

def points(sketch):
    """Four points with the ids 1, 2, 3 and 4."""
    for i, name in [(1, 'A'), (2, 'B'), (3, 'C'), (4, 'D')]:
        CalculationDispatcher().from_xml(
            element('point', id=str(i), name=name, x=text(name + 'x'), y=text(name + 'y'), mx=text('mx'), my=text('my'),
                    type='single')).to_operation(sketch)
    return sketch

def read(sketch, tag, **attributes):
    return CalculationDispatcher().from_xml(element(tag, **attributes)).to_operation(sketch)

def is_point(operation, cls, id, label):
    psa_true(type(operation) is cls, label)
    psa_equal(operation.id, id, label + ' id')
    psa_equal(operation.name, psa_word('name'), label + ' name')
    offset_is(operation, 'mx', 'my', label + ' label offset')

####################################################################################################
# reading an operation

def law_V01_single():
    sketch = new_sketch()
    p = read(sketch, 'point', id='7', name=psa_word('name'), x=psa_word('x'), y=psa_word('y'), mx=text('mx'),
             my=text('my'), type='single')
    is_point(p, SketchOperation.SinglePoint, 7, 'single')
    psa_equal(p.x.expression, psa_word('x'), 'single x')
    psa_equal(p.y.expression, psa_word('y'), 'single y')
    psa_same_object(sketch.get_operation(7), p, 'single registered')

def law_V01_along_line():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), firstPoint='2', secondPoint='1', length=psa_word('l'),
             typeLine='dashLine', lineColor='blue', mx=text('mx'), my=text('my'), type='alongLine')
    is_point(p, SketchOperation.AlongLinePoint, 7, 'alongLine')
    psa_equal(p.first_point.name, 'B', 'alongLine first point')
    psa_equal(p.second_point.name, 'A', 'alongLine second point')
    psa_equal(p.length.expression, psa_word('l'), 'alongLine length')
    psa_true(p.line_style is StrokeStyle.DashLine, 'alongLine style')
    psa_true(p.line_color == Colors.blue, 'alongLine color')

def law_V01_end_line():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), basePoint='3', length=psa_word('l'), angle=psa_word('a'),
             typeLine='hair', lineColor='green', mx=text('mx'), my=text('my'), type='endLine')
    is_point(p, SketchOperation.EndLinePoint, 7, 'endLine')
    psa_equal(p.base_point.name, 'C', 'endLine base point')
    psa_equal(p.length.expression, psa_word('l'), 'endLine length')
    psa_equal(p.angle.expression, psa_word('a'), 'endLine angle')
    psa_true(p.line_style is StrokeStyle.SolidLine, 'endLine style')
    psa_true(p.line_color == Colors.green, 'endLine color')

def law_V01_line_intersect():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), p1Line1='4', p2Line1='3', p1Line2='2', p2Line2='1',
             mx=text('mx'), my=text('my'), type='lineIntersect')
    is_point(p, SketchOperation.LineIntersectPoint, 7, 'lineIntersect')
    psa_equal(p.point1_line1.name, 'D', 'lineIntersect p1Line1')
    psa_equal(p.point2_line1.name, 'C', 'lineIntersect p2Line1')
    psa_equal(p.point1_line2.name, 'B', 'lineIntersect p1Line2')
    psa_equal(p.point2_line2.name, 'A', 'lineIntersect p2Line2')

def law_V01_normal():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), firstPoint='2', secondPoint='4', length=psa_word('l'),
             angle=psa_word('a'), typeLine='none', lineColor='orange', mx=text('mx'), my=text('my'), type='normal')
    is_point(p, SketchOperation.NormalPoint, 7, 'normal')
    psa_equal(p.first_point.name, 'B', 'normal first point')
    psa_equal(p.second_point.name, 'D', 'normal second point')
    psa_equal(p.length.expression, psa_word('l'), 'normal length')
    psa_equal(p.angle.expression, psa_word('a'), 'normal angle')
    psa_true(p.line_style is StrokeStyle.NoPen, 'normal style')

def law_V01_contact():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), firstPoint='2', secondPoint='4', center='3',
             radius=psa_word('r'), mx=text('mx'), my=text('my'), type='pointOfContact')
    is_point(p, SketchOperation.PointOfContact, 7, 'pointOfContact')
    psa_equal(p.first_point.name, 'B', 'pointOfContact first point')
    psa_equal(p.second_point.name, 'D', 'pointOfContact second point')
    psa_equal(p.center.name, 'C', 'pointOfContact center')
    psa_equal(p.radius.expression, psa_word('r'), 'pointOfContact radius')

def law_V01_intersection():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name=psa_word('name'), firstPoint='4', secondPoint='2', mx=text('mx'),
             my=text('my'), type='pointOfIntersection')
    is_point(p, SketchOperation.PointOfIntersection, 7, 'pointOfIntersection')
    psa_equal(p.first_point.name, 'D', 'pointOfIntersection first point')
    psa_equal(p.second_point.name, 'B', 'pointOfIntersection second point')

def law_V01_line():
    sketch = points(new_sketch())
    line = read(sketch, 'line', id='7', firstPoint='4', secondPoint='2', typeLine='dotLine', lineColor='black')
    psa_true(type(line) is SketchOperation.Line, 'line')
    psa_equal(line.id, 7, 'line id')
    psa_equal(line.first_point.name, 'D', 'line first point')
    psa_equal(line.second_point.name, 'B', 'line second point')
    psa_true(line.line_style is StrokeStyle.DotLine, 'line style')
    psa_true(line.line_color == Colors.black, 'line color')

def law_V01_spline():
    sketch = points(new_sketch())
    s = read(sketch, 'spline', id='7', point1='4', point4='2', angle1=psa_word('a1'), angle2=psa_word('a2'),
             length1=psa_word('l1'), length2=psa_word('l2'), color='violet', type='simpleInteractive')
    psa_true(type(s) is SketchOperation.SimpleInteractiveSpline, 'spline')
    psa_equal(s.id, 7, 'spline id')
    psa_equal(s.first_point.name, 'D', 'spline first point')
    psa_equal(s.second_point.name, 'B', 'spline second point')
    psa_equal(s.angle1.expression, psa_word('a1'), 'spline angle1')
    psa_equal(s.angle2.expression, psa_word('a2'), 'spline angle2')
    psa_equal(s.length1.expression, psa_word('l1'), 'spline length1')
    psa_equal(s.length2.expression, psa_word('l2'), 'spline length2')
    psa_true(s.line_color == Colors.violet, 'spline color')

def law_V01_styles():
    for name, style in [('dashDotDotLine', StrokeStyle.DashDotDotLine), ('dashDotLine', StrokeStyle.DashDotLine),
                        ('dashLine', StrokeStyle.DashLine), ('dotLine', StrokeStyle.DotLine),
                        ('hair', StrokeStyle.SolidLine), ('none', StrokeStyle.NoPen)]:
        sketch = points(new_sketch())
        line = read(sketch, 'line', id='7', firstPoint='4', secondPoint='2', typeLine=name, lineColor='black')
        psa_true(line.line_style is style, 'line style ' + name)

def refused(x):
    try:
        CalculationDispatcher().from_xml(x)
    except NotImplementedError:
        return True
    else:
        return False

def law_V01_unsupported():
    psa_true(refused(element('arc', id='1', type='simple')), 'arc')
    psa_true(refused(element('elArc', id='1', type='simple')), 'elArc')
    psa_true(refused(element('operation', id='1', type='moving')), 'operation')
    psa_true(refused(element('point', id='1', type='bisector')), 'bisector')
    psa_true(refused(element('point', id='1', type='triangle')), 'triangle')
    psa_true(refused(element('spline', id='1', type='cubicBezier')), 'cubicBezier')
    psa_true(refused(element('foo', id='1')), 'unknown tag')

####################################################################################################
# writing an operation

def written(operation):
    return CalculationDispatcher().from_operation(operation).to_xml()

def api_sketch():
    sketch = new_sketch()
    zero = Vector2D(0, 0)
    sketch.SinglePoint('A', 0, 0, zero, id=1)
    sketch.SinglePoint('B', 1, 0, zero, id=2)
    sketch.SinglePoint('C', 0, 1, zero, id=3)
    sketch.SinglePoint('D', 1, 1, zero, id=4)
    return sketch

def label():
    return Vector2D(psa_scalar('mx'), psa_scalar('my'))

def attributes_are(x, tag, expected):
    psa_equal(x.tag, tag, tag + ' tag')
    for name, value in expected.items():
        psa_equal(x.attrib.get(name, 'missing'), value, tag + ' ' + name)
    psa_equal(len(x.attrib), len(expected), tag + ' attributes')

def law_V02_single():
    sketch = api_sketch()
    p = sketch.SinglePoint(psa_word('name'), psa_word('x'), psa_word('y'), label(), id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'x': psa_word('x'), 'y': psa_word('y'), 'mx': text('mx'),
        'my': text('my'), 'type': 'single'})

def law_V02_along_line():
    sketch = api_sketch()
    p = sketch.AlongLinePoint(psa_word('name'), 'A', 'B', psa_word('l'), label(), StrokeStyle.DashDotLine, '#102030', id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'firstPoint': '1', 'secondPoint': '2', 'length': psa_word('l'),
        'typeLine': 'dashDotLine', 'lineColor': '#102030', 'mx': text('mx'), 'my': text('my'), 'type': 'alongLine'})

def law_V02_along_line_default():
    sketch = api_sketch()
    p = sketch.AlongLinePoint(psa_word('name'), 'A', 'B', psa_word('l'), label(), id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'firstPoint': '1', 'secondPoint': '2', 'length': psa_word('l'),
        'mx': text('mx'), 'my': text('my'), 'type': 'alongLine'})

def law_V02_end_line():
    sketch = api_sketch()
    p = sketch.EndLinePoint(psa_word('name'), 'C', psa_word('a'), psa_word('l'), label(), StrokeStyle.SolidLine, '#102030', id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'basePoint': '3', 'length': psa_word('l'), 'angle': psa_word('a'),
        'typeLine': 'hair', 'lineColor': '#102030', 'mx': text('mx'), 'my': text('my'), 'type': 'endLine'})

def law_V02_line_intersect():
    sketch = api_sketch()
    p = sketch.LineIntersectPoint(psa_word('name'), 'D', 'C', 'B', 'A', label(), id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'p1Line1': '4', 'p2Line1': '3', 'p1Line2': '2', 'p2Line2': '1',
        'mx': text('mx'), 'my': text('my'), 'type': 'lineIntersect'})

def law_V02_normal():
    sketch = api_sketch()
    p = sketch.NormalPoint(psa_word('name'), 'A', 'B', psa_word('a'), psa_word('l'), label(), StrokeStyle.NoPen, '#102030', id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'firstPoint': '1', 'secondPoint': '2', 'length': psa_word('l'),
        'angle': psa_word('a'), 'typeLine': 'none', 'lineColor': '#102030', 'mx': text('mx'), 'my': text('my'),
        'type': 'normal'})

def law_V02_contact():
    sketch = api_sketch()
    p = sketch.PointOfContact(psa_word('name'), 'A', 'B', 'C', psa_word('r'), label(), id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'firstPoint': '1', 'secondPoint': '2', 'center': '3',
        'radius': psa_word('r'), 'mx': text('mx'), 'my': text('my'), 'type': 'pointOfContact'})

def law_V02_intersection():
    sketch = api_sketch()
    p = sketch.PointOfIntersection(psa_word('name'), 'D', 'B', label(), id=9)
    attributes_are(written(p), 'point', {
        'id': '9', 'name': psa_word('name'), 'firstPoint': '4', 'secondPoint': '2', 'mx': text('mx'),
        'my': text('my'), 'type': 'pointOfIntersection'})

def law_V02_line():
    sketch = api_sketch()
    x = sketch.Line('D', 'B', StrokeStyle.DotLine, '#102030', id=9)
    attributes_are(written(x), 'line', {
        'id': '9', 'firstPoint': '4', 'secondPoint': '2', 'typeLine': 'dotLine', 'lineColor': '#102030'})

def law_V02_spline():
    sketch = api_sketch()
    x = sketch.SimpleInteractiveSpline('D', 'B', psa_word('a1'), psa_word('l1'), psa_word('a2'), psa_word('l2'),
                                       line_color='#102030', id=9)
    attributes_are(written(x), 'spline', {
        'id': '9', 'point1': '4', 'point4': '2', 'angle1': psa_word('a1'), 'length1': psa_word('l1'),
        'angle2': psa_word('a2'), 'length2': psa_word('l2'), 'color': '#102030', 'type': 'simpleInteractive'})

def law_V02_read_and_write():
    dispatcher = CalculationDispatcher()
    attributes = {'id': '7', 'name': psa_word('name'), 'firstPoint': '2', 'secondPoint': '1', 'length': psa_word('l'),
                  'typeLine': 'dashLine', 'lineColor': '#102030', 'mx': text('mx'), 'my': text('my'), 'type': 'alongLine'}
    attributes_are(dispatcher.from_xml(element('point', **attributes)).to_xml(), 'point', attributes)

####################################################################################################
# files

def document(*pieces, unit='cm'):
    root = element('pattern')
    etree.SubElement(root, 'version').text = '0.7.10'
    if unit is not None:
        etree.SubElement(root, 'unit').text = unit
    etree.SubElement(root, 'measurements')
    for x in pieces:
        root.append(x)
    return root

def piece(name, calculations, modeling=(), details=()):
    draw = element('draw', name=name)
    for tag, xs in [('calculation', calculations), ('modeling', modeling), ('details', details)]:
        sub = etree.SubElement(draw, tag)
        for x in xs:
            sub.append(x)
    return draw

def read_file(root, path='foo.val'):
    io.READABLE[path] = root
    return ValFileReader(path)

def single(id, name):
    return element('point', id=id, name=name, x=text(name + 'x'), y=text(name + 'y'), mx='0', my='0', type='single')

def law_V03_reader():
    reader = read_file(document(
        piece('front', [single('1', 'A'), single('2', 'B'), element('line', id='3', firstPoint='1', secondPoint='2')]),
        piece('back', [single('4', 'A')])))
    pattern = reader.pattern
    psa_equal(pattern.unit, 'cm', 'unit')
    psa_true(reader.measurements is None, 'no measurements')
    psa_true(pattern.scope_names() == ['front', 'back'], 'pieces')
    front = pattern.scope('front').sketch
    back = pattern.scope('back').sketch
    psa_equal(len(front.operations), 3, 'operations')
    psa_equal(len(back.operations), 1, 'operations')
    psa_equal(front.get_operation('A').vector.x, psa_scalar('Ax'), 'evaluated')
    psa_equal(front.get_operation(2).vector.y, psa_scalar('By'), 'evaluated')
    psa_equal(front.get_operation(3).geometry().p1.x, psa_scalar('Bx'), 'evaluated')

def law_V03_unsupported():
    reader = read_file(document(piece('front', [
        single('1', 'A'),
        element('point', id='2', name='X', type='triangle'),
        element('point', id='3', name='Y', basePoint='2', length='1', angle='0', mx='0', my='0', type='endLine'),
        single('4', 'B'),
        element('arc', id='5', type='simple'),
        element('line', id='6', firstPoint='1', secondPoint='4'),
    ])))
    sketch = reader.pattern.scope('front').sketch
    psa_equal(len(sketch.operations), 3, 'supported operations')
    psa_true(not sketch.has_operation_id(2), 'unsupported operation skipped')
    psa_true(not sketch.has_operation_id(3), 'operation on an unsupported one skipped')
    psa_true(sketch.has_operation_id(1) and sketch.has_operation_id(4) and sketch.has_operation_id(6), 'others kept')

def law_V03_unit():
    try:
        read_file(document(unit=None))
    except NameError:
        psa_true(True, 'missing unit')
    else:
        psa_true(False, 'missing unit')

def law_V03_writer():
    pattern = Pattern(None, psa_word('unit'))
    sketch = pattern.add_scope('front').sketch
    sketch.SinglePoint('A', '1', '2', Vector2D(0, 0), id=1)
    sketch.SinglePoint('B', '1', '2', Vector2D(0, 0), id=2)
    sketch.Line('A', 'B', id=3)
    sketch = pattern.add_scope('back').sketch
    sketch.SinglePoint('A', '1', '2', Vector2D(0, 0), id=4)
    ValFileWriter('foo.val', None, pattern)
    root = etree.WRITTEN[-1]
    psa_equal(root.tag, 'pattern', 'root')
    psa_equal(child(root, 'unit').text, psa_word('unit'), 'unit')
    psa_equal(len(children(root, 'draw')), 2, 'pieces')
    front = children(root, 'draw')[0]
    back = children(root, 'draw')[1]
    psa_equal(front.attrib['name'], 'front', 'piece name')
    psa_equal(back.attrib['name'], 'back', 'piece name')
    ids = [x.attrib['id'] for x in child(front, 'calculation')]
    psa_true(ids == ['1', '2', '3'], 'calculations')
    ids = [x.attrib['id'] for x in child(back, 'calculation')]
    psa_true(ids == ['4'], 'calculations')

def law_V03_write_file():
    pattern = Pattern(None, 'cm')
    pattern.add_scope('front').sketch.SinglePoint('A', '1', '2', Vector2D(0, 0), id=1)
    io.READABLE['out/body.vit'] = vit(None)
    ValFileWriter('out/foo.val', VitFile('out/body.vit'), pattern)
    psa_equal(io.WRITTEN['out/foo.val'], psa_word('document'), 'the document is written to the file')
    root = etree.WRITTEN[-1]
    psa_equal(child(root, 'measurements').text, 'out/body.vit', 'path of the measurements')
    ValFileWriter('out/foo.val', None, pattern)
    psa_true(not child(etree.WRITTEN[-1], 'measurements').text, 'no measurements')

def read_measured(path, name, *existing):
    for x in existing:
        io.READABLE[x] = vit(None, element('m', name=x.replace('/', '_').replace('.vit', ''), value='1'))
    root = document(piece('front', [single('1', 'A')]))
    child(root, 'measurements').text = name
    return read_file(root, path)

def law_V03_measurements_of_working_directory():
    reader = read_measured('dir/foo.val', 'body.vit', 'body.vit', 'dir/body.vit')
    psa_true([x.name for x in reader.measurements] == ['body'], 'measurements of the working directory')
    psa_true(reader.measurements is reader.pattern.measurements, 'measurements of the pattern')
    psa_true(reader.measurements is reader.vit_file.measurements, 'measurements of the file')

def law_V03_measurements_of_pattern_directory():
    reader = read_measured('dir/foo.val', 'body.vit', 'dir/body.vit')
    psa_true([x.name for x in reader.measurements] == ['dir_body'], 'measurements of the directory of the pattern')

def law_V03_missing_measurements():
    try:
        read_measured('dir/foo.val', 'body.vit', 'other/body.vit')
    except NameError:
        psa_true(True, 'missing measurements')
    else:
        psa_true(False, 'missing measurements')

def law_V03_round_trip():
    pattern = Pattern(None, 'cm')
    o = label()
    s = pattern.add_scope('front').sketch
    s.SinglePoint('A', 0, 0, o)
    s.SinglePoint('B', psa_positive('x'), psa_scalar('y'), o)
    s.EndLinePoint('C', 'A', '90', 'Line_A_B*2', o, StrokeStyle.DashLine, Colors.red)
    s.AlongLinePoint('D', 'A', 'C', '5', o)
    s.NormalPoint('E', 'A', 'C', 0, psa_scalar('l'), o, StrokeStyle.DotLine, Colors.blue)
    s.PointOfIntersection('G', 'C', 'B', o)
    s.Line('A', 'B')
    s.SimpleInteractiveSpline('A', 'B', 10, 20, 30, 40, line_color=Colors.blue)
    ValFileWriter('foo.val', None, pattern)
    other = read_file(etree.WRITTEN[-1]).pattern.scope('front').sketch
    psa_equal(len(other.operations), 8, 'operations')
    for a, b in zip(s.operations, other.operations):
        psa_true(type(a) is type(b), 'class')
        psa_equal(a.id, b.id, 'id')
        psa_equal(a.to_python(), b.to_python(), 'parameters')
    s.eval()
    for name in ['A', 'B', 'C', 'D', 'E', 'G']:
        psa_equal(other.get_operation(name).vector.x, s.get_operation(name).vector.x, 'position')
        psa_equal(other.get_operation(name).vector.y, s.get_operation(name).vector.y, 'position')

def law_V03_modeling():
    modeling = Modeling()
    p = ModelingPoint(element('point', id='108', idObject='66', inUse='true', mx=text('mx'), my=text('my'), type='modeling'))
    s = ModelingSpline(element('spline', id='111', idObject='107', inUse='false', type='modelingSpline'))
    modeling.add(p)
    modeling.add(s)
    psa_equal(p.object_id, 66, 'object id')
    psa_true(p.in_use is True, 'in use')
    psa_true(s.in_use is False, 'in use')
    psa_equal(p.mx, psa_scalar('mx'), 'mx')
    psa_same_object(modeling[108], p, 'modeling item')
    psa_true(108 in modeling and 111 in modeling and 66 not in modeling, 'modeling items')
    detail = Detail(modeling, element('detail', id='118', name=psa_word('name'), width='1.5', inLayout='true', united='false'))
    n1 = DetailNode(element('node', idObject='111', type='NodeSpline', reverse='1'))
    n2 = DetailNode(element('node', idObject='5', type='NodeSpline'))
    n3 = DetailNode(element('node', idObject='108', type='NodePoint'))
    for n in [n1, n2, n3]:
        detail.append_node(n)
    pairs = list(detail.iter_on_nodes())
    psa_equal(len(pairs), 2, 'nodes with a modeling item')
    psa_same_object(pairs[0][0], n1, 'node')
    psa_same_object(pairs[0][1], s, 'modeling item of a node')
    psa_same_object(pairs[1][1], p, 'modeling item of a node')
    psa_equal(detail.name, psa_word('name'), 'detail name')
    psa_equal(detail.width, 1.5, 'detail width')
    psa_true(detail.inLayout is True and detail.united is False, 'detail flags')
    psa_true(n1.reverse is True and n3.reverse is None, 'reverse')

####################################################################################################
# measurements file

def vit(personal, *measurements):
    root = element('vit')
    etree.SubElement(root, 'unit').text = psa_word('unit')
    etree.SubElement(root, 'pm_system').text = psa_word('system')
    if personal is not None:
        root.append(personal)
    body = etree.SubElement(root, 'body-measurements')
    for x in measurements:
        body.append(x)
    return root

def person(**texts):
    root = element('personal')
    for tag, value in texts.items():
        etree.SubElement(root, tag.replace('_', '-')).text = value
    return root

def read_vit(root):
    io.READABLE['foo.vit'] = root
    return VitFile('foo.vit').measurements

def law_V04_header():
    ms = read_vit(vit(person(family_name=psa_word('last'), given_name=psa_word('first'), email=psa_word('email'),
                             gender='female')))
    psa_equal(ms.unit, psa_word('unit'), 'unit')
    psa_equal(ms.pattern_making_system, psa_word('system'), 'pattern making system')
    psa_equal(ms.personal.last_name, psa_word('last'), 'last name')
    psa_equal(ms.personal.first_name, psa_word('first'), 'first name')
    psa_equal(ms.personal.email, psa_word('email'), 'email')
    psa_true(ms.personal.gender is Gender.FEMALE, 'gender')
    psa_true(ms.personal.birth_date is None, 'birth date')

def law_V04_no_person():
    ms = read_vit(vit(None))
    psa_equal(ms.unit, psa_word('unit'), 'unit')
    psa_true(ms.personal.gender is Gender.UNKNOWN, 'gender')
    psa_equal(ms.personal.last_name, '', 'last name')

def law_V04_measurements():
    ms = read_vit(vit(person(), element('m', name='height', value='180'),
                      element('m', name='@ease', value='height/100', full_name=psa_word('full'),
                              description=psa_word('description'))))
    psa_equal(len(list(ms)), 2, 'measurements')
    psa_equal(ms['height'].value, 180, 'value')
    psa_equal(ms['@ease'].value, 1.8, 'expression')
    psa_equal(ms['@ease'].full_name, psa_word('full'), 'full name')
    psa_equal(ms['@ease'].description, psa_word('description'), 'description')
    psa_equal(ms['height'].full_name, '', 'full name')

def law_V04_unknown_element():
    try:
        read_vit(vit(None, element('foo')))
    except NotImplementedError:
        psa_true(True, 'unknown element')
    else:
        psa_true(False, 'unknown element')

####################################################################################################
# XML attributes

def law_V05_attributes():
    psa_equal(IntAttribute.from_xml('12'), 12, 'int')
    psa_equal(FloatAttribute.from_xml(text('x')), psa_scalar('x'), 'float')
    psa_equal(StringAttribute.from_xml(psa_word('x')), psa_word('x'), 'string')
    psa_true(BoolAttribute.from_xml('true') is True and BoolAttribute.from_xml('1') is True, 'bool true')
    psa_true(BoolAttribute.from_xml('false') is False and BoolAttribute.from_xml('0') is False, 'bool false')
    psa_equal(BoolAttribute.to_xml(True), 'true', 'bool to xml')
    psa_equal(BoolAttribute.to_xml(False), 'false', 'bool to xml')
    psa_equal(FloatAttribute.to_xml(psa_scalar('x')), text('x'), 'float to xml')
    try:
        BoolAttribute.from_xml('yes')
    except ValueError:
        psa_true(True, 'bad bool')
    else:
        psa_true(False, 'bad bool')

class Base(XmlObjectAdaptator):
    __tag__ = 'base'
    __attributes__ = (
        IntAttribute('number', 'theNumber'),
        StringAttribute('title', default='none'),
        BoolAttribute('flag'),
    )

class Derived(Base):
    __tag__ = 'derived'
    __attributes__ = (
        FloatAttribute('size'),
    )

def law_V05_object_from_xml():
    x = Derived(element('derived', theNumber='3', size=text('s'), flag='true'))
    psa_equal(x.number, 3, 'attribute of the base class')
    psa_equal(x.title, 'none', 'default')
    psa_equal(x.size, psa_scalar('s'), 'own attribute')
    psa_true(x.flag is True, 'bool')
    psa_true(sorted(x.to_dict().keys()) == ['flag', 'number', 'size', 'title'], 'to_dict')
    psa_true(sorted(x.to_dict(exclude=('size', 'flag')).keys()) == ['number', 'title'], 'to_dict exclude')

def law_V05_object_from_values():
    x = Derived(number=3, size=psa_scalar('s'), flag=False, title=None)
    psa_equal(x.number, 3, 'int')
    psa_equal(x.size, psa_scalar('s'), 'float')
    psa_true(x.flag is False, 'bool')
    psa_equal(x.title, 'none', 'unset value')
    x.number = 5
    psa_equal(x.number, 5, 'setter')

def law_V05_to_xml():
    x = Derived(number=3, size=psa_scalar('s'))
    e = x.to_xml(other='foo')
    psa_equal(e.tag, 'derived', 'tag')
    psa_equal(e.attrib['theNumber'], '3', 'name in the file')
    psa_equal(e.attrib['size'], text('s'), 'float')
    psa_equal(e.attrib['title'], 'none', 'default')
    psa_equal(e.attrib['other'], 'foo', 'further attribute')
    psa_true('flag' not in e.attrib, 'unset attribute')
    psa_equal(len(e.attrib), 4, 'attributes')

def law_V05_find():
    root = element('a')
    x = etree.SubElement(root, 'b')
    y = etree.SubElement(root, 'b')
    y.text = psa_word('t')
    x.text = psa_word('s')
    psa_same_object(XmlFileMixin.get_xpath_element(root, 'b'), x, 'first element')
    psa_equal(len(XmlFileMixin.get_xpath_elements(root, 'b')), 2, 'elements')
    psa_true(XmlFileMixin.get_xpath_element(root, 'c') is None, 'missing element')
    psa_equal(XmlFileMixin.get_text_element(root, 'b'), psa_word('s'), 'text')
    psa_true(XmlFileMixin.get_text_element(root, 'c') is None, 'missing text')

class Typed(XmlObjectAdaptator):
    __tag__ = 'typed'
    __attributes__ = (
        IntAttribute('count', default=5),
        FloatAttribute('size', default=2.5),
        BoolAttribute('flag', default=True),
        StringAttribute('title', default='foo'),
        FloatListAttribute('values'),
    )

class TypedText(TextXmlObjectAdaptator):
    __tag__ = 'text'
    __attributes__ = (StringAttribute('title'),)

def law_V05_given_zero():
    # zero, false and the empty text are values, not missing ones
    for x in [Typed(count=0, size=0., flag=False, title=''),
              Typed(element('typed', count='0', size='0.0', flag='false', title=''))]:
        psa_equal(x.count, 0, 'zero')
        psa_equal(x.size, 0, 'zero')
        psa_true(x.flag is False, 'false')
        psa_equal(x.title, '', 'empty text')
        psa_true(x.values is None, 'missing list')
        e = x.to_xml()
        psa_equal(e.attrib['count'], '0', 'zero to xml')
        psa_equal(e.attrib['flag'], 'false', 'false to xml')
        psa_equal(e.attrib['title'], '', 'empty text to xml')
        psa_true('values' not in e.attrib, 'missing list to xml')
        psa_equal(len(e.attrib), 4, 'attributes to xml')

def law_V05_defaults():
    for x in [Typed(), Typed(element('typed'))]:
        psa_equal(x.count, 5, 'default')
        psa_equal(x.size, 2.5, 'default')
        psa_true(x.flag is True, 'default')
        psa_equal(x.title, 'foo', 'default')
        psa_equal(len(x.to_xml().attrib), 4, 'defaults to xml')
        psa_equal(x.to_xml().attrib['flag'], 'true', 'defaults to xml')
    x, y = Typed(count=1), Typed()
    psa_equal(x.count, 1, 'objects are independent')
    psa_equal(y.count, 5, 'objects are independent')
    y.count = 9
    psa_equal(x.count, 1, 'objects are independent')
    y.flag = None
    psa_true('flag' not in y.to_xml().attrib, 'unset attribute')

def law_V05_lists():
    x, y, z = psa_scalar('x'), psa_scalar('y'), psa_scalar('z')
    for t in [text('x') + ' ' + text('y') + ' ' + text('z'), text('x') + ',' + text('y') + ',' + text('z'),
              text('x') + ', ' + text('y') + '  ' + text('z')]:
        v = Typed(element('typed', values=t)).values
        psa_equal(len(v), 3, 'list')
        for a, b in zip(v, [x, y, z]):
            psa_equal(a, b, 'list')
    psa_equal(Typed(values=[1.25, -1234567.5, 0]).to_xml().attrib['values'], '1.25 -1234567.5 0', 'list to xml')
    psa_equal(Typed(values=(1.25, 12345.678)).to_xml().attrib['values'], '1.25 12345.678', 'list to xml')
    psa_true(Typed(values='none').values is None, 'none')
    for x in [Typed(values=''), Typed(values=[]), Typed(element('typed', values=''))]:
        psa_true(x.values is not None and len(x.values) == 0, 'empty list')

def law_V05_numbers():
    psa_equal(FloatAttribute.to_xml(1234567.125), '1234567.125', 'float to xml')
    psa_equal(FloatAttribute.to_xml(-0.5), '-0.5', 'float to xml')
    psa_equal(IntAttribute.to_xml(12345678), '12345678', 'int to xml')
    psa_equal(StringAttribute.to_xml(psa_word('x')), psa_word('x'), 'text to xml')
    psa_equal(BoolAttribute.to_xml(1), 'true', 'bool to xml')
    psa_equal(BoolAttribute.to_xml(0), 'false', 'bool to xml')
    psa_true(BoolAttribute.from_xml(True) is True and BoolAttribute.from_xml(False) is False, 'bool')
    for bad in ['True', 'FALSE', '2', '', 'on']:
        try:
            BoolAttribute.from_xml(bad)
        except ValueError:
            psa_true(True, 'bad bool ' + bad)
        else:
            psa_true(False, 'bad bool ' + bad)

def law_V05_text():
    x = TypedText(title='a', text=' ' + psa_word('t') + ' ')
    psa_equal(x.text, ' ' + psa_word('t') + ' ', 'text')
    e = x.to_xml()
    psa_equal(e.text, ' ' + psa_word('t') + ' ', 'text to xml')
    psa_equal(e.attrib['title'], 'a', 'attribute to xml')
    e = element('text', title='b')
    e.text = '  ' + psa_word('s') + ' '
    y = TypedText(e)
    psa_equal(y.text, '  ' + psa_word('s') + ' ', 'text from xml')
    psa_equal(y.title, 'b', 'attribute from xml')
    psa_equal(TypedText(element('text')).text, '', 'no text')
    psa_equal(TypedText(title='c').text, '', 'no text')
    psa_true('text' not in y.to_dict(), 'text is not an attribute')

def law_V05_names():
    x = Derived(element('derived', theNumber='3', number='4'))
    psa_equal(x.number, 3, 'the name in the file')
    psa_equal(Derived(number=4, theNumber=3).number, 4, 'the name in Python')
    psa_equal(Base(element('base', size='1', theNumber='2')).number, 2, 'attributes of another class are skipped')
    psa_true([a.py_attribute for a in Derived.__attributes__] == ['number', 'title', 'flag', 'size'], 'attributes in order')
    psa_true([a.py_attribute for a in Base.__attributes__] == ['number', 'title', 'flag'], 'attributes of the base class')
    psa_true(sorted(Derived.get_dict(x, exclude=('size',)).keys()) == ['flag', 'number', 'title'], 'get_dict')
    psa_equal(Derived.get_dict(x)['number'], 3, 'get_dict')
    x.number = 8
    psa_equal(x.to_dict()['number'], 8, 'to_dict after a change')
    psa_equal(x.to_xml().attrib['theNumber'], '8', 'to_xml after a change')
    psa_equal(x.to_xml(theNumber='9').attrib['theNumber'], '9', 'further attributes win')

####################################################################################################
# unusual offsets, colours, names and files

OFFSETS = [(0, 0), (5, 0), (0, 7), (-5, 2.5), (1.5, -7)]

def law_V01_offsets():
    for mx, my in OFFSETS:
        sketch = points(new_sketch())
        for kwargs in [dict(x='1', y='2', type='single'),
                       dict(firstPoint='2', secondPoint='1', length='3', typeLine='hair', lineColor='black', type='alongLine'),
                       dict(firstPoint='2', secondPoint='1', type='pointOfIntersection')]:
            p = read(sketch, 'point', id=str(10 + len(sketch.operations)), name=psa_word('name') + kwargs['type'],
                     mx=str(mx), my=str(my), **kwargs)
            psa_equal(p.label_offset.x, mx, 'label offset ' + kwargs['type'])
            psa_equal(p.label_offset.y, my, 'label offset ' + kwargs['type'])

def law_V02_offsets():
    for mx, my in OFFSETS:
        sketch = api_sketch()
        o = Vector2D(mx, my)
        for p in [sketch.SinglePoint('P', 1, 2, o, id=11), sketch.AlongLinePoint('Q', 'A', 'B', 1, o, id=12),
                  sketch.LineIntersectPoint('R', 'A', 'B', 'C', 'D', o, id=13)]:
            x = written(p)
            psa_equal(float(x.attrib['mx']), mx, 'mx')
            psa_equal(float(x.attrib['my']), my, 'my')

def law_V01_colors():
    for name in ['black', 'blue', 'cornflowerblue', 'darkBlue', 'darkGreen', 'darkRed', 'darkviolet', 'deeppink', 'deepskyblue',
                 'goldenrod', 'green', 'lightsalmon', 'lime', 'mediumseagreen', 'orange', 'violet', 'yellow']:
        sketch = points(new_sketch())
        line = read(sketch, 'line', id='7', firstPoint='4', secondPoint='2', typeLine='hair', lineColor=name)
        expected = {'darkBlue': '#00008b', 'darkGreen': '#006400', 'darkRed': '#8b0000'}.get(name)
        if expected is None:
            psa_true(line.line_color == Colors.ensure_color(name), 'line color ' + name)
        else:
            psa_equal(str(line.line_color), expected, 'line color ' + name)

def law_V01_zero_expressions():
    sketch = points(new_sketch())
    p = read(sketch, 'point', id='7', name='P', basePoint='3', length='0', angle='0', typeLine='none', lineColor='black',
             mx='0', my='0', type='endLine')
    psa_equal(p.length.expression, '0', 'length')
    psa_equal(p.angle.expression, '0', 'angle')
    s = read(sketch, 'spline', id='8', point1='3', point4='7', angle1='0', angle2='-90', length1='0', length2='Line_A_B*2',
             color='black', type='simpleInteractive')
    psa_equal(s.angle1.expression, '0', 'angle1')
    psa_equal(s.angle2.expression, '-90', 'angle2')
    psa_equal(s.length1.expression, '0', 'length1')
    psa_equal(s.length2.expression, 'Line_A_B*2', 'length2')
    psa_equal(s.second_point.name, 'P', 'second point')

def law_V02_zero_expressions():
    sketch = api_sketch()
    p = sketch.EndLinePoint('P', 'C', 0, 0, Vector2D(0, 0), StrokeStyle.NoPen, '#000000', id=9)
    x = written(p)
    psa_equal(x.attrib['length'], '0', 'zero length')
    psa_equal(x.attrib['angle'], '0', 'zero angle')
    psa_equal(x.attrib['typeLine'], 'none', 'no line')
    psa_equal(float(x.attrib['mx']), 0, 'zero offset')
    p = sketch.NormalPoint('Q', 'A', 'B', -45, '2.5', Vector2D(0, 0), id=10)
    x = written(p)
    psa_equal(x.attrib['angle'], '-45', 'negative angle')
    psa_equal(x.attrib['length'], '2.5', 'length')
    psa_true('typeLine' not in x.attrib and 'lineColor' not in x.attrib, 'no style')
    x = written(sketch.SinglePoint('R', '0', '-1', Vector2D(0, 0), id=11))
    psa_equal(x.attrib['x'], '0', 'zero x')
    psa_equal(x.attrib['y'], '-1', 'negative y')
    psa_equal(written(p).attrib['length'], '2.5', 'written twice')

def law_V03_names():
    # names are kept as they are
    reader = read_file(document(piece(' front  1', [single('1', 'A')]), piece('', [single('2', 'A')]),
                                piece('FRONT', [single('3', 'A')])))
    psa_true(reader.pattern.scope_names() == [' front  1', '', 'FRONT'], 'names of the pieces')
    psa_equal(reader.pattern.scope('FRONT').sketch.get_operation('A').id, 3, 'operations of a piece')
    psa_equal(reader.pattern.scope('').sketch.get_operation('A').id, 2, 'operations of a piece')
    ValFileWriter('foo.val', None, reader.pattern)
    root = etree.WRITTEN[-1]
    psa_true([x.attrib['name'] for x in children(root, 'draw')] == [' front  1', '', 'FRONT'], 'names of the pieces')

def law_V03_empty():
    reader = read_file(document())
    psa_equal(len(reader.pattern.scope_names()), 0, 'no piece')
    reader = read_file(document(piece('front', []), piece('back', [single('1', 'A')]), unit=psa_word('unit')))
    psa_equal(reader.pattern.unit, psa_word('unit'), 'unit')
    psa_equal(len(reader.pattern.scope('front').sketch.operations), 0, 'no operation')
    psa_equal(len(reader.pattern.scope('back').sketch.operations), 1, 'operations')

def law_V03_subdirectory():
    reader = read_measured('dir/foo.val', 'sub/body.vit', 'dir/body.vit', 'dir/sub/body.vit')
    psa_true([x.name for x in reader.measurements] == ['dir_sub_body'], 'path from the directory of the pattern')

def law_V03_measured_expressions():
    io.READABLE['size.vit'] = vit(None, element('m', name='height', value='180'), element('m', name='@ease', value='height/10'))
    root = document(piece('front', [element('point', id='1', name='A', x='height', y='@ease*2', mx='0', my='0', type='single')]))
    child(root, 'measurements').text = 'size.vit'
    reader = read_file(root)
    a = reader.pattern.scope('front').sketch.get_operation('A')
    psa_equal(a.vector.x, 180, 'a measurement')
    psa_equal(a.vector.y, 36, 'a custom measurement')

def law_V03_skipped():
    # everything which depends on an unsupported operation is skipped, in every piece
    reader = read_file(document(
        piece('front', [
            single('1', 'A'),
            element('point', id='2', name='X', type='triangle'),
            element('line', id='3', firstPoint='1', secondPoint='2', typeLine='hair', lineColor='black'),
            element('point', id='4', name='Y', basePoint='2', length='1', angle='0', mx='0', my='0', type='endLine'),
            element('point', id='5', name='Z', firstPoint='4', secondPoint='1', mx='0', my='0', type='pointOfIntersection'),
            element('point', id='6', name='B', firstPoint='1', secondPoint='1', mx='0', my='0', type='pointOfIntersection'),
        ]),
        piece('back', [
            element('arc', id='7', type='simple'),
            single('8', 'A'),
            element('spline', id='9', point1='7', point4='8', angle1='0', angle2='0', length1='1', length2='1',
                    color='black', type='simpleInteractive'),
            element('operation', id='10', type='moving'),
        ])))
    front = reader.pattern.scope('front').sketch
    back = reader.pattern.scope('back').sketch
    psa_true([x.id for x in front.operations] == [1, 6], 'operations')
    psa_true([x.id for x in back.operations] == [8], 'operations')

def law_V03_written_twice():
    pattern = Pattern(None, 'cm')
    sketch = pattern.add_scope('front').sketch
    sketch.SinglePoint('A', '1', '2', Vector2D(0, 0), id=1)
    ValFileWriter('foo.val', None, pattern)
    sketch.SinglePoint('B', '1', '2', Vector2D(0, 0), id=2)
    ValFileWriter('foo.val', None, pattern)
    ids = [x.attrib['id'] for x in child(child(etree.WRITTEN[-1], 'draw'), 'calculation')]
    psa_true(ids == ['1', '2'], 'operations of the second document')

def law_V03_path_as_given():
    pattern = Pattern(None, 'cm')
    io.READABLE['out/sub/body.vit'] = vit(None)
    ValFileWriter('out/foo.val', VitFile('out/sub/body.vit'), pattern)
    psa_equal(child(etree.WRITTEN[-1], 'measurements').text, 'out/sub/body.vit', 'path of the measurements')

def law_V03_nodes():
    modeling = Modeling()
    detail = Detail(modeling, element('detail', id='1', name='d', width='0', inLayout='true', united='true'))
    psa_equal(len(list(detail.iter_on_nodes())), 0, 'no node')
    psa_equal(detail.width, 0, 'zero width')
    items = []
    for i in [5, 3, 4]:
        items.append(ModelingPoint(element('point', id=str(i), idObject='1', inUse='true', mx='0', my='0', type='modeling')))
        modeling.add(items[-1])
    nodes = [DetailNode(element('node', idObject=x, type='NodePoint')) for x in ['9', '4', '5', '8', '3', '7']]
    for n in nodes:
        detail.append_node(n)
    for i in range(2):
        pairs = list(detail.iter_on_nodes())
        psa_equal(len(pairs), 3, 'nodes with a modeling item')
        for (n, item), j, k in zip(pairs, [1, 2, 4], [2, 0, 1]):
            psa_same_object(n, nodes[j], 'node')
            psa_same_object(item, items[k], 'modeling item of a node')

def law_V04_order():
    ms = read_vit(vit(person(), element('m', name='z', value='a*2'), element('m', name='@b', value='@c + a + @c'),
                      element('m', name='a', value='3.5'), element('m', name='@c', value='-1', full_name=' C ')))
    psa_true([x.name for x in ms] == ['z', 'C_b', 'a', 'C_c'], 'order of the file')
    psa_true([x.valentina_name for x in ms] == ['z', '@b', 'a', '@c'], 'names of the file')
    psa_true([x.is_custom() for x in ms] == [False, True, False, True], 'is custom')
    psa_equal(ms['z'].value, 7, 'value')
    psa_equal(ms['@b'].value, 1.5, 'custom measurements in an expression')
    psa_equal(ms['@c'].value, -1, 'value')
    psa_equal(ms['@c'].full_name, ' C ', 'full name')
    psa_equal(ms['@c'].description, '', 'no description')

def law_V04_both_names():
    ms = read_vit(vit(None, element('m', name='x', value='1'), element('m', name='@x', value='2'),
                      element('m', name='y', value='@x*10 + x')))
    psa_equal(ms['x'].value, 1, 'a name')
    psa_equal(ms['@x'].value, 2, 'a custom name')
    psa_equal(ms['y'].value, 21, 'both in an expression')

def law_V04_persons():
    for name, gender in [('male', Gender.MALE), ('female', Gender.FEMALE), ('unknown', Gender.UNKNOWN), ('Male', Gender.MALE),
                         ('particular', Gender.PARTICULAR)]:
        ms = read_vit(vit(person(gender=name)))
        psa_true(ms.personal.gender is gender, 'gender ' + name)
        psa_equal(ms.personal.first_name, '', 'no first name')
        psa_equal(ms.personal.last_name, '', 'no last name')
        psa_equal(ms.personal.email, '', 'no email')
        psa_true(ms.personal.birth_date is None, 'no birth date')
    ms = read_vit(vit(person(birth_date='2001-02-03', given_name='f', customer=psa_word('customer'))))
    psa_equal(ms.personal.birth_date.text, '2001-02-03', 'birth date')
    psa_equal(ms.personal.first_name, 'f', 'first name')
    psa_equal(ms.personal.last_name, '', 'no last name')
    psa_equal(ms.personal.customer, psa_word('customer'), 'customer')
    psa_true(ms.personal.gender is Gender.UNKNOWN, 'no gender')

def law_V04_absent():
    root = element('vit')
    etree.SubElement(root, 'body-measurements').append(element('m', name='a', value='1'))
    ms = read_vit(root)
    psa_true(ms.unit is None, 'no unit')
    psa_true(ms.pattern_making_system is None, 'no pattern making system')
    psa_equal(ms.a.value, 1, 'measurement')
    other = read_vit(vit(None))
    psa_equal(len(list(other)), 0, 'files are independent')
    psa_equal(len(list(ms)), 1, 'files are independent')
    psa_equal(VitFile('foo.vit').path.name, 'foo.vit', 'path')
