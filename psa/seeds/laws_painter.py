"""Laws of the painters, analysed and never executed (see laws_geometry)."""

import ezdxf
import io

from IntervalArithmetic import Interval2D
from lxml import etree
from matplotlib import pyplot
from matplotlib.patches import PathPatch
from matplotlib.path import Path
from reportlab.lib.units import cm
from reportlab.pdfgen import canvas

from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicItem import (
    CircleItem, CubicBezierItem, EllipseItem, ImageItem, PathItem, PolygonItem, PolylineItem, QuadraticBezierItem,
    RectangleItem, SegmentItem, TextItem)
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicBezierStyle, GraphicPathStyle
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
from Patro.GraphicEngine.Painter.MplPainter import MplPainter
from Patro.GraphicEngine.Painter.Painter import Painter, Tiler
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
from Patro.GraphicEngine.TeX.Buffer import Buffer
from Patro.GraphicEngine.TeX.Document import Document
from Patro.GraphicEngine.TeX.Environment import Center, Environment
from Patro.GraphicEngine.TeX.Tikz import TikzFigure
from Patro.GraphicStyle import Colors, StrokeStyle
from Patro.GraphicStyle.Color.ColorDataBase import Color


STYLES = [StrokeStyle.NoPen, StrokeStyle.SolidLine, StrokeStyle.DashLine, StrokeStyle.DotLine, StrokeStyle.DashDotLine,
          StrokeStyle.DashDotDotLine]


def point(name):
    # a drawing in centimetres
    return Vector2D(psa_scalar(name + '.x'), psa_scalar(name + '.y'))

def ordered(*names):
    """Points going to the top right."""
    p = point('origin')
    points = [p]
    for name in names:
        p = p + Vector2D(psa_positive_number(name + '.dx'), psa_positive_number(name + '.dy'))
        points.append(p)
    return points

def framed(scene, p, q):
    """The bounding box is set by the user of the scene."""
    scene.bounding_box = Interval2D((p.x, q.x), (p.y, q.y))
    return scene

def are(got, p, label):
    psa_equal(got[0], p.x, label)
    psa_equal(got[1], p.y, label)

####################################################################################################
# dispatch

class LogPainter(Painter):
    def __init__(self, scene):
        super().__init__(scene)
        self.log = []

    def paint_CircleItem(self, item):
        self.log.append(('circle', item))

    def paint_CubicBezierItem(self, item):
        self.log.append(('cubic', item))

    def paint_EllipseItem(self, item):
        self.log.append(('ellipse', item))

    def paint_ImageItem(self, item):
        self.log.append(('image', item))

    def paint_PathItem(self, item):
        self.log.append(('path', item))

    def paint_PolygonItem(self, item):
        self.log.append(('polygon', item))

    def paint_PolylineItem(self, item):
        self.log.append(('polyline', item))

    def paint_QuadraticBezierItem(self, item):
        self.log.append(('quadratic', item))

    def paint_RectangleItem(self, item):
        self.log.append(('rectangle', item))

    def paint_SegmentItem(self, item):
        self.log.append(('segment', item))

    def paint_TextItem(self, item):
        self.log.append(('text', item))

class SegmentOnlyPainter(Painter):
    def paint_SegmentItem(self, item):
        self.painted = item

class FailingPainter(Painter):
    def paint_SegmentItem(self, item):
        raise KeyError('failure of the method')

def every_item(scene):
    a, b, c, d = [point(x) for x in 'abcd']
    style = GraphicPathStyle()
    path = scene.add_item(PathItem, a, style, None)
    return [
        ('path', path),
        ('circle', scene.circle(a, psa_positive_number('r'), style, None)),
        ('cubic', scene.cubic_bezier(a, b, c, d, style, None)),
        ('ellipse', scene.ellipse(a, psa_positive_number('rx'), psa_positive_number('ry'), psa_degrees('angle'), style, None)),
        ('polygon', scene.polygon([a, b, c], style, None)),
        ('polyline', scene.polyline([a, b, c], style, None)),
        ('quadratic', scene.quadratic_bezier(a, b, c, style, None)),
        ('rectangle', scene.rectangle(a, b, style, None)),
        ('segment', scene.segment(a, b, style, None)),
        ('text', scene.text(a, psa_word('text'), None, None)),
    ]

def law_O01_dispatch():
    scene = GraphicScene()
    items = every_item(scene)
    painter = LogPainter(scene)
    psa_true(painter.scene is scene, 'Painter.scene')
    painter.paint()
    psa_equal(len(painter.log), len(items), 'each item painted once')
    for (kind, item), (expected, source) in zip(painter.log, items):
        psa_same_object(item, source, 'painted in the order of addition')
        psa_equal(kind, expected, 'painted by the method of its class')

def law_O01_z_order():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    items = [scene.segment(a, b, GraphicPathStyle(), None) for i in range(6)]
    for item, z in zip(items, [3, 1, 2, 1, 3, 0]):
        item.z_value = z
    items[3].visible = False
    painter = LogPainter(scene)
    painter.paint()
    painted = [item for kind, item in painter.log]
    psa_equal(len(painted), 5, 'invisible items are not painted')
    for got, i in zip(painted, [5, 1, 2, 0, 4]):
        psa_same_object(got, items[i], 'painted by increasing z value')

def law_O01_missing_method():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    s = scene.segment(a, b, GraphicPathStyle(), None)
    painter = SegmentOnlyPainter(scene)
    painter.paint()
    psa_same_object(painter.painted, s, 'painted')
    scene.text(a, 'text', None, None)
    try:
        SegmentOnlyPainter(scene).paint()
    except NotImplementedError:
        psa_true(True, 'an item without method is refused')
    else:
        psa_true(False, 'an item without method is refused')

def law_O01_failing_method():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    scene.segment(a, b, GraphicPathStyle(), None)
    try:
        FailingPainter(scene).paint()
    except NotImplementedError:
        psa_true(False, 'an error of a method is passed on')
    except KeyError:
        psa_true(True, 'an error of a method is passed on')
    else:
        psa_true(False, 'an error of a method is passed on')

def law_O01_no_scene():
    painter = LogPainter(None)
    painter.paint()
    psa_equal(len(painter.log), 0, 'no scene')

def law_O01_cast():
    t = AffineTransformation2D.Translation(Vector2D(psa_scalar('t.x'), psa_scalar('t.y')))
    scene = GraphicScene(t)
    a, b = point('a'), point('b')
    scene.add_coordinate('here', a)
    s = scene.segment('here', b, GraphicPathStyle(), None)
    painter = LogPainter(scene)
    p = painter.cast_position('here')
    psa_equal(p.x, a.x + psa_scalar('t.x'), 'cast_position of a name')
    psa_equal(p.y, a.y + psa_scalar('t.y'), 'cast_position of a name')
    p = painter.cast_position(b)
    psa_equal(p.x, b.x + psa_scalar('t.x'), 'cast_position')
    psa_equal(p.y, b.y + psa_scalar('t.y'), 'cast_position')
    positions = painter.cast_item_positions(s)
    psa_equal(len(positions), 2, 'cast_item_positions')
    psa_equal(positions[0].x, a.x + psa_scalar('t.x'), 'cast_item_positions')
    psa_equal(positions[1].y, b.y + psa_scalar('t.y'), 'cast_item_positions')
    flat = painter.cast_item_coordinates(s, flat=True)
    psa_equal(len(flat), 4, 'cast_item_coordinates')
    for got, expected in zip(flat, [positions[0].x, positions[0].y, positions[1].x, positions[1].y]):
        psa_equal(got, expected, 'cast_item_coordinates')
    pairs = painter.cast_item_coordinates(s)
    psa_equal(len(pairs), 2, 'cast_item_coordinates')
    are(pairs[0], positions[0], 'cast_item_coordinates')
    are(pairs[1], positions[1], 'cast_item_coordinates')

####################################################################################################
# tiles

class Sheet:
    def __init__(self, width, height, margin):
        self.name = 'A4'
        self.width = width
        self.height = height
        self.margin = margin
        self.width_in = width / 25.4
        self.height_in = height / 25.4

def tiles(width, height, columns, rows, margin=1):
    x = psa_scalar('x')
    y = psa_scalar('y')
    box = Interval2D((x, x + width), (y, y + height))
    # the area of the page: 8 x 10 cm
    got = list(Tiler(box, Sheet(100, 120, 8), margin))
    psa_equal(len(got), columns * rows, 'number of tiles')
    psa_equal(box.x.inf, x, 'the bounding box is not modified')
    psa_equal(box.y.sup, y + height, 'the bounding box is not modified')
    i = 0
    for r in range(rows):
        for c in range(columns):
            interval, row, column = got[i]
            psa_equal(row, r, 'row')
            psa_equal(column, c, 'column')
            psa_equal(interval.x.inf, x - margin + 8*c, 'left')
            psa_equal(interval.x.sup, x - margin + 8*(c + 1), 'right')
            psa_equal(interval.y.inf, y - margin + 10*r, 'bottom')
            psa_equal(interval.y.sup, y - margin + 10*(r + 1), 'top')
            i += 1

def law_O02_single():
    tiles(3, 4, 1, 1)

def law_O02_wide():
    tiles(12, 8, 2, 1)

def law_O02_tall():
    tiles(6, 25, 1, 3)

def law_O02_grid():
    tiles(17, 11, 3, 2)
    tiles(5, 17, 1, 2, 1.5)

def law_O02_exact():
    tiles(14, 18, 2, 2)

####################################################################################################
# SVG

def page():
    return PaperSize('A4', 'portrait', 10)

def svg(scene):
    SvgPainter('foo.svg', scene, page())
    return [x for x in etree.WRITTEN[-1].root if isinstance(x.tag, str)]

def drawn(elements, tag):
    return [x for x in elements if x.tag.endswith(tag)]

def svg_of(style):
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, style, None)
    return drawn(svg(framed(scene, a, b)), 'line')[0]

def law_O03_segment():
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, GraphicPathStyle(stroke_color=Colors.red), None)
    elements = svg(framed(scene, a, b))
    lines = drawn(elements, 'line')
    psa_equal(len(lines), 1, 'one line')
    line = lines[0]
    # the top left corner at the origin, y down, millimetres
    psa_equal(float(line.get('x1')), 0, 'x1')
    psa_equal(float(line.get('y1')), (b.y - a.y)*10, 'y1')
    psa_equal(float(line.get('x2')), (b.x - a.x)*10, 'x2')
    psa_equal(float(line.get('y2')), 0, 'y2')
    psa_equal(line.get('stroke'), '#ff0000', 'stroke')

def law_O03_curve():
    scene = GraphicScene()
    a, b, c, d = ordered('b', 'c', 'd')
    scene.cubic_bezier(a, b, c, d, GraphicPathStyle(stroke_color=Colors.black), None)
    elements = svg(framed(scene, a, d))
    paths = drawn(elements, 'path')
    psa_equal(len(paths), 1, 'one path')
    psa_equal(paths[0].get('fill'), 'none', 'fill')
    psa_equal(paths[0].get('stroke'), '#000000', 'stroke')

def law_O03_text():
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, GraphicPathStyle(), None)
    scene.text(b, psa_word('text'), None, None)
    texts = drawn(svg(framed(scene, a, b)), 'text')
    psa_equal(len(texts), 1, 'one text')
    psa_equal(texts[0].text, psa_word('text'), 'text')
    psa_equal(float(texts[0].get('x')), (b.x - a.x)*10, 'x of the text')
    psa_equal(float(texts[0].get('y')), 0, 'y of the text')

def law_O03_circle():
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, GraphicPathStyle(), None)
    scene.circle((a + b)/2, psa_positive_number('r')*0, GraphicPathStyle(), None)
    circles = drawn(svg(framed(scene, a, b)), 'circle')
    psa_equal(len(circles), 1, 'one circle')
    psa_equal(float(circles[0].get('cx')), (b.x - a.x)*5, 'cx')
    psa_equal(float(circles[0].get('cy')), (b.y - a.y)*5, 'cy')

def law_O03_order():
    scene = GraphicScene()
    a, b = ordered('b')
    s = scene.segment(a, b, GraphicPathStyle(), None)
    scene.text(b, psa_word('text'), None, None)
    s.z_value = 1
    tags = [x.tag for x in svg(framed(scene, a, b))]
    psa_true(tags[-2:] == ['text', 'line'], 'by increasing z value')

def law_O03_styles():
    for style in STYLES:
        line = svg_of(GraphicPathStyle(stroke_style=style, stroke_color=Colors.blue))
        if style == StrokeStyle.NoPen:
            psa_equal(line.get('stroke'), 'none', 'invisible line')
        else:
            psa_equal(line.get('stroke'), '#0000ff', 'colour')
        if style in (StrokeStyle.NoPen, StrokeStyle.SolidLine):
            psa_true(line.get('stroke-dasharray') is None, 'continuous line')
        else:
            psa_true(line.get('stroke-dasharray') is not None, 'dashed line')
    psa_equal(svg_of(GraphicPathStyle()).get('stroke'), '#000000', 'default colour')
    psa_equal(svg_of(GraphicPathStyle(stroke_color=None)).get('stroke'), 'none', 'no colour')
    psa_equal(svg_of(GraphicPathStyle(line_width=3)).get('stroke-width'), '3.0', 'line width')

####################################################################################################
# matplotlib

def mpl(scene):
    MplPainter(scene, page())
    return pyplot.FIGURES[-1].axes[0]

def law_O04_limits():
    scene = GraphicScene()
    a = point('a')
    b = a + Vector2D(20, 10)
    scene.segment(a, b, GraphicPathStyle(), None)
    axes = mpl(framed(scene, a, b))
    psa_equal(axes.xlim[0], a.x - 2, 'left')
    psa_equal(axes.xlim[1], b.x + 2, 'right')
    psa_equal(axes.ylim[0], a.y - 2, 'bottom')
    psa_equal(axes.ylim[1], b.y + 2, 'top')
    psa_equal(axes.aspect, 'equal', 'aspect')
    psa_equal(scene.bounding_box.x.inf, a.x, 'the bounding box is not modified')

def law_O04_tall_limits():
    scene = GraphicScene()
    a = point('a')
    b = a + Vector2D(10, 20)
    scene.segment(a, b, GraphicPathStyle(), None)
    axes = mpl(framed(scene, a, b))
    psa_equal(axes.xlim[0], a.x - 2, 'left')
    psa_equal(axes.xlim[1], b.x + 2, 'right')
    psa_equal(axes.ylim[0], a.y - 2, 'bottom')
    psa_equal(axes.ylim[1], b.y + 2, 'top')

def law_O04_items():
    scene = GraphicScene()
    a = point('a')
    b = a + Vector2D(1, 2)
    c = a + Vector2D(3, 4)
    d = a + Vector2D(5, 6)
    scene.segment(a, d, GraphicPathStyle(stroke_color=Colors.red, line_width=2), None)
    scene.cubic_bezier(a, b, c, d, GraphicPathStyle(), None)
    scene.text(c, psa_word('text'), None, None)
    scene.circle(b, 0, GraphicPathStyle(), None)
    segment, curve, text, circle = mpl(framed(scene, a, d)).added
    psa_true(segment.path.codes == [Path.MOVETO, Path.LINETO], 'segment')
    psa_equal(len(segment.path.vertices), 2, 'segment')
    are(segment.path.vertices[0], a, 'segment')
    are(segment.path.vertices[1], d, 'segment')
    psa_equal(segment.attributes['edgecolor'], '#ff0000', 'colour')
    psa_equal(segment.attributes['facecolor'], 'none', 'not filled')
    psa_equal(segment.attributes['linewidth'], 2, 'line width')
    psa_true(curve.path.codes == [Path.MOVETO, Path.CURVE4, Path.CURVE4, Path.CURVE4], 'curve')
    for got, p in zip(curve.path.vertices, [a, b, c, d]):
        are(got, p, 'curve')
    psa_equal(text.text, psa_word('text'), 'text')
    are([text.x, text.y], c, 'position of the text')
    are(circle.center, b, 'position of the circle')

def mpl_of(style):
    scene = GraphicScene()
    a = point('a')
    scene.segment(a, a + Vector2D(2, 1), style, None)
    return mpl(framed(scene, a, a + Vector2D(2, 1))).added[0].attributes

def law_O04_styles():
    expected = ['none', 'solid', 'dashed', 'dotted', 'dashdot']
    for style, name in zip(STYLES, expected):
        psa_equal(mpl_of(GraphicPathStyle(stroke_style=style))['linestyle'], name, 'line style')
    psa_true(mpl_of(GraphicPathStyle(stroke_style=StrokeStyle.DashDotDotLine))['linestyle'] not in expected, 'dash dot dot')
    psa_equal(mpl_of(GraphicPathStyle(stroke_color=None))['edgecolor'], 'none', 'no colour')

####################################################################################################
# PDF and DXF

def law_O05_pdf_page():
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, GraphicPathStyle(), None)
    PdfPainter('foo.pdf', framed(scene, a, b), Sheet(254, 127, 8))
    c = canvas.CANVASES[-1]
    psa_equal(c.filename, 'foo.pdf', 'file')
    psa_equal(c.pagesize[0], 720, 'page width in points')
    psa_equal(c.pagesize[1], 360, 'page height in points')
    psa_true(c.log == ['draw', 'page', 'save'], 'one page is saved once after the drawing')

def law_O05_pdf_items():
    scene = GraphicScene()
    a, b, c, d = ordered('b', 'c', 'd')
    scene.segment(a, d, GraphicPathStyle(), None)
    scene.cubic_bezier(a, b, c, d, GraphicPathStyle(), None)
    scene.text(c, psa_word('text'), None, None)
    scene.circle(b, 0, GraphicPathStyle(), None)
    PdfPainter('foo.pdf', framed(scene, a, d), page())
    segment, curve, text, circle = canvas.CANVASES[-1].drawn
    k = (segment[3] - segment[1]) / (d.x - a.x)
    psa_equal(segment[0], 'line', 'segment')
    for i, p in enumerate([a, d]):
        are(segment[1+2*i:], p*k, 'segment')
    psa_equal(curve[0], 'bezier', 'curve')
    for i, p in enumerate([a, b, c, d]):
        are(curve[1+2*i:], p*k, 'curve')
    psa_equal(text[0], 'text', 'text')
    are(text[1:], c*k, 'position of the text')
    psa_equal(text[3], psa_word('text'), 'text')
    psa_equal(circle[0], 'circle', 'circle')
    are(circle[1:], b*k, 'position of the circle')
    psa_equal(circle[4], 1, 'a filled circle')
    psa_equal(segment[-2] + segment[1], 72 / 2.54, 'the left of the drawing is one centimetre from the page border')
    psa_equal(segment[-1] + segment[2], 72 / 2.54, 'the bottom of the drawing is one centimetre from the page border')
    for x in [curve, text, circle]:
        psa_equal(x[-2], segment[-2], 'same origin')
        psa_equal(x[-1], segment[-1], 'same origin')

def law_O05_dxf_items():
    scene = GraphicScene()
    a, b, c, d = ordered('b', 'c', 'd')
    scene.segment(a, d, GraphicPathStyle(), None)
    scene.cubic_bezier(a, b, c, d, GraphicPathStyle(), None)
    scene.text(c, psa_word('text'), None, None)
    scene.circle(b, 0, GraphicPathStyle(), None)
    DxfPainter('foo.dxf', scene, page())
    drawing = ezdxf.WRITTEN[-1]
    psa_equal(drawing.path, 'foo.dxf', 'file')
    entities = list(drawing.modelspace())
    psa_true([x.kind for x in entities] == ['LINE', 'SPLINE', 'TEXT'], 'entities')
    segment, curve, text = entities
    # millimetres
    are(segment.attributes['start'], a*10, 'start')
    are(segment.attributes['end'], d*10, 'end')
    psa_equal(curve.attributes['degree'], 3, 'degree')
    psa_equal(len(curve.points), 4, 'control points')
    for got, p in zip(curve.points, [a, b, c, d]):
        are(got, p*10, 'control points')
        psa_equal(got[2], 0, 'control points')
    psa_equal(text.attributes['text'], psa_word('text'), 'text')
    are(text.attributes['position'], c*10, 'position of the text')

def dxf_of(style):
    scene = GraphicScene()
    a, b = ordered('b')
    scene.segment(a, b, style, None)
    DxfPainter('foo.dxf', scene, page())
    return list(ezdxf.WRITTEN[-1].modelspace())[0].attributes['style']

def law_O05_dxf_styles():
    seen = []
    for style in STYLES:
        linetype = dxf_of(GraphicPathStyle(stroke_style=style))['linetype']
        psa_true(linetype not in seen, 'a line type per style')
        seen.append(linetype)
    psa_equal(seen[1], 'CONTINUOUS', 'solid line')
    psa_equal(seen[2], 'DASHED', 'dashed line')
    psa_equal(seen[3], 'DOT', 'dotted line')
    psa_equal(seen[4], 'DASHDOT', 'dash dot line')
    psa_equal(dxf_of(GraphicPathStyle(stroke_color=Colors.black))['color'], 0, 'black')
    psa_equal(dxf_of(GraphicPathStyle(stroke_color=Color('#010203')))['true_color'], 0x010203, 'colour')
    psa_equal(dxf_of(GraphicPathStyle(stroke_color=Color('#ff8000')))['true_color'], 0xff8000, 'colour')

####################################################################################################
# TeX

def tikz_style(style):
    return TikzFigure.format_path_style(style)

def law_O06_styles():
    seen = []
    for style in STYLES:
        text = tikz_style(GraphicPathStyle(stroke_style=style, stroke_color=Colors.red, line_width=2))
        psa_true(text.startswith('line width=2, '), 'line width')
        psa_true(text.endswith(', red'), 'colour')
        middle = text[len('line width=2, '):-len(', red')]
        psa_true(middle not in seen, 'a pattern per style')
        seen.append(middle)
    psa_equal(seen[0], 'draw=none', 'invisible line')
    psa_equal(seen[1], 'solid', 'solid line')
    for pattern, dashes in zip(seen[2:], [1, 1, 2, 3]):
        psa_true(pattern.startswith('dash pattern='), 'dash pattern')
        psa_equal(pattern.count('on '), dashes, 'dashes')
        psa_equal(pattern.count('off '), dashes, 'dashes')
    text = tikz_style(GraphicPathStyle(stroke_color=None, line_width=2))
    psa_equal(text, 'line width=2, solid', 'no colour')
    text = tikz_style(GraphicPathStyle(stroke_color=Color('#010203'), line_width=2))
    psa_equal(text, 'line width=2, solid, color={rgb,255:red,1;green,2;blue,3}', 'colour without name')

def tex(scene):
    painter = TexPainter('foo', scene, page())
    painter.add_detail_figure()
    return str(painter._document)

def at(p):
    return '({:.2f},{:.2f})'.format(p.x, p.y)

def law_O06_items():
    scene = GraphicScene()
    a, b, c, d = [point(x) for x in 'abcd']
    scene.segment(a, d, GraphicPathStyle(line_width=2), None)
    scene.cubic_bezier(a, b, c, d, GraphicPathStyle(line_width=2), None)
    scene.text(c, psa_word('text'), None, None)
    scene.circle(b, 0, GraphicPathStyle(), None)
    text = tex(scene)
    psa_true('\\begin{tikzpicture}[x=8mm,y=8mm]\n'
              + '\\draw[line width=2, solid, black] ' + at(a) + ' -- ' + at(d) + ';\n'
              + '\\draw[line width=2, solid, black] ' + at(a) + ' .. controls ' + at(b) + ' and ' + at(c) + ' .. ' + at(d)
              + ';\n'
              + '\\draw[] ' + at(c) + ' node[anchor=north west] {' + psa_word('text') + '};\n'
              + '\\fill [black] ' + at(b) + ' circle (1pt);\n'
              + '\\end{tikzpicture}\n' in text, 'figure')

def law_O06_coordinates():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    scene.add_coordinate('A', a)
    scene.add_coordinate('B', b)
    scene.segment('A', 'B', GraphicPathStyle(line_width=2), None)
    text = tex(scene)
    psa_true('\\begin{tikzpicture}[x=8mm,y=8mm]\n'
              + '\\coordinate (A) at ' + at(a) + ';\n'
              + '\\coordinate (B) at ' + at(b) + ';\n'
              + '\\draw[line width=2, solid, black] (A) -- (B);\n'
              + '\\end{tikzpicture}\n' in text, 'figure')

def law_O06_detail_figure():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    scene.segment(a, b, GraphicPathStyle(line_width=2), None)
    painter = TexPainter('foo', scene, PaperSize('A3', 'portrait', 7))
    painter.add_detail_figure()
    text = str(painter._document)
    psa_true('paper=a3paper,' in text, 'paper')
    psa_true('margin=7.0mm,' in text, 'margin')
    psa_true('\\pagestyle{empty}' in text, 'page style')
    psa_true('\\draw[line width=2, solid, black] ' + at(a) + ' -- ' + at(b) + ';\n' in text, 'figure')
    psa_equal(text.count('\\begin{tikzpicture}'), 1, 'one figure')

def law_O06_tiled_figure():
    scene = GraphicScene()
    a = point('a')
    b = a + Vector2D(12, 25)
    scene.segment(a, b, GraphicPathStyle(line_width=2), None)
    # the area of the page: 8 x 10 cm
    painter = TexPainter('foo', scene, Sheet(100, 120, 8))
    framed(scene, a, b)
    painter.add_tiled_detail_figure()
    text = str(painter._document)
    psa_equal(text.count('\\begin{tikzpicture}'), 6, 'a figure per tile')
    psa_equal(text.count('\\draw[line width=2, solid, black] ' + at(a) + ' -- ' + at(b) + ';\n'), 6, 'drawing in each tile')
    for r in range(3):
        for c in range(2):
            corner = a + Vector2D(8*c - 1, 10*r - 1)
            label = '\\draw[] ({},{}) node[anchor=south west] {{{}, {}}};\n'
            psa_true(label.format(corner.x + 1, corner.y + 1, r + 1, c + 1) in text, 'row and column of the tile')
            psa_true('\\draw[clip] ' + at(corner) + ' -- ' + at(corner + Vector2D(8, 0)) + ' -- '
                     + at(corner + Vector2D(8, 10)) + ' -- ' + at(corner + Vector2D(0, 10)) + ' -- cycle;\n' in text, 'clip')

def law_O07_buffer():
    b = Buffer()
    psa_equal(str(b), '', 'empty')
    psa_same_object(b.append(psa_word('a')), b, 'append')
    b.append([psa_word('b'), psa_word('c')])
    psa_equal(str(b), psa_word('a') + psa_word('b') + psa_word('c'), 'content in order')
    inner = Buffer()
    outer = Buffer().append(inner).append('!')
    copied = Buffer().append(inner, deepcopy=True)
    inner.append(psa_word('a'))
    psa_equal(str(outer), psa_word('a') + '!', 'a buffer appended to a buffer is followed')
    psa_equal(str(copied), '', 'a copy is independent')
    b.clear()
    psa_equal(str(b), '', 'clear')

def law_O07_environment():
    e = Environment('foo')
    e.append(psa_word('a'))
    psa_equal(str(e), '\\begin{foo}\n' + psa_word('a') + '\\end{foo}\n', 'environment')
    e = Environment('foo', options='x=1')
    e.append(Center().append(psa_word('a')))
    psa_equal(str(e), '\\begin{foo}[x=1]\n\\begin{center}\n' + psa_word('a') + '\\end{center}\n\\end{foo}\n', 'nested')
    psa_equal(str(TikzFigure('x=8mm')), '\\begin{tikzpicture}[x=8mm]\n\\end{tikzpicture}\n', 'TikzFigure')

def law_O07_document():
    d = Document('out/foo.tex', 'article', '12pt')
    psa_equal(d.tex_filename, 'out/foo.tex', 'tex_filename')
    psa_equal(d.pdf_filename, 'out/foo.pdf', 'pdf_filename')
    psa_equal(d.output_directory, 'out', 'output_directory')
    psa_equal(Document('foo', 'article').tex_filename, 'foo.tex', 'tex_filename')
    psa_equal(Document('foo.text', 'article').tex_filename, 'foo.text.tex', 'tex_filename')
    d.preambule.append(psa_word('a'))
    d.content.append(psa_word('b'))
    d.newpage()
    expected = ('\\documentclass[12pt]{article}\n' + psa_word('a') + '\\begin{document}\n' + psa_word('b')
                + '\\newpage\n\\end{document}\n')
    psa_equal(str(d), expected, 'document')
    d.write()
    psa_equal(io.WRITTEN['out/foo.tex'], expected, 'written document')

def law_O07_format():
    psa_equal(Document._format('{«0»}\\foo{«1»}', psa_word('a'), psa_word('b')),
              '{' + psa_word('a') + '}\\foo{' + psa_word('b') + '}', 'format')

####################################################################################################
# particular scenes and values

def law_O01_any_z():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    items = [scene.segment(a, b, GraphicPathStyle(), None) for i in range(7)]
    for item, z in zip(items, [0, -1, 2.5, -3, 2, 0, -.5]):
        item.z_value = z
    items[5].selected = True
    painter = LogPainter(scene)
    painter.paint()
    psa_true([x[1] is items[i] for x, i in zip(painter.log, [3, 1, 6, 0, 5, 4, 2])] == [True]*7, 'negative and real z values')
    psa_equal(len(painter.log), 7, 'each item painted once')
    # painting again, after changes
    items[3].visible = False
    items[0].z_value = 10
    scene.remove_item(items[2])
    painter.paint()
    psa_true([x[1] is items[i] for x, i in zip(painter.log[7:], [1, 6, 5, 4, 0])] == [True]*5, 'painted again')
    psa_equal(len(painter.log), 12, 'painted again')

def law_O01_empty():
    scene = GraphicScene()
    painter = LogPainter(scene)
    painter.paint()
    psa_equal(len(painter.log), 0, 'an empty scene')
    items = every_item(scene)
    for kind, item in items:
        item.visible = False
    # items that nothing paints are not refused when they are invisible
    SegmentOnlyPainter(scene).paint()
    painter.paint()
    psa_equal(len(painter.log), 0, 'a scene of invisible items')

class ChildPainter(LogPainter):
    def paint_SegmentItem(self, item):
        self.log.append(('child', item))

class EmptyChildPainter(SegmentOnlyPainter):
    pass

class UnknownItem:
    visible = True
    z_value = 0

class OneItemScene:
    def z_value_iter(self):
        return iter([UnknownItem()])

def law_O01_inherited_methods():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    s = scene.segment(a, b, GraphicPathStyle(), None)
    t = scene.text(a, 'text', None, None)
    painter = ChildPainter(scene)
    painter.paint()
    psa_true([x[0] for x in painter.log] == ['child', 'text'], 'method of a derived painter')
    painter = LogPainter(scene)
    painter.paint()
    psa_true([x[0] for x in painter.log] == ['segment', 'text'], 'method of the base painter')
    scene.remove_item(t)
    painter = EmptyChildPainter(scene)
    painter.paint()
    psa_same_object(painter.painted, s, 'inherited method')

def law_O01_unknown_item():
    try:
        LogPainter(OneItemScene()).paint()
    except NotImplementedError:
        psa_true(True, 'an item of another kind is refused')
    else:
        psa_true(False, 'an item of another kind is refused')

def law_O01_cast_numbers():
    scene = GraphicScene()
    s = scene.segment(Vector2D(.123456789, -2), Vector2D(1/3, 1e-9), GraphicPathStyle(), None)
    painter = LogPainter(scene)
    flat = painter.cast_item_coordinates(s, flat=True)
    psa_true(flat == [.123456789, -2, 1/3, 1e-9], 'exact coordinates')
    pairs = painter.cast_item_coordinates(s)
    psa_true(pairs == [[.123456789, -2], [1/3, 1e-9]], 'exact coordinates')
    flat[0] = 5
    pairs[0][0] = 5
    psa_equal(s.positions[0].x, .123456789, 'the item is not modified')
    a, b, c, d = [point(x) for x in 'abcd']
    s = scene.cubic_bezier(a, b, c, d, GraphicPathStyle(), None)
    psa_equal(len(painter.cast_item_coordinates(s, flat=True)), 8, 'coordinates of a curve')
    for got, p in zip(painter.cast_item_coordinates(s), [a, b, c, d]):
        are(got, p, 'coordinates of a curve')

def law_O02_landscape_page():
    # the area of the page: 10 x 8 cm
    x = psa_scalar('x')
    y = psa_scalar('y')
    got = list(Tiler(Interval2D((x, x + 12), (y, y + 12)), Sheet(120, 100, 8)))
    psa_equal(len(got), 4, 'tiles of a landscape page')
    psa_equal(got[0][0].x.sup - got[0][0].x.inf, 10, 'width of a landscape tile')
    psa_equal(got[0][0].y.sup - got[0][0].y.inf, 8, 'height of a landscape tile')

def law_O02_many():
    tiles(46, 8, 6, 1)
    tiles(38, 28, 5, 3)
    tiles(38, 7, 5, 1)

def law_O02_no_margin():
    tiles(16, 20, 2, 2, 0)
    tiles(15, 19, 2, 2, 0)
    tiles(16, 10, 2, 1, 0)

def law_O02_again():
    # the tiles are the same at each iteration
    x = psa_scalar('x')
    y = psa_scalar('y')
    tiler = Tiler(Interval2D((x, x + 12), (y, y + 25)), Sheet(100, 120, 8))
    first = list(tiler)
    for i in range(2):
        second = list(tiler)
        psa_equal(len(second), len(first), 'tiles of another iteration')
        for (a, r, c), (b, row, column) in zip(first, second):
            psa_equal(b.x.inf, a.x.inf, 'tiles of another iteration')
            psa_equal(b.y.inf, a.y.inf, 'tiles of another iteration')
            psa_equal(b.x.sup, a.x.sup, 'tiles of another iteration')
            psa_equal(row, r, 'tiles of another iteration')
            psa_equal(column, c, 'tiles of another iteration')

def svg_line(a, b, style, frame):
    scene = GraphicScene()
    scene.segment(a, b, style, None)
    scene.bounding_box = frame
    return drawn(svg(scene), 'line')[0]

def law_O03_directions():
    # a segment is drawn from its first point, in any direction
    frame = Interval2D((-10, 20), (-30, 40))
    for p in [Vector2D(5, 6), Vector2D(-5, 6), Vector2D(-5, -6), Vector2D(5, -6), Vector2D(.125, 0)]:
        for q in [Vector2D(0, 0), Vector2D(-1, 7)]:
            line = svg_line(p, q, GraphicPathStyle(), frame)
            psa_equal(float(line.get('x1')), (p.x + 10)*10, 'x1 of a segment')
            psa_equal(float(line.get('y1')), (40 - p.y)*10, 'y1 of a segment')
            psa_equal(float(line.get('x2')), (q.x + 10)*10, 'x2 of a segment')
            psa_equal(float(line.get('y2')), (40 - q.y)*10, 'y2 of a segment')

def law_O03_boxes():
    # any bounding box
    for x, y in [(5, 7), (-5, -7), (0, 0), (-3, 4)]:
        line = svg_line(Vector2D(x + 1, y + 2), Vector2D(x + 3, y + 4), GraphicPathStyle(),
                        Interval2D((x, x + 6), (y, y + 9)))
        psa_equal(float(line.get('x1')), 10, 'x1 in the box')
        psa_equal(float(line.get('y1')), 70, 'y1 in the box')
        psa_equal(float(line.get('x2')), 30, 'x2 in the box')
        psa_equal(float(line.get('y2')), 50, 'y2 in the box')

def law_O03_curve_data():
    scene = GraphicScene()
    points = [Vector2D(.25, 1), Vector2D(2.0625, -3), Vector2D(-4, 5.5), Vector2D(6, 7)]
    scene.cubic_bezier(*points, GraphicPathStyle(stroke_color=Colors.red, stroke_style=StrokeStyle.DashLine, line_width=.35), None)
    scene.bounding_box = Interval2D((-4, 6), (-3, 8))
    path, = drawn(svg(scene), 'path')
    numbers = [float(x) for x in path.get('d').replace('M', ' ').replace('C', ' ').replace(',', ' ').split()]
    psa_true(path.get('d').replace(' ', '').startswith('M') and path.get('d').count('C') == 1, 'path of a curve')
    psa_equal(len(numbers), 8, 'path of a curve')
    for i, p in enumerate(points):
        psa_equal(numbers[2*i], (p.x + 4)*10, 'x of a curve')
        psa_equal(numbers[2*i + 1], (8 - p.y)*10, 'y of a curve')
    psa_equal(path.get('stroke'), '#ff0000', 'colour of a curve')
    psa_equal(float(path.get('stroke-width')), .35, 'line width of a curve')
    psa_true(path.get('stroke-dasharray') is not None, 'dashed curve')
    psa_equal(path.get('fill'), 'none', 'a curve is not filled')

def law_O03_widths():
    for width in [0, .05, .35, 1, 2.125, 12]:
        psa_equal(float(svg_of(GraphicPathStyle(line_width=width)).get('stroke-width')), width, 'line width')
        line = svg_of(GraphicPathStyle(line_width=width, stroke_style=StrokeStyle.DashDotLine))
        psa_equal(float(line.get('stroke-width')), width, 'line width of a dashed line')
        psa_true(line.get('stroke-dasharray') is not None, 'dashed line of any width')

def law_O03_colors():
    for color in [Colors.red, Colors.green, Color('#010203'), Color('#010203', name='a'), Color(255, 255, 255)]:
        psa_equal(svg_of(GraphicPathStyle(stroke_color=color)).get('stroke'), str(color), 'colour')
    psa_equal(svg_of(GraphicPathStyle(stroke_color=Colors.red, stroke_style=StrokeStyle.NoPen)).get('stroke'), 'none',
              'a coloured invisible line')
    psa_equal(svg_of(GraphicPathStyle(stroke_color=None, stroke_style=StrokeStyle.DashLine)).get('stroke'), 'none',
              'a dashed line without colour')

def law_O03_texts():
    scene = GraphicScene()
    texts = [' a ', 'a\nb', '<&>', '12', '']
    for i, text in enumerate(texts):
        scene.text(Vector2D(i, -i), text, None, None)
    scene.bounding_box = Interval2D((0, 10), (-10, 0))
    got = drawn(svg(scene), 'text')
    psa_equal(len(got), len(texts), 'texts')
    for i, text in enumerate(texts):
        if text:
            psa_equal(got[i].text, text, 'text')
        psa_equal(float(got[i].get('x')), 10*i, 'x of a text')
        psa_equal(float(got[i].get('y')), 10*i, 'y of a text')

def law_O03_scene_transformation():
    t = AffineTransformation2D.Translation(Vector2D(3, 4))
    scene = GraphicScene(t)
    scene.add_coordinate('A', Vector2D(1, 2))
    scene.segment('A', Vector2D(2, 1), GraphicPathStyle(), None)
    scene.circle('A', 1, GraphicPathStyle(), None)
    scene.text('A', 'a', None, None)
    scene.bounding_box = Interval2D((0, 10), (0, 10))
    elements = svg(scene)
    line, = drawn(elements, 'line')
    circle, = drawn(elements, 'circle')
    text, = drawn(elements, 'text')
    psa_equal(float(line.get('x1')), 40, 'a named position')
    psa_equal(float(line.get('y1')), 40, 'a named position')
    psa_equal(float(line.get('x2')), 50, 'the scene transformation')
    psa_equal(float(line.get('y2')), 50, 'the scene transformation')
    psa_equal(float(circle.get('cx')), 40, 'a named position of a circle')
    psa_equal(float(text.get('y')), 40, 'a named position of a text')

def law_O03_hidden():
    scene = GraphicScene()
    s = scene.segment(Vector2D(1, 2), Vector2D(2, 1), GraphicPathStyle(), None)
    scene.segment(Vector2D(3, 2), Vector2D(2, 1), GraphicPathStyle(), None)
    s.visible = False
    scene.bounding_box = Interval2D((0, 10), (0, 10))
    lines = drawn(svg(scene), 'line')
    psa_equal(len(lines), 1, 'an invisible item')
    psa_equal(float(lines[0].get('x1')), 30, 'an invisible item')

def law_O04_values():
    for color in [Colors.black, Colors.red, Color('#010203'), Color('#000000')]:
        psa_equal(mpl_of(GraphicPathStyle(stroke_color=color))['edgecolor'], str(color), 'colour')
    for width in [0, .25, 1, 7.5]:
        psa_equal(mpl_of(GraphicPathStyle(line_width=width))['linewidth'], width, 'line width')
    for style in [StrokeStyle.DashLine, StrokeStyle.DotLine]:
        attributes = mpl_of(GraphicPathStyle(stroke_style=style, stroke_color=None, line_width=0))
        psa_equal(attributes['edgecolor'], 'none', 'no colour')
        psa_true(attributes['linestyle'] != 'none' and attributes['linestyle'] != 'solid', 'dashes without colour')
    psa_equal(mpl_of(GraphicPathStyle(stroke_style=StrokeStyle.NoPen, stroke_color=Colors.red))['linestyle'], 'none',
              'a coloured invisible line')

def law_O04_boxes():
    for w, h in [(20, 20), (5, 30), (30, 5), (0, 10)]:
        scene = GraphicScene()
        a = Vector2D(-7, -2)
        b = a + Vector2D(w, h)
        scene.segment(b, a, GraphicPathStyle(), None)
        axes = mpl(framed(scene, a, b))
        m = max(w, h) / 10
        psa_equal(axes.xlim[0], a.x - m, 'left of the box')
        psa_equal(axes.xlim[1], b.x + m, 'right of the box')
        psa_equal(axes.ylim[0], a.y - m, 'bottom of the box')
        psa_equal(axes.ylim[1], b.y + m, 'top of the box')
        psa_equal(scene.bounding_box.y.sup, b.y, 'the box of the scene')
        psa_equal(scene.bounding_box.x.inf, a.x, 'the box of the scene')

def law_O04_order():
    scene = GraphicScene(AffineTransformation2D.Translation(Vector2D(3, 4)))
    scene.add_coordinate('A', Vector2D(1, 2))
    top = scene.segment('A', Vector2D(2, 1), GraphicPathStyle(), None)
    hidden = scene.segment('A', Vector2D(5, 5), GraphicPathStyle(), None)
    scene.text('A', ' a ', None, None)
    scene.circle('A', 1, GraphicPathStyle(), None)
    top.z_value = 1
    hidden.visible = False
    text, circle, segment = mpl(framed(scene, Vector2D(0, 0), Vector2D(9, 9))).added
    psa_equal(text.text, ' a ', 'text')
    are([text.x, text.y], Vector2D(4, 6), 'a named position')
    are(circle.center, Vector2D(4, 6), 'a named position')
    are(segment.path.vertices[0], Vector2D(4, 6), 'a named position')
    are(segment.path.vertices[1], Vector2D(5, 5), 'the scene transformation')

def law_O05_pdf_boxes():
    for x, y in [(5, 7), (-5, -7), (0, 0), (-3, 4)]:
        scene = GraphicScene()
        a, b = Vector2D(x + 3, y + 4), Vector2D(x, y + 1)
        scene.segment(a, b, GraphicPathStyle(), None)
        scene.text(a, ' a\nb ', None, None)
        scene.text(b, '', None, None)
        PdfPainter('foo.pdf', framed(scene, Vector2D(x, y), Vector2D(x + 6, y + 9)), Sheet(127, 254, 8))
        c = canvas.CANVASES[-1]
        psa_equal(c.pagesize[0], 360, 'page width')
        psa_equal(c.pagesize[1], 720, 'page height')
        segment, text, empty = c.drawn
        psa_equal(text[3], ' a\nb ', 'text')
        psa_equal(empty[0], 'text', 'an empty text')
        k = (segment[3] - segment[1]) / (b.x - a.x)
        psa_equal(segment[4] - segment[2], k * (b.y - a.y), 'the same factor')
        psa_equal(segment[-2] + k*x, 72 / 2.54, 'left of the drawing')
        psa_equal(segment[-1] + k*y, 72 / 2.54, 'bottom of the drawing')

def law_O05_pdf_order():
    scene = GraphicScene(AffineTransformation2D.Translation(Vector2D(3, 4)))
    scene.add_coordinate('A', Vector2D(1, 2))
    top = scene.segment('A', Vector2D(2, 1), GraphicPathStyle(), None)
    hidden = scene.segment('A', Vector2D(5, 5), GraphicPathStyle(), None)
    scene.text('A', 'a', None, None)
    top.z_value = 1
    hidden.visible = False
    PdfPainter('foo.pdf', framed(scene, Vector2D(4, 5), Vector2D(9, 9)), page())
    c = canvas.CANVASES[-1]
    psa_true([x[0] for x in c.drawn] == ['text', 'line'], 'by increasing z value')
    text, segment = c.drawn
    k = segment[3] - segment[1]
    psa_equal(segment[1], 4*k, 'a named position')
    psa_equal(segment[2], 6*k, 'a named position')
    psa_equal(text[1], 4*k, 'a named position')

def law_O05_dxf_values():
    for style in [StrokeStyle.DashLine, StrokeStyle.DotLine, StrokeStyle.SolidLine]:
        for color in [Color('#000000'), Color('#ffffff'), Color('#00ff01', name='foo'), Colors.red]:
            for width in [0, 1, 2.5]:
                attributes = dxf_of(GraphicPathStyle(stroke_style=style, stroke_color=color, line_width=width))
                psa_equal(attributes['linetype'], dxf_of(GraphicPathStyle(stroke_style=style))['linetype'], 'line type')
                psa_equal(attributes['true_color'], int(str(color)[1:], 16), 'colour')
    psa_equal(dxf_of(GraphicPathStyle(stroke_style=StrokeStyle.DashDotDotLine))['linetype'], 'DIVIDE', 'dash dot dot line')

def law_O05_dxf_order():
    scene = GraphicScene(AffineTransformation2D.Translation(Vector2D(3, 4)))
    scene.add_coordinate('A', Vector2D(1, 2))
    top = scene.segment('A', Vector2D(-2, 1), GraphicPathStyle(), None)
    hidden = scene.segment('A', Vector2D(5, 5), GraphicPathStyle(), None)
    scene.cubic_bezier(Vector2D(-5, 1), Vector2D(-6, 2), Vector2D(3, 3), 'A', GraphicPathStyle(stroke_style=StrokeStyle.DotLine), None)
    scene.text('A', ' a ', None, None)
    top.z_value = 1
    hidden.visible = False
    DxfPainter('foo.dxf', scene, page())
    curve, text, segment = list(ezdxf.WRITTEN[-1].modelspace())
    psa_equal(curve.attributes['style']['linetype'], 'DOT', 'line type of a curve')
    for got, p in zip(curve.points, [Vector2D(-2, 5), Vector2D(-3, 6), Vector2D(6, 7), Vector2D(4, 6)]):
        are(got, p*10, 'control points')
        psa_equal(got[2], 0, 'control points')
    psa_equal(text.attributes['text'], ' a ', 'text')
    are(text.attributes['position'], Vector2D(40, 60), 'a named position')
    are(segment.attributes['start'], Vector2D(40, 60), 'a named position')
    are(segment.attributes['end'], Vector2D(10, 50), 'the scene transformation')

def law_O06_numbers():
    # two decimals, any sign
    scene = GraphicScene()
    scene.add_coordinate('(A)', Vector2D(-1.256, 2))
    scene.add_coordinate('b_1', Vector2D(0, -.004))
    style = GraphicPathStyle(line_width=0)
    scene.segment(Vector2D(-1.255, 123.456), Vector2D(.1, -7), style, None)
    scene.segment('(A)', 'b_1', style, None)
    scene.text('b_1', 'a_b ', None, None)
    scene.circle('b_1', 2, style, None)
    scene.cubic_bezier('b_1', Vector2D(-1, -2), Vector2D(-3, 4), '(A)', style, None)
    text = tex(scene)
    psa_true('\\coordinate ((A)) at (-1.26,2.00);\n\\coordinate (b_1) at (0.00,-0.00);\n' in text, 'coordinates')
    # a binary fraction rounds down
    psa_true('\\draw[line width=0, solid, black] (-1.25,123.46) -- (0.10,-7.00);\n' in text, 'two decimals')
    psa_true('\\draw[line width=0, solid, black] ((A)) -- (b_1);\n' in text, 'names of the coordinates')
    psa_true('\\draw[] (b_1) node[anchor=north west] {a_b };\n' in text, 'text')
    psa_true('\\fill [black] (b_1) circle (1pt);\n' in text, 'point')
    psa_true('\\draw[line width=0, solid, black] (b_1) .. controls (-1.00,-2.00) and (-3.00,4.00) .. ((A));\n' in text, 'curve')

def law_O06_style_values():
    for width in [0, .5, 1, '2pt']:
        text = tikz_style(GraphicPathStyle(stroke_color=None, line_width=width))
        psa_equal(text, 'line width=' + str(width) + ', solid', 'line width')
    for name in ['red', 'x1', 'a']:
        text = tikz_style(GraphicPathStyle(stroke_color=Color('#010203', name=name), line_width=1))
        psa_equal(text, 'line width=1, solid, ' + name, 'name of a colour')
    text = tikz_style(GraphicPathStyle(stroke_color=None, stroke_style=StrokeStyle.NoPen, line_width=1))
    psa_equal(text, 'line width=1, draw=none', 'an invisible line without colour')
    text = tikz_style(GraphicPathStyle(stroke_color=Color('#00ff00'), stroke_style=StrokeStyle.DashLine, line_width=1))
    psa_true(text.startswith('line width=1, dash pattern='), 'dashes and colour')
    psa_true(text.endswith(', color={rgb,255:red,0;green,255;blue,0}'), 'dashes and colour')

def law_O06_papers():
    for name, margin in [('A4', 10), ('A10', 7.5), ('b5', 0), ('C0', 1)]:
        scene = GraphicScene()
        painter = TexPainter('foo', scene, PaperSize(name, 'portrait', margin))
        painter.add_detail_figure()
        text = str(painter._document)
        psa_true('paper=' + name.lower() + 'paper,' in text, 'paper')
        psa_true('margin=' + str(float(margin)) + 'mm,' in text, 'margin')
        psa_true('\\begin{tikzpicture}[x=8mm,y=8mm]\n\\end{tikzpicture}' in text, 'an empty figure')

def law_O06_order():
    scene = GraphicScene()
    a, b = point('a'), point('b')
    s = scene.segment(a, b, GraphicPathStyle(line_width=2), None)
    hidden = scene.text(a, psa_word('hidden'), None, None)
    scene.text(b, psa_word('text'), None, None)
    s.z_value = 1
    hidden.visible = False
    text = tex(scene)
    psa_true(psa_word('hidden') not in text, 'an invisible item')
    psa_true('\\draw[] ' + at(b) + ' node[anchor=north west] {' + psa_word('text') + '};\n'
             + '\\draw[line width=2, solid, black] ' + at(a) + ' -- ' + at(b) + ';\n' in text, 'by increasing z value')

def law_O06_whole_tiles():
    # each tile has its label, its clip, then the coordinates and the whole scene
    scene = GraphicScene()
    a = Vector2D(-3, 2)
    b = a + Vector2D(25, 15)
    scene.add_coordinate('A', a)
    scene.segment('A', b, GraphicPathStyle(line_width=2), None)
    scene.circle(b, 0, GraphicPathStyle(), None)
    painter = TexPainter('foo', scene, Sheet(100, 120, 8))
    framed(scene, a, b)
    painter.add_tiled_detail_figure()
    figures = str(painter._document).split('\\begin{tikzpicture}')[1:]
    psa_equal(len(figures), 8, 'a figure per tile')
    i = 0
    for r in range(2):
        for c in range(4):
            figure = figures[i]
            i += 1
            corner = a + Vector2D(8*c - 1, 10*r - 1)
            psa_true(figure.startswith('[x=10mm,y=10mm]\n'), 'a figure in centimetres')
            psa_true('{' + str(r + 1) + ', ' + str(c + 1) + '}' in figure, 'label of the tile')
            psa_true('\\draw[clip] ' + at(corner) + ' -- ' + at(corner + Vector2D(8, 0)) + ' -- '
                     + at(corner + Vector2D(8, 10)) + ' -- ' + at(corner + Vector2D(0, 10)) + ' -- cycle;\n'
                     + '\\coordinate (A) at (-3.00,2.00);\n'
                     + '\\draw[line width=2, solid, black] (A) -- (22.00,17.00);\n'
                     + '\\fill [black] (22.00,17.00) circle (1pt);\n'
                     + '\\end{tikzpicture}\n' in figure, 'the whole scene in each tile')

def law_O07_repeated():
    b = Buffer()
    for text in ['a', 'a', '', 'b', 'a', '', 'ab']:
        b.append(text)
    psa_equal(str(b), 'aabaab', 'repeated texts')
    psa_equal(str(b), 'aabaab', 'text of a buffer again')
    b.append([])
    b.append(['a'])
    b.append(0)
    psa_equal(str(b), 'aabaaba0', 'an empty list and a number')
    inner = Buffer()
    outer = Buffer()
    outer.append(inner)
    outer.append(['!', inner])
    inner.append('x')
    psa_equal(str(outer), 'x!x', 'a buffer appended twice')
    inner.clear()
    psa_equal(str(outer), '!', 'a buffer cleared later')
    inner.append('y')
    psa_equal(str(outer), 'y!y', 'a buffer filled again')

def law_O07_copied_list():
    inner = Buffer().append('a')
    items = [inner, inner]
    copied = Buffer()
    copied.append(items, deepcopy=True)
    followed = Buffer()
    followed.append(items)
    inner.append('b')
    psa_equal(str(copied), 'aa', 'a copied list of buffers')
    psa_equal(str(followed), 'abab', 'a list of buffers')
    items.append(inner)
    psa_equal(str(followed), 'abab', 'the list given is not kept')

def law_O07_nested():
    e = Environment('a', 'o')
    f = Environment('b')
    e.append(f)
    e.append(f)
    f.append('x')
    psa_equal(str(e), '\\begin{a}[o]\n' + '\\begin{b}\nx\\end{b}\n'*2 + '\\end{a}\n', 'an environment appended twice')
    f.clear()
    psa_equal(str(f), '\\begin{b}\n\\end{b}\n', 'a cleared environment')
    psa_equal(str(Environment('center', 'x')), '\\begin{center}[x]\n\\end{center}\n', 'options')
    psa_equal(str(Environment('center', '')), '\\begin{center}\n\\end{center}\n', 'no options')
    psa_equal(str(Center()), '\\begin{center}\n\\end{center}\n', 'Center')
    psa_equal(str(TikzFigure()), '\\begin{tikzpicture}\n\\end{tikzpicture}\n', 'TikzFigure')

def law_O07_names():
    for name in ['foo', 'a.b', 'out.dir/foo', 'foo.tex.old', 'texfoo']:
        d = Document(name, 'article')
        psa_equal(d.tex_filename, name + '.tex', 'tex_filename')
        psa_equal(d.pdf_filename, name + '.pdf', 'pdf_filename')
        d = Document(name + '.tex', 'article')
        psa_equal(d.tex_filename, name + '.tex', 'tex_filename of a name with its extension')
        psa_equal(d.pdf_filename, name + '.pdf', 'pdf_filename of a name with its extension')
    psa_equal(Document('foo', 'article').output_directory, '', 'output_directory')
    psa_equal(Document('a/b/foo.tex', 'article').output_directory, 'a/b', 'output_directory')

def law_O07_written_again():
    d = Document('foo.tex', 'minimal', 'a4,12pt')
    d.content.append('é')
    d.write()
    psa_equal(io.WRITTEN['foo.tex'], '\\documentclass[a4,12pt]{minimal}\n\\begin{document}\né\\end{document}\n', 'written document')
    psa_equal(io.ENCODINGS['foo.tex'].lower().replace('-', ''), 'utf8', 'encoding')
    d.content.append('b')
    d.newpage()
    d.write()
    psa_equal(io.WRITTEN['foo.tex'], '\\documentclass[a4,12pt]{minimal}\n\\begin{document}\néb\\newpage\n\\end{document}\n',
              'a document written again')
    other = Document('bar', 'minimal')
    psa_true(str(other).endswith('\\begin{document}\n\\end{document}\n'), 'documents are independent')
