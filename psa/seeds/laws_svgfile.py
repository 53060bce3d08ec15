"""Laws of the SVG files, analysed and never executed (see laws_geometry)."""

import io

from lxml import etree
from psa_seeds.geometry import displacement, point

from Patro.FileFormat.Svg import SvgFormat
from Patro.FileFormat.Svg.SvgFile import SvgDispatcher, SvgFileInternal, SvgFileWriter
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GraphicEngine.Painter.Paper import PaperSize


class Sheet(PaperSize):
    """A sheet of paper of any size."""
    def __init__(self, width, height):
        super().__init__('A4', 'portrait', 10)
        self.sheet_width = width
        self.sheet_height = height
    @property
    def width(self):
        return self.sheet_width
    @property
    def height(self):
        return self.sheet_height

def written(*args):
    SvgFileWriter('foo.svg', *args)
    return etree.WRITTEN[-1]

def law_S06_header():
    w = psa_positive('w')
    h = psa_positive('h')
    tree = written(Sheet(w, h), [])
    root = tree.getroot()
    psa_equal(tree.path, 'foo.svg', 'path')
    psa_equal(tree.options['doctype'],
              '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">',
              'document type')
    psa_true(tree.options['xml_declaration'], 'XML declaration')
    psa_equal(tree.options['encoding'].lower(), 'utf-8', 'encoding')
    psa_equal(root.tag, 'svg', 'root')
    psa_equal(root.get('version'), '1.1', 'version')
    psa_equal(root.get('width'), '{:.3f}mm'.format(w), 'width')
    psa_equal(root.get('height'), '{:.3f}mm'.format(h), 'height')
    psa_equal(root.get('viewBox'), '0 0 {:.3f} {:.3f}'.format(w, h), 'view box in millimetres')
    psa_equal(root.nsmap[None], 'http://www.w3.org/2000/svg', 'name space')
    psa_equal(root.nsmap['xlink'], 'http://www.w3.org/1999/xlink', 'name space of the links')

def elements():
    return [
        SvgFormat.Circle(cx=1, cy=2, r=3, id=psa_word('a')),
        SvgFormat.Line(x1=1, y1=2, x2=3, y2=4, id=psa_word('b')),
        SvgFormat.Text(x=1, y=2, text=psa_word('text'), id=psa_word('c')),
    ]

def children(element):
    return [x for x in element if x.tag is not etree.Comment]

def law_S06_elements():
    root = written(Sheet(10, 20), elements()).getroot()
    items = children(root)
    psa_true([x.tag for x in items] == ['circle', 'line', 'text'], 'elements in order')
    psa_true([x.get('id') for x in items] == [psa_word('a'), psa_word('b'), psa_word('c')], 'attributes')
    psa_equal(float(items[1].get('y2')), 4, 'attributes')
    psa_equal(items[2].text, psa_word('text'), 'text')

def law_S06_transformation():
    t = displacement('t')
    root = written(Sheet(10, 20), elements(), AffineTransformation2D.Translation(t)).getroot()
    items = children(root)
    psa_equal(len(items), 1, 'one group')
    group = items[0]
    psa_equal(group.tag, 'g', 'one group')
    p = point('p')
    q = SvgFormat.TransformAttribute.from_xml(group.get('transform')) * p
    psa_equal(q.x, p.x + t.x, 'transformation of the group')
    psa_equal(q.y, p.y + t.y, 'transformation of the group')
    psa_true([x.tag for x in children(group)] == ['circle', 'line', 'text'], 'elements in order')

####################################################################################################

class Document(SvgFileInternal):
    def on_svg_root(self, svg_root):
        self.log = [svg_root]
        super().on_svg_root(svg_root)
    def on_group(self, group):
        self.log.append(group)
        super().on_group(group)
    def on_graphic_item(self, item):
        self.log.append(item)
        super().on_graphic_item(item)

def root_of(x, y, w, h):
    ns = '{http://www.w3.org/2000/svg}'
    root = etree.Element(ns + 'svg', width=psa_word('w'), height=psa_word('h'),
                         viewBox='{} {} {} {}'.format(x, y, w, h))
    etree.SubElement(root, ns + 'circle', id=psa_word('a'))
    group = etree.SubElement(root, ns + 'g', id=psa_word('g'))
    etree.SubElement(group, ns + 'path', id=psa_word('b'))
    return root

def check(document):
    box = document.view_box
    x = psa_x('x')
    y = psa_y('y')
    psa_equal(box.x.inf, x, 'view box')
    psa_equal(box.x.sup, x + psa_positive('w'), 'view box')
    psa_equal(box.y.inf, y, 'view box')
    psa_equal(box.y.sup, y + psa_positive('h'), 'view box')
    psa_equal(document.width, psa_word('w'), 'width')
    psa_equal(document.height, psa_word('h'), 'height')
    psa_equal(len(document.log), 4, 'items')
    psa_true([type(i).__name__ for i in document.log] == ['Svg', 'Circle', 'Group', 'Path'], 'items in order')
    psa_true([i.id for i in document.log[1:]] == [psa_word('a'), psa_word('g'), psa_word('b')], 'items in order')

def law_S06_read():
    etree.SOURCE.append(root_of(psa_x('x'), psa_y('y'), psa_positive('w'), psa_positive('h')))
    io.READABLE['foo.svg'] = 'source'
    document = Document('foo.svg')
    check(document)
    psa_equal(str(document.path), 'foo.svg', 'path')

def law_S06_data():
    etree.SOURCE.append(root_of(psa_x('x'), psa_y('y'), psa_positive('w'), psa_positive('h')))
    document = Document(None, 'source')
    check(document)
    psa_true(document.path is None, 'no path')

def law_S06_missing():
    try:
        Document('missing.svg')
    except FileNotFoundError:
        psa_true(True, 'missing file')
    else:
        psa_true(False, 'missing file')

def law_S06_any_elements():
    # in the order of the list, with or without a transformation
    t = AffineTransformation2D.Translation(point('t'))
    for tags in (['text', 'circle'], ['line'], ['circle', 'text', 'circle', 'line', 'circle'], []):
        table = {'circle': lambda i: SvgFormat.Circle(cx=1, cy=0, r=0, id=i), 'line': lambda i: SvgFormat.Line(x1=1, y1=0, id=i),
                 'text': lambda i: SvgFormat.Text(x=1, y=2, text='t' + i, id=i)}
        items = [table[tag](str(i)) for i, tag in enumerate(tags)]
        for transformation in (None, t):
            root = written(Sheet(10, 20), items, transformation).getroot()
            found = children(root)
            if transformation is not None:
                psa_equal(len(found), 1, 'one group')
                psa_equal(found[0].tag, 'g', 'one group')
                q = SvgFormat.TransformAttribute.from_xml(found[0].get('transform')) * point('p')
                psa_equal(q.x, point('p').x + point('t').x, 'transformation of the group')
                found = children(found[0])
            psa_true([x.tag for x in found] == tags, 'elements in order')
            psa_true([x.get('id') for x in found] == [str(i) for i in range(len(tags))], 'elements in order')
            for x in found:
                if x.tag == 'circle':
                    psa_true(x.get('cy') is not None and float(x.get('cy')) == 0, 'an attribute which is zero')
                    psa_true(x.get('r') is not None and float(x.get('r')) == 0, 'an attribute which is zero')
                elif x.tag == 'line':
                    psa_true(x.get('x2') is None, 'no missing attribute')

def law_S06_sizes():
    for w, h in [(210, 297), (297, 210), (100.5, .125), (1000, 1414)]:
        root = written(Sheet(w, h), []).getroot()
        for name, x in (('width', w), ('height', h)):
            text = root.get(name)
            psa_true(text.endswith('mm'), name)
            psa_equal(float(text[:-2]), x, name)
        psa_true([float(x) for x in root.get('viewBox').split()] == [0, 0, w, h], 'view box in millimetres')

class Dispatcher(SvgDispatcher):
    def __init__(self, *args):
        super().__init__(*args)
        DISPATCHERS.append(self)

DISPATCHERS = []

class Plain(SvgFileInternal):
    __dispatcher_cls__ = Dispatcher

def law_S06_state():
    # reading the items leaves the state of the document as it was
    root = root_of(1, 2, 3, 4)
    for item in root:
        item.set('fill', 'red')
    etree.SOURCE.append(root)
    document = Plain(None, 'source')
    state = DISPATCHERS[-1].state
    psa_true(state.fill is None, 'state after the document')
    q = state.transform * point('p')
    psa_equal(q.x, point('p').x, 'state after the document')

def law_S06_no_size():
    for attrib in ({'width': '10'}, {'height': '20'}, {}, {'width': '0', 'height': '10mm'}):
        for box, (x, X, y, Y) in [('0 0 10 20', (0, 10, 0, 20)), ('-5 -7 10 20', (-5, 5, -7, 13)), ('1,2,0.5,1e1', (1, 1.5, 2, 12))]:
            etree.SOURCE.append(etree.Element('svg', viewBox=box, **attrib))
            document = Document(None, 'source')
            psa_equal(document.width, attrib.get('width'), 'width')
            psa_equal(document.height, attrib.get('height'), 'height')
            psa_true(document.view_box.x.inf == x and document.view_box.x.sup == X, 'view box')
            psa_true(document.view_box.y.inf == y and document.view_box.y.sup == Y, 'view box')
            psa_equal(len(document.log), 1, 'items')

class Ordered(Document):
    def on_graphic_item(self, item):
        # the size of the document is known before its items
        psa_equal(self.width, psa_word('w'), 'width')
        psa_equal(self.view_box.x.inf, 1, 'view box')
        super().on_graphic_item(item)

def law_S06_ordered():
    etree.SOURCE.append(root_of(1, 2, 3, 4))
    psa_equal(len(Ordered(None, 'source').log), 4, 'items')
