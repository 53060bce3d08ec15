"""Laws of the colours, papers and textiles, analysed and never executed (see laws_geometry)."""

import yaml

from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicStyle import Colors
from Patro.GraphicStyle.Color.ColorDataBase import Color, ColorDataBase
from Patro.TextileTechnology.Fiber import Fiber, FiberDatabase, FiberType
from Patro.TextileTechnology.Needle import Needle, NeedleSystem, NeedleType
from Patro.TextileTechnology.Seam import AstmSeam
from Patro.TextileTechnology.StitchType import StitchType
from Patro.TextileTechnology.Yarn import TwistType, Yarn, den2tex, nm2tex, tex2den, tex2nm


def refused(f, label):
    try:
        f()
    except ValueError:
        psa_true(True, label)
    else:
        psa_true(False, label)

####################################################################################################
# colours

def law_X01_text():
    c = Color('#0a80ff')
    psa_equal(c.red, 10, 'red')
    psa_equal(c.green, 128, 'green')
    psa_equal(c.blue, 255, 'blue')
    psa_equal(c.red_float, 10/255, 'red')
    psa_equal(c.green_float, 128/255, 'green')
    psa_equal(c.blue_float, 1, 'blue')
    psa_equal(str(c), '#0a80ff', 'str')
    psa_equal(str(Color('#0A80FF')), '#0a80ff', 'upper case')
    psa_true(c.name is None, 'name')
    refused(lambda: Color('red'), 'not a colour')
    refused(lambda: Color('0a80ff'), 'not a colour')

def law_X01_components():
    c = Color(1, 20, 254)
    psa_equal(str(c), '#0114fe', 'integers')
    psa_equal(c.red, 1, 'red')
    psa_equal(c.green, 20, 'green')
    psa_equal(c.blue, 254, 'blue')
    r = psa_unit('r')
    g = psa_unit('g')
    b = psa_unit('b')
    c = Color(r, g, b)
    psa_equal(c.red_float, r, 'floats')
    psa_equal(c.green_float, g, 'floats')
    psa_equal(c.blue_float, b, 'floats')
    psa_equal(str(Color(0., .5, 1.)), '#0080ff', 'floats')
    psa_equal(str(Color()), '#000000', 'default')
    for x in [-1, 256, 1.5, -.5, '12']:
        refused(lambda: Color(x, 0, 0), 'invalid component')
        refused(lambda: Color(0, x, 0), 'invalid component')
        refused(lambda: Color(0, 0, x), 'invalid component')

def law_X01_every_level():
    for i in range(256):
        psa_equal(Color(i, 0, 0).red, i, 'level of an integer')
        psa_equal(Color(0, i/255, 0).green, i, 'level of a float')

def law_X01_setters():
    c = Color(1, 2, 3)
    c.red = 10
    psa_equal(str(c), '#0a0203', 'red')
    c.green = 20
    psa_equal(str(c), '#0a1403', 'green')
    c.blue = 1.
    psa_equal(str(c), '#0a14ff', 'blue')
    c.name = psa_word('name')
    psa_equal(c.name, psa_word('name'), 'name')
    def set_red():
        c.red = 300
    refused(set_red, 'invalid component')
    psa_equal(str(c), '#0a14ff', 'an invalid component changes nothing')

def law_X01_spaces():
    h = psa_unit('h')
    l = psa_unit('l')
    s = psa_unit('s')
    c = Color(hue=h, light=l, saturation=s)
    psa_equal(c.hls[0], h, 'hls')
    psa_equal(c.hls[1], l, 'hls')
    psa_equal(c.hls[2], s, 'hls')
    c = Color(hue=h, value=l, saturation=s)
    psa_equal(c.hsv[0], h, 'hsv')
    psa_equal(c.hsv[1], s, 'hsv')
    psa_equal(c.hsv[2], l, 'hsv')
    refused(lambda: Color(hue=h, saturation=s), 'incomplete')

def law_X01_clone():
    a = Color(psa_unit('r'), psa_unit('g'), psa_unit('b'), name=psa_word('name'))
    for b in [a.clone(), Color(a)]:
        psa_other_object(a, b, 'another object')
        psa_equal(b.red_float, psa_unit('r'), 'red')
        psa_equal(b.green_float, psa_unit('g'), 'green')
        psa_equal(b.blue_float, psa_unit('b'), 'blue')
        b.red = .25
        b.green = .25
        b.blue = .25
        psa_equal(a.red_float, psa_unit('r'), 'independent')
        psa_equal(a.green_float, psa_unit('g'), 'independent')
        psa_equal(a.blue_float, psa_unit('b'), 'independent')
    psa_equal(a.clone().name, psa_word('name'), 'name of a clone')

def law_X01_equality():
    psa_true(Color('#0a80ff') == Color(10, 128, 255), 'equal')
    psa_true(not (Color('#0a80ff') != Color(10, 128, 255)), 'equal')
    for other in ['#0b80ff', '#0a81ff', '#0a80fe']:
        psa_true(Color('#0a80ff') != Color(other), 'different')
    psa_true(Color('#0a80ff', name='a') == Color('#0a80ff', name='b'), 'names do not matter')

def law_X02_database():
    db = ColorDataBase()
    a = Color('#010203', name='a')
    b = Color('#010204', name='b')
    db.add('a', a)
    db.add('b', b)
    psa_equal(len(db), 2, 'len')
    psa_true('a' in db and 'c' not in db, 'contains')
    psa_same_object(db['a'], a, 'by name')
    psa_same_object(db.b, b, 'by attribute')
    psa_same_object(list(db)[0], a, 'iteration')
    psa_same_object(list(db)[1], b, 'iteration')
    psa_true(list(db.iter_names()) == ['a', 'b'], 'names')
    try:
        db.c
    except AttributeError:
        psa_true(True, 'unknown attribute')
    else:
        psa_true(False, 'unknown attribute')
    try:
        db['c']
    except KeyError:
        psa_true(True, 'unknown name')
    else:
        psa_true(False, 'unknown name')

def law_X02_ensure():
    db = ColorDataBase()
    a = Color('#010203', name='a')
    db.add('a', a)
    psa_true(db.ensure_color(None) is None, 'no colour')
    psa_same_object(db.ensure_color(a), a, 'a colour')
    psa_same_object(db.ensure_color('a'), a, 'a name')
    psa_equal(str(db.ensure_color('#0a80ff')), '#0a80ff', 'a text')
    refused(lambda: db.ensure_color(12), 'something else')
    psa_equal(len(db), 1, 'the database is unchanged')

def law_X02_named():
    psa_equal(str(Colors.black), '#000000', 'black')
    psa_equal(str(Colors.white), '#ffffff', 'white')
    psa_equal(str(Colors.red), '#ff0000', 'red')
    psa_equal(str(Colors['blue']), '#0000ff', 'blue')
    psa_equal(Colors.black.name, 'black', 'name')
    psa_equal(Colors['dark_blue'].name, 'dark_blue', 'spaces in a name')
    for name in Colors.iter_names():
        psa_true(' ' not in name, 'spaces in a name')
        psa_equal(Colors[name].name, name, 'name')

####################################################################################################
# paper

def sqrt2():
    from math import sqrt
    return sqrt(2)

def law_X03_sizes():
    for letter, side in [('A', 1189), ('B', 1414), ('C', 1297)]:
        height = side
        for level in range(11):
            p = PaperSize(letter + str(level), 'portrait', 10)
            psa_equal(p.height, height, 'height')
            psa_equal(p.width * sqrt2(), height, 'width')
            psa_equal(p.name, letter + str(level), 'name')
            height = height / sqrt2()

def law_X03_orientation():
    m = psa_length('m')
    p = PaperSize('A4', 'portrait', m)
    q = PaperSize('a4', 'landscape', m)
    psa_equal(q.width, p.height, 'landscape')
    psa_equal(q.height, p.width, 'landscape')
    psa_equal(p.orientation, 'portrait', 'orientation')
    psa_equal(q.orientation, 'landscape', 'orientation')
    psa_equal(p.margin, m, 'margin')
    psa_equal(q.name, 'A4', 'name')
    psa_equal(p.width_in * 25.4, p.width, 'inches')
    psa_equal(p.height_in * 25.4, p.height, 'inches')

def law_X03_refused():
    for name in ['D4', 'A11', 'B12']:
        refused(lambda: PaperSize(name, 'portrait', 10), 'unknown size')
    refused(lambda: PaperSize('A4', 'upright', 10), 'unknown orientation')

####################################################################################################
# textile

def law_X04_units():
    x = psa_positive_number('x')
    psa_equal(tex2den(x), 9*x, 'tex2den')
    psa_equal(den2tex(9*x), x, 'den2tex')
    psa_equal(tex2nm(x), 1000/x, 'tex2nm')
    psa_equal(nm2tex(tex2nm(x)), x, 'nm2tex')

def law_X04_yarn():
    x = psa_positive_number('x')
    y = Yarn(psa_word('fiber'), Colors.red, x)
    psa_equal(y.fiber, psa_word('fiber'), 'fiber')
    psa_true(y.color is Colors.red, 'color')
    psa_equal(y.tex, x, 'tex')
    psa_equal(y.denier, 9*x, 'denier')
    psa_equal(y.nm, 1000/x, 'nm')
    psa_true(y.twist_type is None, 'no twist')

def law_X04_machine_parts():
    s = NeedleSystem(psa_word('name'), psa_word('description'))
    psa_equal(s.name, psa_word('name'), 'NeedleSystem')
    psa_equal(s.description, psa_word('description'), 'NeedleSystem')
    t = NeedleType(psa_word('name'), psa_word('description'), psa_word('use'))
    psa_equal(t.name, psa_word('name'), 'NeedleType')
    psa_equal(t.description, psa_word('description'), 'NeedleType')
    psa_equal(t.fabric_use, psa_word('use'), 'NeedleType')
    n = Needle(s, t, 80, 2)
    psa_same_object(n.system, s, 'Needle system')
    psa_same_object(n.type, t, 'Needle type')
    psa_equal(n.nm_size, 80, 'Needle size')
    psa_equal(n.multiplicity, 2, 'Needle multiplicity')
    psa_equal(Needle(s, t, 80).multiplicity, 1, 'Needle multiplicity')
    x = StitchType(301, psa_word('name'), 1, 2, 3)
    psa_equal(x.number, 301, 'StitchType number')
    psa_equal(x.name, psa_word('name'), 'StitchType name')
    psa_equal(x.number_of_needles, 1, 'StitchType needles')
    psa_equal(x.number_of_threads, 2, 'StitchType threads')
    psa_equal(x.number_of_loops, 3, 'StitchType loops')
    psa_equal(AstmSeam('SS', 'a', 1).name, 'SSa-1', 'AstmSeam')
    psa_equal(AstmSeam('LS', 'bc', 2).name, 'LSbc-2', 'AstmSeam')

def law_X04_fibers():
    yaml.LOADED.append({
        'Natural Fibres': {
            'Plant Fibres': {'cotton': {'source': psa_word('plant')}, 'flax': {'source': 'flax plant'}},
            'Animal Fibres': {'wool': {'source': psa_word('animal')}},
        },
        'Synthetic Fibres': {'nylon': {}},
    })
    db = FiberDatabase()
    db.load('foo.yaml')
    psa_equal(len(db), 4, 'fibers')
    psa_true([x.name for x in db] == ['cotton', 'flax', 'wool', 'nylon'], 'fibers')
    psa_equal(db['cotton'].source, psa_word('plant'), 'source')
    psa_equal(db['wool'].source, psa_word('animal'), 'source')
    psa_true(db['cotton'].fiber_type is FiberType.Natural, 'natural')
    psa_true(db['wool'].fiber_type is FiberType.Natural, 'natural')
    psa_true(db['nylon'].fiber_type is FiberType.Synthetic, 'synthetic')

####################################################################################################
# particular values

def law_X01_texts():
    for text in ['#abc', '#0a80f', '#0a80ff0', '#0a80ff00', '#', '', 'x0a80ff', '#0g80ff']:
        refused(lambda: Color(text), 'not a #rrggbb text')
    for text in ['#000000', '#ffffff', '#010203', '#fefdfc', '#0F0aFf']:
        psa_equal(str(Color(text)), text.lower(), 'text')

def law_X01_incomplete():
    h = psa_unit('h')
    refused(lambda: Color(1, 2), 'two components')
    refused(lambda: Color(1, 2, 3, 4), 'four components')
    refused(lambda: Color(hue=h), 'a hue')
    refused(lambda: Color(hue=h, light=h), 'no saturation')
    refused(lambda: Color(hue=h, value=h), 'no saturation')

def law_X01_numbers():
    # integers and floats at the ends and between the levels
    c = Color(0, 1, 255)
    psa_equal(c.red_float, 0, 'least integer')
    psa_equal(c.green_float, 1/255, 'integer one')
    psa_equal(c.blue_float, 1, 'greatest integer')
    c = Color(1., 0., .123)
    psa_equal(c.red_float, 1, 'float one')
    psa_equal(c.green_float, 0, 'float zero')
    psa_equal(c.blue_float, .123, 'float')
    psa_equal(c.red, 255, 'float one')
    psa_equal(c.green, 0, 'float zero')
    psa_equal(c.blue, 31, 'float')
    psa_equal(str(Color(.123, .4567, .999)), '#1f74ff', 'floats as text')
    psa_equal(Color(.001, 0, 0).red, 0, 'small float')
    psa_equal(Color(.998, 0, 0).red, 254, 'large float')

def law_X01_exact_copies():
    a = Color(.123, .4567, .999, name=psa_word('name'))
    for b in [a.clone(), Color(a), a.clone().clone()]:
        psa_equal(b.red_float, .123, 'exact components')
        psa_equal(b.green_float, .4567, 'exact components')
        psa_equal(b.blue_float, .999, 'exact components')
    psa_equal(a.clone().clone().name, psa_word('name'), 'name of a clone')
    psa_true(Color('#010203').clone().name is None, 'no name')
    psa_true(a.clone() == a, 'a clone is equal')
    b = a.clone()
    b.name = 'other'
    psa_equal(a.name, psa_word('name'), 'name of the original')

def law_X01_setters_each():
    for name in ['red', 'green', 'blue']:
        for value, level in [(0, 0), (1, 1), (255, 255), (0., 0), (1., 255), (.5, 128)]:
            c = Color(10, 20, 30)
            setattr(c, name, value)
            expected = {'red': 10, 'green': 20, 'blue': 30}
            expected[name] = level
            psa_equal(c.red, expected['red'], 'set ' + name)
            psa_equal(c.green, expected['green'], 'set ' + name)
            psa_equal(c.blue, expected['blue'], 'set ' + name)
        for value in [-1, 256, 1.5, -.5, '12', None]:
            c = Color(10, 20, 30)
            refused(lambda: setattr(c, name, value), 'invalid ' + name)
            psa_equal(str(c), '#0a141e', 'an invalid component changes nothing')

def law_X01_grey_spaces():
    # hue, light, value and saturation may be zero or one, integers or not
    for zero, one in [(0., 1.), (0, 1)]:
        psa_equal(str(Color(hue=zero, light=one, saturation=zero)), '#ffffff', 'white as hls')
        psa_equal(str(Color(hue=zero, light=zero, saturation=zero)), '#000000', 'black as hls')
        psa_equal(str(Color(hue=zero, light=.5, saturation=one)), '#ff0000', 'red as hls')
        psa_equal(str(Color(hue=zero, value=one, saturation=zero)), '#ffffff', 'white as hsv')
        psa_equal(str(Color(hue=zero, value=zero, saturation=zero)), '#000000', 'black as hsv')
        psa_equal(str(Color(hue=zero, value=one, saturation=one)), '#ff0000', 'red as hsv')
    psa_equal(str(Color(hue=.5, value=1., saturation=1.)), '#00ffff', 'cyan as hsv')
    psa_equal(str(Color(hue=2/3, light=.5, saturation=1.)), '#0000ff', 'blue as hls')
    psa_equal(str(Color(hue=0., value=.2, saturation=.5)), '#331a1a', 'dark red as hsv')

def law_X01_equality_levels():
    # equality is the one of the integer components
    psa_true(Color(.5, 0., 1.) == Color(128, 0, 255), 'a float and its level')
    psa_true(Color(.5001, 0., 1.) == Color(.5, 0., 1.), 'two floats of one level')
    psa_true(Color(10, 20, 30) != Color(30, 20, 10), 'order')
    psa_true(Color(10, 20, 30) != Color(10, 20, 31), 'blue')
    psa_true(Color('#0A80FF') == Color('#0a80ff'), 'upper case')

def law_X01_names():
    psa_equal(Color('#010203', name='Dark Red').name, 'Dark Red', 'name')
    psa_true(Color(name=None).name is None, 'no name')
    psa_true(Color(1, 2, 3).name is None, 'no name')
    c = Color(1, 2, 3, name='a')
    c.name = 'b'
    psa_equal(c.name, 'b', 'name')
    psa_equal(str(c), '#010203', 'a name changes no component')

def law_X02_names():
    db = ColorDataBase()
    a = Color('#010203')
    b = Color('#010203')
    c = Color('#040506')
    db.add('Red', a)
    db.add('red', b)
    psa_equal(len(db), 2, 'names differing by case')
    psa_same_object(db.ensure_color('Red'), a, 'case of a name')
    psa_same_object(db.ensure_color('red'), b, 'case of a name')
    psa_same_object(db['Red'], a, 'case of a name')
    psa_same_object(db.Red, a, 'case of a name')
    db.add('red', c)
    psa_equal(len(db), 2, 'a name added again')
    psa_same_object(db['red'], c, 'the last colour of a name')
    psa_true(list(db.iter_names()) == ['Red', 'red'], 'names in order')
    psa_true('RED' not in db, 'unknown name')
    for name in ['RED', 'blue', '', ' red']:
        try:
            db.ensure_color(name)
        except KeyError:
            psa_true(True, 'an unknown name')
        else:
            psa_true(False, 'an unknown name')
    psa_equal(len(db), 2, 'the database is unchanged')

def law_X02_more_texts():
    db = ColorDataBase()
    black = Color('#000000')
    psa_same_object(db.ensure_color(black), black, 'a colour, black')
    for text in ['#000000', '#ffffff', '#0a80ff']:
        x = db.ensure_color(text)
        y = db.ensure_color(text)
        psa_equal(str(x), text, 'text of a colour')
        psa_other_object(x, y, 'colours of two texts')
    for x in [0, 1, 1.5, [], (), ('#000000',), True, False]:
        refused(lambda: db.ensure_color(x), 'no colour nor text')
    psa_equal(len(db), 0, 'nothing is added')

def law_X02_tables():
    psa_true('dark_red' in Colors and 'dark red' not in Colors, 'spaces in a name')
    psa_same_object(Colors.dark_red, Colors['dark_red'], 'attribute and item')
    psa_same_object(Colors.ensure_color('dark_red'), Colors['dark_red'], 'ensure')
    psa_equal(len(list(Colors)), len(Colors), 'count')
    psa_equal(len(list(Colors.iter_names())), len(Colors), 'count')

def law_X03_every_size():
    # landscape, inches and text of every size
    for letter, side in [('A', 1189), ('B', 1414), ('C', 1297)]:
        height = side
        for level in range(11):
            p = PaperSize(letter.lower() + str(level), 'landscape', 0)
            psa_equal(p.width, height, 'landscape width')
            psa_equal(p.height * sqrt2(), height, 'landscape height')
            psa_equal(p.width_in * 25.4, height, 'landscape width in inches')
            psa_equal(p.height_in * 25.4, p.height, 'landscape height in inches')
            psa_equal(p.name, letter + str(level), 'name in upper case')
            psa_equal(p.margin, 0, 'no margin')
            height = height / sqrt2()

def law_X03_values():
    p = PaperSize('A0', 'portrait', 10)
    psa_equal(p.width * p.width * 2, 1189*1189, 'width of A0')
    p = PaperSize('A4', 'portrait', '12.5')
    psa_equal(p.height, 297.25, 'height of A4')
    psa_equal(p.margin, 12.5, 'margin given as a text')
    psa_equal(PaperSize('b10', 'portrait', 1).height * 32, 1414, 'height of B10')

def law_X03_more_refused():
    for name in ['A-1', 'A', '', '4', 'AA', 'A4x', 'A100', 'Letter']:
        refused(lambda: PaperSize(name, 'portrait', 10), 'unknown size')
    for orientation in ['Portrait', '', None, 'portraits', 'land']:
        refused(lambda: PaperSize('A4', orientation, 10), 'unknown orientation')

def law_X04_numbers():
    for tex in [0.5, 10, 37, 100]:
        y = Yarn('cotton', None, tex)
        psa_equal(y.tex, tex, 'tex')
        psa_equal(y.denier, tex * 9, 'denier')
        psa_equal(y.nm * tex, 1000, 'nm')
    psa_equal(Yarn('cotton', None, '12.5').tex, 12.5, 'tex given as a text')
    psa_true(Yarn('cotton', None, 1).color is None, 'no color')
    for t in TwistType:
        psa_true(Yarn('cotton', None, 1, t).twist_type is t, 'twist')
        psa_true(Yarn('cotton', None, 1, twist_type=t.value).twist_type is t, 'twist')
    psa_equal(den2tex(1) * 9, 1, 'den2tex')
    psa_equal(tex2den(den2tex(10)), 10, 'den2tex')
    psa_equal(nm2tex(3) * 3, 1000, 'nm2tex')

def law_X04_needle_sizes():
    s = NeedleSystem('130/705H', '')
    t = NeedleType('Universal', '', '')
    for size in [60, 65, 70, 75, 82, 100]:
        psa_equal(Needle(s, t, size).nm_size, size, 'Needle size')
        psa_equal(Needle(s, t, str(size), '3').nm_size, size, 'Needle size given as a text')
    psa_equal(Needle(s, t, 80, multiplicity='3').multiplicity, 3, 'Needle multiplicity')
    psa_equal(NeedleSystem(1, 2).name, '1', 'names are texts')
    x = StitchType('301', 'lock', '1', '2', '0')
    psa_equal(x.number, 301, 'StitchType number')
    psa_equal(x.number_of_needles, 1, 'StitchType needles')
    psa_equal(x.number_of_threads, 2, 'StitchType threads')
    psa_equal(x.number_of_loops, 0, 'StitchType loops')

def law_X04_fiber_cases():
    yaml.LOADED.append({
        'Natural Fibres': {
            'Plant Fibres': {'zz': {'source': None}, 'b': {'source': ''}, 'a': {'source': 'x'}},
            'Animal Fibres': {'wool': {'source': None}, 'a': {'source': 'y'}},
        },
        'Synthetic Fibres': {'nylon': None, 'c': {}},
    })
    db = FiberDatabase()
    db.load('foo.yaml')
    # a fiber is registered once, without source or not
    psa_true([x.name for x in db] == ['zz', 'b', 'a', 'wool', 'nylon', 'c'], 'fibers')
    psa_equal(db['a'].source, 'x', 'the first fiber of a name')
    psa_equal(len(FiberDatabase()), 0, 'databases are independent')

def law_X04_empty_fibers():
    yaml.LOADED.append({'Natural Fibres': {'Plant Fibres': {}, 'Animal Fibres': {}}, 'Synthetic Fibres': {'nylon': {}}})
    db = FiberDatabase()
    db.load('foo.yaml')
    psa_true([x.name for x in db] == ['nylon'], 'fibers')

def law_X04_fiber_type():
    f = Fiber(psa_word('name'), FiberType.Natural, FiberType.Plant, psa_word('source'))
    psa_equal(f.name, psa_word('name'), 'Fiber name')
    psa_true(f.fiber_type is FiberType.Natural, 'Fiber type')
    psa_equal(f.source, psa_word('source'), 'Fiber source')

def law_X02_names_of_addition():
    # a colour is registered under the name it is added with, whatever its own one
    database = ColorDataBase()
    database.add('one', Color('#010203'))
    database.add('two', Color('#040506', name='other'))
    psa_true('one' in database and 'two' in database, 'names of addition')
    psa_true('other' not in database, 'names of addition')
    psa_true(list(database.iter_names()) == ['one', 'two'], 'names of addition')
    psa_equal(str(database.two), '#040506', 'names of addition')
    psa_equal(len(database), 2, 'names of addition')
    # the colour of a text is a new one
    color = database.ensure_color('#010203')
    color.red = 7
    psa_equal(str(database['one']), '#010203', 'ensure_color makes a new colour')
    psa_equal(len(database), 2, 'ensure_color makes a new colour')
