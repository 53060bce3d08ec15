"""Laws of the measurements, analysed and never executed (see laws_geometry)."""

import io

import sympy
import yaml

from datetime import date, datetime

from Patro.Measurement.Measurement import Measurement, MeasurementSet
from Patro.Measurement.PersonalData import Gender, PersonalData
from Patro.Measurement.StandardMeasurement import Measurement as StandardItem, StandardMeasurement
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurement, ValentinaMeasurements
from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement

io.READABLE['foo.yaml'] = ''


def law_M01_number():
    ms = MeasurementSet()
    h = psa_scalar('h')
    m = ms.add('height', h, psa_word('full'), psa_word('description'))
    psa_equal(m.value, h, 'value')
    psa_equal(float(m), h, 'float')
    psa_equal(m.name, 'height', 'name')
    psa_equal(m.full_name, psa_word('full'), 'full name')
    psa_equal(m.description, psa_word('description'), 'description')
    psa_equal(m.expression, h, 'expression')

def law_M01_expression():
    ms = MeasurementSet()
    h = psa_scalar('h')
    ms.add('height', h)
    m = ms.add('half', 'height/2')
    psa_equal(m.value, h/2, 'expression')
    psa_equal(float(m), h/2, 'float')
    psa_equal(ms.add('number', '12').value, 12, 'number in a text')

def law_M01_chain():
    ms = MeasurementSet()
    h = psa_scalar('h')
    d = ms.add('d', 'c - a')
    c = ms.add('c', 'b*2')
    b = ms.add('b', 'a + 1')
    ms.add('a', h)
    psa_equal(d.value, (h + 1)*2 - h, 'chain of expressions')
    psa_equal(c.value, (h + 1)*2, 'chain of expressions')
    psa_equal(b.value, h + 1, 'chain of expressions')

def law_M01_later():
    ms = MeasurementSet()
    m = ms.add('half', 'height/2')
    psa_equal(len(m.evaluated_expression.free_symbols), 1, 'not yet known')
    h = psa_scalar('h')
    ms.add('height', h)
    psa_equal(m.value, h/2, 'known later')

def law_M01_unknown():
    ms = MeasurementSet()
    m = ms.add('half', 'height/2')
    try:
        m.value
    except TypeError:
        psa_true(True, 'unknown measurement')
    else:
        psa_true(False, 'unknown measurement')

####################################################################################################

def law_M02_lookup():
    ms = MeasurementSet()
    a = ms.add('a', 1)
    c = ms.add('c', 2)
    b = ms.add('b', 3)
    psa_same_object(ms['a'], a, 'by name')
    psa_same_object(ms.c, c, 'by attribute')
    psa_true([x.name for x in ms] == ['a', 'c', 'b'], 'iteration')
    psa_true([x.name for x in ms.sorted_iter()] == ['a', 'b', 'c'], 'sorted iteration')
    psa_same_object(list(ms)[2], b, 'iteration')

def law_M02_duplicate():
    ms = MeasurementSet()
    ms.add('a', 1)
    try:
        ms.add('a', 2)
    except NameError:
        psa_true(True, 'duplicate')
    else:
        psa_true(False, 'duplicate')
    psa_equal(ms['a'].value, 1, 'the first one is kept')
    psa_equal(ms.add('b', 'a').value, 1, 'the first one is kept in expressions')

def law_M02_unknown():
    ms = MeasurementSet()
    ms.add('a', 1)
    try:
        ms.b
    except AttributeError:
        psa_true(True, 'unknown attribute')
    else:
        psa_true(False, 'unknown attribute')

def law_M02_names():
    ms = MeasurementSet()
    psa_equal(ms.add('full height', 1).name, 'full_height', 'space in a name')
    psa_equal(ms.add('height_2', 1).name, 'height_2', 'name')
    for name in ['a-b', 'a+b', '@a', 'a.b']:
        try:
            ms.add(name, 1)
        except ValueError:
            psa_true(True, 'invalid name ' + name)
        else:
            psa_true(False, 'invalid name ' + name)
    psa_equal(len(list(ms)), 2, 'invalid names are not registered')

def law_M02_header():
    p = PersonalData()
    ms = MeasurementSet(psa_word('unit'), psa_word('system'), p)
    psa_equal(ms.unit, psa_word('unit'), 'unit')
    psa_equal(ms.pattern_making_system, psa_word('system'), 'system')
    psa_same_object(ms.personal, p, 'personal')
    psa_other_object(MeasurementSet().personal, MeasurementSet().personal, 'a person per set')
    ms.unit = 'mm'
    psa_equal(ms.unit, 'mm', 'unit setter')

def law_M02_valentina():
    ms = ValentinaMeasurements()
    h = psa_scalar('h')
    ms.add('height', h)
    m = ms.add('@ease', 'height/10', psa_word('full'), psa_word('description'))
    n = ms.add('total', '@ease + height')
    psa_equal(m.name, 'C_ease', 'custom name')
    psa_equal(m.valentina_name, '@ease', 'Valentina name')
    psa_true(m.is_custom() and not n.is_custom(), 'is custom')
    psa_same_object(ms['@ease'], m, 'by Valentina name')
    psa_same_object(ms['C_ease'], m, 'by name')
    psa_equal(m.value, h/10, 'custom value')
    psa_equal(n.value, h/10 + h, 'custom in an expression')
    psa_equal(m.full_name, psa_word('full'), 'full name')
    psa_equal(m.description, psa_word('description'), 'description')

####################################################################################################

def law_M03_dump():
    ms = MeasurementSet()
    ms.add('b', 2)
    ms.add('a', 'b*2', psa_word('full'), psa_word('description'))
    ms.add('c', 'b + 1', '', psa_word('other'))
    ms.add('d', 2.5)
    ms.add('e', '7')
    ms.save_as_yaml('foo.yaml')
    data = yaml.DUMPED[-1]
    psa_equal(io.WRITTEN['foo.yaml'], 'yaml', 'written file')
    psa_true(sorted(data.keys()) == ['a', 'b', 'c', 'd', 'e'], 'names')
    psa_true(data['a'] == ['b*2', psa_word('full'), psa_word('description')], 'expression')
    psa_true(data['c'] == ['b + 1', '', psa_word('other')], 'description only')
    psa_equal(len(data['b']), 1, 'value only')
    psa_equal(float(data['b'][0]), 2, 'value')
    psa_equal(float(data['d'][0]), 2.5, 'value')
    psa_equal(float(data['e'][0]), 7, 'number in a text')

def law_M03_load():
    yaml.LOADED.append({'b': [2], 'a': ['b*2', psa_word('full'), psa_word('description')], 'c': [psa_scalar('x')]})
    ms = MeasurementSet()
    ms.load_yaml('foo.yaml')
    psa_true([x.name for x in ms.sorted_iter()] == ['a', 'b', 'c'], 'names')
    psa_equal(ms['b'].value, 2, 'value')
    psa_equal(ms['c'].value, psa_scalar('x'), 'value')
    psa_equal(ms['a'].value, 4, 'expression')
    psa_equal(ms['a'].full_name, psa_word('full'), 'full name')
    psa_equal(ms['a'].description, psa_word('description'), 'description')
    psa_equal(ms['b'].full_name, '', 'no full name')

def law_M03_round_trip():
    ms = MeasurementSet()
    ms.add('b', 2)
    ms.add('a', 'b*2', psa_word('full'), psa_word('description'))
    ms.add('c', 'b + 1', '', psa_word('other'))
    ms.save_as_yaml('foo.yaml')
    yaml.LOADED.append(yaml.DUMPED[-1])
    other = MeasurementSet()
    other.load_yaml('foo.yaml')
    for m in ms:
        psa_equal(other[m.name].value, m.value, 'value')
        psa_equal(other[m.name].full_name, m.full_name, 'full name')
        psa_equal(other[m.name].description, m.description, 'description')

####################################################################################################

def law_M04_defaults():
    p = PersonalData()
    psa_equal(p.first_name, '', 'first name')
    psa_equal(p.last_name, '', 'last name')
    psa_equal(p.email, '', 'email')
    psa_equal(p.comment, '', 'comment')
    psa_true(p.birth_date is None, 'birth date')
    psa_true(p.measurement_date is None, 'measurement date')
    psa_true(p.gender is Gender.UNKNOWN, 'gender')

def law_M04_values():
    p = PersonalData(first_name=psa_word('first'), last_name=psa_word('last'), email=psa_word('email'),
                     comment=psa_word('comment'), gender=Gender.MALE)
    psa_equal(p.first_name, psa_word('first'), 'first name')
    psa_equal(p.last_name, psa_word('last'), 'last name')
    psa_equal(p.email, psa_word('email'), 'email')
    psa_equal(p.comment, psa_word('comment'), 'comment')
    psa_true(p.gender is Gender.MALE, 'gender')
    p.first_name = None
    psa_equal(p.first_name, '', 'no first name')
    p.email = None
    psa_equal(p.email, '', 'no email')

def law_M04_gender():
    for name, gender in [('male', Gender.MALE), ('FEMALE', Gender.FEMALE), ('Unknown', Gender.UNKNOWN),
                         ('particular', Gender.PARTICULAR)]:
        p = PersonalData(gender=name)
        psa_true(p.gender is gender, 'gender ' + name)

####################################################################################################

def law_M05_standard():
    s = StandardMeasurement()
    a = StandardItem('a', psa_word('full'), psa_word('description'), psa_scalar('x'))
    b = StandardItem('b', 'B', '')
    s.add(a)
    s.add(b)
    psa_equal(len(s), 2, 'len')
    psa_same_object(s['a'], a, 'by name')
    psa_true('a' in s and 'c' not in s, 'contains')
    psa_same_object(list(s)[1], b, 'iteration')
    psa_equal(a.full_name, psa_word('full'), 'full name')
    psa_equal(a.description, psa_word('description'), 'description')
    psa_equal(a.default_value, psa_scalar('x'), 'default value')
    psa_equal(b.default_value, 0, 'default value')
    try:
        s.add(StandardItem('a', '', ''))
    except NameError:
        psa_true(True, 'duplicate')
    else:
        psa_true(False, 'duplicate')
    psa_same_object(s['a'], a, 'the first one is kept')
    a.full_name = 'x'
    a.description = 'y'
    a.default_value = 3
    psa_equal(a.full_name, 'x', 'setter')
    psa_equal(a.description, 'y', 'setter')
    psa_equal(a.default_value, 3, 'setter')

def law_M05_valentina_standard():
    yaml.LOADED.append({
        'A': {'description': 'heights', 'measurements': {
            'A01': ['height', psa_word('full'), psa_word('description'), psa_scalar('x')],
            'A02': ['height_neck', 'neck', '', 0],
        }},
        'B': {'description': 'widths', 'measurements': {'B01': ['width', 'w', '', 1]}},
    })
    s = ValentinaStandardMeasurement()
    yaml.LOADED.pop()
    psa_equal(len(s), 3, 'every measurement of every topic')
    psa_true([x.name for x in s] == ['height', 'height_neck', 'width'], 'names')
    psa_true([x.code for x in s] == ['A01', 'A02', 'B01'], 'codes')
    m = s['height']
    psa_equal(m.full_name, psa_word('full'), 'full name')
    psa_equal(m.description, psa_word('description'), 'description')
    psa_equal(m.default_value, psa_scalar('x'), 'default value')
    psa_true('height' in s and 'depth' not in s, 'contains')

def law_M04_dates():
    p = PersonalData(birth_date='2001-02-03', measurement_date='2020-02-03T12:00:00.000Z')
    psa_equal(p.birth_date.text, '2001-02-03', 'birth date')
    psa_equal(p.measurement_date.text, '2020-02-03T12:00:00.000Z', 'measurement date')
    d = date(2001, 2, 3)
    t = datetime(2020, 2, 3)
    p = PersonalData(birth_date=d, measurement_date=t)
    psa_same_object(p.birth_date, d, 'birth date')
    psa_same_object(p.measurement_date, t, 'measurement date')
    p.birth_date = None
    p.measurement_date = None
    psa_true(p.birth_date is None, 'no birth date')
    psa_true(p.measurement_date is None, 'no measurement date')

def law_M04_setters():
    p = PersonalData(first_name='a', last_name='b', email='c', comment='d')
    p.last_name = psa_word('last')
    p.comment = psa_word('comment')
    psa_equal(p.last_name, psa_word('last'), 'last name')
    psa_equal(p.comment, psa_word('comment'), 'comment')
    psa_equal(p.first_name, 'a', 'first name unchanged')
    psa_equal(p.email, 'c', 'email unchanged')
    p.last_name = None
    p.comment = None
    psa_equal(p.last_name, '', 'no last name')
    psa_equal(p.comment, '', 'no comment')
    p.gender = 'male'
    psa_true(p.gender is Gender.MALE, 'gender by name')

def law_M02_report():
    ms = MeasurementSet()
    ms.add('b', 2)
    ms.add('a', 5)
    text = ms.dump()
    psa_true('a = 5' in text and 'b = 2' in text, 'every measurement')
    psa_true(text.index('a = 5') < text.index('b = 2'), 'sorted')

####################################################################################################
# types, order of additions, repeated reads

def law_M01_float():
    ms = MeasurementSet()
    for m in [ms.add('a', 3), ms.add('b', 2.5), ms.add('c', 'a*2'), ms.add('d', '7')]:
        psa_true(isinstance(m.value, float), 'a value is a float')
        psa_true(isinstance(float(m), float), 'a value is a float')
    psa_equal(ms.a.value, 3, 'integer')
    psa_equal(float(ms.d), 7, 'integer in a text')

def law_M01_partly_known():
    ms = MeasurementSet()
    h, w = psa_scalar('h'), psa_scalar('w')
    m = ms.add('sum', 'height + waist')
    psa_equal(len(m.evaluated_expression.free_symbols), 2, 'nothing known')
    ms.add('height', h)
    psa_equal(len(m.evaluated_expression.free_symbols), 1, 'one known')
    try:
        m.value
    except TypeError:
        psa_true(True, 'one known')
    else:
        psa_true(False, 'one known')
    ms.add('waist', 'height*2 + w')
    psa_equal(len(m.evaluated_expression.free_symbols), 1, 'another one missing')
    ms.add('w', w)
    psa_equal(m.value, 3*h + w, 'all known')
    psa_equal(ms.waist.value, 2*h + w, 'all known')
    psa_equal(m.value, 3*h + w, 'value read twice')
    psa_equal(float(m), 3*h + w, 'value read twice')

def law_M01_other_set():
    one, two = MeasurementSet(), MeasurementSet()
    one.add('a', 1)
    two.add('a', 5)
    x, y = one.add('b', 'a + 1'), two.add('b', 'a + 1')
    psa_equal(y.value, 6, 'measurements of the same set')
    psa_equal(x.value, 2, 'measurements of the same set')

def law_M01_independent():
    # the expression of a measurement is not changed by its evaluation
    ms = MeasurementSet()
    h = psa_scalar('h')
    m = ms.add('half', 'height/2')
    ms.add('height', h)
    n = ms.add('other', 'half + height')
    psa_equal(n.value, h/2 + h, 'an expression of an expression')
    psa_equal(len(m.expression.free_symbols), 1, 'expression')
    psa_equal(len(n.expression.free_symbols), 2, 'expression')
    psa_equal(m.value, h/2, 'value')

def law_M02_texts():
    ms = MeasurementSet()
    m = ms.add('a', 1)
    psa_equal(m.full_name, '', 'no full name')
    psa_equal(m.description, '', 'no description')
    m = ms.add('b', '12', description=psa_word('d'))
    psa_equal(m.full_name, '', 'no full name')
    psa_equal(m.description, psa_word('d'), 'description')
    m = ms.add(name='c d', value=2, full_name=psa_word('f'))
    psa_same_object(ms['c_d'], m, 'name with a space')
    psa_same_object(ms.c_d, m, 'name with a space')
    psa_equal(m.full_name, psa_word('f'), 'full name')

def law_M02_duplicate_later():
    ms = MeasurementSet()
    a = ms.add('a b', 1)
    ms.add('c', 'a_b*2')
    for name, value in [('a_b', 5), ('a b', '7'), ('c', 1)]:
        try:
            ms.add(name, value)
        except NameError:
            psa_true(True, 'duplicate after the spaces are replaced')
        else:
            psa_true(False, 'duplicate after the spaces are replaced')
    psa_equal(len(list(ms)), 2, 'duplicates are not added')
    psa_same_object(ms['a_b'], a, 'the first is kept')
    psa_equal(ms.c.value, 2, 'the first is kept in expressions')
    try:
        ms['z']
    except KeyError:
        psa_true(True, 'unknown name')
    else:
        psa_true(False, 'unknown name')

####################################################################################################
# unusual names, texts and histories

def law_M01_unusual():
    ms = MeasurementSet()
    h = psa_scalar('h')
    ms.add('_a', h)
    ms.add('A1', '_a*2')
    m = ms.add('B__2', 'A1 - _a')
    psa_equal(m.value, h, 'names with underscores and digits')
    psa_equal(ms.add('n', '-A1/4').value, -h/2, 'negative')
    psa_equal(ms.add('z', 0).value, 0, 'zero')
    psa_equal(ms.add('y', 'z*A1').value, 0, 'zero in an expression')
    psa_equal(ms.add('w', '-2.5').value, -2.5, 'negative number in a text')
    psa_equal(ms.add('v', -3).value, -3, 'negative number')
    psa_equal(float(ms.add('u', 'v + w')), -5.5, 'negative numbers')

def law_M01_long_chain():
    ms = MeasurementSet()
    for i in range(8, 0, -1):
        ms.add('m' + str(i), 'm' + str(i - 1) + ' + 1')
    ms.add('m0', psa_scalar('h'))
    psa_equal(ms['m8'].value, psa_scalar('h') + 8, 'long chain')
    psa_equal(ms['m3'].value, psa_scalar('h') + 3, 'long chain')

def law_M02_unusual_names():
    ms = MeasurementSet()
    for name, expected in [(' a ', '_a_'), ('_b', '_b'), ('C', 'C'), ('c', 'c'), ('d  e', 'd__e'), ('__f', '__f'), ('g1', 'g1')]:
        m = ms.add(name, 1)
        psa_equal(m.name, expected, 'name')
        psa_same_object(ms[expected], m, 'by name')
        psa_same_object(getattr(ms, expected), m, 'by attribute')
    psa_true([x.name for x in ms] == ['_a_', '_b', 'C', 'c', 'd__e', '__f', 'g1'], 'order of addition')
    psa_true([x.name for x in ms.sorted_iter()] == ['C', '__f', '_a_', '_b', 'c', 'd__e', 'g1'], 'sorted')
    psa_true([x.name for x in ms] == ['_a_', '_b', 'C', 'c', 'd__e', '__f', 'g1'], 'order of addition once sorted')

def law_M02_same_name_other_texts():
    ms = MeasurementSet()
    a = ms.add('a', 1, 'A', 'first')
    for texts in [('A', 'first'), ('B', 'second'), ('', '')]:
        try:
            ms.add('a', 1, *texts)
        except NameError:
            psa_true(True, 'duplicate')
        else:
            psa_true(False, 'duplicate')
    psa_same_object(ms['a'], a, 'the first one is kept')
    psa_equal(ms.a.full_name, 'A', 'the first one is kept')
    psa_equal(len(list(ms.sorted_iter())), 1, 'one measurement')

def law_M02_valentina_names():
    ms = ValentinaMeasurements()
    h = psa_scalar('h')
    x = ms.add('x', 1)
    y = ms.add('@x', h)
    z = ms.add('@z', '@x + @x*2 + x')
    psa_same_object(ms['x'], x, 'a name')
    psa_same_object(ms['@x'], y, 'a custom name')
    psa_same_object(ms['C_x'], y, 'a custom name')
    psa_same_object(ms.C_x, y, 'a custom name')
    psa_equal(z.value, 3*h + 1, 'several custom names in an expression')
    psa_true(y.is_custom() and z.is_custom() and not x.is_custom(), 'is custom')
    c = ms.add('C_y', 2)
    psa_true(not c.is_custom(), 'is custom')
    psa_equal(c.valentina_name, 'C_y', 'Valentina name')
    psa_same_object(ms['@y'], c, 'the Valentina name of a name')
    try:
        ms.add('C_x', 5)
    except NameError:
        psa_true(True, 'duplicate of a custom name')
    else:
        psa_true(False, 'duplicate of a custom name')
    psa_equal(ms['@x'].value, h, 'the first one is kept')
    psa_equal(ms.add('q', 5).value, 5, 'a number')

def law_M03_texts():
    ms = MeasurementSet()
    ms.add('c', 0, 'C')
    ms.add('a', '2.5')
    ms.add('b', '-3', 'B', 'b')
    ms.add('d', 'a*b - 0.5')
    ms.save_as_yaml('bar.yaml')
    data = yaml.DUMPED[-1]
    psa_true(sorted(data.keys()) == ['a', 'b', 'c', 'd'], 'names')
    psa_equal(float(data['a'][0]), 2.5, 'number in a text')
    psa_equal(float(data['b'][0]), -3, 'number in a text')
    psa_equal(float(data['c'][0]), 0, 'zero')
    psa_true(data['c'][1:] == ['C', ''], 'full name only')
    psa_true(data['b'][1:] == ['B', 'b'], 'texts')
    yaml.LOADED.append(data)
    other = MeasurementSet()
    io.READABLE['bar.yaml'] = ''
    other.load_yaml('bar.yaml')
    psa_equal(other.d.value, -8, 'expression')
    psa_equal(other.a.value, 2.5, 'number in a text')
    psa_equal(other.c.full_name, 'C', 'full name only')
    psa_equal(other.c.description, '', 'full name only')
    psa_equal(other.c.value, 0, 'zero')

def law_M03_twice():
    # a second file, a measurement added in between
    ms = MeasurementSet()
    ms.add('b', 2)
    ms.save_as_yaml('one.yaml')
    ms.add('a', 'b*2', '', 'd')
    ms.save_as_yaml('one.yaml')
    psa_equal(io.WRITTEN['one.yaml'], 'yaml', 'the file is written again')
    data = yaml.DUMPED[-1]
    psa_true(sorted(data.keys()) == ['a', 'b'], 'names')
    psa_true(data['a'] == ['b*2', '', 'd'], 'description only')
    psa_equal(ms.a.value, 4, 'value after saving')
    ms.save_as_yaml('one.yaml')
    psa_true(yaml.DUMPED[-1]['a'] == ['b*2', '', 'd'], 'an expression is saved once evaluated')
    psa_equal(len(yaml.DUMPED[-1]['b']), 1, 'value only')

def law_M03_load_more():
    yaml.LOADED.append({'c': ['a + 1', '', psa_word('d')], 'b': [0], 'd': ['12'], 'e': [-2.5, psa_word('f'), '']})
    ms = MeasurementSet()
    ms.add('a', psa_scalar('h'))
    ms.load_yaml('foo.yaml')
    psa_true([x.name for x in ms] == ['a', 'c', 'b', 'd', 'e'], 'loaded measurements are added')
    psa_equal(ms.c.value, psa_scalar('h') + 1, 'expression')
    psa_equal(ms.c.full_name, '', 'no full name')
    psa_equal(ms.c.description, psa_word('d'), 'description')
    psa_equal(ms.b.value, 0, 'zero')
    psa_equal(ms.d.value, 12, 'number in a text')
    psa_equal(ms.e.value, -2.5, 'negative number')
    psa_equal(ms.e.full_name, psa_word('f'), 'full name')
    psa_equal(ms.e.description, '', 'no description')
    try:
        ms.load_yaml('foo.yaml')
    except NameError:
        psa_true(True, 'loaded twice')
    else:
        psa_true(False, 'loaded twice')

def law_M04_unknown_gender():
    for name in ['', ' male', 'men', 'm', 'none']:
        p = PersonalData(gender='female')
        try:
            p.gender = name
        except KeyError:
            psa_true(True, 'unknown gender')
        else:
            psa_true(False, 'unknown gender')
        psa_true(p.gender is Gender.FEMALE, 'gender unchanged')
    p = PersonalData(gender=Gender.PARTICULAR)
    p.gender = Gender.UNKNOWN
    psa_true(p.gender is Gender.UNKNOWN, 'gender set')
    p.gender = 'Particular'
    psa_true(p.gender is Gender.PARTICULAR, 'gender set')

def law_M04_independent():
    a = PersonalData(first_name='a', email='e')
    b = PersonalData(last_name='b')
    psa_equal(a.last_name, '', 'persons are independent')
    psa_equal(b.first_name, '', 'persons are independent')
    b.email = ' x '
    psa_equal(a.email, 'e', 'persons are independent')
    psa_equal(b.email, ' x ', 'texts as they are')
    a.first_name = ''
    psa_equal(a.first_name, '', 'an empty text')
    a.comment = psa_word('c')
    a.comment = None
    psa_equal(a.comment, '', 'no comment')
    a.birth_date = '2001-02-03'
    a.birth_date = '2011-12-13'
    psa_equal(a.birth_date.text, '2011-12-13', 'date set again')
    psa_true(a.measurement_date is None and b.birth_date is None, 'other dates')

def law_M05_names():
    s = StandardMeasurement()
    items = [StandardItem(x, '', '') for x in ['b', 'A', 'a', 'B', 'a b']]
    for x in items:
        s.add(x)
    psa_equal(len(s), 5, 'len')
    psa_true([x.name for x in s] == ['b', 'A', 'a', 'B', 'a b'], 'order')
    for x in items:
        psa_same_object(s[x.name], x, 'by name')
        psa_true(x.name in s, 'contains')
    for name in ['A', 'a b']:
        try:
            s.add(StandardItem(name, 'other', 'other', 5))
        except NameError:
            psa_true(True, 'duplicate')
        else:
            psa_true(False, 'duplicate')
    psa_equal(len(s), 5, 'len')
    psa_same_object(s['A'], items[1], 'the first one is kept')
    x = items[0]
    x.full_name = psa_word('f')
    x.description = ''
    psa_equal(x.description, '', 'setter to an empty text')
    x.default_value = 0
    psa_equal(x.default_value, 0, 'setter to zero')
    x.default_value = -1.5
    psa_equal(x.default_value, -1.5, 'setter')
    psa_equal(x.full_name, psa_word('f'), 'setter')
    psa_equal(items[1].full_name, '', 'measurements are independent')
    x.name = 'z'
    psa_equal(x.name, 'z', 'setter')
    try:
        s['zz']
    except KeyError:
        psa_true(True, 'unknown name')
    else:
        psa_true(False, 'unknown name')
    psa_true('zz' not in s and len(StandardMeasurement()) == 0, 'empty')

def law_M03_long_numbers():
    # numbers keep all their digits
    values = [1234.56789012, 0.000012345, 1e-9, 123456789, 2.5e10, -0.123456789, 0]
    ms = MeasurementSet()
    for i, value in enumerate(values):
        ms.add('m{}'.format(i), value, psa_word('full'))
    ms.save_as_yaml('foo.yaml')
    yaml.LOADED.append(yaml.DUMPED[-1])
    other = MeasurementSet()
    other.load_yaml('foo.yaml')
    for i, value in enumerate(values):
        psa_true(ms['m{}'.format(i)].value == value, 'long number')
        psa_true(other['m{}'.format(i)].value == value, 'long number read back')
    # also given as texts
    ms = MeasurementSet()
    for i, value in enumerate(values):
        ms.add('m{}'.format(i), str(value), psa_word('full'))
    ms.save_as_yaml('foo.yaml')
    yaml.LOADED.append(yaml.DUMPED[-1])
    other = MeasurementSet()
    other.load_yaml('foo.yaml')
    for i, value in enumerate(values):
        psa_true(ms['m{}'.format(i)].value == value, 'long number in a text')
        psa_true(other['m{}'.format(i)].value == value, 'long number in a text read back')
