"""Laws of the dates and paths, analysed and never executed (see laws_geometry)."""

import argparse
import os
from datetime import date, datetime
from pathlib import Path

from Patro.Common import Path as PathTools
from Patro.Common.ArgparseAction import PathAction
from Patro.Common.Datetime import ensure_date, ensure_datetime


def day(cls, *args):
    return cls(psa_scalar('year'), psa_scalar('month'), psa_scalar('day'), *args)

class TextLike:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

def law_C07_date():
    d = day(date)
    psa_same_object(ensure_date(d), d, 'a date is kept')
    x = ensure_date(day(datetime, 12, 30))
    psa_true(type(x) is date, 'the day of a datetime')
    psa_equal(x.year, psa_scalar('year'), 'the day of a datetime')
    psa_equal(x.month, psa_scalar('month'), 'the day of a datetime')
    psa_equal(x.day, psa_scalar('day'), 'the day of a datetime')
    for text in [psa_word('text'), '2018-12-31']:
        x = ensure_date(text)
        psa_true(type(x) is date, 'a text is a date')
        psa_equal(x.text, text, 'the text is read')
        psa_equal(x.format, '%Y-%m-%d', 'year-month-day')
    x = ensure_date(TextLike(psa_word('text')))
    psa_equal(x.text, psa_word('text'), 'the text of an object is read')
    try:
        ensure_date('not a date')
    except ValueError:
        psa_true(True, 'another text is refused')
    else:
        psa_true(False, 'another text is refused')

def law_C07_datetime():
    d = day(datetime, 12, 30)
    psa_same_object(ensure_datetime(d), d, 'a datetime is kept')
    for text in [psa_word('text'), '2018-12-31T12:00:00.000Z']:
        x = ensure_datetime(text)
        psa_true(type(x) is datetime, 'a text is a datetime')
        psa_equal(x.text, text, 'the text is read')
        psa_equal(x.format, '%Y-%m-%dT%H:%M:%S.%fZ', 'format')
    try:
        ensure_datetime('not a date')
    except ValueError:
        psa_true(True, 'another text is refused')
    else:
        psa_true(False, 'another text is refused')

def tree():
    os.TREE['/a'] = (['b', 'c'], ['x'])
    os.TREE['/a/b'] = (['d'], ['y'])
    os.TREE['/a/b/d'] = ([], ['z', 't'])
    os.TREE['/a/c'] = ([], ['z'])
    os.TREE['/e'] = ([], ['y', 'u'])

def law_C07_find():
    tree()
    for name, directories, expected in [
            ('x', '/a', '/a/x'),
            ('y', '/a', '/a/b/y'),
            ('z', '/a', '/a/b/d/z'),
            ('t', ['/a'], '/a/b/d/t'),
            ('u', ('/a', '/e'), '/e/u'),
            ('y', ('/a', '/e'), '/a/b/y'),
            ('y', ('/e', '/a'), '/e/y'),
            ('u', [Path('/a'), Path('/e')], '/e/u'),
    ]:
        psa_equal(PathTools.find(name, directories), expected, 'first file of this name')
    for name, directories in [('u', '/a'), ('b', '/a'), ('x', ()), ('y', ['/missing'])]:
        try:
            PathTools.find(name, directories)
        except NameError:
            psa_true(True, 'a missing file')
        else:
            psa_true(False, 'a missing file')

def law_C07_paths():
    psa_equal(PathTools.to_absolute_path('~/x'), '/home/me/x', 'home directory')
    psa_equal(PathTools.to_absolute_path('./x/'), '/work/x', 'working directory')
    psa_equal(PathTools.to_absolute_path('/x/y/'), '/x/y', 'absolute path')
    psa_equal(PathTools.parent_directory_of('/a/b/c'), '/a/b', 'parent directory')
    psa_equal(PathTools.parent_directory_of('/a/b/c', step=2), '/a', 'parent directory')
    psa_equal(PathTools.parent_directory_of('/a/b/c', 0), '/a/b/c', 'parent directory')

def law_C07_action():
    action = PathAction(['--path'], 'foo')
    n = argparse.Namespace()
    action(None, n, psa_word('a'))
    psa_true(n.foo == Path(psa_word('a')), 'a path')
    action(None, n, [psa_word('a'), psa_word('b')], '--path')
    psa_equal(len(n.foo), 2, 'a list of paths')
    psa_true(n.foo[0] == Path(psa_word('a')), 'a list of paths')
    psa_true(n.foo[1] == Path(psa_word('b')), 'a list of paths')
    action(None, n, None)
    psa_true(n.foo is None, 'no path')
