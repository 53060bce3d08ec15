"""Texts made of literal pieces and symbolic atoms.

A text is a tuple of pieces: a ``str`` for a literal, ``('sym', tag)`` for any text, ``('word', tag)`` for an
identifier (letters, digits and underscores, not empty), ``('num', Num, spec)`` for the decimal text of a number.
"""

import string

from .values import Const, Num, Str

WORD_CHARS = frozenset(string.ascii_letters + string.digits + '_')
NUM_CHARS = frozenset(string.digits + '.+-einfa')
MAX_PIECES = 200


def is_text(v):
    return v.__class__ is Str or (v.__class__ is Const and type(v.v) is str)


def pieces(v):
    """The pieces of a text, or None when it is not known."""
    c = v.__class__
    if c is Const:
        return (v.v,) if type(v.v) is str else None
    if c is Str:
        if v.parts is not None:
            return v.parts
        if v.sym:
            return (('sym', v.sym),)
    return None


def normal(ps):
    out = []
    for p in ps:
        if p == '':
            continue
        if p.__class__ is str and out and out[-1].__class__ is str:
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def build(ps, labels):
    if ps is None or len(ps) > MAX_PIECES:
        return Str(None, labels)
    ps = normal(ps)
    if not ps:
        return Const('', labels)
    if len(ps) == 1 and ps[0].__class__ is str:
        return Const(ps[0], labels)
    if len(ps) == 1 and ps[0][0] == 'sym':
        return Str(ps[0][1], labels)
    return Str(None, labels, ps)


def number(v, spec=''):
    """The text of a number, or None."""
    if v.__class__ is Const and type(v.v) in (int, float):
        try:
            return (format(v.v, spec),)
        except ValueError:
            return None
    if v.__class__ is Num and v.pv is not None:
        return (('num', Num(v.k, pv=v.pv), spec),)
    return None


def piece_of(v, spec='', conv=None):
    """The pieces of ``format(v, spec)`` of a text, a number or None."""
    if conv == 'r':
        if v.__class__ is Const:
            try:
                return (format(repr(v.v), spec),)
            except ValueError:
                return None
        ps = pieces(v)
        if spec not in ('', 's'):
            return None
        if ps is not None and all(p.__class__ is str or p[0] in ('word', 'num') for p in ps):
            r = [repr(p)[1:-1] if p.__class__ is str else p for p in ps]
            return ("'",) + tuple(r) + ("'",)
        if v.__class__ is Num:
            return number(v, spec)
        return None
    if is_text(v):
        ps = pieces(v)
        if spec in ('', 's'):
            return ps
        if v.__class__ is Const:
            try:
                return (format(v.v, spec),)
            except ValueError:
                return None
        return None
    if v.__class__ is Const:
        if v.v is None or isinstance(v.v, bool):
            return (str(v.v),) if spec == '' else None
    return number(v, spec)


def concat(vs, labels):
    out = []
    for v in vs:
        ps = pieces(v)
        if ps is None:
            return Str(None, labels)
        out.extend(ps)
    return build(out, labels)


def chars(p):
    if p.__class__ is str:
        return frozenset(p)
    return {'word': WORD_CHARS, 'num': NUM_CHARS}.get(p[0])


def split(ps, sep=None, maxsplit=-1):
    """The pieces of the fields, or None."""
    seps = frozenset(sep) if sep is not None else frozenset(string.whitespace)
    if sep is not None and len(sep) != 1:
        return None
    for p in ps:
        if p.__class__ is not str and (chars(p) is None or chars(p) & seps):
            return None
    fields = [[]]
    for p in ps:
        if p.__class__ is not str:
            fields[-1].append(p)
            continue
        cur = ''
        for ch in p:
            if ch in seps and not (0 <= maxsplit <= len(fields) - 1):
                fields[-1].append(cur)
                cur = ''
                fields.append([])
            else:
                cur += ch
        fields[-1].append(cur)
    fields = [normal(f) for f in fields]
    if sep is None:
        if maxsplit >= 0:
            return None
        fields = [f for f in fields if f]
    return fields


def replace(ps, old, new):
    """*old* a literal, *new* pieces."""
    if not old:
        return None
    out = []
    for i, p in enumerate(ps):
        if p.__class__ is str:
            for j, x in enumerate(p.split(old)):
                if j:
                    out.extend(new)
                out.append(x)
            continue
        c = chars(p)
        if c is None or (frozenset(old) & c):
            return None
        out.append(p)
    return out


def strip(ps, which, charset):
    cs = frozenset(charset) if charset is not None else frozenset(string.whitespace)
    ps = list(normal(ps))
    for end in (0, -1):
        if (end == 0 and which == 'rstrip') or (end == -1 and which == 'lstrip'):
            continue
        while ps:
            p = ps[end]
            if p.__class__ is str:
                q = p.lstrip(''.join(cs)) if end == 0 else p.rstrip(''.join(cs))
                if q:
                    ps[end] = q
                    break
                del ps[end]
            else:
                c = chars(p)
                if c is None or c & cs:
                    return None
                break
    return ps


def prefix(ps, which, text):
    """startswith / endswith of a literal: True, False or None."""
    ps = list(normal(ps))
    if which == 'endswith':
        ps, text = ps[::-1], text[::-1]
    for p in ps:
        if not text:
            return True
        if p.__class__ is str:
            q = p[::-1] if which == 'endswith' else p
            n = min(len(q), len(text))
            if q[:n] != text[:n]:
                return False
            text = text[n:]
            continue
        c = chars(p)
        if c is not None and text[0] not in c:
            return False
        return None
    return not text


def compare(a, b, compare_numbers):
    """'equal', 'different' or 'undecided' for two piece tuples; *compare_numbers* gives the same on numbers."""
    a, b = normal(a), normal(b)
    if a == b:
        return 'equal'
    shape = lambda ps: tuple(p if p.__class__ is str else (p[0], p[1] if p[0] != 'num' else p[2]) for p in ps)
    if shape(a) == shape(b):
        out = 'equal'
        for p, q in zip(a, b):
            if p.__class__ is not str and p[0] == 'num':
                r = compare_numbers(p[1], q[1])
                if r == 'different':
                    return r
                if r != 'equal':
                    out = 'undecided'
        return out
    # generic atoms: texts that differ in their literal pieces or in their atoms are different texts, unless a
    # literal number can be the text of a symbolic one
    if any(p.__class__ is not str and p[0] == 'sym' and (':' in p[1]) for p in a + b):
        return 'undecided'
    return 'different'


def occurrences(hay, needle, compare_numbers):
    """The number of times *needle* appears, for generic atoms (an atom is never part of a literal), or None."""
    hay, needle = list(normal(hay)), list(normal(needle))
    if not needle:
        return None
    if any(chars(p) is None for p in hay + needle):
        return None
    if len(needle) == 1 and needle[0].__class__ is str:
        # digits can be found in the text of a number, letters in a word
        if any(p.__class__ is not str and frozenset(needle[0]) <= chars(p) for p in hay):
            return None
        return sum(p.count(needle[0]) for p in hay if p.__class__ is str)
    if needle[0].__class__ is not str:
        needle.insert(0, '')
    if needle[-1].__class__ is not str:
        needle.append('')

    def same(p, q):
        if (p.__class__ is str) != (q.__class__ is str):
            return False
        if p.__class__ is str or p[0] != 'num' or q[0] != 'num':
            return p == q
        if p[2] != q[2]:
            return False
        return {'equal': True, 'different': False}.get(compare_numbers(p[1], q[1]))

    # literals between all the atoms
    full = []
    for p in hay:
        if p.__class__ is not str and (not full or full[-1].__class__ is not str):
            full.append('')
        full.append(p)
    if not full or full[-1].__class__ is not str:
        full.append('')
    n, i, k = 0, 0, len(needle)
    while i + k <= len(full):
        rs = [same(full[i + j], needle[j]) for j in range(1, k - 1)]
        if full[i].__class__ is not str or not full[i].endswith(needle[0]) or not full[i + k - 1].startswith(needle[-1]) \
                or False in rs:
            i += 1
            continue
        if None in rs:
            return None
        n += 1
        i += k - 1
    return n


def never_in(ps, literal):
    """A text with these pieces is no part of *literal*."""
    for p in ps:
        if p.__class__ is str:
            if p not in literal:
                return True
        elif p[0] == 'num' and not any(ch.isdigit() for ch in literal):
            return True
    return False


def encode(ps):
    """(literal text, table) with one placeholder per symbolic atom: digits for a number, an identifier for a word."""
    table = {}
    out = []
    for p in normal(ps):
        if p.__class__ is str:
            out.append(p)
        elif p[0] == 'num' or p[0] == 'word':
            key = ('9173{:04d}55' if p[0] == 'num' else 'wqz{:04d}zqw').format(len(table))
            table[key] = p
            out.append(key)
        else:
            return None, None
    return ''.join(out), table


def decode(text, table):
    out = [text]
    for key, p in table.items():
        new = []
        for q in out:
            if q.__class__ is not str:
                new.append(q)
                continue
            for i, x in enumerate(q.split(key)):
                if i:
                    new.append(p)
                new.append(x)
        out = new
    return normal(out)
