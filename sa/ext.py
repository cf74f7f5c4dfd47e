"""
What the analysis knows about everything outside the analysed packages:
Python's builtins, Beautiful Soup, files, and a few standard modules.
"""
import builtins
import collections
import importlib
import itertools
import math
import os
import re
import sys
import xml.etree.ElementTree as ET

from .ir import *
from .interp import (HOST_EXC, HOST_TYPES, PyRaise, Control, Return, PathCut,
                     StopGen, Frame, AnalysisError)
from . import dom
from .dom import (document_changed, node_children, attrs_materialise,
                  attrs_changed)

PRIMS = (str, bytes, int, float, bool, type(None), complex)
CANON = {
    'bs4.element.Tag': 'bs4.Tag',
    'bs4.element.NavigableString': 'bs4.NavigableString',
    'bs4.element.PageElement': 'bs4.PageElement',
    'bs4.element.BeautifulSoup': 'bs4.BeautifulSoup',
    'builtins.IOError': 'builtins.OSError',
    'builtins.EnvironmentError': 'builtins.OSError',
    'os.error': 'builtins.OSError',
    'collections.OrderedDict': 'builtins.dict',
    'io.open': 'builtins.open',
    'typing.Dict': 'builtins.dict', 'typing.List': 'builtins.list',
    'collections.abc.Mapping': 'abc.Mapping',
    'collections.abc.MutableMapping': 'abc.Mapping',
    'typing.Mapping': 'abc.Mapping',
    'collections.abc.Iterable': 'abc.Iterable',
    'typing.Iterable': 'abc.Iterable',
    'collections.abc.Sequence': 'abc.Sequence',
    'typing.Sequence': 'abc.Sequence',
    'collections.abc.Callable': 'abc.Callable',
    'typing.Callable': 'abc.Callable',
    'collections.abc.Hashable': 'abc.Hashable',
    'collections.abc.Sized': 'abc.Sized',
    'numbers.Number': 'abc.Number', 'numbers.Real': 'abc.Real',
    'numbers.Integral': 'abc.Integral',
    'types.NoneType': 'builtins.NoneType',
}
ABC_TYPES = {
    'abc.Mapping': {'dict'},
    'abc.Iterable': {'dict', 'list', 'tuple', 'set', 'str', 'bytes', 'range',
                     'gen', 'iter'},
    'abc.Sequence': {'list', 'tuple', 'str', 'range', 'bytes'},
    'abc.Callable': {'function', 'type'},
    'abc.Number': {'int', 'float', 'bool', 'complex'},
    'abc.Real': {'int', 'float', 'bool'},
    'abc.Integral': {'int', 'bool'},
    'abc.Sized': {'dict', 'list', 'tuple', 'set', 'str', 'bytes', 'range'},
}
ABC_METHODS = {'abc.Iterable': '__iter__', 'abc.Callable': '__call__',
               'abc.Sized': '__len__', 'abc.Hashable': '__hash__'}


def canon(name):
    return CANON.get(name, name)


def lift(I, v):
    """Turns a host value into an abstract one."""
    if isinstance(v, PRIMS):
        return K(v)
    if isinstance(v, tuple):
        return Tup([lift(I, x) for x in v])
    if isinstance(v, list):
        return I.new_list([lift(I, x) for x in v])
    if isinstance(v, dict):
        return I.new_dict([(lift(I, k), lift(I, x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return I.new_set([lift(I, x) for x in sorted(v, key=repr)])
    if isinstance(v, (re.Pattern, re.Match, slice, range)):
        return K(v)
    return Opq(('host', type(v).__name__, I.unique()))


def lower(I, av):
    """Turns an abstract value into a host one; raises LookupError."""
    av = I.norm(av)
    if isinstance(av, TextObj):
        av = I.norm(av.value)
    if isinstance(av, K):
        return av.v
    if isinstance(av, Tup):
        return tuple(lower(I, x) for x in av.items)
    if isinstance(av, ListObj):
        return [lower(I, x) for x in av.items]
    if isinstance(av, SetObj):
        return {lower(I, x) for x in av.items}
    if isinstance(av, DictObj) and av.owner is None:
        return {lower(I, k): lower(I, v) for k, v in av.entries}
    raise LookupError


def host_call(I, f, args, kwargs=None):
    """Calls a host function on constants; None if they aren't constant."""
    try:
        a = [lower(I, x) for x in args]
        kw = {k: lower(I, v) for k, v in (kwargs or {}).items()}
    except (LookupError, TypeError):
        return None
    try:
        r = f(*a, **kw)
    except Exception as e:
        I.raise_(type(e).__name__ if type(e).__name__ in HOST_EXC
                 else 'ValueError', str(e),
                 cause=('tup',) + tuple(term_of(x) for x in args))
    if isinstance(r, (filter, map, zip, enumerate)) or hasattr(
            r, '__next__'):
        r = list(r)
    return lift(I, r)


###### text

def cat(I, parts):
    r = []
    for p in parts:
        p = I.norm(p)
        if isinstance(p, TextObj):
            p = I.norm(p.value)
        if isinstance(p, K):
            if p.v == '':
                continue
            if r and isinstance(r[-1], K):
                r[-1] = K(r[-1].v + p.v)
                continue
            r.append(p)
        elif isinstance(p, Opq) and p.term[0] == 'cat':
            for t in p.term[1:]:
                x = K(t[2]) if t[0] == 'k' else Opq(t, {'str'})
                if r and isinstance(r[-1], K) and isinstance(x, K):
                    r[-1] = K(r[-1].v + x.v)
                else:
                    r.append(x)
        else:
            r.append(p)
    if not r:
        return K('')
    if len(r) == 1:
        return r[0]
    return Opq(('cat',) + tuple(term_of(p) for p in r), {'str'})


def str_(I, av):
    av = I.norm(av)
    if isinstance(av, TextObj):
        return I.norm(av.value)
    if isinstance(av, K):
        return K(str(av.v)) if isinstance(av.v, PRIMS) else Opq(
            ('str', term_of(av)), {'str'})
    if isinstance(av, Opq):
        if I.typeset(av) == {'bool'}:
            return K(str(I.truth(av)))
        if I.typeset(av) == {'str'}:
            return av
        return Opq(('str', av.term), {'str'})
    if isinstance(av, Inst):
        if I.in_raise:
            return Opq(('str', ('ref', av.id)), {'str'})
        for n in ('__str__', '__repr__'):
            m = I.find_special(av, n)
            if m is not None:
                return I.call(m, [], {})
        if I.inst_is_exc(av):
            a = av.attrs.get('args')
            if isinstance(a, Tup) and len(a.items) == 1:
                return str_(I, a.items[0])
        return Opq(('str', ('ref', av.id)), {'str'})
    if isinstance(av, NodeObj):
        I.event('serialise', av)
        if not I.in_raise:
            I.may_raise('ValueError', ('serialise', av.id))
        return Opq(('xml', av.id, I.unique()), {'str'})
    if isinstance(av, (ListObj, Tup, DictObj, SetObj)) and not I.in_raise:
        try:
            return K(str(lower(I, av)))
        except (LookupError, TypeError):
            pass
        if isinstance(av, (ListObj, Tup)):
            parts = [K('[' if isinstance(av, ListObj) else '(')]
            for i, x in enumerate(av.items):
                if i:
                    parts.append(K(', '))
                parts.append(repr_(I, x))
            if isinstance(av, Tup) and len(av.items) == 1:
                parts.append(K(','))
            parts.append(K(']' if isinstance(av, ListObj) else ')'))
            return cat(I, parts)
        if isinstance(av, DictObj):
            for k, v in av.entries:
                repr_(I, k), repr_(I, v)
        return Opq(('str', ('ref', av.id), I.unique()), {'str'})
    return Opq(('str', term_of(av)), {'str'})


def repr_(I, av):
    av = I.norm(av)
    if isinstance(av, TextObj):
        av = I.norm(av.value)
    if isinstance(av, K):
        return K(repr(av.v)) if isinstance(av.v, PRIMS) else Opq(
            ('repr', term_of(av)), {'str'})
    if isinstance(av, Opq):
        if I.typeset(av) == {'bool'}:
            return K(repr(I.truth(av)))
        return Opq(('repr', av.term), {'str'})
    if isinstance(av, Inst):
        if I.in_raise:
            return Opq(('repr', ('ref', av.id)), {'str'})
        m = I.find_special(av, '__repr__')
        if m is not None:
            return I.call(m, [], {})
        return Opq(('repr', ('ref', av.id)), {'str'})
    return str_(I, av)


def normspec(spec):
    m = re.match(r'^\.0*(\d+)([a-zA-Z])$', spec)
    if m:
        return '.%s%s' % (m.group(1), m.group(2))
    return spec


def format_(I, v, spec):
    v = I.norm(v)
    if spec == '':
        return str_(I, v)
    if isinstance(v, TextObj):
        v = I.norm(v.value)
    if isinstance(v, K):
        try:
            return K(format(v.v, spec))
        except (ValueError, TypeError) as e:
            I.raise_(type(e).__name__, str(e), cause=term_of(v))
    if isinstance(v, Inst):
        m = I.find_special(v, '__format__')
        if m is not None:
            return I.call(m, [K(spec)], {})
        if spec[-1] in 'dfgeFGE':
            c = I.find_special(v, '__float__')
            I.raise_('TypeError', 'unsupported format string')
        return Opq(('fmt', spec, term_of(str_(I, v))), {'str'})
    if isinstance(v, Opq):
        if spec[-1] in 'dfgeFGExX%bo':
            ts = I.typeset(v)
            if ts is not None and not ts & {'int', 'float', 'bool'}:
                I.raise_('ValueError', 'unknown format code', cause=v.term)
            if ts is None:
                I.may_raise('ValueError', v.term)
        return Opq(('fmt', normspec(spec), v.term), {'str'})
    I.raise_('TypeError', 'unsupported format string')


PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])')


def percent(I, fmt, arg):
    if not isinstance(fmt, K):
        return Opq(('%', term_of(fmt), term_of(arg)), {'str'})
    arg = I.norm(arg)
    named = isinstance(arg, DictObj) and '%(' in fmt.v
    if isinstance(arg, Opq) and not named:
        ts = I.typeset(arg)
        if ts is None or 'tuple' in ts:
            I.may_raise('TypeError', arg.term)
        args = [arg]
    else:
        args = list(arg.items) if isinstance(arg, Tup) else [arg]
    parts = []
    pos = n = 0
    s = fmt.v

    def take():
        nonlocal n
        if n >= len(args):
            I.raise_('TypeError', 'not enough arguments for format string')
        n += 1
        return args[n - 1]
    for m in PCT.finditer(s):
        parts.append(K(s[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append(K('%'))
            continue
        if width == '*':
            w = take()
            width = str(w.v) if isinstance(w, K) else ''
        if prec == '*':
            w = take()
            prec = str(w.v) if isinstance(w, K) else ''
        v = I.getitem(arg, K(key)) if key else take()
        v = I.norm(v)
        one = '%' + flags + (width or '') + (
            '.' + prec if prec is not None else '') + conv
        if isinstance(v, TextObj):
            v = I.norm(v.value)
        if conv in 'sra':
            t = str_(I, v) if conv == 's' else repr_(I, v)
            if isinstance(t, K):
                parts.append(K(one.replace('r', 's') % (t.v,)))
            elif one == '%s' or one == '%r':
                parts.append(t)
            else:
                parts.append(Opq(('fmt', one, term_of(t)), {'str'}))
            continue
        if isinstance(v, K):
            try:
                parts.append(K(one % (v.v,)))
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e), cause=term_of(v))
            continue
        if isinstance(v, Inst):
            c = I.find_special(v, '__int__' if conv in 'dixX' else
                               '__float__')
            if c is None:
                c = I.find_special(v, '__index__')
            if c is None:
                I.raise_('TypeError', 'a number is required',
                         cause=term_of(v))
            v = I.norm(I.call(c, [], {}))
            if isinstance(v, K):
                parts.append(K(one % (v.v,)))
                continue
        if isinstance(v, Opq):
            ts = I.typeset(v)
            if ts is not None and not ts & {'int', 'float', 'bool'}:
                I.raise_('TypeError', 'a number is required', cause=v.term)
            if ts is None:
                I.may_raise('TypeError', v.term)
            elif conv in 'dixXo' and 'float' in ts:
                I.may_raise('ValueError', v.term)
            spec = (flags + (width or '') +
                    ('.%d' % int(prec or 0) if prec is not None else '') +
                    conv)
            parts.append(Opq(('fmt', spec, v.term), {'str'}))
            continue
        I.raise_('TypeError', 'a number is required', cause=term_of(v))
    parts.append(K(s[pos:]))
    if not named and n < len(args):
        I.raise_('TypeError', 'not all arguments converted')
    return cat(I, parts)


STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace',
            'islower', 'isupper', 'isalnum', 'isidentifier', 'isnumeric',
            'isdecimal'}
STR_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
           'capitalize', 'casefold', 'swapcase', 'zfill', 'ljust', 'rjust',
           'center', 'removeprefix', 'removesuffix', 'translate',
           'expandtabs'}
STR_LIST = {'split', 'rsplit', 'splitlines'}
STR_INT = {'find', 'rfind', 'index', 'rindex', 'count'}
STR_OTHER = {'join', 'format', 'encode', 'partition', 'rpartition',
             'format_map'}


def codec_errors(I, args, kw, i=1):
    """Notes how encoding or decoding treats what it can't convert."""
    e = args[i] if len(args) > i else kw.get('errors')
    if e is not None:
        e = I.norm(e)
        if isinstance(e, K) and isinstance(e.v, str):
            I.event('codec errors', e.v)


def str_method(I, s, name):
    """A method of a string, constant or not."""
    def call(I, args, kw, node):
        t = I.norm(s)
        if name == 'join':
            items = I.iterate(args[0])
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(t)
                x = I.norm(x)
                if isinstance(x, (Inst, ListObj, DictObj, NodeObj, Tup)) or (
                        isinstance(x, K) and not isinstance(x.v, str)):
                    I.raise_('TypeError', 'expected str instance',
                             cause=term_of(x))
                parts.append(x)
            if isinstance(args[0], Opq):
                return Opq(('join', term_of(t), term_of(args[0])), {'str'})
            return cat(I, parts)
        if name == 'format':
            return str_format(I, t, args, kw)
        if name == 'encode':
            enc = args[0] if args else kw.get('encoding', K('utf-8'))
            I.event('encode', term_of(t), enc)
            codec_errors(I, args, kw)
            r = host_call(I, lambda x, *a, **k: x.encode(*a, **k),
                          [t] + args, kw) if isinstance(t, K) else None
            if r is not None:
                return r
            I.may_raise('UnicodeEncodeError', ('encode', term_of(t)))
            return Opq(('encode', term_of(t), term_of(enc)), {'bytes'})
        if isinstance(t, K):
            r = host_call(I, getattr(t.v, name), args, kw)
            if r is not None:
                return r
        if name == 'lower' and isinstance(t, Opq) and \
                t.term[0] in ('m:lower',):
            return t
        term = ('m:' + name, term_of(t)) + tuple(
            term_of(a) for a in args) + tuple(
                (k, term_of(v)) for k, v in sorted(kw.items()))
        if name in STR_BOOL:
            if name in ('startswith', 'endswith'):
                a = I.norm(args[0])
                if isinstance(a, Tup):
                    for x in a.items:
                        if I.decide((name, term_of(t), term_of(x))):
                            return TRUE
                    return FALSE
                return I.bool_av((name, term_of(t), term_of(args[0])))
            return I.bool_av(term)
        if name in STR_STR:
            return Opq(term, {'str'})
        if name in STR_LIST:
            return Opq(term, {'list'})
        if name in STR_INT:
            if name in ('index', 'rindex'):
                I.may_raise('ValueError', term)
            return Opq(term, {'int'})
        if name in ('partition', 'rpartition'):
            return Tup([Opq(term + (i,), {'str'}) for i in range(3)])
        return Opq(term)
    return Native('str.' + name, call)


def str_format(I, t, args, kw):
    r = host_call(I, lambda s, *a, **k: s.format(*a, **k), [t] + args, kw) \
        if isinstance(t, K) else None
    if r is not None:
        return r
    if not isinstance(t, K):
        return Opq(('format', term_of(t)), {'str'})
    import string
    parts = []
    auto = 0
    try:
        parsed = list(string.Formatter().parse(t.v))
    except ValueError as e:
        I.raise_('ValueError', str(e))
    for lit, field, spec, conv in parsed:
        parts.append(K(lit))
        if field is None:
            continue
        m = re.match(r'^(\w*)(.*)$', field, re.S)
        head, rest = m.group(1), m.group(2)
        if head == '':
            head = str(auto)
            auto += 1
        if head.isdigit():
            if int(head) >= len(args):
                I.raise_('IndexError', 'Replacement index out of range')
            v = args[int(head)]
        else:
            if head not in kw:
                I.raise_('KeyError', head)
            v = kw[head]
        for a, b in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
            v = I.getattr(v, a) if a else I.getitem(
                v, K(int(b) if b.isdigit() else b))
        if conv == 'r':
            v = repr_(I, v)
        elif conv == 's':
            v = str_(I, v)
        parts.append(format_(I, v, spec or ''))
    return cat(I, parts)


###### arithmetic

HOSTOPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
    'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
    'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
    'Pow': lambda a, b: a ** b, 'BitOr': lambda a, b: a | b,
    'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b,
    'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
}
DUNDER = {
    'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
    'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitOr': 'or',
    'BitAnd': 'and', 'BitXor': 'xor', 'LShift': 'lshift',
    'RShift': 'rshift', 'MatMult': 'matmul',
}


def is_notimpl(r):
    return isinstance(r, Ext) and r.name.endswith('NotImplemented')


def binop(I, op, a, b):
    a, b = I.norm(a), I.norm(b)
    if isinstance(a, TextObj):
        a = I.norm(a.value)
    if isinstance(b, TextObj):
        b = I.norm(b.value)
    if isinstance(a, K) and isinstance(b, K) and not (
            op == 'Mod' and isinstance(a.v, (str, bytes))):
        try:
            return K(HOSTOPS[op](a.v, b.v))
        except Exception as e:
            I.raise_(type(e).__name__, str(e),
                     cause=('tup', term_of(a), term_of(b)))
    if op == 'Mod' and isinstance(a, K) and isinstance(a.v, str):
        return percent(I, a, b)
    if isinstance(a, Inst):
        m = I.find_special(a, '__%s__' % DUNDER[op])
        if m is not None:
            r = I.call(m, [b], {})
            if not is_notimpl(r):
                return r
    if isinstance(b, Inst):
        m = I.find_special(b, '__r%s__' % DUNDER[op])
        if m is not None:
            r = I.call(m, [a], {})
            if not is_notimpl(r):
                return r
    if isinstance(a, Inst) or isinstance(b, Inst):
        o = b if isinstance(a, Inst) else a
        if not isinstance(o, Opq):
            I.raise_('TypeError', 'unsupported operand type(s)',
                     cause=('tup', term_of(a), term_of(b)))
        return Opq((op, term_of(a), term_of(b)))
    if isinstance(a, SetObj) and isinstance(b, SetObj):
        if op == 'BitOr':
            r = I.new_set(a.items)
            for x in b.items:
                set_add(I, r, x)
            return r
        if op == 'BitAnd':
            return I.new_set([x for x in a.items if I.contains(b, x)])
        if op == 'Sub':
            return I.new_set([x for x in a.items if not I.contains(b, x)])
        if op == 'BitXor':
            return I.new_set([x for x in a.items if not I.contains(b, x)] +
                             [x for x in b.items if not I.contains(a, x)])
    if isinstance(a, DictObj) and isinstance(b, DictObj) and op == 'BitOr':
        r = I.new_dict(a.entries)
        dict_update(I, r, b)
        return r
    if op == 'Add':
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return I.new_list(a.items + b.items)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Opq) and isinstance(b, Tup):
            ts = I.typeset(a)
            if ts is not None and 'tuple' in ts:
                return Tup(I.iterate(a) + list(b.items))
        if isinstance(a, Tup) and isinstance(b, Opq):
            ts = I.typeset(b)
            if ts is not None and 'tuple' in ts:
                return Tup(list(a.items) + I.iterate(b))
        if isinstance(a, ListObj) and isinstance(b, Opq):
            ts = I.typeset(b)
            if ts is not None and 'list' in ts:
                return I.new_list(a.items + I.iterate(b))
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListObj, Tup)) and isinstance(y, K) and \
                    isinstance(y.v, int):
                items = list(x.items) * y.v
                return Tup(items) if isinstance(x, Tup) else \
                    I.new_list(items)
    if isinstance(a, (Opq, K)) and isinstance(b, (Opq, K)):
        ta = {type(a.v).__name__} if isinstance(a, K) else I.typeset(a)
        tb = {type(b.v).__name__} if isinstance(b, K) else I.typeset(b)
        num = {'int', 'float', 'bool'}
        if op == 'Add' and ta and tb and ta <= {'str'} and tb <= {'str'}:
            return cat(I, [a, b])
        if op == 'Add' and (ta == {'str'} or tb == {'str'}):
            other, to = (b, tb) if ta == {'str'} else (a, ta)
            if to is not None and 'str' not in to:
                I.raise_('TypeError', 'can only concatenate str',
                         cause=term_of(other))
            I.may_raise('TypeError', term_of(other))
            return cat(I, [a, b])
        if op == 'BitOr' and ta == {'type'}:
            return Opq(('union', term_of(a), term_of(b)), {'type'})
        if ta and tb and ta <= num and tb <= num:
            if op in ('Div', 'FloorDiv', 'Mod'):
                if isinstance(b, K) and b.v == 0:
                    I.raise_('ZeroDivisionError', 'division by zero')
                if not isinstance(b, K):
                    I.may_raise('ZeroDivisionError', b.term)
            t = {'float'} if ('float' in (ta | tb) and
                              (ta == {'float'} or tb == {'float'})
                              ) or op == 'Div' else (
                {'int'} if not 'float' in ta | tb else {'int', 'float'})
            # identities
            if op == 'Sub' and term_of(a) == term_of(b):
                return K(0.0 if t == {'float'} else 0)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, K):
                    if op == 'Mult' and x.v == 1 and (
                            t == I.typeset(y)):
                        return y
                    if op == 'Add' and x.v == 0 and t == I.typeset(y):
                        return y
            return Opq((op, term_of(a), term_of(b)), t)
        if (ta and not ta & num and tb and tb <= num and op in
                ('Sub', 'Div', 'Add') and 'str' in ta):
            I.raise_('TypeError', 'unsupported operand',
                     cause=('tup', term_of(a), term_of(b)))
        plain = {'str', 'bytes', 'NoneType', 'list', 'tuple', 'dict'}
        if op in ('Sub', 'Div', 'Add', 'FloorDiv', 'Pow') and ta and tb and (
                ta <= num and tb <= plain or tb <= num and ta <= plain):
            I.raise_('TypeError', 'unsupported operand',
                     cause=('tup', term_of(a), term_of(b)))
        I.may_raise('TypeError', ('tup', term_of(a), term_of(b)))
        return Opq((op, term_of(a), term_of(b)))
    for x, y in ((a, b), (b, a)):
        # a number, and something which holds others
        if isinstance(x, Opq) and isinstance(y, (
                Tup, ListObj, DictObj, SetObj, NodeObj)):
            tx = I.typeset(x)
            if tx and tx <= ({'float'} if op == 'Mult' else
                             {'int', 'float', 'bool'}):
                I.raise_('TypeError', 'unsupported operand',
                         cause=('tup', term_of(a), term_of(b)))
    if isinstance(a, (Opq,)) or isinstance(b, Opq):
        I.may_raise('TypeError', ('tup', term_of(a), term_of(b)))
        return Opq((op, term_of(a), term_of(b)))
    if op == 'BitOr' and isinstance(a, (ClassObj, Ext, K, Tup)) and \
            isinstance(b, (ClassObj, Ext, K, Tup)):
        x = list(a.items) if isinstance(a, Tup) else [a]
        y = list(b.items) if isinstance(b, Tup) else [b]
        return Tup([Ext('builtins.NoneType') if isinstance(i, K) else i
                    for i in x + y])
    I.raise_('TypeError', 'unsupported operand type(s) for %s' % op,
             cause=('tup', term_of(a), term_of(b)))


###### containers

def set_add(I, s, x):
    if isinstance(x, Inst):
        I.hash_check(x)
    if not I.contains(s, x):
        I.touch(s)
        s.items.append(x)


def dict_update(I, d, other):
    other = I.norm(other)
    if isinstance(other, DictObj):
        for k, v in [list(e) for e in other.entries]:
            I.dict_set(d, k, v)
        return
    if isinstance(other, Inst):
        m = I.getattr(other, 'keys', None)
        if m is not None:
            for k in I.iterate(I.call(m, [], {})):
                I.dict_set(d, k, I.getitem(other, k))
            return
    if isinstance(other, Opq) and I.typeset(other) == {'dict'}:
        for k, v in opq_items(I, other):
            I.dict_set(d, k, v)
        return
    for pair in I.iterate(other):
        items = I.iterate(pair) if not isinstance(pair, Opq) else [
            Opq(('elem', pair.term, 0)), Opq(('elem', pair.term, 1))]
        if len(items) != 2:
            I.raise_('ValueError', 'dictionary update sequence element',
                     cause=term_of(pair))
        I.dict_set(d, items[0], items[1])


def opq_items(I, d):
    """The (key, value) pairs of an opaque dict."""
    keys = I.iterate(d)
    return [(k, Opq(('item', d.term, term_of(k)))) for k in keys]


def dict_pairs(I, d):
    d = I.norm(d)
    if isinstance(d, DictObj):
        return [(e[0], e[1]) for e in d.entries]
    return opq_items(I, d)


def dict_method(I, d, name):
    def call(I, args, kw, node):
        if name == 'items':
            return I.new_list([Tup(p) for p in dict_pairs(I, d)])
        if name == 'keys':
            return I.new_set([k for k, v in dict_pairs(I, d)], frozen=True)
        if name == 'values':
            return I.new_list([v for k, v in dict_pairs(I, d)])
        if name == 'get':
            default = args[1] if len(args) > 1 else kw.get('default', NONE)
            if isinstance(d, Opq):
                if I.decide(('in', term_of(args[0]), d.term)):
                    return Opq(('item', d.term, term_of(args[0])))
                return default
            r = I.dict_get(d, args[0])
            return default if r is ABSENT else r
        if name == '__contains__':
            return K(I.contains(d, args[0]))
        if name == '__getitem__':
            return I.getitem(d, args[0])
        if name == '__len__':
            return I.length(d)
        if name == '__iter__':
            return I.new_list(I.iterate(d))
        if name == 'copy':
            r = I.new_dict(dict_pairs(I, d))
            if isinstance(d, DictObj):
                r.kind, r.default = d.kind, d.default
                r.owner, r.absent = d.owner, set(d.absent)
            return r
        if name == 'fromkeys':
            r = I.new_dict()
            for k in I.iterate(args[0]):
                I.dict_set(r, k, args[1] if len(args) > 1 else NONE)
            return r
        if isinstance(d, Opq):
            return Opq(('m:' + name, d.term, I.unique()))
        if name == 'setdefault':
            r = I.dict_get(d, args[0])
            if r is ABSENT:
                r = args[1] if len(args) > 1 else NONE
                I.dict_set(d, args[0], r)
            return r
        if name in ('pop', '__delitem__'):
            r = I.dict_get(d, args[0])
            if r is ABSENT:
                if len(args) > 1:
                    return args[1]
                I.raise_('KeyError', cause=term_of(args[0]))
            I.dict_del(d, args[0])
            return r if name == 'pop' else NONE
        if name == 'popitem':
            if not d.entries:
                I.raise_('KeyError')
            I.touch(d)
            return Tup(d.entries.pop())
        if name == 'update':
            for a in args:
                dict_update(I, d, a)
            for k, v in kw.items():
                I.dict_set(d, K(k), v)
            return NONE
        if name == 'clear':
            I.touch(d)
            d.entries.clear()
            d.owner = None
            d.absent = set()
            return NONE
        if name == '__setitem__':
            I.dict_set(d, args[0], args[1])
            return NONE
        I.note_imprecise('dict.' + name)
        return Opq(('dictmethod', name, I.unique()))
    return Native('dict.' + name, call)


def list_method(I, l, name):
    def call(I, args, kw, node):
        items = l.items
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear',
                    'sort', 'reverse', '__setitem__', '__delitem__',
                    'popleft', 'appendleft', 'extendleft', 'rotate'):
            I.touch(l)
        if name == 'append':
            items.append(args[0])
            return NONE
        if name == 'extend':
            items.extend(I.iterate(args[0]))
            return NONE
        if name == 'insert':
            i = I.norm(args[0])
            if not isinstance(i, K):
                I.note_imprecise('list.insert')
                raise PathCut()
            items.insert(i.v, args[1])
            return NONE
        if name in ('remove', 'index', 'count'):
            n = 0
            for i, x in enumerate(items):
                if x is args[0] or I.truth(I.eq(x, args[0])):
                    if name == 'remove':
                        del items[i]
                        return NONE
                    if name == 'index':
                        return K(i)
                    n += 1
            if name == 'count':
                return K(n)
            I.raise_('ValueError', 'not in list', cause=term_of(args[0]))
        if name == 'pop':
            i = I.norm(args[0]) if args else K(-1)
            if not isinstance(i, K):
                raise PathCut()
            try:
                return items.pop(i.v)
            except IndexError:
                I.raise_('IndexError', 'pop from empty list')
        if name == 'popleft':
            if not items:
                I.raise_('IndexError', 'pop from an empty deque')
            return items.pop(0)
        if name == 'appendleft':
            items.insert(0, args[0])
            return NONE
        if name == 'extendleft':
            for x in I.iterate(args[0]):
                items.insert(0, x)
            return NONE
        if name == 'rotate':
            i = I.norm(args[0]) if args else K(1)
            if not isinstance(i, K):
                raise PathCut()
            if items:
                j = -i.v % len(items)
                items[:] = items[j:] + items[:j]
            return NONE
        if name == 'clear':
            items.clear()
            return NONE
        if name == 'copy':
            return I.new_list(items)
        if name == 'reverse':
            items.reverse()
            return NONE
        if name == 'sort':
            items[:] = sort(I, list(items), kw)
            return NONE
        if name == '__getitem__':
            return I.getitem(l, args[0])
        if name == '__setitem__':
            I.setitem(l, args[0], args[1])
            return NONE
        if name == '__len__':
            return K(len(items))
        if name == '__contains__':
            return K(I.contains(l, args[0]))
        if name == '__iter__':
            return I.new_gen(lambda cb: [cb(x) for x in list(items)] and None)
        I.note_imprecise('list.' + name)
        return Opq(('listmethod', name, I.unique()))
    return Native('list.' + name, call)


def sort(I, items, kw):
    key = kw.get('key')
    rev = 'reverse' in kw and I.truth(kw['reverse'])
    if key is not None and not (isinstance(key, K) and key.v is None):
        pairs = [(I.call(key, [x], {}), x) for x in items]
    else:
        pairs = [(x, x) for x in items]
    if rev:
        pairs.reverse()
    r = []
    for p in pairs:
        # insert after everything that isn't greater (stable)
        i = len(r)
        while i > 0 and I.truth(I.compare('<', p[0], r[i - 1][0])):
            i -= 1
        r.insert(i, p)
    if rev:
        r.reverse()
    return [x for k, x in r]


def set_method(I, s, name):
    def call(I, args, kw, node):
        if name == 'add':
            set_add(I, s, args[0])
            return NONE
        if name in ('discard', 'remove'):
            for i, x in enumerate(list(s.items)):
                if x is args[0] or I.truth(I.eq(x, args[0])):
                    I.touch(s)
                    del s.items[i]
                    return NONE
            if name == 'remove':
                I.raise_('KeyError', cause=term_of(args[0]))
            return NONE
        if name in ('union', 'update'):
            r = I.new_set(s.items) if name == 'union' else s
            for a in args:
                for x in I.iterate(a):
                    set_add(I, r, x)
            return r if name == 'union' else NONE
        if name in ('difference', 'intersection', 'symmetric_difference'):
            other = I.new_set()
            for a in args:
                for x in I.iterate(a):
                    set_add(I, other, x)
            op = {'difference': 'Sub', 'intersection': 'BitAnd',
                  'symmetric_difference': 'BitXor'}[name]
            return binop(I, op, s, other)
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            other = I.new_set(I.iterate(args[0]))
            if name == 'issubset':
                return K(all(I.contains(other, x) for x in s.items))
            if name == 'issuperset':
                return K(all(I.contains(s, x) for x in other.items))
            return K(not any(I.contains(other, x) for x in s.items))
        if name == 'copy':
            return I.new_set(s.items)
        if name == 'pop':
            if not s.items:
                I.raise_('KeyError')
            I.touch(s)
            return s.items.pop(0)
        if name == 'clear':
            I.touch(s)
            s.items.clear()
            return NONE
        if name == '__contains__':
            return K(I.contains(s, args[0]))
        if name == '__len__':
            return K(len(s.items))
        return Opq(('setmethod', name, I.unique()))
    return Native('set.' + name, call)


def tuple_method(I, t, name):
    def call(I, args, kw, node):
        if name in ('index', 'count'):
            return list_method(I, I.new_list(t.items), name).py(
                I, args, kw, node)
        if name == '__contains__':
            return K(I.contains(t, args[0]))
        if name == '__len__':
            return K(len(t.items))
        return Opq(('tuplemethod', name, I.unique()))
    return Native('tuple.' + name, call)


###### attributes of things that aren't analysed instances

LISTM = {n for n in dir(list)}
DEQUEM = {'popleft', 'appendleft', 'extendleft', 'rotate'}
DICTM = {n for n in dir(dict)} | {'default_factory'}
SETM = {n for n in dir(set)}


def getattr_(I, av, name):
    av = I.norm(av)
    if isinstance(av, NodeObj):
        return dom.node_getattr(I, av, name)
    if isinstance(av, TextObj):
        r = dom.text_getattr(I, av, name)
        if r is not None:
            return r
        return getattr_(I, I.norm(av.value), name)
    if name == '__class__':
        return I.class_of(av)
    if isinstance(av, K):
        return k_getattr(I, av, name)
    if isinstance(av, ListObj) and (name in LISTM or (
            av.kind == 'deque' and name in DEQUEM)):
        return list_method(I, av, name)
    if isinstance(av, DictObj) and name in DICTM:
        return dict_method(I, av, name)
    if isinstance(av, SetObj) and name in SETM:
        return set_method(I, av, name)
    if isinstance(av, Tup):
        if av.ntype is not None and name in av.ntype:
            return av.items[list(av.ntype).index(name)]
        if name in dir(tuple):
            return tuple_method(I, av, name)
    if isinstance(av, GenObj):
        if name in ('__iter__',):
            return Native('gen.__iter__', lambda I, a, k, n: av)
        if name == '__next__':
            return Native('gen.__next__', lambda I, a, k, n:
                          b_next(I, [av], {}, None))
        if name == 'close':
            return Native('gen.close', lambda I, a, k, n: NONE)
    if isinstance(av, FileObj):
        return file_getattr(I, av, name)
    if isinstance(av, Ext):
        return ext_getattr(I, av, name)
    if isinstance(av, Opq):
        return opq_getattr(I, av, name)
    I.raise_('AttributeError', "no attribute %r" % name, cause=term_of(av))


def k_getattr(I, av, name):
    v = av.v
    if isinstance(v, str) and hasattr(str, name):
        if name.startswith('__') and name not in ('__len__',):
            return Native('str.' + name, lambda I, a, k, n: host_call(
                I, getattr(v, name), a, k) or Opq(('str', I.unique())))
        return str_method(I, av, name)
    if isinstance(v, (int, float, bytes, complex)) and hasattr(v, name):
        x = getattr(v, name)
        if callable(x):
            def call(I, a, kw, n):
                if name == 'decode':
                    codec_errors(I, a, kw)
                    r = host_call(I, x, a, kw)
                    return r if r is not None else Opq(
                        ('decode', term_of(av)), {'str'})
                r = host_call(I, x, a, kw)
                if r is None:
                    return Opq(('m:' + name, term_of(av)) + tuple(
                        term_of(y) for y in a))
                return r
            return Native('prim.' + name, call)
        return lift(I, x)
    if isinstance(v, (re.Pattern, re.Match)) and hasattr(v, name):
        x = getattr(v, name)
        if callable(x):
            return Native('re.' + name, lambda I, a, k, n:
                          re_call(I, v, name, a, k))
        return lift(I, x)
    if isinstance(v, (range, slice)) and hasattr(v, name):
        x = getattr(v, name)
        if not callable(x):
            return lift(I, x)
        return Native('range.' + name, lambda I, a, k, n:
                      host_call(I, x, a, k) or Opq(('range', I.unique())))
    if v is None and name == '__bool__':
        return Native('none.__bool__', lambda I, a, k, n: FALSE)
    I.raise_('AttributeError', "%r object has no attribute %r" % (
        type(v).__name__, name), cause=term_of(av))


def re_call(I, pat, name, args, kw):
    if args and not isinstance(I.norm(args[0]), (K, TextObj, Opq)):
        if not (isinstance(args[0], (Fn, Bound, Native)) and name == 'sub'):
            I.raise_('TypeError', 'expected string or bytes-like object',
                     cause=term_of(args[0]))
    r = host_call(I, getattr(pat, name), args, kw)
    if r is not None:
        return r
    if isinstance(pat, re.Match):
        return Opq(('rematch', name, I.unique()))
    base = ('re.' + name, pat.pattern) + tuple(term_of(a) for a in args)
    for a in args:
        if isinstance(I.norm(a), Opq):
            t = I.typeset(I.norm(a))
            if t is not None and not t & {'str', 'bytes'}:
                I.raise_('TypeError', 'expected string', cause=term_of(a))
            if t is None:
                I.may_raise('TypeError', term_of(a))
    if name in ('sub',):
        return Opq(base, {'str'})
    if name in ('split', 'findall'):
        return Opq(base, {'list'})
    if name == 'finditer':
        items = I.materialise(Opq(base, {'list'}))
        return I.new_list([Opq(x.term, {'match'}) for x in items])
    if name in ('match', 'search', 'fullmatch'):
        if I.decide(('matches', base)):
            return Opq(('matchobj', base), {'match'})
        return NONE
    return Opq(base)


def opq_getattr(I, av, name):
    ts = I.typeset(av)
    if ts == {'Logger'}:
        if name == 'level':
            return Opq(('loglevel',), {'int'})
        return Native('logger.' + name, lambda I, a, k, n: NONE)
    if ts == {'match'}:
        def call(I, a, k, n):
            if name in ('groups',):
                return Opq(('groups', av.term), {'tuple'})
            if name in ('start', 'end'):
                return Opq((name, av.term) + tuple(term_of(x) for x in a),
                           {'int'})
            if name == 'span':
                return Tup([Opq(('start', av.term), {'int'}),
                            Opq(('end', av.term), {'int'})])
            if name == 'groupdict':
                return Opq(('groupdict', av.term), {'dict'})
            return Opq(('group', av.term) + tuple(term_of(x) for x in a))
        return Native('match.' + name, call)
    if ts == {'Path'}:
        return path_getattr(I, av, name)
    if ts == {'ArgumentParser'}:
        return parser_method(I, av, name)
    if ts is not None:
        known = {'int': int, 'float': float, 'str': str, 'bool': bool,
                 'tuple': tuple, 'list': list, 'dict': dict, 'set': set,
                 'bytes': bytes, 'NoneType': type(None)}
        have = [t for t in ts if t in known and hasattr(known[t], name)]
        if all(t in known for t in ts):
            if not have:
                I.raise_('AttributeError', name, cause=av.term)
            if len(have) < len(ts):
                if I.choose(2, ('attr', name)) == 1:
                    I.decisions.append((('hasattr', av.term, name), False,
                                        I.loc()))
                    I.narrow(av, exclude=have)
                    I.raise_('AttributeError', name, cause=av.term)
                I.narrow(av, only=have)
            if 'str' in have:
                return str_method(I, av, name)
            if have == ['bytes'] and name == 'decode':
                def decode(I, a, k, n):
                    codec_errors(I, a, k)
                    I.event('decode', av.term)
                    I.may_raise('UnicodeDecodeError', ('decode', av.term))
                    return Opq(('decode', av.term, term_of(
                        a[0] if a else k.get('encoding', K('utf-8')))),
                        {'str'})
                return Native('bytes.decode', decode)
            if 'dict' in have:
                return dict_method(I, av, name)
            if have[0] in ('list', 'tuple'):
                return Native('opq.' + name, lambda I, a, k, n:
                              opq_list_method(I, av, name, a))
            return Native('opq.' + name, lambda I, a, k, n:
                          Opq(('m:' + name, av.term) + tuple(
                              term_of(x) for x in a)))
    I.may_raise('AttributeError', av.term, name)
    f = I.facts.get(('hasattr', av.term, name))
    if f is False:
        I.raise_('AttributeError', name, cause=av.term)
    if ts is None:
        if name in ('items', 'keys', 'values'):
            I.narrow(av, only={'dict'})
            return dict_method(I, av, name)
        if name in STR_STR or name in ('startswith', 'endswith'):
            I.narrow(av, only={'str'})
            return str_method(I, av, name)
    return Opq(('attr', av.term, name))


def opq_list_method(I, av, name, args):
    if name in ('__iter__', 'copy'):
        return I.new_list(I.iterate(av))
    if name in ('index', 'count'):
        return Opq(('m:' + name, av.term) + tuple(term_of(x) for x in args),
                   {'int'})
    return Opq(('m:' + name, av.term, I.unique()))


def native_getattr(I, av, name):
    if name in ('__doc__', '__module__'):
        return NONE
    return None


def exc_getattr(I, av, name):
    if name == 'args':
        return Tup(())
    if name in ('with_traceback', 'add_note'):
        return Native('exc.' + name, lambda I, a, k, n: av)
    if name in ('__cause__', '__context__', '__traceback__'):
        return NONE
    if name in ('errno', 'strerror', 'filename', 'msg', 'code', 'key',
                'reason', 'name'):
        return Opq(('excattr', av.id, name))
    return None


def ext_base_getattr(I, av, name):
    """Attributes an instance gets from an external base class."""
    for c in av.cands[0].mro:
        if isinstance(c, Ext) and c.name not in (
                'builtins.object', 'enum.Enum') and \
                not c.name.split('.')[-1] in HOST_EXC:
            short = c.name.split('.')[-1]
            h = HOST_TYPES.get(short)
            if h is not None and not hasattr(h, name):
                continue
            if c.name.startswith('abc.') or c.name in (
                    'abc.ABC', 'typing.Protocol', 'typing.Generic'):
                continue
            if name.startswith('__') and name.endswith('__'):
                continue
            I.note_imprecise('attribute of external base class')
            return Opq(('extbase', av.id, name))
    return None


def object_getattr(I, av, name):
    if name in ('__str__', '__repr__'):
        return Native('object.' + name, lambda I, a, k, n: str_(I, av))
    if name == '__setattr__':
        return Native('object.__setattr__', lambda I, a, k, n:
                      I.inst_setattr(av, I.const(a[0]), a[1], raw=True))
    if name == '__getattribute__':
        return Native('object.__getattribute__', lambda I, a, k, n:
                      I.inst_getattr(av, I.const(a[0])))
    if name == '__eq__':
        return Native('object.__eq__', lambda I, a, k, n: K(a[0] is av))
    if name == '__ne__':
        return Native('object.__ne__', lambda I, a, k, n:
                      I.not_(I.eq(av, a[0])))
    if name == '__hash__':
        return Native('object.__hash__', lambda I, a, k, n:
                      Opq(('hash', ('ref', av.id)), {'int'}))
    if name == '__init__':
        return Native('object.__init__', lambda I, a, k, n: NONE)
    if name == '__doc__':
        return NONE
    if name == '__module__':
        return K(av.cands[0].mod.name) if av.cands[0].mod else NONE
    if name == '__dir__':
        return Native('object.__dir__', lambda I, a, k, n: I.new_list())
    return None


def class_getattr(I, cls, name):
    if name in ('__name__', '__qualname__'):
        return K(cls.name if name == '__name__' else cls.qual)
    if name == '__module__':
        return K(cls.mod.name if cls.mod else 'builtins')
    if name == '__dict__':
        return I.new_dict([(K(k), v) for k, v in cls.ns.items()
                           if k not in ('__annots__',)])
    if name in ('__mro__', 'mro'):
        m = [c for c in cls.mro]
        if not any(isinstance(c, Ext) and c.name == 'builtins.object'
                   for c in m):
            m.append(Ext('builtins.object'))
        if name == '__mro__':
            return Tup(m)
        return Native('type.mro', lambda I, a, k, n: I.new_list(m))
    if name == '__bases__':
        return Tup(cls.bases or [Ext('builtins.object')])
    if name == '__base__':
        return cls.bases[0] if cls.bases else Ext('builtins.object')
    if name == '__class__':
        return Ext('builtins.type')
    if name == '__doc__':
        return NONE
    if name == '__subclasses__':
        def subs(I, a, k, n):
            r = [c for c in all_classes(I) if cls in c.bases]
            return I.new_list(sorted(r, key=lambda c: c.order))
        return Native('type.__subclasses__', subs)
    if name == '__getattribute__':
        def ga(I, a, k, n):
            o, nm = a[0], I.const(a[1])
            if isinstance(o, ClassObj):
                if nm in o.ns:
                    return o.ns[nm]
                if hasattr(type, nm):
                    return Opq(('typeattr', nm))
                I.raise_('AttributeError', nm)
            return I.inst_getattr(o, nm)
        return Native('object.__getattribute__', ga)
    if name == '__new__':
        return Native('object.__new__', lambda I, a, k, n: object_new(I, a))
    if name == '__init__':
        return Native('object.__init__', lambda I, a, k, n: NONE)
    if name == '__setattr__':
        return Native('object.__setattr__', lambda I, a, k, n:
                      I.inst_setattr(a[0], I.const(a[1]), a[2], raw=True))
    if name in ('__eq__', '__hash__', '__repr__', '__str__', '__lt__'):
        for c in cls.mro:
            if isinstance(c, Ext) and c.name != 'builtins.object':
                return Opq(('extclassattr', cls.qual, name))
        if name == '__lt__':
            return None
        return Native('object.' + name, lambda I, a, k, n:
                      I.call(object_getattr(I, a[0], name), a[1:], k))
    if name == '__annotations__':
        return I.new_dict()
    if name == '__members__':
        return I.new_dict([(K(k), v) for k, v in cls.ns.items()
                           if isinstance(v, Inst) and v.cands[0] is cls])
    for c in cls.mro:
        if isinstance(c, Ext):
            r = ext_class_method(I, c, name)
            if r is not None:
                return r
    return None


def all_classes(I):
    r = []
    for m in I.modules.values():
        for v in m.ns.values():
            if isinstance(v, ClassObj) and v not in r:
                r.append(v)
    return r


def ext_class_method(I, k, name):
    """A method of an external class, for super() and the like."""
    if k.name == 'builtins.object':
        return None
    short = k.name.split('.')[-1]
    if k.name.startswith('builtins.') and short in HOST_EXC:
        if name == '__init__':
            def init(I, a, kw, n):
                a[0].attrs['args'] = Tup(a[1:])
                return NONE
            return Native('method:exc.__init__', init)
        if name in ('__str__', '__repr__'):
            return Native('method:exc.__str__', lambda I, a, kw, n:
                          Opq(('str', term_of(a[0])), {'str'}))
        return None
    h = HOST_TYPES.get(short)
    if h is not None and not hasattr(h, name):
        return None
    if name in ('__init__', '__init_subclass__'):
        return Native('method:ext.__init__', lambda I, a, kw, n: NONE)
    if name == '__new__':
        return Native('ext.__new__', lambda I, a, kw, n: object_new(I, a))
    if k.name in ('abc.ABC', 'typing.Generic', 'typing.Protocol'):
        return None
    if name.startswith('__') and h is None:
        return None

    def call(I, a, kw, n):
        I.note_imprecise('method of an external base class')
        return Opq(('extmethod', k.name, name, I.unique()))
    return Native('method:' + k.name + '.' + name, call)


def object_new(I, args):
    c = args[0]
    if isinstance(c, ClassSet):
        return I.new_inst(c.cands)
    if isinstance(c, ClassObj):
        return I.new_inst(c)
    return Opq(('new', term_of(c), I.unique()))


MODCONST = {
    'math.inf': float('inf'), 'math.nan': float('nan'), 'math.pi': math.pi,
    'math.e': math.e, 'os.sep': '/', 'os.extsep': '.', 'os.linesep': '\n',
    'logging.DEBUG': 10, 'logging.INFO': 20, 'logging.WARNING': 30,
    'logging.ERROR': 40, 'logging.CRITICAL': 50, 'logging.WARN': 30,
    'os.devnull': '/dev/null', 're.I': re.I, 're.IGNORECASE': re.I,
    're.M': re.M, 're.MULTILINE': re.M, 're.S': re.S, 're.DOTALL': re.S,
    're.X': re.X, 're.VERBOSE': re.X, 'os.path.sep': '/',
    'typing.TYPE_CHECKING': False, 'sys.maxsize': sys.maxsize,
    'os.O_CREAT': os.O_CREAT, 'os.name': 'posix', 'sys.platform': 'linux',
    'gzip.FTEXT': 1,
}
STDLIB = set(sys.stdlib_module_names)
_host_mods = {}


def host_module(name):
    """A standard-library module, to ask which names it defines."""
    if name.split('.')[0] not in STDLIB or name.split('.')[0] in (
            'antigravity', 'this', 'idlelib', '__main__'):
        return None
    if name not in _host_mods:
        try:
            _host_mods[name] = importlib.import_module(name)
        except Exception:
            _host_mods[name] = None
    return _host_mods[name]


BS4_NAMES = {
    'BeautifulSoup', 'Tag', 'NavigableString', 'element', 'Comment', 'CData',
    'PageElement', 'ResultSet', 'SoupStrainer', 'builder', 'dammit',
    'Doctype', 'Declaration', 'ProcessingInstruction', 'UnicodeDammit',
    'FeatureNotFound', '__version__', 'formatter', 'GuessedAtParserWarning',
    'XMLParsedAsHTMLWarning', 'MarkupResemblesLocatorWarning', 'css',
    'BeautifulStoneSoup', 'Script', 'Stylesheet', 'TemplateString',
    'DEFAULT_OUTPUT_ENCODING', 'PYTHON_SPECIFIC_ENCODINGS',
    'StopParsing', 'ParserRejectedMarkup', 'HTMLParserTreeBuilder',
    'diagnose', 'AttributeValueList', 'SPACES'}


def ext_attr(I, modname, name):
    """modname.name, for an external module."""
    full = canon(modname + '.' + name)
    if full in MODCONST:
        return K(MODCONST[full])
    h = host_module(modname)
    if h is not None and not hasattr(h, name) and \
            host_module(modname + '.' + name) is None:
        I.event('no-such-module-attr', modname, name)
        I.raise_('AttributeError', 'module %r has no attribute %r' % (
            modname, name))
    if h is not None:
        v = getattr(h, name, None)
        if isinstance(v, type) and issubclass(v, BaseException) and \
                v.__module__ == 'builtins':
            return Ext('builtins.' + v.__name__)
    if modname in ('bs4', 'bs4.element') and name not in BS4_NAMES and \
            not name.startswith('__'):
        I.event('no-such-module-attr', modname, name)
        I.raise_('AttributeError', 'module %r has no attribute %r' % (
            modname, name))
    return Ext(full)


def ext_getattr(I, av, name):
    n = av.name
    h = host_module(n)
    if h is not None or n in ('bs4', 'bs4.element', 'pysrt'):
        return ext_attr(I, n, name)
    short = n.split('.')[-1]
    if n.startswith('builtins.'):
        if name in ('__name__', '__qualname__'):
            return K(short)
        if name == '__module__':
            return K('builtins')
        if name == '__dict__':
            return I.new_dict()
        if name in ('__mro__',):
            return Tup(ext_mro(I, av))
        if name == '__members__' or name == '__bases__':
            return Tup(())
        host = HOST_TYPES.get(short) or HOST_EXC.get(short)
        if n == 'builtins.object':
            if name == '__new__':
                return Native('object.__new__', lambda I, a, k, nd:
                              object_new(I, a))
            if name == '__setattr__':
                return Native('object.__setattr__', lambda I, a, k, nd:
                              I.inst_setattr(a[0], I.const(a[1]), a[2],
                                             raw=True))
            if name == '__getattribute__':
                return Native('object.__getattribute__', lambda I, a, k, nd:
                              I.inst_getattr(a[0], I.const(a[1])))
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k, nd: NONE)
        if host is not None and not hasattr(host, name):
            I.raise_('AttributeError', name)
        if n in ('builtins.dict', 'builtins.list', 'builtins.str',
                 'builtins.set', 'builtins.tuple', 'builtins.float',
                 'builtins.int', 'builtins.bytes'):
            def unbound(I, a, k, nd):
                if name == 'fromkeys':
                    return dict_method(I, I.new_dict(), name).py(I, a, k, nd)
                if name == 'maketrans' or name == 'fromhex':
                    r = host_call(I, getattr(host, name), a, k)
                    return r if r is not None else Opq(
                        (n, name, I.unique()))
                if name == '__new__':
                    return object_new(I, a)
                return I.call(getattr_(I, I.norm(a[0]), name), a[1:], k)
            return Native(short + '.' + name, unbound)
    if name in ('__name__', '__qualname__'):
        return K(short)
    if name == '__module__':
        return K(n.rsplit('.', 1)[0])
    if n == 'contextlib.suppress' and name == '__name__':
        return K('suppress')
    return Ext(canon(n + '.' + name))


def setattr_(I, av, name, value):
    if isinstance(av, NodeObj):
        return dom.node_setattr(I, av, name, value)
    if isinstance(av, Opq):
        I.event('opaque-setattr', av.term, name, value)
        I.may_raise('AttributeError', av.term, name)
        return
    if isinstance(av, Ext):
        I.event('shared-write', av, name)
        return
    if isinstance(av, (K, Tup, ListObj, DictObj, SetObj, Bound)):
        I.raise_('AttributeError', 'no attribute %r' % name,
                 cause=term_of(av))
    I.note_imprecise('setattr on %s' % type(av).__name__)


def delattr_(I, av, name):
    if isinstance(av, Opq):
        return
    I.raise_('AttributeError', name, cause=term_of(av))


def getitem_(I, av, idx):
    if isinstance(av, NodeObj):
        return dom.node_getitem(I, av, idx)
    if isinstance(av, Opq):
        ts = I.typeset(av)
        if ts == {'match'}:
            return Opq(('group', av.term, term_of(idx)))
        if ts is not None and not ts & {'str', 'list', 'tuple', 'dict',
                                        'bytes', 'type'}:
            I.raise_('TypeError', 'not subscriptable', cause=av.term)
        if ts == {'dict'}:
            if not I.decide(('in', term_of(idx), av.term)):
                I.raise_('KeyError', cause=('tup', av.term, term_of(idx)))
            return Opq(('item', av.term, term_of(idx)))
        if isinstance(idx, K) and isinstance(idx.v, int) and \
                not isinstance(idx.v, bool):
            if av.term in I.mats or I.facts_len(av.term) is not None:
                items = I.iterate(av)
                try:
                    return items[idx.v]
                except IndexError:
                    I.raise_('IndexError', cause=av.term)
        if isinstance(idx, K) and isinstance(idx.v, slice) and ts and \
                ts <= {'list', 'tuple'} and (
                    av.term in I.mats or I.facts_len(av.term) is not None):
            return (Tup if ts == {'tuple'} else I.new_list)(
                I.iterate(av)[idx.v])
        if not (isinstance(idx, K) and isinstance(idx.v, slice)):
            if ts is None:
                I.may_raise('TypeError', ('item', av.term, term_of(idx)))
                I.may_raise('KeyError', ('item', av.term, term_of(idx)))
            I.may_raise('IndexError', ('item', av.term, term_of(idx)))
        t = None
        if ts == {'str'}:
            t = {'str'}
        elif isinstance(idx, K) and isinstance(idx.v, slice):
            t = ts
        it = term_of(idx)
        if isinstance(idx, K) and isinstance(idx.v, slice):
            it = ('slice', idx.v.start, idx.v.stop, idx.v.step)
        elif isinstance(idx, K) and isinstance(idx.v, int) and \
                idx.v >= 0 and ts and ts <= {'list', 'tuple'}:
            return Opq(('elem', av.term, idx.v))
        return Opq(('item', av.term, it), t)
    if isinstance(av, (Ext, Native)):
        return av
    I.raise_('TypeError', 'object is not subscriptable', cause=term_of(av))


def setitem_(I, av, idx, value):
    if isinstance(av, NodeObj):
        return dom.node_setitem(I, av, idx, value)
    if isinstance(av, Opq):
        I.event('opaque-setitem', av.term, idx, value)
        return
    I.raise_('TypeError', 'no item assignment', cause=term_of(av))


def delitem_(I, av, idx):
    if isinstance(av, NodeObj):
        return dom.node_delitem(I, av, idx)
    if isinstance(av, Opq):
        I.may_raise('KeyError', av.term)
        return
    I.raise_('TypeError', 'no item deletion', cause=term_of(av))


def iterate_ext(I, av):
    if isinstance(av, ClassObj):
        m = [v for v in av.ns.values()
             if isinstance(v, Inst) and v.cands[0] is av]
        return m or None
    return None


###### classes

def ext_issubclass(a, b):
    if a == b or b == 'builtins.object':
        return True
    sa, sb = a.split('.')[-1], b.split('.')[-1]
    if a.startswith('builtins.') and b.startswith('builtins.'):
        ha, hb = getattr(builtins, sa, None), getattr(builtins, sb, None)
        if isinstance(ha, type) and isinstance(hb, type):
            return issubclass(ha, hb)
        return False
    if b in ABC_TYPES and a.startswith('builtins.'):
        return sa in ABC_TYPES[b]
    table = {'bs4.BeautifulSoup': ('bs4.Tag', 'bs4.PageElement'),
             'bs4.Tag': ('bs4.PageElement',),
             'bs4.NavigableString': ('builtins.str', 'bs4.PageElement'),
             'enum.IntEnum': ('enum.Enum', 'builtins.int'),
             'enum.StrEnum': ('enum.Enum', 'builtins.str'),
             'collections.defaultdict': ('builtins.dict',)}
    if b in table.get(a, ()):
        return True
    if b.startswith('builtins.') and sb in HOST_EXC:
        mod, _, n = a.rpartition('.')
        h = host_module(mod) if mod else None
        c = getattr(h, n, None) if h is not None else None
        if isinstance(c, type) and issubclass(c, BaseException):
            return issubclass(c, HOST_EXC[sb])
        if b in ('builtins.Exception', 'builtins.BaseException') and (
                n.endswith('Error') or n.endswith('Exception')):
            return True
    return False


def ext_mro(I, b):
    if isinstance(b, Ext):
        r = [b]
        short = b.name.split('.')[-1]
        if b.name.startswith('builtins.'):
            h = getattr(builtins, short, None)
            if isinstance(h, type):
                r = [Ext('builtins.' + c.__name__) for c in h.__mro__]
        elif b.name in ('enum.IntEnum',):
            r += [Ext('enum.Enum'), Ext('builtins.int')]
        elif b.name == 'bs4.BeautifulSoup':
            r += [Ext('bs4.Tag')]
        else:
            mod, _, n = b.name.rpartition('.')
            h = host_module(mod) if mod else None
            c = getattr(h, n, None) if h is not None else None
            if isinstance(c, type) and issubclass(c, BaseException):
                r += [Ext('builtins.' + k.__name__) for k in c.__mro__[1:]
                      if k.__module__ == 'builtins']
        return r
    return [b]


EXT_TYPENAME = {'bs4.Tag': {'Tag'}, 'bs4.BeautifulSoup': {'BeautifulSoup'},
                'bs4.NavigableString': {'NavigableString'},
                'bs4.PageElement': {'Tag', 'NavigableString'}}


def isinstance_ext(I, av, cls):
    n = cls.name
    short = n.split('.')[-1]
    if isinstance(av, NodeObj):
        if n == 'bs4.BeautifulSoup':
            return bool(av.soup)
        return n in ('bs4.Tag', 'bs4.PageElement', 'builtins.object',
                     'abc.Iterable', 'abc.Callable', 'abc.Sized')
    if isinstance(av, TextObj):
        return n in ('bs4.NavigableString', 'bs4.PageElement',
                     'builtins.str', 'builtins.object', 'abc.Iterable',
                     'abc.Sequence', 'abc.Sized')
    if n == 'builtins.object':
        return True
    if n == 'builtins.type':
        if isinstance(av, (ClassObj, ClassSet)):
            return True
        if isinstance(av, Ext):
            s = av.name.split('.')[-1]
            return (s in HOST_TYPES or s in HOST_EXC or
                    av.name in EXT_TYPENAME or
                    s[:1].isupper())
    if n in ABC_METHODS and isinstance(av, (Fn, Bound, Native, ClassObj,
                                            ClassSet, GenObj)):
        if n == 'abc.Callable':
            return not isinstance(av, GenObj)
        return isinstance(av, GenObj) and n == 'abc.Iterable'
    if isinstance(av, K):
        h = HOST_TYPES.get(short)
        if n.startswith('builtins.'):
            if short == 'NoneType':
                return av.v is None
            return h is not None and isinstance(av.v, h)
        if n in ABC_TYPES:
            return type(av.v).__name__ in ABC_TYPES[n]
        return False
    if isinstance(av, (Tup, ListObj, DictObj, SetObj)):
        t = I.typename(av)
        if n in ABC_TYPES:
            return t in ABC_TYPES[n]
        if n == 'builtins.frozenset':
            return isinstance(av, SetObj) and bool(av.frozen)
        return n == 'builtins.' + t
    if isinstance(av, Opq):
        if n.startswith('bs4.') and mentions_arg(av.term):
            # elements are passed explicitly
            return False
        if n in ABC_TYPES:
            want = ABC_TYPES[n]
        elif n in EXT_TYPENAME:
            want = EXT_TYPENAME[n]
        elif n.startswith('builtins.'):
            want = {short}
            if short == 'int':
                want = {'int', 'bool'}
        else:
            return I.decide(('isinstance', av.term, ('ext', n)))
        ts = I.typeset(av)
        no = I.not_types(av)
        want = set(want) - set(no)
        if not want:
            return False
        if ts is not None:
            if set(ts) <= want:
                return True
            if not set(ts) & want:
                return False
        t = ('isinstance', av.term, ('ext', n))
        if I.decide(t):
            w = set(want)
            if ts is not None:
                w &= set(ts)
            I.narrow(av, only=w)
            return True
        I.narrow(av, exclude=want)
        return False
    return False


def class_created(I, c, kw):
    for b in c.mro[1:]:
        if isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum',
                                             'enum.StrEnum', 'enum.Flag',
                                             'enum.IntFlag'):
            for k, v in list(c.ns.items()):
                if k.startswith('_') or not isinstance(v, (K, Tup)):
                    continue
                m = I.new_inst(c)
                m.attrs.update({'name': K(k), 'value': v, '_name_': K(k),
                                '_value_': v})
                c.ns[k] = m
            return
    for b in c.bases:
        if isinstance(b, Ext) and b.name == 'typing.NamedTuple':
            c.ns['__namedtuple__'] = Tup([K(x) for x in
                                          c.ns.get('__annots__', [])])


def dataclass_fields(I, cls):
    names, defaults = [], {}
    for c in reversed(cls.mro):
        if isinstance(c, ClassObj) and '__dataclass__' in c.ns:
            for n in c.ns.get('__annots__', []):
                if n not in names:
                    names.append(n)
                if n in c.ns:
                    defaults[n] = c.ns[n]
    return names, defaults


def instantiate_special(I, cls, args, kwargs, node):
    for c in cls.mro:
        if not isinstance(c, ClassObj):
            if isinstance(c, Ext) and c.name in ('enum.Enum', 'enum.IntEnum'):
                for v in cls.ns.values():
                    if isinstance(v, Inst) and v.cands[0] is cls and args \
                            and I.truth(I.eq(v.attrs['value'], args[0])):
                        return v
                I.raise_('ValueError', 'not a valid member',
                         cause=term_of(args[0]) if args else None)
            continue
        if '__init__' in c.ns:
            return None
        if '__dataclass__' in c.ns or '__namedtuple__' in c.ns:
            if '__namedtuple__' in c.ns:
                names = [x.v for x in c.ns['__namedtuple__'].items]
                defaults = {n: c.ns[n] for n in names if n in c.ns}
            else:
                names, defaults = dataclass_fields(I, cls)
            inst = I.new_inst(cls)
            vals = dict(zip(names, args))
            if len(args) > len(names):
                I.raise_('TypeError', 'too many arguments')
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    I.raise_('TypeError', 'unexpected keyword argument')
                vals[k] = v
            for n in names:
                if n not in vals:
                    if n not in defaults:
                        I.raise_('TypeError', 'missing argument %r' % n)
                    d = defaults[n]
                    if isinstance(d, Opq) and d.term[0] == 'dcfield':
                        d = I.call(I.dcfields[d.term[1]], [], {})
                    vals[n] = d
            if '__namedtuple__' in c.ns:
                return Tup([vals[n] for n in names], names)
            inst.attrs.update(vals)
            post, o = I.mro_lookup(cls, '__post_init__')
            if post is not None:
                I.call(Bound(inst, post), [], {})
            return inst
    return None


def d_dataclass(I, args, kw, node):
    def deco(I, a, k, n):
        c = a[0]
        c.ns['__dataclass__'] = TRUE
        if 'frozen' in kw and I.truth(kw['frozen']):
            c.ns['__frozen__'] = TRUE
        names = list(c.ns.get('__annots__', []))
        if '__eq__' not in c.ns and not (
                'eq' in kw and not I.truth(kw['eq'])):
            def eq(I, a, k, n):
                x, y = a
                if not (isinstance(y, Inst) and y.cands == x.cands):
                    return Ext('builtins.NotImplemented')
                ns, _ = dataclass_fields(I, c)
                for nm in ns:
                    if not I.truth(I.eq(I.getattr(x, nm),
                                        I.getattr(y, nm))):
                        return FALSE
                return TRUE
            c.ns['__eq__'] = Native('method:dataclass.__eq__', eq)
            c.ns['__hash__'] = NONE
            if '__frozen__' in c.ns:
                c.ns['__hash__'] = Native(
                    'method:dataclass.__hash__', lambda I, a, k, n: Opq(
                        ('hash', term_of(Tup([
                            I.getattr(a[0], x) for x in
                            dataclass_fields(I, c)[0]]))), {'int'}))
        if 'order' in kw and I.truth(kw['order']):
            def mk(op):
                def cmp(I, a, k, n):
                    ns, _ = dataclass_fields(I, c)
                    return I.compare(
                        op, Tup([I.getattr(a[0], x) for x in ns]),
                        Tup([I.getattr(a[1], x) for x in ns]))
                return Native('method:dataclass.cmp', cmp)
            for op, nm in I.OPS.items():
                c.ns[nm] = mk(op)
        return c
    if args:
        return deco(I, args, {}, node)
    return Native('dataclass', deco)


###### builtins

def b_len(I, a, k, n):
    return I.length(a[0])


def b_isinstance(I, a, k, n):
    return K(I.isinstance_(a[0], a[1]))


def b_issubclass(I, a, k, n):
    return K(I.issubclass_(a[0], a[1]))


def b_getattr(I, a, k, n):
    name = I.norm(a[1])
    if isinstance(name, TextObj):
        name = I.norm(name.value)
    if not isinstance(name, K):
        return dynamic_getattr(I, a[0], name,
                               a[2] if len(a) > 2 else ABSENT)
    if len(a) > 2:
        return I.getattr(a[0], name.v, a[2])
    return I.getattr(a[0], name.v)


def dynamic_getattr(I, obj, name, default):
    c = I.choose(2, ('getattr', term_of(obj), term_of(name)))
    if c == 1:
        if default is not ABSENT:
            return default
        I.raise_('AttributeError', cause=term_of(name))
    return Opq(('getattr', term_of(obj), term_of(name)))


def b_hasattr(I, a, k, n):
    name = I.const(a[1])
    o = I.norm(a[0])
    if isinstance(o, Opq):
        ts = I.typeset(o)
        t = ('hasattr', o.term, name)
        known = {'int': int, 'float': float, 'str': str, 'bool': bool,
                 'tuple': tuple, 'list': list, 'dict': dict, 'set': set,
                 'bytes': bytes, 'NoneType': type(None)}
        if ts is not None and all(x in known for x in ts):
            rs = {hasattr(known[x], name) for x in ts}
            if len(rs) == 1:
                return K(rs.pop())
            if I.decide(t):
                I.narrow(o, only={x for x in ts if hasattr(known[x], name)})
                return TRUE
            I.narrow(o, only={x for x in ts if not hasattr(known[x], name)})
            return FALSE
        r = I.decide(t)
        if r and ts is None and name in ('items', 'keys'):
            I.narrow(o, only={'dict'})
        if not r:
            I.narrow(o, exclude={x for x in known
                                 if hasattr(known[x], name)})
        return K(r)
    I.handlers.append([Ext('builtins.AttributeError')])
    try:
        I.getattr_(o, name)
        return TRUE
    except PyRaise as e:
        if I.exc_isinstance(e.exc, Ext('builtins.AttributeError')):
            return FALSE
        raise
    finally:
        I.handlers.pop()


def b_setattr(I, a, k, n):
    name = I.norm(a[1])
    if not isinstance(name, K):
        I.note_imprecise('setattr with unknown name')
        return NONE
    I.setattr(a[0], name.v, a[2])
    return NONE


def b_delattr(I, a, k, n):
    I.delattr(a[0], I.const(a[1]))
    return NONE


def b_str(I, a, k, n):
    if not a:
        return K('')
    if len(a) > 1 or k:
        I.event('decode', term_of(a[0]))
        codec_errors(I, a, k, 2)
        return Opq(('decode',) + tuple(term_of(x) for x in a), {'str'})
    return str_(I, a[0])


def b_repr(I, a, k, n):
    return repr_(I, a[0])


def num(kind):
    def call(I, a, k, n):
        if not a:
            return K(kind())
        v = I.norm(a[0])
        if isinstance(v, TextObj):
            v = I.norm(v.value)
        kn = kind.__name__
        if isinstance(v, K) and all(isinstance(x, K) for x in a[1:]):
            r = host_call(I, kind, [v] + a[1:], k)
            return r
        if isinstance(v, Inst):
            for m in ('__float__', '__index__') if kind is float else (
                    '__int__', '__index__', '__trunc__'):
                f = I.find_special(v, m)
                if f is not None:
                    return I.call(f, [], {})
            if any(isinstance(c, Ext) and c.name == 'enum.IntEnum'
                   for c in v.cands[0].mro):
                return I.call(Native('x', call), [v.attrs['value']], {})
            I.raise_('TypeError', '%s() argument must be a string or a real '
                     'number' % kn, cause=term_of(v))
        if isinstance(v, Opq):
            while len(v.term) == 2 and v.term[0] in (
                    'm:strip', 'm:lstrip', 'm:rstrip'):
                # white space around a number means nothing
                v = I.norm(Opq(v.term[1], {'str'}))
                if isinstance(v, K):
                    return call(I, [v] + a[1:], k, n)
            ts = I.typeset(v)
            if ts is not None:
                if ts == {kn} and len(a) == 1:
                    return v
                if ts == {'bool'} and kind is int:
                    return Opq((kn, v.term), {kn})
                if not ts & {'int', 'float', 'str', 'bool', 'bytes'}:
                    I.raise_('TypeError', '%s() argument must be a string or '
                             'a real number' % kn, cause=v.term)
                if not ts <= {'int', 'float', 'bool', 'str'}:
                    I.may_raise('TypeError', v.term, kn)
            else:
                I.may_raise('TypeError', v.term, kn)
            if ts is None or 'str' in ts or (kind is int and 'float' in ts):
                I.may_raise('ValueError', v.term, kn)
            if kind is int and v.term[0] == 'round' and len(v.term) == 2:
                return Opq(v.term, {'int'})
            return Opq((kn, v.term) + tuple(term_of(x) for x in a[1:]), {kn})
        if isinstance(v, (ListObj, DictObj, Tup, SetObj, NodeObj, ClassObj)):
            I.raise_('TypeError', '%s() argument must be a string or a real '
                     'number' % kn, cause=term_of(v))
        return Opq((kn, term_of(v)), {kn})
    return call


def b_bool(I, a, k, n):
    if not a:
        return FALSE
    v = I.norm(a[0])
    if isinstance(v, Opq) and I.typeset(v) == {'bool'}:
        return v
    return K(I.truth(v))


def b_list(I, a, k, n):
    if not a:
        return I.new_list()
    return I.new_list(I.iterate(a[0]))


def b_tuple(I, a, k, n):
    if not a:
        return Tup(())
    v = I.norm(a[0])
    if isinstance(v, Tup):
        return v
    return Tup(I.iterate(v))


def b_set(frozen):
    def call(I, a, k, n):
        s = I.new_set(frozen=frozen)
        if a:
            for x in I.iterate(a[0]):
                set_add(I, s, x)
        return s
    return call


def b_dict(I, a, k, n):
    d = I.new_dict()
    if a:
        dict_update(I, d, a[0])
    for kk, v in k.items():
        I.dict_set(d, K(kk), v)
    return d


def b_sorted(I, a, k, n):
    return I.new_list(sort(I, I.iterate(a[0]), k))


def b_reversed(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, Inst):
        m = I.find_special(v, '__reversed__')
        if m is not None:
            return I.call(m, [], {})
    return I.new_iter(reversed(I.iterate(v)))


def is_eager(v):
    """Whether it doesn't matter when the elements of this are made."""
    if isinstance(v, GenObj):
        return v.items is not None or v.eager
    return not isinstance(v, Inst)


def b_enumerate(I, a, k, n):
    start = a[1] if len(a) > 1 else k.get('start', K(0))
    it = a[0]

    def run(cb):
        i = [0]

        def body(x):
            idx = binop(I, 'Add', start, K(i[0]))
            i[0] += 1
            cb(Tup([idx, x]))
        I.foreach(it, body)
    return I.new_gen(run, is_eager(I.norm(it)))


def b_zip(I, a, k, n):
    if not a:
        return I.new_iter([])
    lists = [I.iterate(x) for x in a]
    if 'strict' in k and I.truth(k['strict']) and \
            len({len(x) for x in lists}) > 1:
        I.raise_('ValueError', 'zip() argument is longer')
    return I.new_iter([Tup(t) for t in zip(*lists)])


def b_map(I, a, k, n):
    def run(cb):
        if len(a) == 2:
            I.foreach(a[1], lambda x: cb(I.call(a[0], [x], {})))
        else:
            for t in zip(*[I.iterate(x) for x in a[1:]]):
                cb(I.call(a[0], list(t), {}))
    return I.new_gen(run)


def b_filter(I, a, k, n):
    def run(cb):
        def body(x):
            ok = I.truth(x) if isinstance(a[0], K) else I.truth(
                I.call(a[0], [x], {}))
            if ok:
                cb(x)
        I.foreach(a[1], body)
    return I.new_gen(run)


def b_any(I, a, k, n):
    key = object()

    def body(x):
        if I.truth(x):
            raise StopGen(key)
    try:
        I.foreach(a[0], body)
    except StopGen as s:
        if s.key is not key:
            raise
        return TRUE
    return FALSE


def b_all(I, a, k, n):
    key = object()

    def body(x):
        if not I.truth(x):
            raise StopGen(key)
    try:
        I.foreach(a[0], body)
    except StopGen as s:
        if s.key is not key:
            raise
        return FALSE
    return TRUE


def b_iter(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, (GenObj, FileObj)):
        return v
    if isinstance(v, Inst):
        m = I.find_special(v, '__iter__')
        if m is not None:
            return I.call(m, [], {})
    return I.new_gen(lambda cb: I.foreach(v, cb), is_eager(v))


def b_next(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, Inst):
        m = I.find_special(v, '__next__')
        if m is not None:
            if len(a) > 1:
                I.handlers.append([Ext('builtins.StopIteration')])
                try:
                    return I.call(m, [], {})
                except PyRaise as e:
                    if I.exc_isinstance(e.exc,
                                        Ext('builtins.StopIteration')):
                        return a[1]
                    raise
                finally:
                    I.handlers.pop()
            return I.call(m, [], {})
        I.raise_('TypeError', 'object is not an iterator')
    if isinstance(v, (ListObj,)) and False:
        pass
    if isinstance(v, (K, Tup, DictObj)):
        I.raise_('TypeError', 'object is not an iterator', cause=term_of(v))
    if isinstance(v, FileObj):
        x = I.norm(I.call(I.getattr(v, 'readline'), [], {}))
        if I.truth(x):
            return x
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')
    if isinstance(v, GenObj):
        if v.items is None and v.eager:
            rest = I.drain(v)
            v.items, v.pos = rest, 0
        if v.items is None:
            # stop at the first item, so that nothing after it happens
            key = object()
            got = []

            def body(x):
                got.append(x)
                raise StopGen(key)
            rest = v.runner
            try:
                I.run_gen(v, body)
            except StopGen as s:
                if s.key is not key:
                    raise
            v.items = []
            v.pos = 0
            if got:
                v.items = None
                v.runner = lazy_rest(I, rest, 1)
                return got[0]
        elif v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')
    if isinstance(v, (ListObj, SetObj)):
        # (stands for some kind of iterator)
        if v.items:
            return v.items[0]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')
    if isinstance(v, Opq):
        items = I.iterate(v)
        if items:
            return items[0]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration', cause=v.term)
    return Opq(('next', term_of(v), I.unique()))


def lazy_rest(I, runner, skip):
    """A generator continued after its first items; it's run again."""
    def run(cb):
        seen = [0]

        def body(x):
            seen[0] += 1
            if seen[0] > skip:
                cb(x)
        runner(body)
    return run


def minmax(less):
    def call(I, a, k, n):
        items = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            I.raise_('ValueError', 'arg is an empty sequence')
        key = k.get('key')
        best = items[0]
        bk = I.call(key, [best], {}) if key else best
        for x in items[1:]:
            xk = I.call(key, [x], {}) if key else x
            c = I.compare('<', xk, bk) if less else I.compare('<', bk, xk)
            if I.truth(c):
                best, bk = x, xk
        return best
    return call


def b_sum(I, a, k, n):
    r = a[1] if len(a) > 1 else k.get('start', K(0))
    for x in I.iterate(a[0]):
        r = binop(I, 'Add', r, x)
    return r


def b_range(I, a, k, n):
    r = host_call(I, range, a)
    if r is not None:
        return r
    if len(a) == 1:
        v = I.norm(a[0])
        return Opq(('range', term_of(v)), {'list'})
    return Opq(('range',) + tuple(term_of(x) for x in a), {'list'})


def b_type(I, a, k, n):
    if len(a) == 3:
        I.note_imprecise('dynamic class')
        return Opq(('dynclass', I.unique()), {'type'})
    return I.class_of(I.norm(a[0]))


def b_super(I, a, k, n):
    if len(a) == 2:
        return SuperObj(a[0], a[1])
    I.raise_('TypeError', 'super()')


def b_property(I, a, k, n):
    return Prop(a[0] if a else k.get('fget'),
                a[1] if len(a) > 1 else k.get('fset'),
                a[2] if len(a) > 2 else k.get('fdel'))


def b_callable(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, Inst):
        return K(I.find_special(v, '__call__') is not None)
    if isinstance(v, Opq):
        return I.bool_av(('callable', v.term))
    return K(isinstance(v, (Fn, Bound, Native, ClassObj, ClassSet, Ext,
                            NodeObj)))


def b_hash(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, Inst):
        I.hash_check(v)
        m = I.find_special(v, '__hash__')
        if m is not None:
            return I.call(m, [], {})
    if isinstance(v, (ListObj, DictObj)):
        I.raise_('TypeError', 'unhashable type')
    return Opq(('hash', term_of(v)), {'int'})


def b_round(I, a, k, n):
    v = I.norm(a[0])
    nd = I.norm(a[1]) if len(a) > 1 else k.get('ndigits')
    args = [v] + ([nd] if nd is not None else [])
    if isinstance(v, Inst):
        m = I.find_special(v, '__round__')
        if m is None:
            I.raise_('TypeError', 'type has no __round__')
        return I.call(m, args[1:], {})
    r = host_call(I, round, args)
    if r is not None:
        return r
    if isinstance(v, Opq) and I.typeset(v) == {'int'} and nd is None:
        return v
    return Opq(('round',) + tuple(term_of(x) for x in args),
               {'int'} if nd is None else {'float'})


def b_abs(I, a, k, n):
    v = I.norm(a[0])
    if isinstance(v, Inst):
        m = I.find_special(v, '__abs__')
        if m is None:
            I.raise_('TypeError', 'bad operand type for abs()')
        return I.call(m, [], {})
    r = host_call(I, abs, a)
    if r is not None:
        return r
    if isinstance(v, Opq):
        ts = I.typeset(v)
        if ts is not None and not ts & {'int', 'float', 'bool'}:
            I.raise_('TypeError', 'bad operand type for abs()', cause=v.term)
        if ts is None:
            I.may_raise('TypeError', v.term)
        return Opq(('abs', v.term), ts)
    I.raise_('TypeError', 'bad operand type for abs()', cause=term_of(v))


def b_divmod(I, a, k, n):
    return Tup([binop(I, 'FloorDiv', a[0], a[1]),
                binop(I, 'Mod', a[0], a[1])])


def b_print(I, a, k, n):
    parts = [str_(I, x) for x in a]
    f = k.get('file')
    f = I.norm(f) if f is not None else None
    if isinstance(f, FileObj):
        sep, end = k.get('sep', K(' ')), k.get('end', K('\n'))
        out = []
        for i, x in enumerate(parts):
            if i:
                out.append(sep)
            out.append(x)
        I.call(file_getattr(I, f, 'write'), [cat(I, out + [end])], {})
    return NONE


def b_format(I, a, k, n):
    spec = I.norm(a[1]) if len(a) > 1 else K('')
    if not isinstance(spec, K):
        return Opq(('fmt?', term_of(a[0])), {'str'})
    return format_(I, a[0], spec.v)


def b_vars(I, a, k, n):
    return I.getattr(a[0], '__dict__')


def b_dir(I, a, k, n):
    o = a[0]
    names = set()
    if isinstance(o, Inst):
        names |= set(o.attrs)
        o = o.cands[0]
    if isinstance(o, ClassObj):
        for c in o.mro:
            if isinstance(c, ClassObj):
                names |= set(c.ns)
    if isinstance(o, ModObj):
        names |= set(o.ns)
    return I.new_list([K(x) for x in sorted(names)])


def b_id(I, a, k, n):
    return Opq(('id', term_of(a[0])), {'int'})


def b_slice(I, a, k, n):
    r = host_call(I, slice, a)
    return r if r is not None else Opq(
        ('slice',) + tuple(term_of(x) for x in a), {'slice'})


def b_import(I, a, k, n):
    return I.import_module(I.const(a[0]))


BUILTIN_FN = {
    'len': b_len, 'isinstance': b_isinstance, 'issubclass': b_issubclass,
    'getattr': b_getattr, 'hasattr': b_hasattr, 'setattr': b_setattr,
    'delattr': b_delattr, 'str': b_str, 'repr': b_repr, 'ascii': b_repr,
    'int': num(int), 'float': num(float), 'bool': b_bool, 'list': b_list,
    'tuple': b_tuple, 'set': b_set(False), 'frozenset': b_set(True),
    'dict': b_dict, 'sorted': b_sorted, 'reversed': b_reversed,
    'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map,
    'filter': b_filter, 'any': b_any, 'all': b_all, 'iter': b_iter,
    'next': b_next, 'min': minmax(True), 'max': minmax(False),
    'sum': b_sum, 'range': b_range, 'type': b_type, 'super': b_super,
    'property': b_property, 'callable': b_callable, 'hash': b_hash,
    'round': b_round, 'abs': b_abs, 'divmod': b_divmod, 'print': b_print,
    'format': b_format, 'vars': b_vars, 'dir': b_dir, 'id': b_id,
    'slice': b_slice, '__import__': b_import,
    'classmethod': lambda I, a, k, n: CM(a[0]),
    'staticmethod': lambda I, a, k, n: SM(a[0]),
    'object': lambda I, a, k, n: I.new_inst(I.extclass('builtins.object')),
    'pow': lambda I, a, k, n: binop(I, 'Pow', a[0], a[1]),
    'ord': lambda I, a, k, n: host_call(I, ord, a) or Opq(
        ('ord', term_of(a[0])), {'int'}),
    'chr': lambda I, a, k, n: host_call(I, chr, a) or Opq(
        ('chr', term_of(a[0])), {'str'}),
    'hex': lambda I, a, k, n: host_call(I, hex, a) or Opq(
        ('hex', term_of(a[0])), {'str'}),
    'bytes': lambda I, a, k, n: host_call(I, bytes, a, k) or enc_bytes(
        I, a, k),
    'input': lambda I, a, k, n: Opq(('input', I.unique()), {'str'}),
}


def enc_bytes(I, a, k):
    if len(a) > 1 or 'encoding' in k:
        codec_errors(I, a, k, 2)
        I.event('encode', term_of(a[0]),
                a[1] if len(a) > 1 else k['encoding'])
        I.may_raise('UnicodeEncodeError', term_of(a[0]))
        return Opq(('encode', term_of(a[0]), term_of(
            a[1] if len(a) > 1 else k['encoding'])), {'bytes'})
    return Opq(('bytes',) + tuple(term_of(x) for x in a), {'bytes'})


def builtin(I, name):
    if name == 'NotImplemented' or name == 'Ellipsis':
        return Ext('builtins.' + name)
    if name == '__debug__':
        return TRUE
    if hasattr(builtins, name) and not name.startswith('_') or \
            name == '__import__':
        return Ext(canon('builtins.' + name))
    return None


###### files

def b_open(I, a, k, n):
    return open_file(I, 'open', a, k)


def open_file(I, via, a, k):
    fname = a[0] if a else k.get('file', k.get('filename', NONE))
    mode = a[1] if len(a) > 1 else k.get('mode', K(
        'rb' if via == 'gzip' else 'r'))
    mode = I.norm(mode)
    m = mode.v if isinstance(mode, K) else '?'
    k = dict(k)
    for i, name in ((3, 'encoding'), (4, 'errors'), (5, 'newline')):
        if len(a) > i:
            k.setdefault(name, a[i])
    codec_errors(I, [], k)
    if 'encoding' in k and I.norm(k['encoding']) == NONE:
        del k['encoding']
    f = I.new(FileObj, fname=fname, mode=m, via=via, closed=False,
              written=[], enc=k.get('encoding'), kw=dict(k))
    I.may_raise('FileNotFoundError' if 'r' in m else 'OSError',
                ('open', term_of(fname)))
    I.event('open', f, fname, m, via)
    return f


def source_lines(I, f):
    """The lines of a file of which we know the contents, or None."""
    src = I.hooks.get('source') if I.hooks else None
    if src is None or 'b' in f.mode or 'r' not in f.mode:
        return None
    name = I.norm(f.fname)
    if isinstance(name, Opq) and name.term[0] == 'path' and \
            name.term[1][0] == 'k':
        name = K(name.term[1][2])
    if not isinstance(name, K) or name.v not in src:
        return None
    text = src[name.v]
    nl = f.kw.get('newline')
    nl = I.norm(nl).v if nl is not None and isinstance(I.norm(nl), K) \
        else None
    if nl is None:
        text = text.replace('\r\n', '\n').replace('\r', '\n')
    import io
    return list(io.StringIO(text, newline='' if nl is None else nl))


def mem_contents(I, f):
    """What is in an io.BytesIO or io.StringIO."""
    parts = list(f.written)
    for e in I.log:
        if e[0] == 'wrap' and e[2] is f and e[1].written:
            inner = e[1].written
            v = inner[0] if len(inner) == 1 else cat(I, inner)
            if e[3] == 'gzip':
                if not e[1].closed:
                    # the end of it has not been written yet
                    v = Opq(('part of', term_of(v)), {'bytes'})
                v = Opq(('gzip', term_of(v)), {'bytes'})
            elif e[3] == 'text':
                enc = e[1].enc or K('locale')
                v = Opq(('encode', term_of(v), term_of(enc)), {'bytes'})
            parts.append(v)
    if not parts:
        return K(b'' if 'b' in f.mode else '')
    if len(parts) == 1:
        return parts[0]
    return cat(I, parts)


def file_getattr(I, f, name):
    def call(I, a, k, n):
        if name in ('write', 'writelines'):
            I.event('write', f, a[0])
            f.written.append(a[0])
            if f.via == 'mem':
                f.at = 1
            I.may_raise('OSError', ('write', f.id))
            if 'b' not in f.mode and f.via in ('open', 'gzip'):
                I.event('encode', term_of(a[0]), f.enc or K('locale'))
                I.may_raise('UnicodeEncodeError', ('write', f.id))
            return Opq(('written', I.unique()), {'int'})
        if name in ('read', 'readline', 'getvalue', 'getbuffer'):
            I.event('read', f, a)
            if f.closed:
                I.raise_('ValueError', 'I/O operation on closed file')
            if 'read' in I.hooks and 'r' in f.mode and f.via != 'mem':
                return I.hooks['read'](I, f, a)
            lines = source_lines(I, f)
            if lines is not None:
                n_ = I.norm(a[0]) if a else None
                if name == 'read' and n_ in (None, NONE, K(-1)):
                    f.at = len(lines)
                    return K(''.join(lines))
                if name == 'readline' and n_ is None:
                    f.at = getattr(f, 'at', 0)
                    f.at += 1
                    return K(lines[f.at - 1] if f.at <= len(lines) else '')
            if f.via == 'mem' and not isinstance(f.written, tuple) and (
                    name in ('getvalue', 'getbuffer') or not a or
                    I.norm(a[0]) in (NONE, K(-1))):
                if name in ('read', 'readline'):
                    if getattr(f, 'at', 0) != 0:
                        return K(b'' if 'b' in f.mode else '')
                    if name == 'readline':
                        return Opq(('read', f.id, name, I.unique()),
                                   {'bytes'} if 'b' in f.mode else {'str'})
                    f.at = 1
                return mem_contents(I, f)
            return Opq(('read', f.id, name) + tuple(term_of(x) for x in a),
                       {'bytes'} if 'b' in f.mode else {'str'})
        if name == 'readlines':
            lines = source_lines(I, f)
            if lines is not None and not a:
                at = getattr(f, 'at', 0)
                f.at = len(lines)
                return I.new_list([K(x) for x in lines[at:]])
            return Opq(('lines', ('file', f.id)), {'list'})
        if name in ('close', '__exit__'):
            f.closed = True
            I.event('close', f)
            return NONE
        if name == '__enter__':
            return f
        if name in ('truncate', 'seek'):
            I.event(name, f, *a)
            if f.via == 'mem' and name == 'seek':
                f.at = 0 if not a or I.norm(a[0]) == K(0) else 1
        if name == 'fileno':
            return Opq(('fileno', f.id), {'int'})
        return NONE
    if name == 'name':
        return f.fname
    if name == 'closed':
        return K(f.closed)
    if name == 'mode':
        return K(f.mode)
    return Native('file.' + name, call)


def with_ext(I, cm, inner):
    if isinstance(cm, FileObj):
        try:
            inner(cm)
        finally:
            cm.closed = True
            I.event('close', cm)
        return
    if isinstance(cm, Opq):
        inner(Opq(('enter', cm.term)))
        return
    if isinstance(cm, (K, ListObj, DictObj, Tup, NodeObj, ClassObj)):
        I.raise_('TypeError', 'not a context manager')
    inner(Opq(('enter', term_of(cm), I.unique())))


def path_av(I, a):
    v = I.norm(a[0]) if a else K('.')
    if isinstance(v, Opq) and v.term[0] == 'path':
        return v
    t = term_of(v)
    for x in a[1:]:
        t = ('pathjoin', t, term_of(x))
    return Opq(('path', t), {'Path'})


def path_getattr(I, av, name):
    inner = av.term[1]
    s = K(inner[2]) if inner[0] == 'k' else Opq(inner, {'str'})
    if name in ('name', 'stem', 'suffix'):
        if isinstance(s, K):
            import pathlib
            return K(getattr(pathlib.PurePosixPath(s.v), name))
        return Opq(('path.' + name, inner), {'str'})
    if name == 'parent':
        return Opq(('path', ('path.parent', inner)), {'Path'})

    def call(I, a, k, n):
        if name == 'open':
            return open_file(I, 'open', [s] + a, k)
        if name in ('write_bytes', 'write_text'):
            f = open_file(I, 'open', [s, K(
                'wb' if name == 'write_bytes' else 'w')], k)
            I.call(file_getattr(I, f, 'write'), [a[0]], {})
            return NONE
        if name in ('read_bytes', 'read_text'):
            f = open_file(I, 'open', [s, K(
                'rb' if name == 'read_bytes' else 'r')], k)
            return I.call(file_getattr(I, f, 'read'), [], {})
        if name in ('rename', 'replace'):
            I.event('rename', s, a[0])
            return a[0]
        if name == 'unlink':
            I.event('unlink', s)
            return NONE
        if name in ('exists', 'is_file', 'is_dir'):
            return I.bool_av(('path.' + name, inner))
        if name in ('with_suffix', 'with_name', 'resolve', 'absolute',
                    'joinpath', 'expanduser'):
            return Opq(('path', ('path.' + name, inner) + tuple(
                term_of(x) for x in a)), {'Path'})
        return Opq(('path.' + name, inner, I.unique()))
    return Native('path.' + name, call)


###### other external functions

def e_copy(I, a, k, n):
    return copy_av(I, a[0], False, {})


def e_deepcopy(I, a, k, n):
    return copy_av(I, a[0], True, {})


def copy_av(I, av, deep, memo):
    av = I.norm(av)
    if isinstance(av, NodeObj):
        return dom.copy_node(I, av)
    if isinstance(av, TextObj):
        return dom.new_text(I, av.value)
    if not isinstance(av, (Inst, ListObj, DictObj, SetObj, Tup)):
        return av
    if isinstance(av, Tup):
        return Tup([copy_av(I, x, deep, memo) for x in av.items],
                   av.ntype) if deep else av
    if av.id in memo:
        return memo[av.id]
    if isinstance(av, ListObj):
        r = memo[av.id] = I.new_list()
        r.items = [copy_av(I, x, deep, memo) if deep else x
                   for x in av.items]
        return r
    if isinstance(av, SetObj):
        return I.new_set(av.items)
    if isinstance(av, DictObj):
        r = memo[av.id] = I.new_dict()
        r.kind, r.default, r.owner = av.kind, av.default, av.owner
        r.absent = set(av.absent)
        r.entries = [[e[0], copy_av(I, e[1], deep, memo) if deep else e[1]]
                     for e in av.entries]
        return r
    m = I.find_special(av, '__deepcopy__' if deep else '__copy__')
    if m is not None:
        return I.call(m, [I.new_dict()] if deep else [], {})
    if I.inst_is_exc(av):
        return av
    r = I.new_inst(av.cands)
    r.lazy = av.lazy
    r.tagname = av.tagname
    memo[av.id] = r
    for kk, v in av.attrs.items():
        r.attrs[kk] = copy_av(I, v, deep, memo) if deep else v
    return r


def f_wraps(I, a, k, n):
    return Native('functools.wraps', lambda I, b, kk, nn: b[0])


def f_total_ordering(I, a, k, n):
    c = a[0]
    have = [o for o in ('__lt__', '__le__', '__gt__', '__ge__')
            if o in c.ns]
    if not have:
        have = [o for o in ('__lt__', '__le__', '__gt__', '__ge__')
                if I.mro_lookup(c, o)[0] is not None]
        if not have:
            I.raise_('ValueError',
                     'must define at least one ordering operation')
    root = max(have, key=['__ge__', '__gt__', '__le__', '__lt__'].index)

    def base(I, x, y):
        return I.call(I.find_special(x, root), [y], {})

    def mk(op):
        def f(I, args, kw, node):
            x, y = args
            r = base(I, x, y)
            if is_notimpl(r):
                return r
            if root == '__lt__':
                if op == '__gt__':
                    if I.truth(r):
                        return FALSE
                    return I.compare('!=', x, y)
                if op == '__le__':
                    if I.truth(r):
                        return r
                    return I.eq(x, y)
                return I.not_(r)
            if root == '__le__':
                if op == '__ge__':
                    if not I.truth(r):
                        return TRUE
                    return I.eq(x, y)
                if op == '__lt__':
                    if not I.truth(r):
                        return FALSE
                    return I.compare('!=', x, y)
                return I.not_(r)
            if root == '__gt__':
                if op == '__lt__':
                    if I.truth(r):
                        return FALSE
                    return I.compare('!=', x, y)
                if op == '__ge__':
                    if I.truth(r):
                        return r
                    return I.eq(x, y)
                return I.not_(r)
            if op == '__le__':
                if not I.truth(r):
                    return TRUE
                return I.eq(x, y)
            if op == '__gt__':
                if not I.truth(r):
                    return FALSE
                return I.compare('!=', x, y)
            return I.not_(r)
        return Native('method:total_ordering.' + op, f)
    for o in ('__lt__', '__le__', '__gt__', '__ge__'):
        if o not in c.ns:
            c.ns[o] = mk(o)
    return c


def f_partial(I, a, k, n):
    f, pre = a[0], a[1:]
    return Native('partial', lambda I, b, kk, nn:
                  I.call(f, list(pre) + list(b), {**k, **kk}, nn))


def f_reduce(I, a, k, n):
    items = I.iterate(a[1])
    if len(a) > 2:
        r = a[2]
    else:
        if not items:
            I.raise_('TypeError', 'reduce() of empty iterable')
        r = items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


def f_cache(I, a, k, n):
    """lru_cache and friends: calls through, but remembers nothing."""
    def wrap(f):
        def call(I, args, kw, node):
            r = I.call(f, args, kw, node)
            I.event('cached-call', f, list(args) + list(kw.values()), r)
            return r
        if isinstance(f, (Fn,)):
            return Native('method:cached', call)
        return Native('cached', call)
    if a and isinstance(a[0], (Fn, Native)):
        return wrap(a[0])
    return Native('lru_cache', lambda I, b, kk, nn: wrap(b[0]))


def f_cmp_to_key(I, a, k, n):
    raise PathCut()


def c_contextmanager(I, a, k, n):
    f = a[0]

    def call(I, args, kw, node):
        return I.call(f, args, kw, node)
    return Native('method:cm' if True else '', call)


def c_suppress(I, a, k, n):
    c = I.extclass('contextlib.suppress')
    if '__enter__' not in c.ns:
        c.ns['__enter__'] = Native('method:suppress.__enter__',
                                   lambda I, x, kk, nn: NONE)

        def exit_(I, x, kk, nn):
            inst, t, e, tb = x
            if isinstance(e, Inst) and any(
                    I.exc_isinstance(e, cls)
                    for cls in inst.attrs['excs'].items):
                return TRUE
            return FALSE
        c.ns['__exit__'] = Native('method:suppress.__exit__', exit_)
    return I.new_inst(c, excs=Tup(a))


def c_nullcontext(I, a, k, n):
    c = I.extclass('contextlib.nullcontext')
    if '__enter__' not in c.ns:
        c.ns['__enter__'] = Native('method:nc.__enter__',
                                   lambda I, x, kk, nn: x[0].attrs['v'])
        c.ns['__exit__'] = Native('method:nc.__exit__',
                                  lambda I, x, kk, nn: FALSE)
    return I.new_inst(c, v=a[0] if a else NONE)


def c_closing(I, a, k, n):
    return a[0] if isinstance(a[0], FileObj) else c_nullcontext(I, a, k, n)


def i_chain(I, a, k, n):
    def run(cb):
        for x in a:
            I.foreach(x, cb)
    return I.new_gen(run)


def i_chain_from(I, a, k, n):
    def run(cb):
        I.foreach(a[0], lambda x: I.foreach(x, cb))
    return I.new_gen(run)


def i_islice(I, a, k, n):
    items = I.iterate(a[0])
    try:
        args = [lower(I, x) for x in a[1:]]
    except LookupError:
        raise PathCut()
    return I.new_list(list(itertools.islice(items, *args)))


def i_takewhile(take):
    def f(I, a, k, n):
        r = []
        on = True
        for x in I.iterate(a[1]):
            if on and not I.truth(I.call(a[0], [x], {})):
                on = False
                if take:
                    break
            if on == take:
                r.append(x)
        return I.new_list(r)
    return f


def i_pairwise(I, a, k, n):
    items = I.iterate(a[0])
    return I.new_list([Tup(p) for p in zip(items, items[1:])])


def i_product(I, a, k, n):
    lists = [I.iterate(x) for x in a]
    return I.new_list([Tup(t) for t in itertools.product(*lists)])


def i_combinations(I, a, k, n):
    return I.new_list([Tup(t) for t in itertools.combinations(
        I.iterate(a[0]), I.const(a[1]))])


def i_groupby(I, a, k, n):
    key = a[1] if len(a) > 1 else k.get('key')
    groups = []
    for x in I.iterate(a[0]):
        kx = I.call(key, [x], {}) if key is not None else x
        if groups and I.truth(I.eq(groups[-1][0], kx)):
            groups[-1][1].append(x)
        else:
            groups.append([kx, [x]])
    return I.new_list([Tup([g, I.new_list(xs)]) for g, xs in groups])


def i_zip_longest(I, a, k, n):
    lists = [I.iterate(x) for x in a]
    fill = k.get('fillvalue', NONE)
    return I.new_list([Tup(t) for t in itertools.zip_longest(
        *lists, fillvalue=fill)])


def i_count(I, a, k, n):
    start = I.const(a[0]) if a else 0

    def run(cb):
        for i in range(start, start + 200):
            cb(K(i))
        raise PathCut()
    return I.new_gen(run)


def m_finite(name):
    def f(I, a, k, n):
        r = host_call(I, getattr(math, name), a)
        if r is not None:
            return r
        return I.bool_av((name, term_of(num(float)(I, a, {}, n))))
    return f


def numeric(I, v, n):
    """An argument for which only a number will do."""
    v = I.norm(v)
    if isinstance(v, Inst):
        return num(float)(I, [v], {}, n)
    if isinstance(v, K):
        if isinstance(v.v, (int, float)):
            return v
        I.raise_('TypeError', 'must be real number', cause=term_of(v))
    if isinstance(v, Opq):
        ts = I.typeset(v)
        if ts is not None and not ts & {'int', 'float', 'bool'}:
            I.raise_('TypeError', 'must be real number', cause=v.term)
        if ts is None or not ts <= {'int', 'float', 'bool'}:
            I.may_raise('TypeError', v.term, 'number')
        return v
    I.raise_('TypeError', 'must be real number', cause=term_of(v))


def m_generic(name):
    def f(I, a, k, n):
        r = host_call(I, getattr(math, name), a, k)
        if r is not None:
            return r
        a = [numeric(I, x, n) if name != 'fsum' else x for x in a]
        t = ('math.' + name,) + tuple(term_of(x) for x in a) + tuple(
            (x, term_of(v)) for x, v in sorted(k.items()))
        if name == 'isclose' and term_of(a[0]) == term_of(a[1]):
            return TRUE
        if name.startswith('is'):
            return I.bool_av(t)
        return Opq(t, {'int'} if name in ('floor', 'ceil', 'trunc')
                   else {'float'})
    return f


def o_attrgetter(I, a, k, n):
    names = [I.const(x) for x in a]

    def one(o, nm):
        for p in nm.split('.'):
            o = I.getattr(o, p)
        return o
    return Native('attrgetter', lambda I, b, kk, nn:
                  one(b[0], names[0]) if len(names) == 1 else
                  Tup([one(b[0], x) for x in names]))


def o_itemgetter(I, a, k, n):
    return Native('itemgetter', lambda I, b, kk, nn:
                  I.getitem(b[0], a[0]) if len(a) == 1 else
                  Tup([I.getitem(b[0], x) for x in a]))


def o_methodcaller(I, a, k, n):
    nm = I.const(a[0])
    return Native('methodcaller', lambda I, b, kk, nn:
                  I.call(I.getattr(b[0], nm), list(a[1:]), k))


def o_cmp(op):
    return lambda I, a, k, n: I.compare(op, a[0], a[1])


def o_bin(op):
    return lambda I, a, k, n: binop(I, op, a[0], a[1])


def re_compile(I, a, k, n):
    r = host_call(I, re.compile, a, k)
    return r if r is not None else Opq(('re', I.unique()))


def re_fn(name):
    def f(I, a, k, n):
        p = I.norm(a[0])
        flags = k.get('flags')
        if isinstance(p, K) and isinstance(p.v, str):
            try:
                p = K(re.compile(p.v, flags.v if isinstance(flags, K)
                                 else 0))
            except re.error:
                I.raise_('ValueError', 'bad regex')
        if isinstance(p, K):
            return re_call(I, p.v, name, a[1:],
                           {x: y for x, y in k.items() if x != 'flags'})
        return Opq(('re.' + name, I.unique()))
    return f


def osp(name):
    def f(I, a, k, n):
        if name in ('exists', 'isfile', 'isdir', 'islink', 'samefile'):
            return I.bool_av(('os.path.' + name,) + tuple(
                term_of(x) for x in a))
        if name in ('getsize', 'getmtime'):
            return Opq(('os.path.' + name, I.unique()), {'int'})
        if name in ('join', 'splitext', 'split', 'basename', 'dirname',
                    'normpath', 'commonprefix'):
            r = host_call(I, getattr(os.path, name), a)
            if r is not None:
                return r
        t = ('os.path.' + name,) + tuple(term_of(x) for x in a)
        for x in a:
            x = I.norm(x)
            if isinstance(x, Opq) and I.typeset(x) is None:
                I.may_raise('TypeError', x.term)
        if name in ('splitext', 'split'):
            return Tup([Opq(t + (i,), {'str'}) for i in range(2)])
        return Opq(t, {'str'})
    return f


def os_rename(I, a, k, n):
    I.may_raise('OSError', ('rename', term_of(a[0])))
    I.event('rename', a[0], a[1])
    return NONE


def os_unlink(I, a, k, n):
    I.event('unlink', a[0])
    return NONE


def sh_copy(I, a, k, n):
    I.event('copyfile', a[0], a[1])
    return a[1]


def gz_open(I, a, k, n):
    return open_file(I, 'gzip', a, k)


def gz_compress(I, a, k, n):
    return Opq(('gzip', term_of(a[0])), {'bytes'})


def gz_decompress(I, a, k, n):
    return Opq(('gunzip', term_of(a[0])), {'bytes'})


def gz_file(I, a, k, n):
    fo = k.get('fileobj')
    if fo is not None and isinstance(I.norm(fo), FileObj):
        under = I.norm(fo)
        mode = I.norm(k.get('mode', a[1] if len(a) > 1 else K('rb')))
        f = I.new(FileObj, fname=under.fname,
                  mode=mode.v if isinstance(mode, K) else '?', via='gzip',
                  closed=False, written=[], enc=None, kw={})
        I.event('wrap', f, under, 'gzip')
        return f
    return open_file(I, 'gzip', a or [k.get('filename', NONE)], k)


def io_wrapper(I, a, k, n):
    under = I.norm(a[0] if a else k.get('buffer', NONE))
    codec_errors(I, a, k, 2)
    if isinstance(under, FileObj):
        f = I.new(FileObj, fname=under.fname,
                  mode=under.mode.replace('b', '') or 'r', via=under.via,
                  closed=False, written=[],
                  enc=k.get('encoding', a[1] if len(a) > 1 else None), kw={})
        I.event('wrap', f, under, 'text')
        return f
    return Opq(('textio', I.unique()))


def io_bytes(I, a, k, n):
    f = I.new(FileObj, fname=NONE, mode='w+b', via='mem', closed=False,
              written=list(a), enc=None, kw={})
    f.at = 0
    return f


def io_string(I, a, k, n):
    f = I.new(FileObj, fname=NONE, mode='w+', via='mem', closed=False,
              written=list(a), enc=None, kw={})
    f.at = 0
    return f


def tmp_named(I, a, k, n):
    mode = I.norm(k.get('mode', a[0] if a else K('w+b')))
    name = Opq(('tempname', I.unique()), {'str'})
    f = I.new(FileObj, fname=name,
              mode=mode.v if isinstance(mode, K) else '?', via='open',
              closed=False, written=[], enc=k.get('encoding'), kw=dict(k))
    codec_errors(I, [], k)
    I.event('open', f, name, f.mode, 'temp')
    return f


def tmp_mkstemp(I, a, k, n):
    u = I.unique()
    name = Opq(('tempname', u), {'str'})
    return Tup([Opq(('tempfd', u), {'int'}), name])


def os_fdopen(I, a, k, n):
    fd = I.norm(a[0])
    mode = I.norm(a[1]) if len(a) > 1 else k.get('mode', K('r'))
    name = NONE
    if isinstance(fd, Opq) and fd.term[0] == 'tempfd':
        name = Opq(('tempname', fd.term[1]), {'str'})
    f = I.new(FileObj, fname=name,
              mode=mode.v if isinstance(mode, K) else '?', via='open',
              closed=False, written=[], enc=k.get('encoding'), kw=dict(k))
    codec_errors(I, [], k)
    I.event('open', f, name, f.mode, 'temp')
    return f


def glob_match(path, pat, recursive):
    """Whether glob.glob() would find a path."""
    import fnmatch
    path, pat = path.split('/'), [x for x in pat.split('/') if x != '.']

    def go(i, j):
        if j == len(pat):
            return i == len(path)
        if recursive and pat[j] == '**':
            return any(go(x, j + 1) for x in range(i, len(path) + 1)) \
                if j + 1 < len(pat) else True
        return i < len(path) and fnmatch.fnmatchcase(
            path[i], pat[j]) and go(i + 1, j + 1)
    return go(0, 0)


def glob_glob(I, a, k, n):
    I.event('glob', a[0])
    h = I.hooks.get('glob') if I.hooks else None
    if h is not None:
        pat = I.norm(a[0])
        if isinstance(pat, K) and isinstance(pat.v, str):
            rec = k.get('recursive')
            rec = rec is not None and I.truth(rec)
            root = k.get('root_dir')
            root = I.norm(root) if root is not None else NONE
            if root == NONE:
                h = [x for x in h if glob_match(x, pat.v, rec)]
            elif isinstance(root, K) and isinstance(root.v, str):
                top = root.v.rstrip('/') + '/'
                h = [x[len(top):] for x in h if x.startswith(top) and
                     glob_match(x[len(top):], pat.v, rec)]
        return I.new_list([K(x) for x in h])
    return Opq(('glob', term_of(a[0])), {'list'})


def noop(I, a, k, n):
    return NONE


def opaque(name, types=None):
    def f(I, a, k, n):
        return Opq((name, I.unique()), types)
    return f


def d_field(I, a, k, n):
    if 'default' in k:
        return k['default']
    if 'default_factory' in k:
        if not hasattr(I, 'dcfields'):
            I.dcfields = {}
        u = len(I.dcfields)
        I.dcfields[u] = k['default_factory']
        return Opq(('dcfield', u))
    return Opq(('dcfield?',))


def col_namedtuple(I, a, k, n):
    names = I.norm(a[1])
    if isinstance(names, K):
        names = names.v.replace(',', ' ').split()
    else:
        names = [x.v for x in I.iterate(names)]

    def make(I, args, kw, node):
        vals = dict(zip(names, args))
        vals.update(kw)
        if set(vals) != set(names):
            I.raise_('TypeError', 'wrong arguments for namedtuple')
        return Tup([vals[x] for x in names], names)
    return Native('namedtuple', make)


def col_defaultdict(I, a, k, n):
    d = I.new_dict()
    d.kind = 'defaultdict'
    d.default = a[0] if a and not (isinstance(a[0], K)) else None
    if len(a) > 1:
        dict_update(I, d, a[1])
    return d


def col_deque(I, a, k, n):
    if len(a) > 1 or k:
        I.note_imprecise('deque of limited length')
        raise PathCut()
    r = I.new_list(I.iterate(a[0]) if a else [])
    r.kind = 'deque'
    return r


def col_counter(I, a, k, n):
    d = I.new_dict()
    d.kind = 'defaultdict'
    d.default = Ext('builtins.int')
    if a:
        for x in I.iterate(a[0]):
            I.dict_set(d, x, I.binop('Add', I.getitem(d, x), K(1)))
    return d


def i_accumulate(I, a, k, n):
    f = a[1] if len(a) > 1 else k.get('func')
    r = []
    if 'initial' in k:
        r.append(k['initial'])
    for x in I.iterate(a[0]):
        if r:
            x = I.binop('Add', r[-1], x) if f is None else \
                I.call(f, [r[-1], x], {})
        r.append(x)
    return I.new_iter(r)


def i_repeat(I, a, k, n):
    t = a[1] if len(a) > 1 else k.get('times')
    if t is None:
        def run(cb):
            for i in range(200):
                cb(a[0])
            raise PathCut()
        return I.new_gen(run)
    return I.new_iter([a[0]] * I.const(t))


def i_tee(I, a, k, n):
    items = I.iterate(a[0])
    return Tup([I.new_iter(items) for i in range(
        I.const(a[1]) if len(a) > 1 else 2)])


def o_setitem(I, a, k, n):
    I.setitem(a[0], a[1], a[2])
    return NONE


def o_delitem(I, a, k, n):
    I.delitem(a[0], a[1])
    return NONE


def sys_exit(I, a, k, n):
    I.raise_('SystemExit')


def json_load(I, a, k, n):
    I.may_raise('ValueError', ('json',))
    return Opq(('json', I.unique()))


def ap_parser(I, a, k, n):
    return Opq(('argparser', I.unique()), {'ArgumentParser'})


def parser_method(I, av, name):
    def add(I, a, k, n):
        I.event('add_argument', av, a, k)
        return NONE

    def parse(I, a, k, n):
        I.may_raise('SystemExit', ('commandline',))
        names, vals = [], []
        for e in I.log:
            if e[0] != 'add_argument':
                continue
            flags = [x.v for x in map(I.norm, e[2]) if isinstance(x, K)]
            kw = e[3]

            def get(x):
                v = I.norm(kw[x]) if x in kw else None
                return v.v if isinstance(v, K) else None
            pos = flags and not flags[0].startswith('-')
            dest = get('dest')
            if dest is None and flags:
                long_ = [f for f in flags if f.startswith('--')]
                dest = (long_ or flags)[0].lstrip('-').replace('-', '_')
            if not dest or dest in names:
                continue
            act = get('action')
            if act in ('store_true', 'store_false'):
                v = Opq(('commandline', dest), {'bool'})
            elif act == 'count':
                v = Opq(('commandline', dest), {'int'})
            elif get('nargs') in ('*', '+'):
                v = Opq(('commandline', dest), {'list'})
            else:
                ts = {'str'}
                if get('nargs') == '?' or not pos:
                    if 'default' not in kw:
                        ts.add('NoneType')
                v = Opq(('commandline', dest), ts if kw.get('type') is None
                        or getattr(kw['type'], 'name', None) ==
                        'builtins.str' else None)
            h = I.hooks.get('commandline') if I.hooks else None
            if h is not None:
                v = h(v, len(names), act) or v
            names.append(dest)
            vals.append(v)
        if not names:
            return Opq(('commandline',))
        r = Tup(vals, names)
        return Tup([r, I.new_list()]) if name == 'parse_known_args' else r

    if name == 'add_argument':
        return Native('add_argument', add)
    if name in ('parse_args', 'parse_known_args'):
        return Native(name, parse)
    if name in ('error', 'exit'):
        return Native(name, lambda I, a, k, n: I.raise_('SystemExit'))
    if name in ('add_argument_group', 'add_mutually_exclusive_group',
                'add_subparsers', 'add_parser'):
        return Native(name, lambda I, a, k, n: av)
    return Native(name, lambda I, a, k, n: NONE)


def srt_open(I, a, k, n):
    I.event('srt-open', a[0] if a else k.get('path'))
    I.may_raise('OSError', ('open', 'srt'))
    h = I.hooks.get('srt') if I.hooks else None
    if h is not None:
        return h(I)
    return Opq(('subtitles', I.unique()))


EXTFN = {
    'copy.copy': e_copy, 'copy.deepcopy': e_deepcopy,
    'functools.wraps': f_wraps, 'functools.total_ordering': f_total_ordering,
    'functools.partial': f_partial, 'functools.reduce': f_reduce,
    'functools.lru_cache': f_cache, 'functools.cache': f_cache,
    'functools.cached_property': lambda I, a, k, n: CachedProp(a[0]),
    'functools.cmp_to_key': f_cmp_to_key,
    'contextlib.contextmanager': c_contextmanager,
    'contextlib.suppress': c_suppress,
    'contextlib.nullcontext': c_nullcontext,
    'contextlib.closing': c_closing,
    'itertools.chain': i_chain, 'itertools.chain.from_iterable': i_chain_from,
    'itertools.islice': i_islice, 'itertools.takewhile': i_takewhile(True),
    'itertools.dropwhile': i_takewhile(False),
    'itertools.pairwise': i_pairwise, 'itertools.product': i_product,
    'itertools.combinations': i_combinations,
    'itertools.groupby': i_groupby, 'itertools.zip_longest': i_zip_longest,
    'itertools.count': i_count,
    'itertools.filterfalse': lambda I, a, k, n: I.new_list(
        [x for x in I.iterate(a[1]) if not I.truth(I.call(a[0], [x], {}))]),
    'itertools.starmap': lambda I, a, k, n: I.new_list(
        [I.call(a[0], I.iterate(x), {}) for x in I.iterate(a[1])]),
    'math.isfinite': m_finite('isfinite'),
    'math.isnan': m_finite('isnan'),
    'math.isinf': m_finite('isinf'),
    'operator.attrgetter': o_attrgetter, 'operator.itemgetter': o_itemgetter,
    'operator.methodcaller': o_methodcaller,
    'operator.lt': o_cmp('<'), 'operator.le': o_cmp('<='),
    'operator.gt': o_cmp('>'), 'operator.ge': o_cmp('>='),
    'operator.eq': o_cmp('=='), 'operator.ne': o_cmp('!='),
    'operator.add': o_bin('Add'), 'operator.sub': o_bin('Sub'),
    'operator.mul': o_bin('Mult'), 'operator.truediv': o_bin('Div'),
    'operator.or_': o_bin('BitOr'),
    'operator.not_': lambda I, a, k, n: I.not_(a[0]),
    'operator.contains': lambda I, a, k, n: K(I.contains(a[0], a[1])),
    'operator.getitem': lambda I, a, k, n: I.getitem(a[0], a[1]),
    're.compile': re_compile,
    'os.rename': os_rename, 'os.replace': os_rename, 'os.renames': os_rename,
    'shutil.move': os_rename, 'os.unlink': os_unlink, 'os.remove': os_unlink,
    'shutil.copy': sh_copy, 'shutil.copyfile': sh_copy,
    'shutil.copy2': sh_copy, 'os.fsync': noop, 'os.chmod': noop,
    'shutil.copymode': noop, 'shutil.copystat': noop, 'os.close': noop,
    'os.getpid': opaque('pid', {'int'}), 'os.fdopen': os_fdopen,
    'os.fspath': lambda I, a, k, n: a[0], 'os.getcwd': opaque('cwd', {'str'}),
    'os.makedirs': noop, 'os.environ.get': opaque('env'),
    'os.getenv': opaque('env'),
    'gzip.open': gz_open, 'gzip.compress': gz_compress,
    'gzip.decompress': gz_decompress, 'gzip.GzipFile': gz_file,
    'io.BytesIO': io_bytes, 'io.StringIO': io_string,
    'io.TextIOWrapper': io_wrapper,
    'codecs.open': lambda I, a, k, n: open_file(I, 'open', a[:2], {
        **k, **({'encoding': a[2]} if len(a) > 2 else {})}),
    'tempfile.NamedTemporaryFile': tmp_named, 'tempfile.mkstemp': tmp_mkstemp,
    'pathlib.Path': lambda I, a, k, n: path_av(I, a),
    'glob.glob': glob_glob, 'glob.iglob': glob_glob,
    'logging.getLogger': lambda I, a, k, n: Opq(('logger',), {'Logger'}),
    'logging.basicConfig': noop, 'warnings.warn': noop, 'logging.debug': noop,
    'logging.info': noop, 'logging.warning': noop, 'logging.error': noop,
    'warnings.simplefilter': noop, 'warnings.filterwarnings': noop,
    'dataclasses.dataclass': d_dataclass, 'dataclasses.field': d_field,
    'collections.namedtuple': col_namedtuple,
    'collections.defaultdict': col_defaultdict,
    'collections.deque': col_deque,
    'collections.OrderedDict': lambda I, a, k, n: BUILTIN_FN['dict'](
        I, a, k, n),
    'collections.Counter': col_counter,
    'itertools.accumulate': i_accumulate,
    'itertools.repeat': i_repeat, 'itertools.tee': i_tee,
    'operator.setitem': o_setitem, 'operator.delitem': o_delitem,
    'operator.and_': o_bin('BitAnd'), 'operator.floordiv': o_bin('FloorDiv'),
    'operator.mod': o_bin('Mod'), 'operator.concat': o_bin('Add'),
    'operator.truth': lambda I, a, k, n: K(I.truth(a[0])),
    'operator.is_': lambda I, a, k, n: K(I.identical(a[0], a[1])),
    'operator.is_not': lambda I, a, k, n: K(not I.identical(a[0], a[1])),
    'operator.neg': lambda I, a, k, n: I.binop('Sub', K(0), a[0]),
    'sys.exit': sys_exit, 'builtins.exit': sys_exit,
    'json.load': json_load, 'json.loads': json_load,
    'json.dumps': opaque('jsontext', {'str'}), 'json.dump': noop,
    'argparse.ArgumentParser': ap_parser,
    'pysrt.open': srt_open, 'pysrt.SubRipFile.open': srt_open,
    'bs4.Tag': dom.make_tag, 'bs4.BeautifulSoup': dom.make_soup,
    'bs4.NavigableString': lambda I, a, k, n: dom.new_text(I, a[0]),
    'typing.cast': lambda I, a, k, n: a[1],
    'typing.TypeVar': opaque('typevar', {'type'}),
    'types.MappingProxyType': lambda I, a, k, n: proxy(I, a[0]),
    'inspect.isclass': lambda I, a, k, n: K(I.isinstance_(
        a[0], Ext('builtins.type'))),
    'abc.abstractmethod': lambda I, a, k, n: a[0],
    'enum.unique': lambda I, a, k, n: a[0],
    'typing.overload': lambda I, a, k, n: a[0],
    'typing.no_type_check': lambda I, a, k, n: a[0],
    'typing.final': lambda I, a, k, n: a[0],
    'enum.auto': opaque('enumauto', {'int'}),
    'decimal.Decimal': lambda I, a, k, n: Opq(
        ('decimal',) + tuple(term_of(x) for x in a), {'Decimal'}),
    'fractions.Fraction': lambda I, a, k, n: Opq(
        ('fraction',) + tuple(term_of(x) for x in a), {'Fraction'}),
    'time.time': opaque('time', {'float'}),
    'contextlib.ExitStack': opaque('exitstack'),
    'locale.getpreferredencoding': opaque('locale', {'str'}),
    'textwrap.dedent': lambda I, a, k, n: host_call(
        I, __import__('textwrap').dedent, a) or Opq(
            ('dedent', term_of(a[0])), {'str'}),
    'bisect.bisect': lambda I, a, k, n: bisect(I, a, k, True),
    'bisect.bisect_right': lambda I, a, k, n: bisect(I, a, k, True),
    'bisect.bisect_left': lambda I, a, k, n: bisect(I, a, k, False),
    'bisect.insort': lambda I, a, k, n: insort(I, a, k, True),
    'bisect.insort_right': lambda I, a, k, n: insort(I, a, k, True),
    'bisect.insort_left': lambda I, a, k, n: insort(I, a, k, False),
    'heapq.nsmallest': lambda I, a, k, n: I.new_list(
        sort(I, I.iterate(a[1]), k)[:I.const(a[0])]),
}
for _n in ('floor', 'ceil', 'trunc', 'sqrt', 'fabs',
           'fmod', 'copysign', 'log10', 'log', 'sin', 'cos', 'fsum',
           'isclose', 'hypot', 'degrees', 'radians', 'modf'):
    EXTFN['math.' + _n] = m_generic(_n)
for _n in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall',
           'finditer'):
    EXTFN['re.' + _n] = re_fn(_n)
for _n in ('join', 'splitext', 'split', 'basename', 'dirname', 'normpath',
           'exists', 'isfile', 'isdir', 'abspath', 'realpath', 'relpath',
           'expanduser', 'getsize', 'getmtime', 'samefile', 'islink',
           'normcase', 'commonprefix'):
    EXTFN['os.path.' + _n] = osp(_n)


def proxy(I, d):
    return d


def bisect(I, a, k, right):
    items = I.iterate(a[0])
    key = k.get('key')
    i = 0
    for x in items:
        kx = I.call(key, [x], {}) if key is not None else x
        c = I.compare('<', a[1], kx) if right else \
            I.not_(I.compare('<', kx, a[1]))
        if I.truth(c):
            break
        i += 1
    return K(i)


def insort(I, a, k, right):
    key = k.get('key')
    x = I.call(key, [a[1]], {}) if key is not None else a[1]
    i = bisect(I, [a[0], x], k, right)
    I.touch(a[0])
    a[0].items.insert(i.v, a[1])
    return NONE


def call_ext(I, f, args, kwargs, node):
    n = canon(f.name)
    short = n.split('.')[-1]
    if n.startswith('builtins.'):
        if short == 'open':
            return b_open(I, args, kwargs, node)
        b = BUILTIN_FN.get(short)
        if b is not None:
            if short not in ('dict', 'print', 'sorted', 'min', 'max', 'zip',
                             'enumerate', 'int', 'str', 'sum', 'round',
                             'property', 'bytes', 'open', 'slice', 'super') \
                    and kwargs:
                pass
            try:
                return b(I, args, kwargs, node)
            except IndexError:
                I.raise_('TypeError', '%s() takes more arguments' % short)
        if short in HOST_EXC:
            return I.make_exc(n, args)
    fn = EXTFN.get(n)
    if fn is not None:
        try:
            return fn(I, args, kwargs, node)
        except IndexError:
            I.raise_('TypeError', '%s() takes more arguments' % short)
    mod, _, nm = n.rpartition('.')
    h = host_module(mod) if mod else None
    c = getattr(h, nm, None) if h is not None else None
    if isinstance(c, type) and issubclass(c, BaseException):
        return I.make_exc(n, args)
    I.event('extcall', n, args)
    I.may_raise('Exception', ('extcall', n) + tuple(
        term_of(x) for x in args))
    return Opq(('extcall', n, I.unique()))


def node_find_all(I, node, args, kwargs):
    return dom.find_all(I, node, args, kwargs)
