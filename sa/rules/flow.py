"""
Whether a value which was read is the one which was written: both are terms,
which say where a value came from and what was done to it.
"""
import re

from .args import *

OK, BAD, UNKNOWN = 'ok', 'bad', 'unknown'


def numeric(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def lossless(I, t, digits, kind):
    """
    What's left of a term when conversions which lose nothing are taken off.
    Returns the term, or None and the reason why it isn't lossless, or None
    and None if we can't tell.
    """
    while True:
        k = I.eqk.get(t)
        if k is not None:
            return ('k', type(k.v).__name__, k.v), None
        op = t[0]
        if op in ('arg', 'doc', 'k'):
            return t, None
        if op in ('str', 'float', 'repr') and len(t) == 2:
            t = t[1]
        elif op == 'int' and len(t) == 2:
            inner = t[1]
            if kind != 'integer':
                return None, 'cut down to a whole number'
            t = inner
        elif op == 'fmt' and len(t) == 3:
            spec, inner = t[1], t[2]
            why = format_loss(spec, digits, kind)
            if why is not OK:
                return None, why
            t = inner
        elif op == 'round' and len(t) == 2:
            if kind != 'integer':
                return None, 'rounded to a whole number'
            t = t[1]
        elif op == 'round' and len(t) == 3:
            n = const_number(t[2])
            if n is None:
                return None, None
            if n < digits:
                return None, 'rounded to %d places' % n
            t = t[1]
        elif op in ('Mult', 'Div') and len(t) == 3:
            a, b = const_number(t[1]), const_number(t[2])
            if b == 1:
                t = t[1]
            elif a == 1 and op == 'Mult':
                t = t[2]
            elif isinstance(b, (int, float)) or isinstance(a, (int, float)):
                inner = t[1] if b is not None else t[2]
                if inner[0] in ('Mult', 'Div', 'Add', 'Sub', 'round', 'fmt'):
                    return None, None
                return None, 'scaled'
            else:
                return None, None
        elif op in ('Add', 'Sub') and len(t) == 3:
            a, b = const_number(t[1]), const_number(t[2])
            if b == 0:
                t = t[1]
            elif a == 0 and op == 'Add':
                t = t[2]
            elif a is not None or b is not None:
                inner = t[1] if b is not None else t[2]
                if inner[0] in ('Mult', 'Div', 'Add', 'Sub', 'round', 'fmt'):
                    return None, None
                return None, 'shifted'
            else:
                return None, None
        elif op in ('UAdd',):
            t = t[1]
        elif op in ('USub', 'neg', 'abs', 'min', 'max', 'floor', 'ceil',
                    'math.floor', 'math.ceil', 'math.fabs', 'lower', 'upper',
                    'strip', 'lstrip', 'rstrip', 'title', 'capitalize',
                    'swapcase', 'casefold'):
            if kind == 'integer' and op in ('floor', 'ceil'):
                t = t[1]
            elif len(t) > 1 and isinstance(t[1], tuple):
                if op in ('strip', 'lstrip', 'rstrip', 'lower', 'upper') and \
                        kind != 'string':
                    t = t[1]
                    continue
                return None, 'changed by %s' % op
            else:
                return None, None
        else:
            return None, None


def const_number(t):
    if isinstance(t, tuple) and t and t[0] == 'k' and numeric(t[2]):
        return t[2]
    return None


def format_loss(spec, digits, kind):
    if spec in ('', 's', 'r'):
        return OK
    m = re.match(r'^[-+ #0<>=^]*\d*,?(?:\.(\d+))?([a-zA-Z%]?)$', spec)
    if m is None:
        return None
    places, conv = m.group(1), m.group(2)
    if kind == 'string':
        if conv in ('s', 'r', '') and places is None:
            return OK
        return None
    if conv in ('d', 'i', 'u', 'n'):
        return OK if kind == 'integer' else 'cut down to a whole number'
    if kind == 'integer':
        if conv in ('f', 'F'):
            return OK
        if conv in ('x', 'X', 'o', 'b'):
            return None
    if conv in ('f', 'F'):
        n = int(places) if places is not None else 6
        return OK if n >= digits else 'written with only %d places' % n
    if conv in ('g', 'G', 'e', 'E'):
        n = int(places) if places is not None else 6
        if conv in 'eE':
            n += 1
        return OK if n >= 17 else 'written with only %d figures' % n
    if conv in ('s', 'r', ''):
        if places is not None:
            return 'written with only %s figures' % places
        return OK
    return None


def same(I, got, want, digits, kind):
    """
    Whether what was read is what was written.
    Returns OK, UNKNOWN, or a description of the difference.
    """
    got = I.norm(got)
    if isinstance(got, TextObj):
        got = I.norm(got.value)
    want = I.norm(want)
    if kind == 'bool':
        if not isinstance(got, (K, Opq)):
            return UNKNOWN
        if isinstance(want, K) or (isinstance(want, Opq) and
                                   want.term in I.facts):
            w = I.truth(want)
        elif isinstance(got, Opq) and got.term == term_of(want):
            return OK
        else:
            w = I.truth(want)
        if isinstance(got, K) and isinstance(got.v, str):
            g = {'true': True, 'false': False}.get(got.v.lower())
            if g is None:
                return 'is %r' % got.v
        elif isinstance(got, K):
            g = bool(got.v)
            if not isinstance(got.v, (bool, int)):
                return 'is %r' % (got.v,)
        else:
            return UNKNOWN
        return OK if g == w else 'is %s rather than %s' % (g, w)
    if not isinstance(got, (K, Opq)):
        return UNKNOWN
    if isinstance(got, K) and isinstance(want, K):
        return same_constants(got.v, want.v, digits, kind)
    t, why = lossless(I, term_of(got), digits, kind)
    if t is None:
        if why is None:
            return UNKNOWN
        return 'has been %s' % why
    w, _ = lossless(I, term_of(want), 17, kind)
    if w is None:
        w = term_of(want)
    if t == w:
        return OK
    if t[0] == 'k' and w[0] == 'k':
        return same_constants(t[2], w[2], digits, kind)
    if t[0] == 'k':
        # a constant where something unknown was written: only if nothing on
        # this path ties the two together
        for f in I.facts:
            if f[0] in ('<', 'eq', 'truth', 'in') and term_has(
                    f, lambda x: x == w):
                if tied(I, w, t[2], digits):
                    return OK
                if f[0] == '<' and (f[1] == w or f[2] == w):
                    continue
                if f[0] == 'eq' and I.facts[f] is False:
                    continue
                if f[0] == 'truth' and f[1] == w:
                    continue
                return UNKNOWN
        if w in I.bounds and tied(I, w, t[2], digits):
            return OK
        return 'is always %r' % (t[2],)
    if t[0] in ('arg', 'doc') and w[0] in ('arg', 'doc'):
        return 'is %s rather than %s' % (show(t), show(w))
    return UNKNOWN


def tied(I, w, k, digits):
    b = I.bounds.get(w)
    if b is None or not numeric(k):
        return False
    lo, _, hi, _ = b
    return lo is not None and hi is not None and \
        abs(k - lo) <= 10 ** -digits and abs(hi - k) <= 10 ** -digits


def same_constants(g, w, digits, kind):
    if kind == 'string':
        return OK if g == w else 'is %r rather than %r' % (g, w)
    if kind == 'integer' and isinstance(g, int) and isinstance(w, int):
        # exactly, even where a float could not
        return OK if g == w else 'is %r rather than %r' % (g, w)
    try:
        x, y = float(g), float(w)
    except (ValueError, TypeError):
        return OK if g == w else 'is %r rather than %r' % (g, w)
    if kind == 'integer':
        return OK if x == y else 'is %r rather than %r' % (g, w)
    if abs(x - y) <= 10 ** -digits:
        return OK
    return 'is %r rather than %r' % (g, w)
