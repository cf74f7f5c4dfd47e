"""
Polynomial normal forms of terms: value numbering up to the laws of
arithmetic. Rounding is ignored.
"""
from fractions import Fraction


def poly(t, limit=400):
    """
    A dict from monomials (sorted tuples of atoms) to coefficients, for any
    term of a number. Atoms are terms which aren't arithmetic.
    """
    op = t[0] if t else None
    if op == 'k':
        if isinstance(t[2], (int, float)) and not isinstance(t[2], complex):
            try:
                return clean({(): Fraction(t[2])})
            except (ValueError, OverflowError):
                return {(t,): Fraction(1)}
        return {(t,): Fraction(1)}
    if op in ('Add', 'Sub') and len(t) == 3:
        return add(poly(t[1]), poly(t[2]), 1 if op == 'Add' else -1)
    if op == 'USub' and len(t) == 2:
        return add({}, poly(t[1]), -1)
    if op == 'Mult' and len(t) == 3:
        r = mult(poly(t[1]), poly(t[2]))
        if len(r) <= limit:
            return r
    if op == 'Div' and len(t) == 3:
        b = poly(t[2])
        if len(b) == 1:
            (m, c), = b.items()
            if c != 0:
                return mult(poly(t[1]), {tuple(sorted(
                    (inverse(x) for x in m), key=repr)): 1 / c})
        return mult(poly(t[1]), {(('inv', frozen(b)),): Fraction(1)})
    if op == 'float' and len(t) == 2 and t[1] and isinstance(t[1], tuple) \
            and t[1][0] in ('Add', 'Sub', 'Mult', 'Div', 'USub', 'int',
                            'len', 'round', 'arg'):
        return poly(t[1])
    if op in ('int', 'round', 'abs', 'math.floor', 'math.trunc',
              'math.ceil', 'floor') and len(t) == 2 and \
            isinstance(t[1], tuple):
        return {((op, frozen(poly(t[1]))),): Fraction(1)}
    if op == 'round' and len(t) == 3 and isinstance(t[2], tuple) and \
            t[2][0] == 'k' and isinstance(t[2][2], int):
        if t[2][2] >= 9:
            # no more than rounding of floating-point numbers
            return poly(t[1])
        return {((op, frozen(poly(t[1])), t[2][2]),): Fraction(1)}
    return {(t,): Fraction(1)}


def inverse(x):
    if x[0] == 'inv':
        return x[1]
    return ('inv', x)


def frozen(p):
    """A polynomial as something which can be compared."""
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def clean(p):
    return {m: c for m, c in p.items() if c != 0}


def add(a, b, sign=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + sign * c
    return clean(r)


def mult(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = list(m)
            for x in n:
                y = inverse(x)
                if y in k:
                    k.remove(y)
                else:
                    k.append(x)
            k = tuple(sorted(k, key=repr))
            r[k] = r.get(k, 0) + c * d
    return clean(r)


def near(a, b):
    """Whether two polynomials are the same but for rounding."""
    d = add(a, b, -1)
    size = max([abs(c) for p in (a, b) for c in p.values()] + [1])
    return all(abs(c) <= size / 10 ** 9 for c in d.values())


def sign(p, sign_of):
    """
    1, 0, -1, or None if unknown; sign_of gives 1 for atoms known to be
    positive, and 2 for those known not to be negative, else None.
    """
    if not p:
        return 0
    lo = hi = False     # certainly positive, certainly negative somewhere
    for m, c in p.items():
        s = 1
        for x in m:
            k = sign_of(x[1] if x[0] == 'inv' else x)
            if k is None:
                return None
            s = max(s, k)
        if c > 0:
            lo = lo or ('+' if s == 1 else '0')
            if s == 1:
                lo = '+'
        else:
            hi = hi or ('+' if s == 1 else '0')
            if s == 1:
                hi = '+'
    if lo and hi:
        return None
    if lo == '+':
        return 1
    if hi == '+':
        return -1
    return None
