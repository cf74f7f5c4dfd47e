"""What happens to files, from the log of a path."""
import codecs

from .args import *

WRITING = ('w', 'a', 'x', '+')


def writes(e):
    """Whether an 'open' event can change the file."""
    return e[0] == 'open' and any(c in e[3] for c in WRITING)


def name_term(I, x):
    x = I.norm(x)
    if isinstance(x, Opq) and x.term[0] == 'path':
        return x.term[1]
    return term_of(x)


def same_name(I, a, b):
    return name_term(I, a) == name_term(I, b)


def is_temp(I, x):
    return term_has(name_term(I, x), lambda t: len(t) > 0 and
                    t[0] == 'tempname')


def utf8(enc):
    try:
        return codecs.lookup(enc).name in ('utf-8', 'utf-8-sig')
    except LookupError:
        return False


def under(I, f):
    """Follows wrappers down: the file beneath, and the layers on top."""
    layers = []
    while True:
        for e in I.log:
            if e[0] == 'wrap' and e[1] is f:
                layers.append(e[3])
                f = e[2]
                break
        else:
            return f, layers


def container(I, f):
    """'plain', 'gzip' or None, for an open file."""
    base, layers = under(I, f)
    n = layers.count('gzip') + (base.via == 'gzip')
    if base.via == 'mem':
        return None
    return {0: 'plain', 1: 'gzip'}.get(n, 'gzip twice')
