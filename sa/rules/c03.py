"""C03: assigning a value leaves nothing of the old one behind."""
from .args import *

RULE = ('Differential effect analysis: on every path on which an assignment '
        'succeeds, the element afterwards has the element name, attributes '
        'and children of the element that constructing a new value from the '
        'same input makes.')
SCOPE = ('Every implemented value class; assignment through the value, the '
         'field and the subscript; elements which were plain, animated (with '
         'none, one or more waypoints) or had extra attributes, extra or '
         'missing children; inputs of every accepted notation with unknown '
         'contents. Whitespace between elements is not compared.')
MINIMUM = 500
PARALLEL = True


def inputs(W, kind):
    r = [('components', lambda I: good(I, kind)),
         ('a value', lambda I: value_arg(W, I, kind))]
    f = lambda n: arg(n, 'float')
    if kind in ('real', 'angle', 'integer'):
        r.append(('an int', lambda I: arg('new', 'int')))
        r.append(('text', lambda I: K('17')))
        r.append(('None', lambda I: NONE))
    elif kind == 'bool':
        r += [('true', lambda I: TRUE), ('false', lambda I: FALSE)]
    elif kind == 'string':
        r += [('a number', lambda I: arg('new', 'int')),
              ('empty', lambda I: K('')), ('text', lambda I: K('x'))]
    elif kind == 'time':
        r = [('zero', lambda I: K('0f')), ('a value', lambda I: value_arg(
            W, I, kind)), ('a number', lambda I: K(12)),
            ('a time', lambda I: I.call(W.T, [K(12)], {}))]
    elif kind == 'vector':
        r += [('a dict', lambda I: I.new_dict([
            [K('x'), f('new.x')], [K('y'), f('new.y')]])),
            ('whole numbers', lambda I: Tup([arg('x', 'int'),
                                             arg('y', 'int')])),
            ('constants', lambda I: Tup([K(1.0), K(2.0)]))]
    elif kind == 'color':
        r += [('three components', lambda I: Tup([f('r'), f('g'), f('b')])),
              ('hex', lambda I: K('#12345678')),
              ('short hex', lambda I: K('abcdef'))]
    elif kind == 'gradient':
        r.append(('three stops', lambda I: I.new_dict([
            [K(0.0), K('#ff0000')], [K(0.5), Tup([f('r'), f('g'), f('b')])],
            [K(1.0), value_arg(W, I, 'color')]])))
    return r


def check(W, R):
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        type_, pname = HOSTS[kind]
        for sname, make in shapes(kind) + odd_shapes(kind):
            for aname, mk in inputs(W, kind):
                for via in ('value', 'attribute', 'subscript'):
                    unit(R, W, kind, c, pname, sname, make, aname, mk, via)


def unit(R, W, kind, c, pname, sname, make, aname, mk, via):
    who = '%s (%s) from %s by %s' % (c.name, sname, aname, via)

    def run(I):
        n = make(I)
        lay = hosted(I, kind, n)
        holder = n.parent
        a = mk(I)
        try:
            if via == 'value':
                v = value_object_anyway(W, I, kind, n)
                I.setattr(v, 'value', a)
            elif via == 'attribute':
                I.setattr(wrap_layer(W, I, lay), pname, a)
            else:
                I.setitem(wrap_layer(W, I, lay), K(pname), a)
        except PyRaise:
            return
        kids = kids_of(holder)
        R.decided(who)
        if len(kids) != 1:
            R.violation('C03:%s' % c.name, 'after %s, the parameter has %d '
                        'elements rather than one' % (who, len(kids)),
                        last_mutation(I))
            return
        if via == 'value' and tag_of(I, v) is not kids[0]:
            R.violation('C03:%s' % c.name, 'after %s, the value has an '
                        'element which is not the one in the document' % who,
                        last_mutation(I))
        cls = c
        if via == 'subscript' and kind == 'blend':
            # subscripts know blend methods as integers
            cls = W.value_class('integer')
        try:
            fresh = I.call(cls, [a], {})
        except PyRaise:
            return
        d = tree_diff(I, kids[0], tag_of(I, fresh))
        if d and kind == 'time' and 'attribute' in d and 'value' in d and \
                'missing' not in d:
            d = None
        if d and isinstance(a, Inst) and \
                tree_diff(I, kids[0], tag_of(I, a)) is None:
            # a copy of the element of the value we were given
            d = None
        if d:
            R.violation('C03:%s:%s' % (c.name, d.split(':')[0]),
                        'after %s, the element differs from that of a new '
                        'value: %s' % (who, d), last_mutation(I))
    R.explore(who, run, 400 if R.thorough else 60)
