"""The kinds of thing a caller may pass."""
from .common import *


def good(I, kind, label='new'):
    """An argument of the right kind, with unknown contents."""
    def o(n, *t):
        return arg('%s.%s' % (label, n), *t)
    if kind == 'real' or kind == 'angle':
        return arg(label, 'float')
    if kind in ('integer', 'blend'):
        return arg(label, 'int')
    if kind == 'bool':
        return arg(label, 'bool')
    if kind == 'time':
        return K('3s')
    if kind == 'string':
        return arg(label, 'str')
    if kind == 'vector':
        return Tup([o('x', 'float'), o('y', 'float')])
    if kind == 'color':
        return Tup([o(d, 'float') for d in 'rgba'])
    if kind == 'gradient':
        return I.new_dict([
            [K(0.0), Tup([o('0' + d, 'float') for d in 'rgba'])],
            [K(1.0), Tup([o('1' + d, 'float') for d in 'rgba'])]])
    if kind == 'transformation':
        return I.new_dict([
            [K('offset'), Tup([o('offset.x', 'float'),
                               o('offset.y', 'float')])],
            [K('angle'), o('angle', 'float')],
            [K('skew_angle'), o('skew_angle', 'float')],
            [K('scale'), Tup([o('scale.x', 'float'),
                              o('scale.y', 'float')])]])
    if kind == 'canvas':
        return I.new_list()
    raise KeyError(kind)


def value_arg(W, I, kind, label='other', animated=False, hosted_=True):
    """A value which lives in some other document."""
    n = animated_node(I, kind, label=label) if animated else \
        plain_node(I, kind, label)
    if hosted_:
        hosted(I, kind, n)
    else:
        dom.adopt(I, n)
    return value_object(W, I, kind, n)


def bad(W, kind):
    """
    Arguments which may be wrong, as pairs of a name and what makes one.
    Each is interpreted; whether it's in fact refused is up to the code.
    """
    r = [
        ('anything', lambda I: arg('anything')),
        ('a str', lambda I: arg('text', 'str')),
        ('an int', lambda I: arg('number', 'int')),
        ('a float', lambda I: arg('number', 'float')),
        ('None', lambda I: NONE),
        ('an object', lambda I: arg('object', 'object')),
        ('an empty tuple', lambda I: Tup([])),
        ('an empty list', lambda I: I.new_list()),
        ('an empty dict', lambda I: I.new_dict()),
    ]
    for n in (1, 2, 3, 4, 5):
        r.append(('a tuple of %d' % n, lambda I, n=n: Tup(
            [arg('item %d' % i) for i in range(n)])))
        r.append(('a tuple of %d, one of them wrong' % n,
                  lambda I, n=n: Tup([K(1.0)] * (n - 1) + [
                      arg('last', 'object')])))
    for n in (1, 2, 4):
        r.append(('a list of %d' % n, lambda I, n=n: I.new_list(
            [arg('item %d' % i) for i in range(n)])))
    r.append(('a dict', lambda I: I.new_dict([
        [arg('key 0', 'str'), arg('item 0')],
        [arg('key 1', 'str'), arg('item 1')]])))
    r.append(('a dict by number', lambda I: I.new_dict([
        [K(0.0), K('#ff0000')], [arg('position', 'float'),
                                 arg('colour')]])))
    r.append(('a dict by number, second wrong', lambda I: I.new_dict([
        [K(0.0), K('#ff0000')], [K(1.0), arg('colour', 'object')]])))

    def comp(**kw):
        def f(I):
            d = [('offset', Tup([K(1.0), K(2.0)])), ('angle', K(3.0)),
                 ('skew_angle', K(4.0)), ('scale', Tup([K(5.0), K(6.0)]))]
            e = []
            for k, v in d:
                v = kw.get(k, v)
                if v is not None:
                    e.append([K(k), v])
            for k in kw:
                if k not in dict(d):
                    e.append([K(k), kw[k]])
            return I.new_dict(e)
        return f
    for k in ('offset', 'angle', 'skew_angle', 'scale'):
        r.append(('a transformation with %s of any kind' % k,
                  comp(**{k: arg('part')})))
        r.append(('a transformation without %s' % k, comp(**{k: None})))
    r.append(('a transformation and more', comp(wombat=K(1.0))))
    r.append(('a transformation with a bad scale',
              comp(scale=Tup([K(1.0), arg('part', 'object')]))))
    for k in IMPLEMENTED:
        r.append(('a %s value' % k, lambda I, k=k: value_arg(W, I, k)))
        r.append(('an animated %s value' % k,
                  lambda I, k=k: value_arg(W, I, k, animated=True)))

    def unreadable(I):
        n = new_node(I, kind, {}, [new_node(I, 'junk')])
        hosted(I, kind, n)
        return value_object(W, I, kind, n)
    r.append(('a malformed value', unreadable))

    def layers(*last):
        def f(I):
            n = layer_node(I, 'circle', label='new layer')
            dom.adopt(I, n)
            return I.new_list([wrap_layer(W, I, n)] + list(last))
        return f
    if kind in ('canvas', 'real'):
        r.append(('layers, then a number', layers(K(1.0))))
        r.append(('layers, then anything', layers(arg('last item'))))
        r.append(('layers, then None', layers(NONE)))
        r.append(('layers in a tuple', lambda I: Tup(
            layers(arg('last item', 'object'))(I).items)))
    return r


OTHER_FPS = '25.000'


def time_of_other_document(W, I, spec='1s', fps=OTHER_FPS):
    root = document(I, attrs={'fps': fps})
    return I.call(W.T, [K(spec)], {'ref': root})


def waypoint(W, I, t, kind, label='new', value=None, ref=None):
    if value is None:
        n = plain_node(I, kind, label)
        dom.adopt(I, n)
        value = value_object(W, I, kind, n)
    kw = {'time': t if isinstance(t, AV) else K(t), 'value': value}
    if ref is not None:
        kw['ref'] = ref
    return I.call(W.Waypoint, [], kw)
