"""C01: reading never modifies the document."""
from .common import *

RULE = ('Effect analysis: every read operation, interpreted abstractly on a '
        'document with unknown contents, has no path on which an element, '
        'attribute or text of the document differs afterwards.')
SCOPE = ('Every property and descriptor of Animation, each layer class, each '
         'value class, Timeline, Waypoint, Keyframe and Keyframes, their '
         'special methods and their reading methods, on plain, animated and '
         'malformed documents; each operation twice in a row.')
MINIMUM = 5000
PARALLEL = True

DUNDERS = ('__str__', '__repr__', '__len__', '__iter__', '__bool__',
           '__int__', '__float__', '__hash__')
NOARG = ('items', 'keys', 'values', 'as_tuple', 'as_python_expression')


def args_for(I, name):
    if name in ('find', 'find_all', '__call__'):
        return [([arg('sought', 'str')], {}), ([K(True)], {}),
                ([], {'desc': arg('desc', 'str')}),
                ([], {'attrs': I.new_dict([[K('type'), K('circle')]]),
                      'recursive': K(False)})]
    if name == 'get':
        return [([arg('key', 'str')], {}), ([K('offset')], {}),
                ([K(1.0)], {})]
    if name == '__getitem__':
        return [([arg('key', 'str')], {}), ([arg('index', 'int')], {}),
                ([K('radius')], {}), ([K(0)], {}), ([K('1s')], {}),
                ([K('offset')], {}), ([K(0.0)], {}), ([K('angle')], {}),
                ([K('scale')], {}), ([K('x')], {}), ([K('r')], {})]
    if name == '__contains__':
        return [([arg('key', 'str')], {}), ([K('radius')], {})]
    if name in ('__eq__', '__ne__', '__lt__'):
        return [([arg('other', 'str')], {}), ([arg('other', 'float')], {}),
                ([K(1.0)], {}), ([K('x')], {}),
                ([Tup([K(1.0), K(2.0)])], {})]
    return [([], {})]


def perform(I, obj, name, args, kw):
    if name == '__iter__':
        return I.iterate(obj)
    if name == '__str__':
        return I.ext.str_(I, obj)
    if name == '__repr__':
        return I.ext.repr_(I, obj)
    if name == '__len__':
        return I.length(obj)
    if name == '__bool__':
        return I.truth(obj)
    if name == '__getitem__':
        return I.getitem(obj, *args)
    if name == '__contains__':
        return I.contains(obj, *args)
    if name == '__eq__':
        return I.eq(obj, *args)
    if name in ('__int__', '__float__', '__hash__'):
        return I.call(I.ext.builtin(I, name.strip('_')), [obj], {})
    r = method(I, obj, name, *args, **kw)
    return use(I, r)


def use(I, r):
    """Whoever gets an iterator iterates over it."""
    if isinstance(r, GenObj):
        return I.iterate(r)
    return r


def operations(W, c):
    I = W.I
    ops = []
    for n in descriptors(W, c):
        if not n.startswith('_'):
            ops.append((n, lambda I, o, n=n: use(I, I.getattr(o, n))))
    if member(c, '__getattr__') is not None:
        # whatever such classes have attributes for
        for n in ('x', 'y', 'r', 'g', 'b', 'a', 'offset', 'angle', 'width',
                  'nonesuch'):
            ops.append(('.' + n, lambda I, o, n=n: use(I, I.getattr(o, n))))
    for n in DUNDERS + NOARG + ('find', 'find_all', '__call__', 'get',
                                '__getitem__', '__contains__', '__eq__',
                                '__lt__'):
        m = member(c, n)
        if m is None or not is_method(m):
            continue
        k = len(args_for(I, n))
        for i in range(k):
            def op(I, o, n=n, i=i):
                a, kw = args_for(I, n)[i]
                return perform(I, o, n, a, kw)
            ops.append((n if k == 1 else '%s/%d' % (n, i), op))
    return ops


def read_unit(R, W, who, opname, make, op):
    def run(I):
        try:
            obj = make(I)
        except PyRaise:
            obj = None
        built = changes(I)
        if built:
            R.violation('C01:%s:open' % who,
                        'making a %s object for an element changes the '
                        'document: %s' % (who, built[0]), first_mutation(I))
            return
        if obj is None:
            return
        for i in range(2):
            e = quiet(I, op, I, obj)
            ch = changes(I)
            R.decided('%s.%s leaves the document alone' % (who, opname))
            if ch:
                R.violation('C01:%s.%s' % (who.split(' (')[0], opname),
                            'reading %s.%s changes the document: %s' % (
                                who, opname, '; '.join(ch[:3])),
                            first_mutation(I))
                return
            if e is not None:
                return
    R.explore('%s.%s' % (who, opname), run, 1500 if R.thorough else 100)


def oddly(make):
    """The same objects, for a document with unusual spellings."""
    def mk(I):
        with odd_spelling():
            return make(I)
    return mk


def check(W, R):
    # values
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        ops = operations(W, c)
        for sname, make in shapes(kind) + odd_shapes(kind):
            who = '%s (%s)' % (c.name, sname)

            def mk(I, make=make):
                n = make(I)
                hosted(I, kind, n)
                return value_object(W, I, kind, n)
            for n, op in ops:
                read_unit(R, W, who, n, mk, op)
                if sname in ('plain', 'animated'):
                    read_unit(R, W, '%s (%s, oddly spelt)' % (
                        c.name, sname), n, oddly(mk), op)
    for kind in ('bline', 'wplist', 'dilist', 'dynamic_list', 'static_list'):
        def mk(I):
            n = value_node(I, kind)
            document(I, layer_node(I, 'outline', [param_node(I, 'bline', n)]))
            return value_object(W, I, kind, n)
        for n, op in operations(W, W.Value):
            read_unit(R, W, kind, n, mk, op)
    # comparison of values with values
    for kind in IMPLEMENTED:
        for kind2 in IMPLEMENTED:
            def mk(I):
                n = plain_node(I, kind, 'v')
                hosted(I, kind, n)
                return value_object(W, I, kind, n)

            def op(I, o):
                n2 = plain_node(I, kind2, 'w')
                hosted(I, kind2, n2)
                I.eq(o, value_object(W, I, kind2, n2))
            read_unit(R, W, kind, 'compare with ' + kind2, mk, op)
    # timelines and waypoints
    for kind in IMPLEMENTED:
        for sname, make in shapes(kind)[:3] + [
                s for s in odd_shapes(kind) if 'waypoint' in s[0]
                or 'time' in s[0]]:
            def tl(I, make=make):
                n = make(I)
                hosted(I, kind, n)
                return I.getattr(value_object(W, I, kind, n), 'timeline')

            def wp(I, make=make):
                t = tl(I, make)
                ws = I.iterate(t)
                if not ws:
                    raise PyRaise(I.make_exc('LookupError'))
                return ws[0]
            for n, op in operations(W, W.cls('Timeline',
                                             'sangfroid.value.value')):
                read_unit(R, W, 'timeline of %s (%s)' % (kind, sname), n,
                          tl, op)
                if sname == 'animated':
                    read_unit(R, W, 'timeline of %s (oddly spelt)' % kind,
                              n, oddly(tl), op)
            for n, op in operations(W, W.Waypoint):
                if n == 'tag':
                    continue
                read_unit(R, W, 'waypoint of %s (%s)' % (kind, sname), n,
                          wp, op)
                if sname == 'animated':
                    read_unit(R, W, 'waypoint of %s (oddly spelt)' % kind,
                              n, oddly(wp), op)
            read_unit(R, W, 'waypoint of %s (%s)' % (kind, sname), 'tag',
                      wp, lambda I, o: I.getattr(o, 'tag'))
    # layers
    by_type = {}
    for c in W.layer_classes():
        for t in REFERENCE:
            if norm_type(t) == norm_type(c.name):
                by_type[t] = c
    for t, c in sorted(by_type.items()):
        for variant in ('complete', 'bare', 'animated', 'oddly spelt'):
            if variant == 'animated' and t not in (
                    'circle', 'group', 'text', 'star', 'timeloop',
                    'linear_gradient') and not R.thorough:
                continue

            def mk(I, variant=variant):
                if variant in ('complete', 'oddly spelt'):
                    n = reference_layer(I, t)
                elif variant == 'animated':
                    n = reference_layer(
                        I, t, animated=[p for p, x in REFERENCE[t][
                            'params'].items() if kind_of_tree(x) in KINDS
                            and kind_of_tree(x) != 'canvas'])
                else:
                    n = layer_node(I, t)
                outer = group_node(I, n, label='outer')
                document(I, outer)
                return wrap_layer(W, I, n)
            if variant == 'oddly spelt':
                mk = oddly(mk)
            for n, op in operations(W, c):
                read_unit(R, W, '%s (%s)' % (c.name, variant), n, mk, op)

    def nested(I):
        inner = group_node(I, layer_node(I, 'circle', [
            param_node(I, 'radius', value_node(I, 'real', 'r'))]),
            label='inner')
        outer = group_node(I, layer_node(I, 'text'), inner, label='outer')
        document(I, outer)
        return wrap_layer(W, I, outer)
    for n, op in operations(W, W.cls('Group')):
        read_unit(R, W, 'Group (nested)', n, nested, op)

    # animations
    lacking = [k for k, v in ROOT_ATTRS]
    for variant in ['complete', 'bare', 'oddly spelt', 'no attributes',
                    'keyframes out of order', 'keyframes at one time',
                    'odd keyframes'] + [
            'no ' + k for k in lacking]:
        def anim(I, variant=variant):
            lay = reference_layer(I, 'circle', 'circle')
            g = group_node(I, lay, layer_node(I, 'text'))
            if variant == 'bare':
                return animation(W, I, name=False, desc=False, keyframes=0)
            if variant == 'no attributes':
                return animation(W, I, g, attrs=dict(
                    (k, None) for k, v in ROOT_ATTRS))
            if variant == 'keyframes out of order':
                return animation(W, I, g, keyframe_times=('2s', '0f', '24f'))
            if variant == 'keyframes at one time':
                return animation(W, I, g, keyframe_times=('1s', '1s', '24f'))
            if variant == 'odd keyframes':
                return animation(W, I, g, keyframe_times=(
                    None, '1s', S('keyframe time')))
            if variant[3:] in lacking:
                return animation(W, I, g, attrs={variant[3:]: None})
            return animation(W, I, g)
        if variant == 'oddly spelt':
            anim = oddly(anim)
        for n, op in operations(W, W.Animation):
            read_unit(R, W, 'Animation (%s)' % variant, n, anim, op)

        if variant[3:] in lacking and not R.thorough:
            continue
        for target in ('existing.sif', 'other.sifz', 'other.txt', None):
            def save(I, o, target=target):
                method(I, o, 'save', *([K(target)] if target else []))
            read_unit(R, W, 'Animation (%s)' % variant, 'save %s' % target,
                      anim, save)

        def kfs(I, anim=anim):
            return I.getattr(anim(I), 'keyframes')

        def kf(I, kfs=kfs):
            r = I.iterate(kfs(I))
            if not r:
                raise PyRaise(I.make_exc('LookupError'))
            return r[0]
        try:
            kc, kcs = (W.cls(n, 'sangfroid.keyframe')
                       for n in ('Keyframe', 'Keyframes'))
        except AnchorGone:
            kc = kcs = None
        if kc:
            for n, op in operations(W, kcs):
                read_unit(R, W, 'Keyframes (%s)' % variant, n, kfs, op)
            for n, op in operations(W, kc):
                read_unit(R, W, 'Keyframe', n, kf, op)
