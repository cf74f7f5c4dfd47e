"""C20: unimplemented and read-only attributes refuse, every time."""
from .args import *

RULE = ('Every path through reading, and through assigning anything to, an '
        'unimplemented attribute ends in NotImplementedError; every path '
        'through assigning a read-only attribute, or through creating what '
        'only the library may create, ends in an exception; and none of '
        'them changes the document or the object.')
SCOPE = ('All the attributes for parameters of types which are not '
         'implemented, in every layer class; the metadata of animations; the '
         'contents of every value class that is not implemented; the type '
         'name and element of every layer class and of animations; the parts '
         'of times; Timeline, Keyframes and the formats. Receivers from '
         'documents (with the parameter present, absent or of another '
         'shape) and newly created.')
MINIMUM = 600
PARALLEL = True

UNIMPLEMENTED = {
    'Region': ['bline'], 'Polygon': ['vector_list'], 'Outline': ['bline'],
    'Advanced_Outline': ['bline', 'wplist', 'dilist'],
    'Switch': ['canvas'], 'Skeleton': ['bones'], 'Plant': ['bline'],
    'Duplicate': ['index'], 'Curve_Gradient': ['bline'],
    'Halftone3': ['tone'], 'Metaballs': ['centers', 'radii', 'weights'],
    'Skeleton_Deformation': ['bones'], 'Curve_Warp': ['bline'],
}
METADATA = [
    'background_first_color', 'background_rendering',
    'background_second_color', 'background_size', 'grid_color', 'grid_show',
    'grid_size', 'grid_snap', 'guide_color', 'guide_show', 'guide_snap',
    'jack_offset', 'onion_skin', 'onion_skin_future', 'onion_skin_keyframes',
    'onion_skin_past']
VALUES = ['dynamic_list', 'static_list', 'wplist', 'dilist', 'bline',
          'tone']


def things(W):
    r = [('anything', lambda I: arg('anything')),
         ('None', lambda I: NONE),
         ('a number', lambda I: arg('number', 'int', 'float')),
         ('a str', lambda I: arg('text', 'str')),
         ('a list', lambda I: I.new_list([arg('item')])),
         ('a dict', lambda I: I.new_dict([[K('x'), arg('item')]])),
         ('True', lambda I: TRUE),
         ('a real value', lambda I: value_arg(W, I, 'real')),
         ('a canvas value', lambda I: value_arg(W, I, 'canvas')),
         ]

    def tag(I):
        n = value_node(I, 'bline', 'tag')
        dom.adopt(I, n)
        return n
    r.append(('an element', tag))
    return r


def check(W, R):
    layers(R, W)
    metadata(R, W)
    values(R, W)
    read_only(R, W)
    times(R, W)
    constructors(R, W)


def type_name(c):
    for t in REFERENCE:
        if norm_type(t) == norm_type(c.name):
            return t


def is_unimplemented(W, c, n):
    m = member(c, n)
    return isinstance(m, Inst) and any(
        k.name == 'NotImplementedField' for cc in m.cands for k in cc.mro
        if isinstance(k, ClassObj))


def refused(R, W, who, key, make, op, want, loc, check_state=None):
    """op on what make(I) returns must raise, and change nothing."""
    def run(I):
        try:
            o = make(I)
        except PyRaise:
            return
        if changes(I):
            return
        before = state(o)
        try:
            op(I, o)
        except PyRaise as e:
            if e.implicit:
                return
            R.decided(who)
            if want and e.name != want:
                R.violation(key, '%s raises %s rather than %s' % (
                    who, e.name, want), e.loc)
            ch = changes(I)
            if ch:
                R.violation(key, '%s is refused, but changes the document: '
                            '%s' % (who, ch[0]), first_mutation(I) or e.loc)
            if state(o) != before:
                R.violation(key, '%s is refused, but changes the object' %
                            who, e.loc)
            return
        R.decided(who)
        R.violation(key, '%s is accepted' % who, loc)
    R.explore(who, run, 60 if R.thorough else 30)


def state(o):
    if not isinstance(o, Inst):
        return None
    return {k: (v.v if isinstance(v, K) else id(v))
            for k, v in o.attrs.items()}


def layers(R, W):
    for c in W.layer_classes():
        t = type_name(c)
        names = list(UNIMPLEMENTED.get(c.name, ()))
        for n in descriptors(W, c):
            if is_unimplemented(W, c, n) and n not in names:
                names.append(n)
        for n in names:
            who = '%s.%s' % (c.name, n)
            loc = W.qual(c)
            key = 'C20:%s' % who

            def doc(I, t=t, c=c):
                node = reference_layer(I, t, label='layer', open_=False)
                document(I, node)
                return wrap_layer(W, I, node)

            def absent(I, t=t, n=n):
                node = reference_layer(I, t, label='layer', skip=(n,),
                                       open_=False)
                document(I, node)
                return wrap_layer(W, I, node)

            def shaped(kind):
                def f(I, t=t, n=n):
                    node = layer_node(I, t, [param_node(
                        I, n, value_node(I, kind, n))] + reference_params(
                            I, t, skip=(n,)), label='layer', open_=False)
                    document(I, node)
                    return wrap_layer(W, I, node)
                return f

            def new(I, c=c):
                return I.call(c, [], {})
            recs = [('new', new)]
            if t is not None:
                recs += [('', doc), ('absent', absent)]
                for k in ('real', 'bline', 'dynamic_list', 'canvas',
                          'integer'):
                    recs.append(('holding a %s' % k, shaped(k)))
            for rn, make in recs:
                w = who + (' (%s)' % rn if rn else '')
                refused(R, W, w, key, make,
                        lambda I, o, n=n: I.getattr(o, n),
                        'NotImplementedError', loc)
                for an, mk in things(W):
                    if rn.startswith('holding') and not R.thorough and \
                            an not in ('anything', 'a list'):
                        continue
                    refused(R, W, '%s = %s' % (w, an), key, make,
                            lambda I, o, n=n, mk=mk: I.setattr(
                                o, n, mk(I)),
                            'NotImplementedError', loc)
                refused(R, W, 'deleting ' + w, key, make,
                        lambda I, o, n=n: I.delattr(o, n), None, loc)


def metadata(R, W):
    def loaded(I):
        return animation(W, I, layer_node(I, 'circle', label='layer'),
                         extra=[new_node(I, 'meta', {
                             'name': K(n), 'content': K('1')})
                             for n in METADATA])

    def new(I):
        return I.call(W.Animation, [], {})
    for n in METADATA:
        for rn, make in (('', loaded), (' (new)', new)):
            who = 'Animation.%s%s' % (n, rn)
            refused(R, W, who, 'C20:Animation.' + n, make,
                    lambda I, o, n=n: I.getattr(o, n),
                    'NotImplementedError', 'sangfroid/animation.py')
            for an, mk in things(W):
                if an not in ('anything', 'a number', 'a str') and \
                        not R.thorough:
                    continue
                refused(R, W, '%s = %s' % (who, an), 'C20:Animation.' + n,
                        make, lambda I, o, n=n, mk=mk: I.setattr(
                            o, n, mk(I)),
                        'NotImplementedError', 'sangfroid/animation.py')


def values(R, W):
    for kind in VALUES:
        def make(I, kind=kind):
            n = value_node(I, kind, 'v')
            document(I, layer_node(I, 'outline', [param_node(
                I, 'bline', n)], label='layer', open_=False))
            return I.call(I.getattr(W.Value, 'from_tag'), [n], {})

        def through(I, kind=kind):
            n = value_node(I, kind, 'v')
            lay = layer_node(I, 'outline', [param_node(I, 'bline', n)],
                             label='layer', open_=False)
            document(I, lay)
            return I.getitem(wrap_layer(W, I, lay), K('bline'))

        def empty(I, kind=kind):
            n = new_node(I, kind)
            dom.adopt(I, n)
            return I.call(I.getattr(W.Value, 'from_tag'), [n], {})
        for rn, mk_ in (('', make), (' from a layer', through),
                        (' (empty)', empty)):
            who = '<%s>.value%s' % (kind, rn)
            key = 'C20:<%s>' % kind
            refused(R, W, who, key, mk_,
                    lambda I, o: I.getattr(o, 'value'),
                    'NotImplementedError', 'sangfroid/value/tbd.py')
            for an, mk in things(W):
                refused(R, W, '%s = %s' % (who, an), key, mk_,
                        lambda I, o, mk=mk: I.setattr(o, 'value', mk(I)),
                        'NotImplementedError', 'sangfroid/value/tbd.py')
        # by subscript; an element stands for the value it holds
        for an, mk in things(W):
            if an == 'an element':
                continue

            def lay(I, kind=kind):
                n = value_node(I, kind, 'v')
                lay = layer_node(I, 'outline', [param_node(I, 'bline', n)],
                                 label='layer', open_=False)
                document(I, lay)
                return wrap_layer(W, I, lay)
            refused(R, W, 'layer[...] = %s, for a <%s>' % (an, kind),
                    'C20:<%s>' % kind, lay,
                    lambda I, o, mk=mk: I.setitem(o, K('bline'), mk(I)),
                    None, 'sangfroid/value/tbd.py')


def read_only(R, W):
    def others(W):
        r = things(W)
        r.append(('a layer type', lambda I: K('circle')))
        r.append(('another layer', lambda I: I.call(
            W.cls('Circle'), [], {})))
        return r
    for c in W.layer_classes() + [W.Animation]:
        t = type_name(c)

        def loaded(I, c=c, t=t):
            if c is W.Animation:
                return animation(W, I, layer_node(I, 'circle',
                                                  label='layer'))
            n = layer_node(I, t, [param_node(I, 'amount', value_node(
                I, 'real', 'amount'))], label='layer', open_=False)
            document(I, n)
            return wrap_layer(W, I, n)

        def new(I, c=c):
            return I.call(c, [], {})
        for n in ('type_', 'tag'):
            if n == 'type_' and t and 'type' in REFERENCE[t]['params']:
                # that's a parameter
                continue
            for rn, make in (('', loaded), (' (new)', new)):
                if rn == '' and c is not W.Animation and t is None:
                    continue
                for an, mk in others(W):
                    if not R.thorough and c.name not in (
                            'Circle', 'Group', 'Text', 'Animation') and \
                            an not in ('anything', 'an element',
                                       'a layer type'):
                        continue
                    who = '%s.%s%s = %s' % (c.name, n, rn, an)
                    refused(R, W, who, 'C20:%s.%s' % (c.name, n), make,
                            lambda I, o, n=n, mk=mk: I.setattr(o, n, mk(I)),
                            None, 'sangfroid/field.py')
                # the same value again is no exception
                who = '%s.%s%s = itself' % (c.name, n, rn)
                refused(R, W, who, 'C20:%s.%s' % (c.name, n), make,
                        lambda I, o, n=n: I.setattr(o, n, I.getattr(o, n)),
                        None, 'sangfroid/field.py')


def times(R, W):
    def plain(I):
        root = document(I)
        return I.call(W.T, [K(12)], {'ref': root})

    def seconds(I):
        root = document(I)
        return I.call(W.T, [K('2s')], {'ref': root})

    def bare(I):
        return I.call(W.T, [K(5)], {})
    for n in ('frames', 'seconds', 'fps'):
        if member(W.T, n) is None:
            continue
        for rn, make in (('T(12, ref)', plain), ("T('2s', ref)", seconds),
                         ('T(5)', bare)):
            for an, mk in things(W)[:5]:
                who = '%s.%s = %s' % (rn, n, an)
                refused(R, W, who, 'C20:T.%s' % n, make,
                        lambda I, o, n=n, mk=mk: I.setattr(o, n, mk(I)),
                        None, 'sangfroid/t.py')


def constructors(R, W):
    for cname, mod, argsets in (
            ('Timeline', 'sangfroid.value.value',
             [[], [lambda I: value_arg(W, I, 'real')],
              [lambda I: arg('anything')]]),
            ('Keyframes', 'sangfroid.keyframe',
             [[], [lambda I: I.call(W.Animation, [], {})],
              [lambda I: arg('anything')]]),
            ('Format', 'sangfroid.format',
             [[], [lambda I: K('a.sif')], [lambda I: arg('anything')]]),
            ('Sif', 'sangfroid.format', [[], [lambda I: K('a.sif')]]),
            ('Sifz', 'sangfroid.format', [[], [lambda I: K('a.sif')]]),
            ('Sfg', 'sangfroid.format', [[], [lambda I: K('a.sif')]])):
        c = W.find(mod, cname)
        if not isinstance(c, ClassObj):
            try:
                c = W.cls(cname)
            except AnchorGone:
                continue
        for i, mks in enumerate(argsets):
            who = '%s(%s)' % (cname, ', '.join('...' for _ in mks))
            refused(R, W, who, 'C20:%s()' % cname, lambda I: None,
                    lambda I, o, c=c, mks=mks: I.call(
                        c, [m(I) for m in mks], {}),
                    None, W.qual(c))
