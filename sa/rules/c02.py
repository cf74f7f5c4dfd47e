"""C02: a refused change leaves the document as it was."""
from .args import *

RULE = ('Effect ordering: no path through a mutating operation reaches a '
        'raise (its own, or one that a call may make because of the '
        'argument) with the document different from what it was when the '
        'operation began.')
SCOPE = ('Value, field, parameter and subscript assignment for every value '
         'class, every attribute of every layer class and of Animation, all '
         'timeline edits, append and insert; arguments of unknown type, of '
         'each wrong type, and collections with one wrong member.')
MINIMUM = 1500
PARALLEL = True


def attempt(R, W, who, prepare, op, key=None, max_paths=None):
    """prepare(I) makes the receiver; op(I, receiver) does the change."""
    def run(I):
        with constant_document():
            obj = prepare(I)
            a = op[0](I)
            if changes(I):
                return
            I.track_implicit = True
            n0 = len(I.log)
            try:
                op[1](I, obj, a)
            except PyRaise as e:
                I.track_implicit = False
                R.decided('%s: refused with nothing changed' % who)
                ch = changes(I)
                if ch:
                    R.violation(
                        key or 'C02:' + who,
                        '%s raises %s at %s after the document was changed: '
                        '%s' % (who, e.name, fmt(e.loc), '; '.join(ch[:3])),
                        first_mutation(I, n0) or e.loc)
    R.explore(who, run, max_paths or (1200 if R.thorough else 120))


def fmt(loc):
    return '%s:%s' % (loc[0], loc[1]) if loc else '?'


def check(W, R):
    L = W.cls('Layer')
    for kind in IMPLEMENTED:
        type_, pname = HOSTS[kind]
        cname = W.value_class(kind).name
        for animated in (False, True):
            def prep(I, animated=animated):
                n = animated_node(I, kind, label='v') if animated else \
                    value_node(I, kind, 'v')
                lay = hosted(I, kind, n)
                return lay, n
            sh = ' (animated)' if animated else ''
            for aname, mk in bad(W, kind):
                # through the value
                attempt(R, W, '%s%s.value = %s' % (cname, sh, aname), prep, (
                    mk, lambda I, o, a: I.setattr(
                        value_object(W, I, kind, o[1]), 'value', a)),
                    key='C02:%s.value' % cname)
                # by subscript and by attribute
                if not animated or R.thorough:
                    attempt(R, W, 'layer[%r]%s = %s' % (pname, sh, aname),
                            prep, (mk, lambda I, o, a: I.setitem(
                                wrap_layer(W, I, o[0]), K(pname), a)),
                            key='C02:Layer[%s]' % cname)
                    attempt(R, W, 'layer.%s%s = %s' % (pname, sh, aname),
                            prep, (mk, lambda I, o, a: I.setattr(
                                wrap_layer(W, I, o[0]), pname, a)),
                            key='C02:layer.%s' % pname)
            attempt(R, W, '%s%s.is_animated = anything' % (cname, sh), prep,
                    (lambda I: arg('anything'), lambda I, o, a: I.setattr(
                        value_object(W, I, kind, o[1]), 'is_animated', a)),
                    key='C02:%s.is_animated' % cname)
            timeline_edits(R, W, kind, cname, sh, prep)
    members(R, W)
    attributes(R, W)
    groups(R, W)


def timeline_edits(R, W, kind, cname, sh, prep):
    def tl(I, o):
        return I.getattr(value_object(W, I, kind, o[1]), 'timeline')

    other = 'string' if kind != 'string' else 'real'

    def foreign(I):
        return time_of_other_document(W, I)

    makers = [
        ('anything', lambda I: arg('anything')),
        ('an object', lambda I: arg('object', 'object')),
        ('a str', lambda I: arg('text', 'str')),
        ('a waypoint', lambda I: waypoint(W, I, 60, kind)),
        ('a waypoint of another type', lambda I: waypoint(W, I, 60, other)),
        ('a waypoint of another frame rate',
         lambda I: waypoint(W, I, foreign(I), kind)),
        ('a waypoint at a taken time', lambda I: waypoint(W, I, 24, kind)),
    ]
    for n, mk in list(makers):
        makers.append(('a list of a waypoint and %s' % n,
                       lambda I, mk=mk: I.new_list([
                           waypoint(W, I, 72, kind), mk(I)])))
        makers.append(('a list of %s and a waypoint' % n,
                       lambda I, mk=mk: I.new_list([
                           mk(I), waypoint(W, I, 72, kind)])))
    makers.append(('a list of anything', lambda I: I.new_list(
        [arg('item 0'), arg('item 1')])))
    makers.append(('a dict of anything', lambda I: I.new_dict(
        [[K(0), arg('item 0')], [K(1), arg('item 1')]])))
    makers.append(('a list of waypoints at one time', lambda I: I.new_list(
        [waypoint(W, I, 72, kind), waypoint(W, I, 72, kind)])))

    def other_timeline(k, spec=None):
        def f(I):
            n = animated_node(I, k, ('24f', '60f'), label='w')
            lay = layer_node(I, 'circle', [param_node(I, 'radius', n)])
            document(I, lay, **({'attrs': {'fps': OTHER_FPS}} if spec
                                else {}))
            return I.getattr(value_object(W, I, k, n), 'timeline')
        return f
    makers.append(('a timeline', other_timeline(kind)))
    makers.append(('a timeline of another type', other_timeline(other)))
    makers.append(('a timeline of another frame rate',
                   other_timeline(kind, 1)))
    for n, mk in makers:
        attempt(R, W, '%s%s.timeline = %s' % (cname, sh, n), prep, (
            mk, lambda I, o, a: I.setattr(
                value_object(W, I, kind, o[1]), 'timeline', a)),
            key='C02:%s.timeline =' % cname)
        if 'timeline' in n:
            continue
        attempt(R, W, '%s%s.timeline.add(%s)' % (cname, sh, n), prep, (
            mk, lambda I, o, a: method(I, tl(I, o), 'add', a)),
            key='C02:%s.timeline.add' % cname)
        if 'list' in n and not R.thorough and kind not in ('real', 'color'):
            continue
        attempt(R, W, '%s%s.timeline.add(%s, overwrite)' % (cname, sh, n),
                prep, (mk, lambda I, o, a: method(
                    I, tl(I, o), 'add', a, overwrite=TRUE)),
                key='C02:%s.timeline.add' % cname)
    for n, mk in [m for m in makers if 'list' not in m[0] and 'dict' not in
                  m[0] and 'timeline' not in m[0]] + bad(W, kind):
        attempt(R, W, '%s%s.timeline[60] = %s' % (cname, sh, n), prep, (
            mk, lambda I, o, a: I.setitem(tl(I, o), K(60), a)),
            key='C02:%s.timeline[]=' % cname)
    times = [('anything', lambda I: arg('time')),
             ('a str', lambda I: arg('time', 'str')),
             ('a number', lambda I: arg('time', 'float')),
             ('a negative number', lambda I: K(-9999)),
             ('nonsense', lambda I: K('wombat')),
             ('infinity', lambda I: K(float('inf'))),
             ('a time of another frame rate', foreign)]
    for n, mk in times:
        attempt(R, W, '%s%s.timeline[%s] = value' % (cname, sh, n), prep, (
            mk, lambda I, o, a: I.setitem(tl(I, o), a, good(I, kind))),
            key='C02:%s.timeline[]=' % cname, max_paths=None if R.thorough
            or kind == 'real' else 40)
        attempt(R, W, 'del %s%s.timeline[%s]' % (cname, sh, n), prep, (
            mk, lambda I, o, a: I.delitem(tl(I, o), a)),
            key='C02:del %s.timeline[]' % cname,
            max_paths=None if R.thorough or kind == 'real' else 40)


def members(R, W):
    """Values made of other values."""
    anything = lambda I: arg('anything')
    for kind in ('gradient', 'transformation', 'vector', 'color'):
        c = W.value_class(kind)
        if member(c, '__setitem__') is None:
            continue
        keys = {'gradient': [K(0.0), K(0.5), arg('position')],
                'transformation': [K('offset'), K('angle'), arg('key')],
                'vector': [K('x'), K(0), arg('key')],
                'color': [K('r'), K(0), arg('key')]}[kind]

        def prep(I):
            n = value_node(I, kind, 'v')
            hosted(I, kind, n)
            return value_object(W, I, kind, n)
        for k in keys:
            for aname, mk in bad(W, kind)[:16]:
                attempt(R, W, '%s[%r] = %s' % (c.name, k, aname), prep, (
                    mk, lambda I, o, a: I.setitem(o, k, a)),
                    key='C02:%s[]=' % c.name)


def attributes(R, W):
    """Every attribute of every layer class, with an unknown argument."""
    args_ = [('anything', lambda I: arg('anything')),
             ('an object', lambda I: arg('object', 'object')),
             ('None', lambda I: NONE),
             ('a str', lambda I: arg('text', 'str'))]
    seen = set()
    for t in sorted(REFERENCE):
        c = None
        for x in W.layer_classes():
            if norm_type(x.name) == norm_type(t):
                c = x
        if c is None:
            continue
        for n in descriptors(W, c):
            if n.startswith('_'):
                continue
            owner = next(k for k in c.mro if isinstance(k, ClassObj)
                         and n in k.ns)
            if (owner, n) in seen:
                continue
            seen.add((owner, n))

            def prep(I, t=t):
                lay = reference_layer(I, t, label='layer', open_=False)
                document(I, group_node(I, lay))
                return wrap_layer(W, I, lay)
            for aname, mk in args_:
                attempt(R, W, '%s.%s = %s' % (c.name, n, aname), prep, (
                    mk, lambda I, o, a: I.setattr(o, n, a)),
                    key='C02:%s.%s' % (owner.name, n), max_paths=60)
    for n in descriptors(W, W.Animation):
        if n.startswith('_'):
            continue

        def prep(I):
            return animation(W, I, layer_node(I, 'circle'))
        for aname, mk in args_ + [
                ('a time of another frame rate',
                 lambda I: time_of_other_document(W, I)),
                ('nonsense', lambda I: K('wombat'))]:
            attempt(R, W, 'Animation.%s = %s' % (n, aname), prep, (
                mk, lambda I, o, a: I.setattr(o, n, a)),
                key='C02:Animation.%s' % n, max_paths=60)


def groups(R, W):
    def in_group(I):
        inner = layer_node(I, 'circle', label='first')
        g = group_node(I, inner, layer_node(I, 'text', label='second'),
                       label='outer')
        document(I, g)
        return wrap_layer(W, I, g)

    def anim(I):
        return animation(W, I, layer_node(I, 'circle', label='first'))

    def nongroup(I):
        lay = reference_layer(I, 'circle', label='plain', open_=False)
        document(I, lay)
        return wrap_layer(W, I, lay)

    def layer_arg(I):
        n = layer_node(I, 'text', label='elsewhere')
        document(I, n)
        return wrap_layer(W, I, n)
    for who, prep in (('Group', in_group), ('Animation', anim),
                      ('Circle', nongroup)):
        for aname, mk in [
                ('anything', lambda I: arg('anything')),
                ('an object', lambda I: arg('object', 'object')),
                ('None', lambda I: NONE),
                ('a str', lambda I: arg('text', 'str')),
                ('a tag', lambda I: new_node(I, 'layer', {
                    'type': K('circle')})),
                ('a value', lambda I: value_arg(W, I, 'real')),
                ('a layer', layer_arg)]:
            attempt(R, W, '%s.append(%s)' % (who, aname), prep, (
                mk, lambda I, o, a: method(I, o, 'append', a)),
                key='C02:%s.append' % who)
            if who == 'Circle':
                continue
            for i, idx in enumerate((K(0), K(7), K(-9), arg('index'),
                                     arg('index', 'int'))):
                attempt(R, W, '%s.insert(%s, %s)' % (who, idx, aname), prep, (
                    mk, lambda I, o, a: method(I, o, 'insert', idx, a)),
                    key='C02:%s.insert' % who)
