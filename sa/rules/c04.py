"""C04: a stored value reads back as the value that was assigned."""
from .flow import *

RULE = ('Value-flow analysis: on every path, each way of reading a component '
        'of a value yields the term which was assigned to that component, '
        'changed only by conversions which keep the required precision.')
SCOPE = ('Every implemented value class; written by the constructor, the '
         'value, field, subscript, shortcut field, the timeline, and by '
         'making a value animated and plain again; every accepted notation; '
         'read by every accessor of the class. Contents are unknown, except '
         'hexadecimal colours, times and positions of stops, which are '
         'constants.')
ASSUMPTIONS = [
    'printing a float with str() or at least 17 significant figures and '
    'reading it back is exact (IEEE 754)',
    'component names are distinct constants']
MINIMUM = 800
PARALLEL = True

DIGITS = {'real': 10, 'angle': 10, 'vector': 10, 'color': 6}


###### what was written: a dict from role to abstract value

def inputs(W, kind):
    """Triples: a name, what makes the argument, what should be read."""
    A = lambda n, *t: arg(n, *(t or ('float',)))
    scalar = lambda x: (x, {'': x})
    r = []

    def add(name, f):
        r.append((name, f))
    if kind in ('real', 'angle'):
        add('a float', lambda I: scalar(A('new')))
        add('an int', lambda I: scalar(A('new', 'int')))
        for c in (0.0, 1.5, -2.25, 1e-9, 123456.0000000001, 1e15,
                  -1e-5, 1e22, 1 / 3, -123456789.123456789, 5e-324, 1e300):
            add('%r' % c, lambda I, c=c: scalar(K(c)))
        add('text', lambda I: (K('17.25'), {'': K(17.25)}))
    elif kind in ('integer', 'blend'):
        add('an int', lambda I: scalar(A('new', 'int')))
        for c in (0, 1, -7, 12345678901234567890, 2**53 + 1, -2**63 - 1):
            add('%r' % c, lambda I, c=c: scalar(K(c)))
    elif kind == 'bool':
        add('a bool', lambda I: scalar(A('new', 'bool')))
        add('true', lambda I: scalar(TRUE))
        add('false', lambda I: scalar(FALSE))
        add('an int', lambda I: scalar(A('new', 'int')))
        for c in ('true', 'false', 'True', 'FALSE'):
            add('%r' % c, lambda I, c=c: (K(c), {
                '': TRUE if c.lower() == 'true' else FALSE}))
    elif kind == 'string':
        add('a str', lambda I: scalar(A('new', 'str')))
        for c in ('', 'x', ' two words ', 'A\nB', 'ÉΩ', '<&>"', 'None',
                  'true', 'x' * 300, 'x\n', '\nx', '\n', '\tx\t', '  ', '0', '007',
                  '1.50', 'a\u00a0b', '\u2028', '-', '\U0001f600'):
            add('%.20r' % c, lambda I, c=c: scalar(K(c)))
    elif kind == 'time':
        for c, f in ((0, 0), (12, 12), ('3s', 72), ('1s 1f', 25),
                     ('36f', 36)):
            add('%r' % (c,), lambda I, c=c, f=f: (K(c), {'frames': K(f)}))
        add('a T', lambda I: (I.call(W.T, [K(12)], {}), {'frames': K(12)}))
    elif kind == 'vector':
        x, y = A('new.x'), A('new.y')
        add('a tuple', lambda I: (Tup([x, y]), {'x': x, 'y': y}))
        add('whole numbers', lambda I: (
            Tup([A('new.x', 'int'), A('new.y', 'int')]), {
                'x': A('new.x', 'int'), 'y': A('new.y', 'int')}))
        add('a dict', lambda I: (
            I.new_dict([[K('x'), x], [K('y'), y]]), {'x': x, 'y': y}))
        add('a dict the other way round', lambda I: (
            I.new_dict([[K('y'), y], [K('x'), x]]), {'x': x, 'y': y}))
        add('constants', lambda I: (
            Tup([K(-1.5), K(2)]), {'x': K(-1.5), 'y': K(2)}))
        add('a dict of texts', lambda I: (
            I.new_dict([[K('x'), K('-1.5')], [K('y'), K('2')]]), {
                'x': K(-1.5), 'y': K(2)}))
        add('small constants', lambda I: (
            Tup([K(1e-9), K(1e12)]), {'x': K(1e-9), 'y': K(1e12)}))
    elif kind == 'color':
        c = [A('new.' + d) for d in 'rgba']
        add('four numbers', lambda I: (Tup(c), dict(zip('rgba', c))))
        add('three numbers', lambda I: (
            Tup(c[:3]), dict(zip('rgba', c[:3] + [K(1.0)]))))
        ints = [A('new.' + d, 'int') for d in 'rgba']
        add('whole numbers', lambda I: (Tup(ints), dict(zip('rgba', ints))))
        add('constants', lambda I: (
            Tup([K(0.5), K(-0.25), K(1.75), K(0.000001)]), {
                'r': K(0.5), 'g': K(-0.25), 'b': K(1.75),
                'a': K(0.000001)}))
        for h in ('#12345678', '12345678', '#abcdef', 'ABCDEF', '#00ff0080',
                  '#ffffffff', '01fe80'):
            d = h.lstrip('#')
            if len(d) == 6:
                d += 'ff'
            add(h, lambda I, h=h, d=d: (K(h), {
                q: K(int(d[i * 2:i * 2 + 2], 16) / 255)
                for i, q in enumerate('rgba')}))
    elif kind == 'gradient':
        def grad(*ps):
            def f(I):
                e, w = [], {}
                for p in ps:
                    c = [A('new%s.%s' % (p, d)) for d in 'rgba']
                    e.append([K(p), Tup(c)])
                    w.update({(p, d): x for d, x in zip('rgba', c)})
                return I.new_dict(e), w
            return f
        add('two stops', grad(0.0, 1.0))
        add('the other way round', grad(1.0, 0.0))
        add('four stops', grad(0.5, 0.0, 1.0, 0.25))
        add('whole positions', grad(0, 1))
        add('beyond', grad(-1.5, 0.125, 2.0))
        add('six figures', grad(0.123456, 0.123457, 0.654321))

        def mixed(I):
            c = [A('new.' + d) for d in 'rgba']
            col = value_arg(W, I, 'color', label='other')
            w = {(0.5, d): x for d, x in zip('rgba', c)}
            w.update({(0.0, d): K(x) for d, x in zip(
                'rgba', (1.0, 0.0, 0.0, 1.0))})
            w.update({(1.0, d): Opq(('doc', 'other.' + d), {'str'})
                      for d in 'rgba'})
            return I.new_dict([[K(0.0), K('#ff0000')], [K(0.5), Tup(c)],
                               [K(1.0), col]]), w
        add('mixed notations', mixed)
    elif kind == 'transformation':
        def comp(*order):
            def f(I):
                w = {('offset', 'x'): A('new.offset.x'),
                     ('offset', 'y'): A('new.offset.y'),
                     ('angle', ''): A('new.angle'),
                     ('skew_angle', ''): A('new.skew_angle'),
                     ('scale', 'x'): A('new.scale.x'),
                     ('scale', 'y'): A('new.scale.y')}
                e = []
                for k in order:
                    if (k, '') in w:
                        e.append([K(k), w[k, '']])
                    else:
                        e.append([K(k), Tup([w[k, 'x'], w[k, 'y']])])
                return I.new_dict(e), w
            return f
        add('a dict', comp('offset', 'angle', 'skew_angle', 'scale'))
        add('a dict in another order', comp(
            'scale', 'skew_angle', 'angle', 'offset'))

        def values(I):
            w, e = {}, []
            for k, t in (('offset', 'vector'), ('angle', 'angle'),
                         ('skew_angle', 'angle'), ('scale', 'vector')):
                e.append([K(k), value_arg(W, I, t, label='other.' + k)])
                for c in ('xy' if t == 'vector' else ('',)):
                    w[k, c] = Opq(('doc', 'other.' + k + (
                        '.' + c if c else '')), {'str'})
            return I.new_dict(e), w
        add('a dict of values', values)
    elif kind == 'canvas':
        def layers(n):
            def f(I):
                ls = [layer_node(I, 'circle', attrs=[('desc', K('%d' % i))],
                                 label='new layer %d' % i)
                      for i in range(n)]
                for l in ls:
                    dom.adopt(I, l)
                return (I.new_list([wrap_layer(W, I, l) for l in ls]),
                        {i: l for i, l in enumerate(ls)})
            return f
        for n in (0, 1, 2, 3):
            add('%d layers' % n, layers(n))
    if kind not in ('canvas', 'time'):
        def value(I):
            v = value_arg(W, I, kind, label='other')
            D = lambda n: Opq(('doc', n), {'str'})
            if kind == 'bool':
                w = {'': TRUE}
            elif kind == 'vector':
                w = {d: D('other.' + d) for d in 'xy'}
            elif kind == 'color':
                w = {d: D('other.' + d) for d in 'rgba'}
            elif kind == 'gradient':
                w = {(float(i), d): D('other[%d].%s' % (i, d))
                     for i in range(2) for d in 'rgba'}
            elif kind == 'transformation':
                w = {}
                for k, t in (('offset', 'xy'), ('angle', ('',)),
                             ('skew_angle', ('',)), ('scale', 'xy')):
                    for c in t:
                        w[k, c] = D('other.' + k + ('.' + c if c else ''))
            else:
                w = {'': D('other')}
            return v, w
        add('another value', value)
    return r


###### reading

def read(W, I, kind, v, only=None):
    """Yields (how, role, what was read)."""
    c = v.cands[0]

    def has(n):
        return member(c, n) is not None
    if kind in ('real', 'angle', 'integer', 'blend', 'bool', 'string'):
        yield '.value', '', I.getattr(v, 'value')
        if kind in ('real', 'angle') and has('__float__'):
            yield 'float()', '', method(I, v, '__float__')
        if kind in ('integer', 'blend') and has('__int__'):
            yield 'int()', '', method(I, v, '__int__')
            if has('__float__'):
                yield 'float()', '', method(I, v, '__float__')
        if kind == 'bool' and has('__bool__'):
            yield 'bool()', '', method(I, v, '__bool__')
        if kind == 'string':
            yield 'str()', '', method(I, v, '__str__')
    elif kind == 'time':
        t = I.getattr(v, 'value')
        yield '.value.frames', 'frames', I.getattr(t, 'frames')
    elif kind == 'vector':
        for d in 'xy':
            yield '.' + d, d, I.getattr(v, d)
            yield '[%r]' % d, d, I.getitem(v, K(d))
            if has('get'):
                yield '.get(%r)' % d, d, method(I, v, 'get', K(d))
        for i, d in enumerate('xy'):
            yield '[%d]' % i, d, I.getitem(v, K(i))
        if has('as_tuple'):
            t = method(I, v, 'as_tuple')
            for i, d in enumerate('xy'):
                yield '.as_tuple()', d, I.getitem(t, K(i))
        if has('items'):
            for p in I.iterate(method(I, v, 'items')):
                k = I.norm(I.getitem(p, K(0)))
                if isinstance(k, K):
                    yield '.items()', k.v, I.getitem(p, K(1))
        d = I.getattr(v, 'value')
        for k in 'xy':
            yield '.value', k, I.getitem(d, K(k))
        if has('keys') and has('values'):
            names = [I.norm(k) for k in I.iterate(method(I, v, 'keys'))]
            vals = I.iterate(method(I, v, 'values'))
            for k, x in zip(names, vals):
                if isinstance(k, K):
                    yield '.values()', k.v, x
            if has('__iter__'):
                for k, x in zip(names, I.iterate(v)):
                    if isinstance(k, K):
                        yield 'iter()', k.v, x
    elif kind == 'color':
        t = method(I, v, 'as_tuple')
        for i, d in enumerate('rgba'):
            yield '.as_tuple()', d, I.getitem(t, K(i))
    elif kind == 'gradient':
        def colours(how, p, c):
            p = I.norm(p)
            if not isinstance(p, K):
                return
            t = method(I, c, 'as_tuple')
            for i, d in enumerate('rgba'):
                yield how, (p.v, d), I.getitem(t, K(i))
        for p in I.iterate(method(I, v, 'items')):
            yield from colours('.items()', I.getitem(p, K(0)),
                               I.getitem(p, K(1)))
        for k, c in zip(I.iterate(method(I, v, 'keys')),
                        I.iterate(method(I, v, 'values'))):
            yield from colours('.keys(), .values()', k, c)
        for k in I.iterate(v):
            yield from colours('[]', k, I.getitem(v, k))
        d = I.getattr(v, 'value')
        for k in I.iterate(method(I, d, 'keys')):
            yield from colours('.value', k, I.getitem(d, k))
    elif kind == 'transformation':
        def part(how, k, x):
            if isinstance(x, Inst):
                kk = 'vector' if k in ('offset', 'scale') else 'angle'
                for h, role, g in read(W, I, kk, x):
                    yield how + h, (k, role), g
        for k in ('offset', 'angle', 'skew_angle', 'scale'):
            yield from part('.' + k, k, I.getattr(v, k))
            yield from part('[]', k, I.getitem(v, K(k)))
            if has('get'):
                yield from part('.get()', k, method(I, v, 'get', K(k)))
            yield from part('.value', k, I.getitem(
                I.getattr(v, 'value'), K(k)))
        for p in I.iterate(method(I, v, 'items')):
            k = I.norm(I.getitem(p, K(0)))
            if isinstance(k, K):
                yield from part('.items()', k.v, I.getitem(p, K(1)))
        for k, x in zip(I.iterate(method(I, v, 'keys')),
                        I.iterate(method(I, v, 'values'))):
            k = I.norm(k)
            if isinstance(k, K):
                yield from part('.keys(), .values()', k.v, x)
    elif kind == 'canvas':
        for i, l in enumerate(I.iterate(I.getattr(v, 'value'))):
            yield '.value', i, tag_of(I, l)


def check(W, R):
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        type_, pname = HOSTS[kind]
        for aname, mk in inputs(W, kind):
            for via in ways(kind):
                unit(R, W, kind, c, pname, aname, mk, via)
    more(W, R)
    whole_values(W, R)
    empty(W, R)


EMPTY = {'real': {'': K(0.0)}, 'angle': {'': K(0.0)}, 'integer': {'': K(0)},
         'blend': {'': K(0)}, 'bool': {'': FALSE}, 'string': {'': K('')},
         'time': {'frames': K(0)},
         'color': {d: K(1.0) for d in 'rgba'}, 'canvas': {}}


def empty(W, R):
    """Values made from nothing."""
    for kind, want in EMPTY.items():
        c = W.value_class(kind)
        for how in ('no arguments', 'an empty tuple', 'None'):
            if how == 'None' and kind not in ('real', 'angle', 'integer',
                                              'blend', 'bool', 'time'):
                continue
            who = '%s from %s' % (c.name, how)

            def run(I, kind=kind, want=want, how=how, who=who, c=c):
                try:
                    v = I.call(c, [] if how == 'no arguments' else [
                        NONE if how == 'None' else Tup([])], {})
                except PyRaise as e:
                    refused(R, I, e, who, c)
                    return
                judge(R, W, I, kind, v, want, who, c)
            R.explore(who, run, 20)


def whole_values(W, R):
    """Assigning a value by subscript: of that type, animation and all."""
    for kind in IMPLEMENTED:
        if kind in ('blend', 'canvas'):
            continue
        c = W.value_class(kind)
        pname = HOSTS[kind][1]
        for other in IMPLEMENTED:
            o = W.value_class(other)
            if o is c or c in o.mro or other in ('blend', 'canvas') or \
                    kind == 'transformation' and other == kind:
                continue
            who = '%s by subscript from a %s' % (c.name, o.name)

            def run(I, other=other, who=who):
                lay = hosted(I, kind, value_node(I, kind, 'old'))
                a = value_arg(W, I, other)
                R.decided(who)
                try:
                    I.setitem(wrap_layer(W, I, lay), K(pname), a)
                except PyRaise as e:
                    if e.name != 'TypeError':
                        R.violation('C04:%s:type' % c.name, '%s raises %s '
                                    'rather than TypeError' % (who, e.name),
                                    e.loc)
                    return
                R.violation('C04:%s:type' % c.name, '%s is accepted' % who,
                            last_mutation(I) or where(W, W.Layer))
            R.explore(who, run, 40)
        if kind == 'transformation':
            continue
        who = '%s by subscript from an animated one' % c.name

        def run(I, who=who):
            lay = hosted(I, kind, value_node(I, kind, 'old'))
            a = value_arg(W, I, kind, animated=True)
            R.decided(who)
            try:
                l = wrap_layer(W, I, lay)
                I.setitem(l, K(pname), a)
                got = I.getitem(l, K(pname))
            except PyRaise as e:
                refused(R, I, e, who, c)
                return
            d = tree_diff(I, tag_of(I, got), tag_of(I, a))
            if d:
                R.violation('C04:%s:animation' % c.name, 'after %s, its '
                            'animation isn\'t the other\'s: %s' % (who, d),
                            last_mutation(I) or where(W, W.Layer))
        R.explore(who, run, 40)


def ways(kind):
    r = ['value', 'value (animated)', 'constructor', 'attribute', 'subscript']
    if kind != 'canvas':
        r += ['timeline', 'timeline of a plain value']
    if kind not in ('canvas', 'transformation'):
        r += ['animating', 'animating and back']
    elif kind == 'transformation':
        r += ['animating and back']
    return r


def unit(R, W, kind, c, pname, aname, mk, via):
    who = '%s from %s by %s' % (c.name, aname, via)

    def run(I):
        n = animated_node(I, kind, label='old') \
            if via in ('value (animated)', 'timeline') \
            else value_node(I, kind, 'old')
        lay = hosted(I, kind, n)
        a, want = mk(I)
        cls = c
        try:
            if via == 'constructor':
                v = I.call(c, [a], {})
            elif via in ('attribute', 'subscript'):
                l = wrap_layer(W, I, lay)
                if via == 'attribute':
                    I.setattr(l, pname, a)
                    v = I.getattr(wrap_layer(W, I, lay), pname)
                else:
                    I.setitem(l, K(pname), a)
                    v = I.getitem(wrap_layer(W, I, lay), K(pname))
            elif via.startswith('timeline'):
                v0 = value_object(W, I, kind, n)
                I.setitem(I.getattr(v0, 'timeline'), K('36f'), a)
                w = I.getitem(I.getattr(value_object(
                    W, I, kind, n), 'timeline'), K('36f'))
                v = I.getattr(w, 'value')
            else:
                v = value_object(W, I, kind, n)
                I.setattr(v, 'value', a)
                if via.startswith('animating'):
                    I.setattr(v, 'is_animated', TRUE)
                    if via == 'animating':
                        w = I.getitem(I.getattr(v, 'timeline'), K(0))
                        v = I.getattr(w, 'value')
                    else:
                        I.setattr(v, 'is_animated', FALSE)
        except PyRaise as e:
            if kind == 'time' and (via in ('constructor', 'subscript') or
                                   via.startswith('timeline')):
                return      # there's no telling how long a second is
            if kind == 'transformation' and (
                    via.startswith('timeline') or '(animated)' in via):
                return      # animated composites aren't implemented
            refused(R, I, e, who, c)
            return
        if not isinstance(v, Inst):
            return
        k2 = kind
        judge(R, W, I, k2, v, want, who, c)
    R.explore(who, run, 400 if R.thorough else 40)


def refused(R, I, e, who, c):
    """What can be assigned mustn't be refused."""
    if excused(e):
        return
    R.decided('%s is accepted' % who)
    R.violation('C04:%s:refused' % c.name, '%s raises %s' % (who, e.name),
                e.loc)


def judge(R, W, I, kind, v, want, who, c):
    seen = {}
    try:
        for how, role, got in read(W, I, kind, v):
            seen.setdefault(how, set()).add(role)
            ob = '%s read by %s' % (who, how)
            R.decided(ob)
            if role not in want:
                R.violation('C04:%s:%s' % (c.name, how),
                            'after %s, reading with %s gives something at '
                            '%s, where nothing was put' % (who, how, role),
                            last_mutation(I) or where(W, c))
                continue
            if isinstance(got, NodeObj):
                # subscripts put in a copy
                if got is not want[role] and tree_diff(
                        I, got, want[role]):
                    R.violation('C04:%s:%s' % (c.name, how),
                                'after %s, reading with %s gives another '
                                'layer at %s' % (who, how, role),
                                last_mutation(I) or where(W, c))
                continue
            d, k = precision(kind, role)
            s = same(I, got, want[role], d, k)
            if s is UNKNOWN:
                R.undecided(ob)
            elif s is not OK:
                R.violation(
                    'C04:%s:%s' % (c.name, how),
                    'after %s, what is read with %s %s %s: %s' % (
                        who, how, 'for %s' % (role,) if role != '' else '',
                        s, shown(I, got)), last_mutation(I) or where(W, c))
    except PyRaise as e:
        if not e.implicit:
            R.violation('C04:%s:raises' % c.name,
                        'after %s, it can\'t be read: %s' % (who, e.name),
                        e.loc)
        return
    for how, roles in seen.items():
        if how.startswith('[') and how != '[]':
            continue
        if how.startswith('.get(') or how in ('.x', '.y'):
            continue
        if kind == 'transformation':
            continue
        missing = set(want) - roles
        if missing:
            R.violation('C04:%s:%s' % (c.name, how),
                        'after %s, reading with %s leaves out %s' % (
                            who, how, sorted(map(str, missing))),
                        last_mutation(I) or where(W, c))
    if not seen and want:
        R.violation('C04:%s:empty' % c.name,
                    'after %s, nothing can be read' % who,
                    last_mutation(I) or where(W, c))


def where(W, c):
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def precision(kind, role):
    """Decimal places, and what kind of conversion is acceptable."""
    if kind in ('real', 'angle', 'vector', 'transformation'):
        return 10, 'real'
    if kind in ('color', 'gradient'):
        return 6, 'real'
    if kind in ('integer', 'blend'):
        return 10, 'integer'
    if kind == 'time':
        return 3, 'real'
    return 10, kind


def more(W, R):
    """Shortcuts, and changing one stop of a gradient."""
    A = lambda n: arg(n, 'float')
    group = W.cls('Group')
    keys = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle',
            'scale': 'vector'}
    for k, kind in keys.items():
        for rd in ('shortcut', 'transformation', 'subscript'):
            who = 'Group.%s, read back by %s' % (k, rd)

            def run(I, k=k, kind=kind, rd=rd, who=who):
                n = value_node(I, 'transformation', 'old')
                lay = hosted(I, 'transformation', n)
                a = Tup([A('new.x'), A('new.y')]) if kind == 'vector' \
                    else A('new')
                l = wrap_layer(W, I, lay)
                try:
                    I.setattr(l, k, a)
                except PyRaise as e:
                    refused(R, I, e, who, group)
                    return
                D = lambda n: Opq(('doc', n), {'str'})
                try:
                    l = wrap_layer(W, I, lay)
                    if rd == 'shortcut':
                        get = lambda q: I.getattr(l, q)
                    elif rd == 'subscript':
                        t = I.getitem(l, K('transformation'))
                        get = lambda q: I.getitem(t, K(q))
                    else:
                        t = I.getattr(l, 'transformation')
                        get = lambda q: I.getattr(t, q)
                    got = {q: get(q) for q in keys}
                except PyRaise as e:
                    R.violation('C04:Group.%s:raises' % k,
                                'after assigning Group.%s, %s' % (k, e),
                                e.loc)
                    return
                for q, qk in keys.items():
                    new = q == k
                    if qk == 'vector':
                        w = {d: A('new.' + d) if new else
                             D('old.%s.%s' % (q, d)) for d in 'xy'}
                    else:
                        w = {'': A('new') if new else D('old.' + q)}
                    judge(R, W, I, qk, got[q], w, '%s: %s' % (who, q), group)
            R.explore(who, run, 100)
    for pos in (0.0, 0.5, 2.0):
        who = 'Gradient[%s]' % pos

        def run(I, pos=pos, who=who):
            n = value_node(I, 'gradient', 'old')
            hosted(I, 'gradient', n)
            v = value_object(W, I, 'gradient', n)
            a = [A('new.' + d) for d in 'rgba']
            try:
                I.setitem(v, K(pos), Tup(a))
            except PyRaise as e:
                refused(R, I, e, who, W.value_class('gradient'))
                return
            w = {(float(i), d): Opq(('doc', 'old[%d].%s' % (i, d)), {'str'})
                 for i in range(2) for d in 'rgba'}
            w.update({(pos, d): x for d, x in zip('rgba', a)})
            judge(R, W, I, 'gradient', value_object(W, I, 'gradient', n), w,
                  who, W.value_class('gradient'))
        R.explore(who, run, 100)
