"""C06: assigning a value or waypoint copies it."""
from .args import *

RULE = ('Alias analysis: on every path through an assignment of something '
        'which lives in a document, its elements are as they were and where '
        'they were, and no element is reachable both from it and from where '
        'it was assigned to.')
SCOPE = ('Values of every implemented class, plain and animated, waypoints '
         'and timelines, from another document, another layer of the same '
         'document or no document; assigned through values, fields, '
         'subscripts, shortcuts, constructors, inside dicts and tuples, and '
         'to timelines by every operation.')
ASSUMPTIONS = ['layers are moved, not copied, by design; only values and '
               'waypoints are covered']
MINIMUM = 400
PARALLEL = True


def tree(n, out=None):
    out = [] if out is None else out
    out.append(n)
    for c in getattr(n, 'children', ()):
        if isinstance(c, NodeObj):
            tree(c, out)
    return out


def root_of(n):
    while n.parent is not None:
        n = n.parent
    return n


def make(W, I, kind, where, animated, label='other'):
    """
    A value in a document. Returns its element, and the top of what mustn't
    change.
    """
    n = animated_node(I, kind, ('24f', '60f'), label=label) if animated \
        else value_node(I, kind, label)
    type_, pname = HOSTS[kind]
    lay = layer_node(I, type_, [param_node(I, pname, n)], label=label)
    if where == 'another document':
        document(I, lay)
        return n, root_of(lay)
    if where == 'no document':
        n.parent.children.remove(n)
        n.parent = None
        dom.adopt(I, n)
        return n, n
    return n, lay


def unit(R, W, who, kind, where, animated, op, key, target_animated=False):
    def run(I):
        src, top = make(W, I, kind, where, animated)
        type_, pname = HOSTS[kind]
        dst = animated_node(I, kind, ('12f', '48f'), label='old') \
            if target_animated else value_node(I, kind, 'old')
        lay = layer_node(I, type_, [param_node(I, pname, dst)], label='to')
        if where == 'the same document':
            document(I, top, lay)
        else:
            document(I, lay)
        if changes(I):
            return
        before = tree(top)
        try:
            extra = op(I, src, lay, dst, pname)
        except PyRaise:
            return
        R.decided(who)
        ch = dom.document_changes(I, lambda n: any(n is b for b in before))
        if ch:
            R.violation(key, '%s changes what was assigned: %s' % (
                who, '; '.join(ch[:3])), last_mutation(I))
            return
        there = tree(lay)
        for x in extra if isinstance(extra, list) else ():
            if isinstance(x, Inst):
                x = tag_of(I, x)
            if isinstance(x, NodeObj):
                there += tree(x)
        for n in tree(top):
            if any(n is m for m in there):
                R.violation(key, '%s: the <%s> element is in both places '
                            'afterwards' % (who, shown(I, n.name)),
                            last_mutation(I) or where_(W, kind))
                return
    R.explore(who, run, 300 if R.thorough else 40)


def where_(W, kind):
    c = W.value_class(kind)
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


PLACES = ('another document', 'the same document', 'no document')


def check(W, R):
    def vo(I, kind, n):
        return value_object(W, I, kind, n)

    def tl(I, kind, n):
        return I.getattr(vo(I, kind, n), 'timeline')

    def first(I, kind, n):
        ws = I.iterate(tl(I, kind, n))
        if not ws:
            raise PyRaise(I.make_exc('LookupError'))
        return ws[0]
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        for place in PLACES:
            for animated in (False, True):
                sh = '%s%s from %s' % (
                    c.name, ' (animated)' if animated else '', place)
                ops = {
                    'value.value =': lambda I, s, l, d, p: I.setattr(
                        vo(I, kind, d), 'value', vo(I, kind, s)),
                    'layer.x =': lambda I, s, l, d, p: I.setattr(
                        wrap_layer(W, I, l), p, vo(I, kind, s)),
                    'layer[x] =': lambda I, s, l, d, p: I.setitem(
                        wrap_layer(W, I, l), K(p), vo(I, kind, s)),
                    'timeline[t] =': lambda I, s, l, d, p: I.setitem(
                        tl(I, kind, d), K(30), vo(I, kind, s)),
                    'new waypoint into timeline': waypoint_of(W, kind),
                    'new waypoint over another': waypoint_of(
                        W, kind, overwrite=True),
                }
                if kind == 'canvas':
                    # a list of layers is moved
                    del ops['value.value ='], ops['layer.x =']
                else:
                    ops['a new value'] = lambda I, s, l, d, p: [I.call(
                        c, [vo(I, kind, s)], {})]
                for name, op in ops.items():
                    for ta in (False, True):
                        unit(R, W, '%s %s%s' % (
                            name, sh, ', target animated' if ta else ''),
                            kind, place, animated, op,
                            'C06:%s:%s' % (c.name, name), ta)
            # things with timelines
            ops = {
                'timeline = timeline': lambda I, s, l, d, p: I.setattr(
                    vo(I, kind, d), 'timeline', tl(I, kind, s)),
                'timeline = list': lambda I, s, l, d, p: I.setattr(
                    vo(I, kind, d), 'timeline', I.new_list(
                        I.iterate(tl(I, kind, s)))),
                'timeline = dict': lambda I, s, l, d, p: I.setattr(
                    vo(I, kind, d), 'timeline', I.new_dict(
                        [[I.getitem(x, K(0)), I.getitem(x, K(1))]
                         for x in I.iterate(method(
                             I, tl(I, kind, s), 'items'))])),
                'timeline.add(waypoint)': lambda I, s, l, d, p: method(
                    I, tl(I, kind, d), 'add', first(I, kind, s)) and None,
                'timeline.add(list)': lambda I, s, l, d, p: method(
                    I, tl(I, kind, d), 'add', I.new_list(I.iterate(
                        tl(I, kind, s)))) and None,
                'timeline += waypoint': lambda I, s, l, d, p: I.setattr(
                    vo(I, kind, d), 'timeline', method(
                        I, tl(I, kind, d), '__iadd__', first(I, kind, s))),
                'timeline[t] = waypoint': lambda I, s, l, d, p: I.setitem(
                    tl(I, kind, d), K(30), first(I, kind, s)),
                'timeline[t] = waypoint.value': lambda I, s, l, d, p:
                    I.setitem(tl(I, kind, d), K(30), I.getattr(
                        first(I, kind, s), 'value')),
                'layer[x] = waypoint.value': lambda I, s, l, d, p: I.setitem(
                    wrap_layer(W, I, l), K(p), I.getattr(
                        first(I, kind, s), 'value')),
            }
            for name, op in ops.items():
                for ta in (False, True):
                    unit(R, W, '%s of %s from %s%s' % (
                        name, c.name, place,
                        ', target animated' if ta else ''),
                        kind, place, True, op,
                        'C06:%s:%s' % (c.name, name), ta)
        waypoint_itself(R, W, kind, c)
        animating(R, W, kind, c)
    parts(R, W)


def waypoint_of(W, kind, overwrite=False):
    def op(I, s, l, d, p):
        w = I.call(W.Waypoint, [], {
            'time': K(12 if overwrite else 30),
            'value': value_object(W, I, kind, s)})
        t = I.getattr(value_object(W, I, kind, d), 'timeline')
        method(I, t, 'add', w, **({'overwrite': TRUE} if overwrite else {}))
    return op


def waypoint_itself(R, W, kind, c):
    """
    What a waypoint keeps isn't what's in the document, and giving it another
    time leaves the one it was copied to alone.
    """
    for how in ('add', '[]=', '='):
        who = 'waypoint of %s kept after timeline %s' % (c.name, how)

        def run(I, how=how, who=who):
            dst = animated_node(I, kind, ('12f', '48f'), label='old')
            hosted(I, kind, dst)
            n = value_node(I, kind, 'mine')
            dom.adopt(I, n)
            w = I.call(W.Waypoint, [], {
                'time': K(30), 'value': value_object(W, I, kind, n)})
            v = value_object(W, I, kind, dst)
            t0 = I.getattr(w, 'time')
            f0 = term_of(I.norm(I.getattr(t0, 'frames')))
            try:
                t = I.getattr(v, 'timeline')
                if how == 'add':
                    method(I, t, 'add', w)
                elif how == '[]=':
                    I.setitem(t, K(36), w)
                else:
                    I.setattr(v, 'timeline', I.new_list([w]))
            except PyRaise:
                return
            R.decided(who)
            key = 'C06:%s:waypoint %s' % (c.name, how)
            mine = tag_of(I, I.getattr(w, 'value'))
            there = tree(dst)
            if any(x is m for x in tree(mine) for m in there):
                R.violation(key, '%s: its value is the element in the '
                            'document' % who, last_mutation(I))
            if I.getattr(w, 'time') is not t0:
                f1 = term_of(I.norm(I.getattr(I.getattr(w, 'time'),
                                              'frames')))
                if f1 != f0:
                    R.violation(key, '%s: the waypoint itself was moved to '
                                'another time' % who, last_mutation(I))
            ch = dom.document_changes(I, lambda x: any(
                x is b for b in tree(n)))
            if ch:
                R.violation(key, '%s changes the waypoint\'s value: %s' % (
                    who, ch[0]), last_mutation(I))
        R.explore(who, run, 100)


def animating(R, W, kind, c):
    """Making a value plain copies the first waypoint's value."""
    if kind == 'canvas':
        return
    who = '%s.is_animated = False' % c.name

    def run(I):
        dst = animated_node(I, kind, ('12f', '48f'), label='old')
        hosted(I, kind, dst)
        v = value_object(W, I, kind, dst)
        ws = I.iterate(I.getattr(v, 'timeline'))
        try:
            I.setattr(v, 'is_animated', FALSE)
        except PyRaise:
            return
        R.decided(who)
        there = tree(tag_of(I, v))
        for w in ws:
            t = tag_of(I, I.getattr(w, 'value'))
            if any(x is m for x in tree(t) for m in there):
                R.violation('C06:%s:is_animated' % c.name, '%s: the value '
                            'has the element of a waypoint that was read '
                            'before' % who, last_mutation(I))
    R.explore(who, run, 60)


def parts(R, W):
    """Values inside a dict, a shortcut, or a stop of a gradient."""
    for place in PLACES:
        for key_, sub in (('offset', 'vector'), ('angle', 'angle'),
                          ('skew_angle', 'angle'), ('scale', 'vector')):
            def into_dict(I, s, part=key_):
                e = [[K('offset'), Tup([K(1.0), K(2.0)])],
                     [K('angle'), K(3.0)], [K('skew_angle'), K(4.0)],
                     [K('scale'), Tup([K(5.0), K(6.0)])]]
                for x in e:
                    if x[0].v == part:
                        x[1] = s
                return I.new_dict(e)
            for way in ('value', 'attribute', 'subscript', 'new', 'shortcut',
                        'shortcut.value', 'from transformation'):
                part_unit(R, W, place, 'transformation', sub, key_, way,
                          into_dict)
        for way in ('value', 'attribute', 'subscript', 'new', 'item',
                    'from gradient'):
            def into(I, s):
                return I.new_dict([[K(0.0), K('#ff0000')], [K(1.0), s]])
            part_unit(R, W, place, 'gradient', 'color', 1.0, way, into)


def part_unit(R, W, place, kind, sub, key_, way, into):
    c = W.value_class(kind)
    who = '%s of %s from a %s value in %s, by %s' % (
        key_, c.name, sub, place, way)

    def run(I):
        s, top = make(W, I, sub, place, False)
        if way.startswith('from '):
            s, top = make(W, I, kind, place, False)
        dst = value_node(I, kind, 'old')
        type_, pname = HOSTS[kind]
        lay = layer_node(I, type_, [param_node(I, pname, dst)], label='to')
        if place == 'the same document':
            document(I, top, lay)
        else:
            document(I, lay)
        before = tree(top)
        v = value_object(W, I, kind, dst)
        new = None
        try:
            if way.startswith('from '):
                sv = value_object(W, I, kind, s)
                src = I.getitem(sv, K(key_))
                a = into(I, src)
            else:
                src = value_object(W, I, sub, s)
                a = into(I, src)
            if way == 'value' or way.startswith('from '):
                I.setattr(v, 'value', a)
            elif way == 'attribute':
                I.setattr(wrap_layer(W, I, lay), pname, a)
            elif way == 'subscript':
                I.setitem(wrap_layer(W, I, lay), K(pname), a)
            elif way == 'new':
                new = I.call(c, [a], {})
            elif way == 'item':
                I.setitem(v, K(key_), src)
            elif way == 'shortcut':
                I.setattr(wrap_layer(W, I, lay), key_, src)
            else:
                I.setattr(I.getattr(wrap_layer(W, I, lay), key_), 'value',
                          src)
        except PyRaise:
            return
        R.decided(who)
        key = 'C06:%s[%s]:%s' % (c.name, key_, way)
        ch = dom.document_changes(I, lambda n: any(n is b for b in before))
        if ch:
            R.violation(key, '%s changes what was assigned: %s' % (
                who, '; '.join(ch[:3])), last_mutation(I))
            return
        there = tree(lay)
        if new is not None:
            there += tree(tag_of(I, new))
        if any(n is m for n in tree(top) for m in there):
            R.violation(key, '%s: an element is in both places afterwards'
                        % who, last_mutation(I))
    R.explore(who, run, 60)
