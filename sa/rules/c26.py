"""C26: the ways of reading the parts of a value agree."""
from .args import *
from .c25 import make, roles, PARTS

RULE = ('Each part of the value is an unknown text of its own. Every way of '
        'reading the parts (length, keys, values, items, subscripts by name '
        'and number, get, attributes, iteration, tuples) is interpreted on '
        'all paths, and what it arrives at for each part must be derived '
        'from the text of that part, in the order the property gives; the '
        'ways of asking for a part which is not there end in the exception '
        'it names, or the default.')
SCOPE = ('Vectors, colours, gradients of two to four stops, transformations, '
         'with the parts in every order and with and without white space, '
         'in a document and outside any; timelines of none to four waypoints '
         'of values of every type; the keyframes of animations with none to '
         'three.')
ASSUMPTIONS = ['the texts are numbers where the type asks for numbers']
MINIMUM = 300
PARALLEL = True

WHERE = {'vector': 'sangfroid/value/vector.py',
         'color': 'sangfroid/value/color.py',
         'gradient': 'sangfroid/value/gradient.py',
         'transformation': 'sangfroid/value/transformation.py'}


class Check:
    def __init__(self, R, I, who, key, where):
        self.R, self.I, self.who = R, I, who
        self.key, self.where = key, where

    def fail(self, what, text, loc=None):
        self.R.violation('C26:%s:%s' % (self.key, what), '%s: %s %s' % (
            self.who, what, text), loc or self.where)

    def run(self, what, f):
        """The result of f, or None if it doesn't work."""
        try:
            return f()
        except PyRaise as e:
            if e.implicit and isinstance(e.cause, tuple) and \
                    from_document(e.cause):
                return None
            self.R.decided('%s: %s' % (self.who, what))
            self.fail(what, 'raises %s' % e.name, e.loc)
            return None

    def same(self, what, f, want):
        """f() gives want, which consists of tuples and terms."""
        got = self.run(what, lambda: reduce_(self.I, f()))
        if got is None:
            return
        self.R.decided('%s: %s' % (self.who, what))
        if got != want:
            self.fail(what, 'gives %s rather than %s' % (
                shown_as(got), shown_as(want)))

    def refuses(self, what, f, names):
        try:
            r = f()
        except PyRaise as e:
            if e.implicit and isinstance(e.cause, tuple) and \
                    from_document(e.cause):
                return
            self.R.decided('%s: %s' % (self.who, what))
            if e.name not in names:
                self.fail(what, 'raises %s rather than %s' % (
                    e.name, ' or '.join(names)), e.loc)
            return
        self.R.decided('%s: %s' % (self.who, what))
        self.fail(what, 'gives %s rather than raising %s' % (
            shown_as(reduce_(self.I, r)), ' or '.join(names)))


def shown_as(x):
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        return show(x)
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(map(shown_as, x))
    return str(x)


def reduce_(I, v):
    """What an object is made of, as nested tuples of terms."""
    v = I.norm(v)
    if isinstance(v, TextObj):
        v = I.norm(v.value)
    if isinstance(v, (Tup, ListObj)):
        return tuple(reduce_(I, x) for x in v.items)
    if isinstance(v, Inst):
        c = v.cands[0]
        names = [x.name for x in c.mro if isinstance(x, ClassObj)]
        if 'T' in names:
            return term_of(I.norm(I.getattr(v, 'frames')))
        if 'Waypoint' in names:
            return (reduce_(I, I.getattr(v, 'time')),
                    reduce_(I, I.getattr(v, 'value')))
        if 'Color' in names or 'Vector' in names:
            return reduce_(I, I.call(I.getattr(v, 'as_tuple'), [], {}))
        if 'Gradient' in names or 'Composite' in names:
            return reduce_(I, I.call(I.getattr(v, 'items'), [], {}))
        if 'Value' in names:
            return reduce_(I, I.getattr(v, 'value'))
    if isinstance(v, (K, Opq)):
        return term_of(v)
    if isinstance(v, DictObj):
        return tuple((reduce_(I, k), reduce_(I, x)) for k, x in v.entries)
    return tuple(reduce_(I, x) for x in I.iterate(v))


def method(I, o, name, *a):
    return I.call(I.getattr(o, name), list(a), {})


def listed(I, v):
    return I.new_list(I.iterate(v))


def fl(label):
    return ('float', term_of(S(label)))


def texts_of(kind, stops=None):
    rs = roles(kind) if stops is None else [
        (p, d) for p in stops for d in 'rgba']
    return {r: S('text of ' + '.'.join(r)) for r in rs}


def expected(kind, r=()):
    """The term of each part."""
    if kind == 'vector':
        return tuple(fl('text of ' + '.'.join(r + (d,))) for d in 'xy')
    if kind == 'color':
        return tuple(fl('text of ' + '.'.join(r + (d,))) for d in 'rgba')
    return fl('text of ' + '.'.join(r + ('',)))


def arrange(I, n, how):
    """Puts the parts into another order, with white space between them."""
    kids = [c for c in n.children]
    if how['turn'] == 'reversed':
        kids = kids[::-1]
    elif how['turn'] == 'rotated':
        kids = kids[1:] + kids[:1]
    r = []
    for c in kids:
        if how['space']:
            t = new_text(I, WS if isinstance(WS, AV) else K(WS))
            t.parent = n
            r.append(t)
        r.append(c)
    if how['space']:
        t = new_text(I, WS if isinstance(WS, AV) else K(WS))
        t.parent = n
        r.append(t)
    n.children[:] = r


HOW = [dict(turn=t, space=s, detached=d)
       for t in ('as written', 'reversed', 'rotated')
       for s in (False, True) for d in (False, True)]


def describe(how):
    return ', '.join([how['turn']] + ['with white space'] * how['space'] +
                     ['detached'] * how['detached'])


def check(W, R):
    for how in HOW:
        vector(R, W, how)
        color(R, W, how)
        for stops in (('0.0', '1.0'), ('0.0', '0.5', '1.0'),
                      ('0.0', '0.25', '0.75', '1.0')):
            gradient(R, W, how, stops)
        transformation(R, W, how)
    for kind in IMPLEMENTED:
        if kind == 'canvas':
            continue
        for times in ((), ('1s',), ('1s', '2s'), ('0s', '12f', '3s'),
                      ('1f', '2f', '1s 1f', '4s'), ('2s', '1s'),
                      ('3s', '0s', '12f')):
            timeline(R, W, kind, times)
        for times in (('1s', '1s'), ('1s', '2s', '24f'), ('2f', '1f', '2f')):
            repeated(R, W, kind, times)
    for how in HOW:
        for stops in (('0.0', '0.5', '0.5', '1.0'), ('0.5', '0.5'),
                      ('1.0', '0.0', '1.0')):
            crowded(R, W, how, stops)
    for n in range(4):
        keyframes(R, W, n)


def found(W, I, kind, how, texts):
    n = make(I, kind, texts)
    arrange(I, n, how)
    if how['detached']:
        dom.adopt(I, n)
    else:
        hosted(I, kind, n)
    return n, value_object(W, I, kind, n)


def vector(R, W, how):
    who = 'a vector (%s)' % describe(how)

    def run(I):
        n, v = found(W, I, 'vector', how, texts_of('vector'))
        C = Check(R, I, who, 'vector', WHERE['vector'])
        x, y = want = expected('vector')
        kx, ky = term_of(K('x')), term_of(K('y'))
        C.same('len()', lambda: I.length(v), term_of(K(2)))
        ks = C.run('keys()', lambda: reduce_(I, listed(I, method(
            I, v, 'keys'))))
        if ks is not None:
            R.decided(who + ': keys()')
            if sorted(ks) != sorted((kx, ky)):
                C.fail('keys()', 'gives %s' % shown_as(ks))
            else:
                C.same('values()', lambda: listed(I, method(I, v, 'values')),
                       tuple({kx: x, ky: y}[k] for k in ks))
        it = C.run('items()', lambda: reduce_(I, listed(I, method(
            I, v, 'items'))))
        if it is not None:
            R.decided(who + ': items()')
            if sorted(it, key=repr) != sorted(((kx, x), (ky, y)), key=repr):
                C.fail('items()', 'gives %s' % shown_as(it))
        C.same('as_tuple()', lambda: method(I, v, 'as_tuple'), want)
        C.same('iteration', lambda: listed(I, v), want)
        for i, (k, t) in enumerate((('x', x), ('y', y))):
            C.same('[%r]' % k, lambda: I.getitem(v, K(k)), t)
            C.same('[%d]' % i, lambda: I.getitem(v, K(i)), t)
            C.same('get(%r)' % k, lambda: method(I, v, 'get', K(k)), t)
            C.same('get(%r, default)' % k, lambda: method(
                I, v, 'get', K(k), K('default')), t)
            C.same('.%s' % k, lambda: I.getattr(v, k), t)
        C.same("get('z')", lambda: method(I, v, 'get', K('z')),
               term_of(NONE))
        C.same("get('z', default)", lambda: method(
            I, v, 'get', K('z'), K('default')), term_of(K('default')))
        C.refuses("['z']", lambda: I.getitem(v, K('z')), ('KeyError',))
        C.refuses(".z", lambda: I.getattr(v, 'z'), ('AttributeError',))
        C.refuses('[2]', lambda: I.getitem(v, K(2)),
                  ('IndexError', 'KeyError'))
    R.explore(who, run, 60)


def color(R, W, how):
    who = 'a colour (%s)' % describe(how)

    def run(I):
        n, v = found(W, I, 'color', how, texts_of('color'))
        C = Check(R, I, who, 'color', WHERE['color'])
        C.same('as_tuple()', lambda: method(I, v, 'as_tuple'),
               expected('color'))
    R.explore(who, run, 60)

    def digits(I):
        ts = {('r',): K('0.2'), ('g',): K('0.4'), ('b',): K('0.6'),
              ('a',): K('0.8')}
        n, v = found(W, I, 'color', how, ts)
        C = Check(R, I, who, 'color', WHERE['color'])
        for what, f in (('value', lambda: I.getattr(v, 'value')),
                        ('str()', lambda: I.call(Ext('builtins.str'), [v],
                                                 {}))):
            C.same(what, f, term_of(K('#336699cc')))
    R.explore(who + ', as digits', digits, 60)


def gradient(R, W, how, stops):
    who = 'a gradient of %d stops (%s)' % (len(stops), describe(how))

    def run(I):
        n, v = found(W, I, 'gradient', how, texts_of('gradient', stops))
        C = Check(R, I, who, 'gradient', WHERE['gradient'])
        want = {term_of(K(float(p))): expected('color', (p,)) for p in stops}
        C.same('len()', lambda: I.length(v), term_of(K(len(stops))))
        mapping(C, v, want)
        it = C.run('iteration', lambda: reduce_(I, listed(I, v)))
        if it is not None:
            R.decided(who + ': iteration')
            if sorted(it, key=repr) != sorted(want, key=repr):
                C.fail('iteration', 'gives %s' % shown_as(it))
        for p in stops:
            C.same('[%s]' % p, lambda: I.getitem(v, K(float(p))),
                   want[term_of(K(float(p)))])
        C.refuses('[0.125]', lambda: I.getitem(v, K(0.125)), ('KeyError',))
    R.explore(who, run, 60)


def mapping(C, v, want):
    """keys, values and items."""
    I, R = C.I, C.R
    ks = C.run('keys()', lambda: reduce_(I, listed(I, method(I, v, 'keys'))))
    if ks is not None:
        R.decided(C.who + ': keys()')
        if sorted(ks, key=repr) != sorted(want, key=repr):
            C.fail('keys()', 'gives %s' % shown_as(ks))
        else:
            C.same('values()', lambda: listed(I, method(I, v, 'values')),
                   tuple(want[k] for k in ks))
    it = C.run('items()', lambda: reduce_(I, listed(I, method(
        I, v, 'items'))))
    if it is not None:
        R.decided(C.who + ': items()')
        if sorted(it, key=repr) != sorted(want.items(), key=repr):
            C.fail('items()', 'gives %s' % shown_as(it))


def transformation(R, W, how):
    who = 'a transformation (%s)' % describe(how)

    def run(I):
        n, v = found(W, I, 'transformation', how, texts_of('transformation'))
        C = Check(R, I, who, 'transformation', WHERE['transformation'])
        want = {term_of(K(k)): expected(t, (k,)) for k, t in PARTS}
        C.same('len()', lambda: I.length(v), term_of(K(4)))
        mapping(C, v, want)
        for k, t in PARTS:
            w = want[term_of(K(k))]
            C.same('[%r]' % k, lambda: I.getitem(v, K(k)), w)
            C.same('get(%r)' % k, lambda: method(I, v, 'get', K(k)), w)
            C.same('get(%r, default)' % k, lambda: method(
                I, v, 'get', K(k), K('default')), w)
            C.same('.%s' % k, lambda: I.getattr(v, k), w)
        C.same("get('z')", lambda: method(I, v, 'get', K('z')),
               term_of(NONE))
        C.same("get('z', default)", lambda: method(
            I, v, 'get', K('z'), K('default')), term_of(K('default')))
        C.refuses("['z']", lambda: I.getitem(v, K('z')), ('KeyError',))
        C.refuses(".z", lambda: I.getattr(v, 'z'), ('AttributeError',))
    R.explore(who, run, 60)


def agreement(C, v, also=()):
    """Whatever the keys are, everything else goes by them."""
    I, R = C.I, C.R
    ks = C.run('keys()', lambda: reduce_(I, listed(I, method(I, v, 'keys'))))
    if ks is None:
        return
    R.decided(C.who + ': keys()')
    if len(set(ks)) != len(ks):
        C.fail('keys()', 'gives a key twice: %s' % shown_as(ks))
        return
    C.same('len()', lambda: I.length(v), term_of(K(len(ks))))
    it = C.run('items()', lambda: reduce_(I, listed(I, method(
        I, v, 'items'))))
    if it is None:
        return
    R.decided(C.who + ': items()')
    if tuple(k for k, x in it) != ks:
        C.fail('items()', 'gives the keys %s where keys() gives %s' % (
            shown_as(tuple(k for k, x in it)), shown_as(ks)))
        return
    C.same('values()', lambda: listed(I, method(I, v, 'values')),
           tuple(x for k, x in it))
    for k, x in it:
        if k[0] == 'k':
            C.same('[%s]' % show(k), lambda: I.getitem(v, K(k[2])), x)


def crowded(R, W, how, stops):
    who = 'a gradient of stops at %s (%s)' % (', '.join(stops),
                                              describe(how))

    def run(I):
        n, v = found(W, I, 'gradient', how, texts_of('gradient', sorted(
            set(stops))))
        kids = kids_of(n)
        extra = [p for i, p in enumerate(stops) if p in stops[:i]]
        for p in extra:
            x = dom.copy_node(I, [k for k in kids if attr_of(
                k, 'pos') == K(p)][0])
            x.parent = n
            n.children.append(x)
        agreement(Check(R, I, who, 'gradient', WHERE['gradient']), v)
    R.explore(who, run, 60)


def repeated(R, W, kind, times):
    """More than one waypoint at a time."""
    who = 'the timeline of a %s with waypoints at %s' % (
        kind, ', '.join(times))

    def run(I):
        n = animated_node(I, kind, times, label='v')
        hosted(I, kind, n)
        v = value_object(W, I, kind, n)
        C = Check(R, I, who, 'timeline', 'sangfroid/value/value.py')
        tl = C.run('timeline', lambda: I.norm(I.getattr(v, 'timeline')))
        if tl is not None:
            agreement(C, tl)
    R.explore(who, run, 60)


FRAMES = {'1s': 24.0, '2s': 48.0, '0s': 0.0, '12f': 12.0, '3s': 72.0,
          '1f': 1.0, '2f': 2.0, '1s 1f': 25.0, '4s': 96.0}


def timeline(R, W, kind, times):
    who = 'the timeline of a %s with %s' % (
        kind, 'waypoints at ' + ', '.join(times) if times
        else 'no waypoints')

    def run(I):
        n = animated_node(I, kind, times, label='v') if times else \
            plain_node(I, kind, 'v')
        hosted(I, kind, n)
        v = value_object(W, I, kind, n)
        C = Check(R, I, who, 'timeline', 'sangfroid/value/value.py')
        tl = C.run('timeline', lambda: I.norm(I.getattr(v, 'timeline')))
        if tl is None:
            return
        # the value of each waypoint, by way of its own element
        tags = [[c for c in kids_of(w)][0] for w in kids_of(n)] \
            if times else []
        want = {}
        for t, x in zip(times, tags):
            c = C.run('the value at ' + t, lambda: reduce_(
                I, value_object(W, I, kind, x)))
            if c is None:
                return
            f = term_of(K(FRAMES[t]))
            want[f] = (f, c)
        C.same('len()', lambda: I.length(tl), term_of(K(len(times))))
        C.same('bool()', lambda: K(I.truth(tl)), term_of(K(bool(times))))
        mapping(C, tl, want)
        C.same('iteration', lambda: listed(I, tl), tuple(
            want[term_of(K(FRAMES[t]))]
            for t in sorted(times, key=FRAMES.get)))
        C.same('is_animated', lambda: I.getattr(v, 'is_animated'),
               term_of(K(bool(times))))
        for t in times:
            f = FRAMES[t]
            w = want[term_of(K(f))]
            C.same('[%r]' % t, lambda: I.getitem(tl, K(t)), w)
            C.same('[%r]' % f, lambda: I.getitem(tl, K(f)), w)
            C.same('[%d]' % f, lambda: I.getitem(tl, K(int(f))), w)
            C.same('[T(%r)]' % t, lambda: I.getitem(tl, I.call(
                W.T, [K(t)], {'ref': n})), w)
        taken = {FRAMES[t] for t in times}
        for f in sorted({x + d for x in taken
                         for d in (-0.5, 0.25, 0.5, 1, -1)} - taken):
            if f < 0:
                continue
            C.refuses('[%r]' % f, lambda: I.getitem(tl, K(f)),
                      ('KeyError',))
            C.refuses("['%rf']" % f, lambda: I.getitem(tl, K('%rf' % f)),
                      ('KeyError',))
        C.refuses("['7s']", lambda: I.getitem(tl, K('7s')), ('KeyError',))
        C.refuses('[7]', lambda: I.getitem(tl, K(7)), ('KeyError',))
    R.explore(who, run, 60)


def keyframes(R, W, n):
    for active in ('true', 'false', 'mixed'):
        who = 'the keyframes of an animation with %d (active: %s)' % (
            n, active)

        def run(I, active=active, who=who):
            a = animation(W, I, keyframes=n)
            root = tag_of(I, a)
            ks = [x for x in kids_of(root) if x.name == K('keyframe')]
            want = []
            for i, x in enumerate(ks):
                on = active == 'true' or active == 'mixed' and i % 2 == 0
                t = '%ds' % (i + 1)
                x.attrs.entries[:] = [
                    e for e in x.attrs.entries
                    if e[0] not in (K('time'), K('active'))] + [
                    [K('time'), K(t)], [K('active'), K(
                        'true' if on else 'false')]]
                tx = new_text(I, S('name %d' % i))
                tx.parent = x
                x.children[:] = [tx]
                want.append((term_of(K(24.0 * (i + 1))),
                             term_of(S('name %d' % i)), term_of(K(on))))
            C = Check(R, I, who, 'keyframes', 'sangfroid/keyframe.py')
            kf = C.run('keyframes', lambda: I.norm(I.getattr(
                a, 'keyframes')))
            if kf is None:
                return
            C.same('len()', lambda: I.length(kf), term_of(K(n)))

            def read():
                return I.new_list([Tup([
                    I.getattr(k, 'time'), I.getattr(k, 'name'),
                    I.getattr(k, 'active')]) for k in I.iterate(kf)])
            C.same('iteration', read, tuple(want))
        R.explore(who, run, 60)
