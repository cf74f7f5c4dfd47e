"""C24: a search finds exactly the layers that match."""
from .c18 import *

RULE = ('The sub-layers which a search arrives at are computed on all paths '
        'and compared with the <layer> elements inside the group: on each '
        'path, what is found are exactly those whose description or type is '
        'known there to be the one that was asked for (or which the given '
        'function accepted), each once and in document order; find() gives '
        'the first of them or None.')
SCOPE = ('Groups and animations of every shape C18 uses, and layers which '
         'are not groups; searches by type, description (constant and '
         'unknown, present and absent), function, True and False, by '
         'position, keyword and attrs, recursive or not; find_all, find and '
         'calling the group; arguments which are refused; one search after '
         'another.')
MINIMUM = 400
PARALLEL = True

LAYER = 'sangfroid/layer/layer.py'


def described(I, label, desc, type_='circle', inside=(), unusual=False):
    attrs = [] if desc is None else [
        ('desc', desc if isinstance(desc, AV) else K(desc))]
    if unusual:
        attrs += [('exclude_from_rendering', flag(label + ' excluded')),
                  ('guid', S(label + ' guid')), ('id', S(label + ' id'))]
    if type_ == 'group' or type_ == 'switch':
        return group_node(I, *inside, label=label, open_=False, attrs=attrs,
                          type_=type_)
    return layer_node(I, type_, [param_node(
        I, 'amount', value_node(I, 'real', label))], attrs, label=label,
        open_=False)


def trees(I, which):
    d = lambda *a, **k: described(I, *a, **k)
    if which == 'flat':
        return [d('a', 'x'), d('b', 'y'), d('c', None), d('d', 'x', 'text'),
                d('e', ''), d('f', 'X'), d('g', 'x ')]
    if which == 'nested':
        return [d('a', 'x'),
                d('g', 'x', 'group', [
                    d('g1', 'x'), d('g2', None, 'text'),
                    d('h', 'y', 'group', [d('h1', 'x', 'text'),
                                          d('h2', 'y')]),
                    d('g3', 'y', 'text')]),
                d('b', None, 'group', [d('b1', 'x')]),
                d('c', 'x', 'text')]
    if which == 'unknown':
        return [d('a', S('desc a')),
                d('g', S('desc g'), 'group', [
                    d('g1', S('desc g1'), 'text'), d('g2', 'x')]),
                d('b', None)]
    if which == 'deep':
        r = [d('deepest', 'x', 'text')]
        for i in range(5):
            r = [d('level %d' % i, 'x' if i % 2 else 'y', 'group', r)]
        return r
    if which == 'unusual':
        u = lambda *a, **k: described(I, *a, unusual=True, **k)
        r = [u('a', 'x'), u('b', 'x', 'text'), d('c', 'y'),
             u('g', 'x', 'group', [u('g1', 'x')])]
        return r
    if which == 'switch':
        return [d('s', 'x', 'switch', [d('s1', 'x'), d('s2', 'y', 'text')]),
                d('a', 'x')]
    return []


TREES = ('flat', 'nested', 'unknown', 'deep', 'switch', 'unusual', 'empty')


def host(W, I, where, which):
    items = trees(I, which)
    if where == 'animation':
        a = animation(W, I, *items)
        return a, tag_of(I, a)
    n = group_node(I, *items, label='the group', open_=False)
    if where == 'nested group':
        document(I, described(I, 'before', 'x'), described(
            I, 'outer', 'x', 'group', [described(I, 'left', 'x'), n,
                                       described(I, 'right', 'x')]))
    else:
        document(I, described(I, 'before', 'x'), n,
                 described(I, 'after', 'x', 'text'))
    canvas = [x for x in dom.descendants(n) if isinstance(x, NodeObj) and
              x.name == K('canvas')]
    # our own, and not that of a group inside
    mine = [x for x in canvas if x.parent.parent is n][0]
    return wrap_layer(W, I, n), mine


def inside(canvas, recursive):
    return [x for x in (dom.descendants(canvas) if recursive
                        else canvas.children)
            if isinstance(x, NodeObj) and x.name == K('layer')]


def by_desc(want):
    """Whether a layer matches: True, False or None if we can't tell."""
    def f(I, x):
        d = attr_of(x, 'desc')
        if d is None:
            # reads as the empty description, or as none at all
            return None if want in (K(''), NONE) else \
                None if isinstance(want, Opq) else False
        d = I.norm(d)
        w = I.norm(want)
        if isinstance(d, K) and isinstance(w, K):
            return d.v == w.v
        if d == w:
            return True
        t = I.eqterm(term_of(d), term_of(w))
        r = I.facts.get(t)
        if r is None:
            r = I.theory(t)
        return r
    return f


def by_type(name):
    return lambda I, x: norm_type(I.norm(attr_of(x, 'type')).v) == \
        norm_type(name)


def queries(W):
    """(name, arguments, what matches)."""
    r = []

    def q(name, args, match):
        r.append((name, args, match))
    for d in ('x', 'y', 'nonesuch', 'X', 'x ', 'None', 'none'):
        q('desc=%r' % d, lambda I, d=d: ([], {'desc': K(d)}), by_desc(K(d)))
    q("attrs={'desc': 'x'}", lambda I: ([], {'attrs': I.new_dict(
        [[K('desc'), K('x')]])}), by_desc(K('x')))
    q('desc=(unknown)', lambda I: ([], {'desc': arg('sought', 'str')}),
      by_desc(arg('sought', 'str')))
    q('True', lambda I: ([TRUE], {}), lambda I, x: True)
    q('False', lambda I: ([FALSE], {}), lambda I, x: False)
    for t in ('text', 'group', 'rectangle', 'TEXT'):
        q(repr(t), lambda I, t=t: ([K(t)], {}), by_type(t))
        q('type=%r' % t, lambda I, t=t: ([], {'type': K(t)}), by_type(t))
    q("attrs={'type': 'text'}", lambda I: ([], {'attrs': I.new_dict(
        [[K('type'), K('text')]])}), by_type('text'))
    q('the class Text', lambda I: ([W.cls('Text')], {}), by_type('text'))
    q('type=the class Group', lambda I: ([], {'type': W.cls('Group')}),
      by_type('group'))

    def fn(accept):
        def make(I):
            def call(I, a, k, n):
                x = I.norm(a[0])
                if isinstance(x, Inst):
                    x = I.norm(I.getattr(x, 'tag'))
                return TRUE if isinstance(x, NodeObj) and accept(I, x) \
                    else FALSE
            return [Native('predicate', call)], {}
        return make
    q('a function accepting texts', fn(by_type('text')), by_type('text'))
    q('a function accepting everything', fn(lambda I, x: True),
      lambda I, x: True)
    q('a function accepting nothing', fn(lambda I, x: False),
      lambda I, x: False)
    q('a function accepting what is at the root', fn(
        lambda I, x: x.parent.parent.name == K('[document]')),
      lambda I, x: x.parent.parent.name == K('[document]'))
    return r


def check(W, R):
    for where in ('animation', 'group', 'nested group'):
        for which in TREES:
            for name, args, match in queries(W):
                for rec in ((), (('recursive', TRUE),),
                            (('recursive', FALSE),)):
                    one(R, W, where, which, name, args, match, dict(rec))
    leaves(R, W)
    refusals(R, W)
    twice(R, W)


def one(R, W, where, which, name, args, match, rec):
    who = '%s, %s: %s%s' % (where, which, name, ''.join(
        ', recursive=%s' % v.v for v in rec.values()))

    def run(I):
        g, canvas = host(W, I, where, which)
        among = inside(canvas, rec.get('recursive', TRUE).v)
        results = {}
        for how in ('find_all', 'find', 'call'):
            a, k = args(I)
            k = dict(k, **rec)
            try:
                f = g if how == 'call' else I.getattr(g, how)
                got = I.call(f, a, k)
                got = I.iterate(got) if how == 'find_all' else [I.norm(got)]
                t = [x if x == NONE else tags(I, [x])[0] for x in got]
            except PyRaise as e:
                if not e.implicit:
                    R.decided('%s: %s' % (who, how))
                    R.violation('C24:%s:raises' % how, '%s(%s) raises %s' % (
                        how, who, e.name), e.loc)
                return
            results[how] = t
        judge(R, I, who, among, match, results)
    R.explore(who, run, 200 if R.thorough else 60)


def judge(R, I, who, among, match, results):
    found = results['find_all']
    m = [(x, match(I, x)) for x in among]
    R.decided(who)
    for x, y in m:
        if y is None:
            R.undecided('%s: %s' % (who, x.label))
        elif y and x not in found:
            R.violation('C24:misses', 'find_all (%s) misses the layer %s' % (
                who, x.label), LAYER)
            return
        elif not y and x in found:
            R.violation('C24:finds', 'find_all (%s) finds the layer %s' % (
                who, x.label), LAYER)
            return
    for x in found:
        if x not in among:
            R.violation('C24:outside', 'find_all (%s) finds %s, which is not '
                        'among the layers searched' % (
                            who, getattr(x, 'label', x)), LAYER)
            return
    if len(set(map(id, found))) != len(found):
        R.violation('C24:repeats', 'find_all (%s) finds a layer more than '
                    'once' % who, LAYER)
    elif found != [x for x in among if x in found]:
        R.violation('C24:order', 'find_all (%s) gives the layers in another '
                    'order than the document' % who, LAYER)
    for how in ('find', 'call'):
        if how not in results:
            continue
        want = found[0] if found else NONE
        got = results[how][0]
        R.decided('%s: %s' % (who, how))
        if got is not want and got != want:
            R.violation('C24:' + how, '%s (%s) gives %s rather than the '
                        'first that find_all finds, %s' % (
                            how, who, getattr(got, 'label', got),
                            getattr(want, 'label', want)), LAYER)


def leaves(R, W):
    """Layers which are not groups have nothing inside them."""
    G = W.cls('Group')
    for t in sorted(REFERENCE):
        c = [c for c in W.layer_classes()
             if norm_type(c.name) == norm_type(t)]
        if not c or G in c[0].mro or norm_type(t) == 'switch':
            continue
        for name, args in (('True', [TRUE]), ("'circle'", [K('circle')])):
            who = 'a search of a %s for %s' % (t, name)

            def run(I, t=t, args=args, who=who):
                n = reference_layer(I, t, t)
                document(I, described(I, 'before', 'x'), n)
                l = wrap_layer(W, I, n)
                try:
                    got = I.iterate(method(I, l, 'find_all', *args))
                    one = I.norm(method(I, l, 'find', *args))
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C24:leaf', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if got or one != NONE:
                    R.violation('C24:leaf', '%s finds something' % who,
                                LAYER)
            R.explore(who, run, 30)


def refusals(R, W):
    def given(I, what):
        return {
            'two arguments': ([K('circle'), K('text')], {}),
            'two functions': ([TRUE, TRUE], {}),
            'a type twice': ([K('circle')], {'type': K('circle')}),
            'a class twice': ([W.cls('Circle')], {'type': K('text')}),
            'a number': ([K(3)], {}),
            'a float': ([K(1.5)], {}),
            'None': ([NONE], {}),
            'a list': ([I.new_list([K('circle')])], {}),
            'a keyword and attrs': ([], {
                'desc': K('x'), 'attrs': I.new_dict(
                    [[K('desc'), K('y')]])}),
            'a type and attrs': ([], {
                'type': K('circle'), 'attrs': I.new_dict(
                    [[K('type'), K('circle')]])}),
        }[what]
    kinds = {'a number': 'TypeError', 'a float': 'TypeError',
             'None': 'TypeError', 'a list': 'TypeError'}
    for what in ('two arguments', 'two functions', 'a type twice',
                 'a class twice', 'a number', 'a float', 'None', 'a list',
                 'a keyword and attrs', 'a type and attrs'):
        for how in ('find_all', 'find'):
            for which in ('flat', 'empty'):
                who = '%s with %s (%s)' % (how, what, which)

                def run(I, what=what, how=how, which=which, who=who):
                    g, canvas = host(W, I, 'group', which)
                    a, k = given(I, what)
                    want = kinds.get(what, 'ValueError')
                    try:
                        r = I.call(I.getattr(g, how), a, k)
                        if isinstance(r, GenObj):
                            I.iterate(r)
                    except PyRaise as e:
                        if e.implicit:
                            return
                        R.decided(who)
                        if e.name != want:
                            R.violation('C24:error', '%s raises %s rather '
                                        'than %s' % (who, e.name, want),
                                        e.loc)
                        return
                    R.decided(who)
                    R.violation('C24:accepts:' + what, '%s is accepted' %
                                who, LAYER)
                R.explore(who, run, 30)


def twice(R, W):
    """A search does not depend on the searches before it."""
    qs = queries(W)
    for i, (n1, a1, m1) in enumerate(qs):
        n2, a2, m2 = qs[(i * 7 + 3) % len(qs)]
        who = '%s after %s' % (n2, n1)

        def run(I, a1=a1, a2=a2, m2=m2, who=who):
            g, canvas = host(W, I, 'group', 'nested')
            try:
                a, k = a1(I)
                r = I.call(I.getattr(g, 'find_all'), a,
                           dict(k, recursive=FALSE))
                I.iterate(r)
                a, k = a2(I)
                got = I.iterate(I.call(I.getattr(g, 'find_all'), a, k))
                t = tags(I, got)
            except PyRaise as e:
                if not e.implicit:
                    R.violation('C24:again', '%s raises %s' % (who, e.name),
                                e.loc)
                return
            judge(R, I, who, inside(canvas, True), m2, {'find_all': t})
        R.explore(who, run, 40)
    # the dict given as attrs is the caller's
    def run(I):
        g, canvas = host(W, I, 'group', 'nested')
        d = I.new_dict([[K('type'), W.cls('Text')]])
        for i in range(2):
            try:
                got = I.iterate(I.call(I.getattr(g, 'find_all'), [],
                                       {'attrs': d}))
                t = tags(I, got)
            except PyRaise as e:
                R.violation('C24:attrs', 'using attrs twice raises %s' %
                            e.name, e.loc)
                return
            judge(R, I, 'attrs used again', inside(canvas, True),
                  by_type('text'), {'find_all': t})
        R.decided('attrs is left as it was')
        if len(d.entries) != 1 or d.entries[0][1] is not W.cls('Text'):
            R.violation('C24:attrs', 'the dict given as attrs is changed by '
                        'the search', LAYER)
    R.explore('attrs used twice', run, 30)
