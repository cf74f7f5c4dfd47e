"""C29: a layer knows where it is."""
from .args import *

RULE = ('Symbolic evaluation of where a layer says it is: on every path, '
        '`parent` wraps the nearest <layer> element around the layer\'s own, '
        'or is None if there is none, and `tag_depth` is the number of '
        '<layer> elements around it.')
SCOPE = ('Every layer class, nought to four groups down; however the layer '
         'was reached (from its element, by iteration, by indexing or by '
         'search); before and after it has been appended or inserted, and '
         'after it has been moved from one group to another or out of all '
         'of them; layers which are in no document; animations.')
ASSUMPTIONS = []
MINIMUM = 300
PARALLEL = True


def loc(W, c, name):
    for k in c.mro:
        if isinstance(k, ClassObj) and name in k.ns:
            return '%s (%s.%s)' % (W.I.relpath(k.mod.path), k.name, name)
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def around(node):
    """The <layer> elements around an element, innermost first."""
    r = []
    n = node.parent
    while n is not None:
        if n.name == K('layer'):
            r.append(n)
        n = n.parent
    return r


def expect(W, R, I, who, o, node):
    """Checks what the layer object o says of its element."""
    key = 'C29:' + who
    cls = I.typeof(o) if hasattr(I, 'typeof') else o.cands[0]
    want = around(node)
    R.decided('%s: parent' % who)
    try:
        p = I.norm(I.getattr(o, 'parent'))
    except PyRaise as e:
        R.violation(key, '%s: parent raises %s' % (who, e.name), e.loc)
        return
    if not want:
        if not isinstance(p, K) or p.v is not None:
            R.violation(key, '%s: no layer is around it, but its parent '
                        'isn\'t None' % who, loc(W, cls, 'parent'))
    elif not isinstance(p, Inst) or not any(
            W.Layer in k.mro for k in p.cands):
        R.violation(key, '%s: its parent isn\'t a layer' % who,
                    loc(W, cls, 'parent'))
    else:
        if tag_of(I, p) is not want[0]:
            R.violation(key, '%s: its parent isn\'t the layer immediately '
                        'around it' % who, loc(W, cls, 'parent'))
        elif norm_type(p.cands[0].name) != norm_type(
                attr_of(want[0], 'type').v):
            R.violation(key, '%s: its parent is taken for a %s' % (
                who, p.cands[0].name), loc(W, cls, 'parent'))
    R.decided('%s: depth' % who)
    try:
        d = I.norm(I.getattr(o, 'tag_depth'))
    except PyRaise as e:
        R.violation(key, '%s: tag_depth raises %s' % (who, e.name), e.loc)
        return
    if not isinstance(d, K) or isinstance(d.v, bool) or d.v != len(want):
        R.violation(key, '%s: its depth is %s rather than %d' % (
            who, shown(I, d), len(want)), loc(W, cls, 'tag_depth'))


HOLDERS = ('group', 'switch', 'filter_group')


def nest(I, node, depth, beside=True, odd=0):
    """The element, within groups. Returns the groups, innermost first."""
    r = []
    if odd:
        # of other types, with attributes on their canvases
        for i in range(depth):
            canvas = value_node(I, 'canvas', 'canvas %d' % i, layers=[node])
            canvas.attrs.entries.extend([
                [K('guid'), S('guid %d' % i)], [K('id'), K('x%d' % i)],
                [K('width'), K('480')], [K('version'), K('1.2')]])
            params = [param_node(I, 'canvas', canvas)]
            if odd > 1:
                params[0].attrs.entries.append([K('guid'), S('param %d' % i)])
            node = layer_node(
                I, HOLDERS[(i + odd) % 3], params, label='group %d' % i,
                open_=False, attrs=[('desc', S('desc %d' % i))])
            r.append(node)
        return r
    for i in range(depth):
        more = [layer_node(I, 'rectangle', label='beside %d' % i,
                           open_=False)] if beside else []
        node = group_node(I, *(more[:1] + [node]), label='group %d' % i,
                          open_=False)
        r.append(node)
    return r


def check(W, R):
    for c in W.layer_classes():
        for t in REFERENCE:
            if norm_type(t) == norm_type(c.name):
                break
        else:
            continue
        depths = range(5) if R.thorough or c.name in (
            'Group', 'Circle', 'Duplicate', 'Switch') else (0, 2)
        for depth in depths:
            for where in ('a document', 'an animation', 'nothing'):
                place(W, R, c, t, depth, where)
                for odd in (1, 2, 3) if depth else ():
                    place(W, R, c, t, depth, where, odd)
    reached(W, R)
    added(W, R)
    top(W, R)


def place(W, R, c, t, depth, where, odd=0):
    who = 'a %s in %s, %d groups down%s' % (
        c.name, where, depth, ' (odd %d)' % odd if odd else '')

    def run(I):
        n = layer_node(I, t, label='it', open_=False)
        gs = nest(I, n, depth, odd=odd)
        outer = gs[-1] if gs else n
        if where == 'a document':
            document(I, outer)
        elif where == 'an animation':
            animation(W, I, outer)
        else:
            dom.adopt(I, outer)
        expect(W, R, I, who, wrap_layer(W, I, n), n)
        for i, g in enumerate(gs[:1]):
            expect(W, R, I, who + ': its group', wrap_layer(W, I, g), g)
    R.explore(who, run, 30)


def reached(W, R):
    ways = {
        'iteration': lambda I, g: I.iterate(g),
        'children': lambda I, g: I.iterate(I.getattr(g, 'children')),
        'descendants': lambda I, g: I.iterate(I.getattr(g, 'descendants')),
        'indexing': lambda I, g: [I.getitem(g, K(0)), I.getitem(g, K(-1))],
        'search': lambda I, g: I.iterate(method(I, g, 'find_all', K(True))),
        'a search in one group': lambda I, g: I.iterate(method(
            I, g, 'find_all', K(True), recursive=K(False))),
        'find': lambda I, g: [method(I, g, 'find', K('circle'))],
        'the parent': lambda I, g: [I.getattr(x, 'parent') for x in
                                    I.iterate(method(I, g, 'find_all',
                                                     K('circle')))],
        'the parent of the parent': lambda I, g: [
            I.getattr(I.getattr(x, 'parent'), 'parent') for x in
            I.iterate(method(I, g, 'find_all', K('circle')))],
    }
    for way, f in ways.items():
        for depth in (1, 2, 3):
            for frm in ('animation', 'group'):
                who = 'a layer reached by %s in an %s, %d groups down' % (
                    way, frm, depth)

                def run(I, f=f, depth=depth, frm=frm, who=who):
                    n = layer_node(I, 'circle', label='it', open_=False)
                    gs = nest(I, n, depth)
                    a = animation(W, I, gs[-1])
                    g = a if frm == 'animation' else wrap_layer(
                        W, I, gs[-1])
                    try:
                        got = f(I, g)
                    except PyRaise:
                        return      # C18 and C24 say whether it should
                    for x in got:
                        x = I.norm(x)
                        if not isinstance(x, Inst):
                            continue
                        node = tag_of(I, x)
                        if isinstance(node, NodeObj) and \
                                node.name == K('layer'):
                            expect(W, R, I, who, x, node)
                R.explore(who, run, 60)


def added(W, R):
    for how in ('append', 'insert at the start', 'insert at the end'):
        for depth in (0, 1, 2):
            for src in ('new', 'made', 'from another group', 'from the top',
                        'a whole group'):
                who = '%s to something %d groups down, of one %s' % (
                    how, depth, src)

                def run(I, how=how, depth=depth, src=src, who=who):
                    here = layer_node(I, 'text', label='here', open_=False)
                    gs = nest(I, here, depth, beside=False)
                    it = layer_node(I, 'circle', label='it', open_=False)
                    others = []
                    if src == 'from another group':
                        others = nest(I, it, 2)[-1:]
                    elif src == 'from the top':
                        others = [it]
                    elif src == 'a whole group':
                        it = nest(I, it, 1, beside=False)[0]
                        dom.adopt(I, it)
                    elif src == 'new':
                        dom.adopt(I, it)
                    outer = gs[-1] if gs else here
                    a = animation(W, I, *([outer] + others))
                    if src == 'made':
                        x = I.call(W.cls('Circle'), [], {})
                        it = tag_of(I, x)
                    else:
                        x = wrap_layer(W, I, it)
                    expect(W, R, I, who + ' (before)', x, it)
                    g = wrap_layer(W, I, gs[0]) if gs else a
                    try:
                        if how == 'append':
                            method(I, g, 'append', x)
                        else:
                            method(I, g, 'insert',
                                   K(0 if 'start' in how else -1), x)
                    except PyRaise:
                        return      # C18 says whether it should
                    expect(W, R, I, who + ' (after)', x, it)
                    inner = [n for n in dom.descendants(it)
                             if isinstance(n, NodeObj)
                             and n.name == K('layer')]
                    for n in inner:
                        expect(W, R, I, who + ' (what is in it)',
                               wrap_layer(W, I, n), n)
                R.explore(who, run, 60)


def top(W, R):
    for what in ('parent', 'tag_depth'):
        who = 'an animation\'s %s' % what

        def run(I, what=what, who=who):
            n = layer_node(I, 'circle', label='it', open_=False)
            a = animation(W, I, nest(I, n, 1)[0])
            R.decided(who)
            try:
                got = I.norm(I.getattr(a, what))
            except PyRaise as e:
                R.violation('C29:' + who, '%s raises %s' % (who, e.name),
                            e.loc)
                return
            if got != (NONE if what == 'parent' else K(0)):
                R.violation('C29:' + who, '%s is %s' % (who, shown(I, got)),
                            loc(W, W.Animation, what))
        R.explore(who, run, 20)
