"""C18: a group's length, order, indexing, iteration and search agree."""
from .args import *

RULE = ('For groups of each shape, the sub-layers which iteration, children, '
        'the length, every index and a non-recursive search arrive at are '
        'computed on all paths and compared with the <layer> elements '
        'directly in the canvas; appending and inserting are interpreted on '
        'the element tree, and the children of every element compared '
        'before and after; arguments that are not layers are refused on '
        'every path.')
SCOPE = ('Groups and animations, empty, flat, with groups inside groups, '
         'with other elements and text among the layers, and with layers in '
         'other parameters; every index; appending and inserting new layers, '
         'layers out of other groups and several in a row; refused arguments '
         'of every kind; every layer class that is not a group.')
MINIMUM = 300
PARALLEL = True

WHERE = 'sangfroid/layer/group.py'


def circle(I, label):
    return layer_node(I, 'circle', [
        param_node(I, 'radius', value_node(I, 'real', label))],
        [('desc', S('desc of %s' % label)),
         ('exclude_from_rendering', flag('exclusion of %s' % label))],
        label=label, open_=False)


def inner(I, label, *layers):
    return group_node(I, *layers, label=label, open_=False)


CONTENTS = {
    'empty': lambda I: [],
    'one': lambda I: [circle(I, 'a')],
    'three': lambda I: [circle(I, 'a'), circle(I, 'b'), circle(I, 'c')],
    'a group': lambda I: [inner(I, 'g', circle(I, 'g1'), circle(I, 'g2'))],
    'groups': lambda I: [
        circle(I, 'a'), inner(I, 'g', circle(I, 'g1'), inner(
            I, 'h', circle(I, 'h1'))), circle(I, 'b'), inner(I, 'k')],
    'five': lambda I: [circle(I, x) for x in 'abcde'],
    'other elements': lambda I: [
        new_node(I, 'meta', {'name': K('x')}), circle(I, 'a'),
        new_node(I, 'keyframe', {'time': K('0s')}, [circle(I, 'not ours')]),
        circle(I, 'b'), K('stray'), new_node(I, 'desc', {}, [S('x')])],
    'only others': lambda I: [new_node(I, 'meta', {'name': K('x')}),
                              new_node(I, 'defs', {}, [circle(I, 'no')])],
}


def group_in(W, I, where, contents):
    """Returns the group, its canvas, and its direct sub-layers."""
    items = CONTENTS[contents](I)
    if where == 'animation':
        a = animation(W, I, *items)
        return a, tag_of(I, a), direct(tag_of(I, a))
    if where == 'inner animation':
        a = animation(W, I, *(items + [circle(I, 'last')]), keyframes=2,
                      name=False)
        return a, tag_of(I, a), direct(tag_of(I, a))
    canvas = value_node(I, 'canvas', 'canvas')
    for x in items:
        for y in (x, WS):
            if not isinstance(y, NodeObj):
                y = new_text(I, y if isinstance(y, AV) else K(y))
            y.parent = canvas
            canvas.children.append(y)
    params = [param_node(I, 'amount', value_node(I, 'real', 'amount')),
              param_node(I, 'transformation', value_node(
                  I, 'transformation', 'tr'))]
    if where == 'busy group':
        # something else which holds layers
        params.insert(0, param_node(I, 'other', value_node(
            I, 'canvas', 'other', layers=[circle(I, 'elsewhere')])))
    params.append(param_node(I, 'canvas', canvas))
    n = layer_node(I, 'group', params, label='the group', open_=False)
    if where == 'nested group':
        document(I, circle(I, 'before'), inner(
            I, 'outer', circle(I, 'left'), n, circle(I, 'right')))
    else:
        document(I, circle(I, 'before'), n, circle(I, 'after'))
    return wrap_layer(W, I, n), canvas, direct(canvas)


def direct(canvas):
    return [k for k in kids_of(canvas) if k.name == K('layer')]


PLACES = ('group', 'nested group', 'busy group', 'animation',
          'inner animation')


def check(W, R):
    for where in PLACES:
        for contents in CONTENTS:
            reading(R, W, where, contents)
            adding(R, W, where, contents)
    refusals(R, W)
    sequences(R, W)


def tags(I, objs):
    return [I.norm(I.getattr(I.norm(x), 'tag')) for x in objs]


def names(ts):
    return [t.label or '?' for t in ts]


def reading(R, W, where, contents):
    who = '%s, %s' % (where, contents)

    def compare(I, key, what, f, convert=None, unordered=False):
        try:
            got = f()
        except PyRaise as e:
            if not e.implicit:
                R.decided('%s: %s' % (who, what))
                R.violation(key, '%s (%s) raises %s' % (what, who, e.name),
                            e.loc)
            return None
        R.decided('%s: %s' % (who, what))
        return got

    def run(I):
        g, canvas, layers = group_in(W, I, where, contents)
        want = list(reversed(layers))
        ways = {
            'list(group)': lambda: I.iterate(g),
            'list(group.children)': lambda: I.iterate(
                I.getattr(g, 'children')),
        }
        for n, f in ways.items():
            got = compare(I, 'C18:' + n, n, f)
            if got is None:
                continue
            t = tags(I, got)
            if t != want:
                R.violation('C18:' + n, '%s of a group (%s) is %s rather '
                            'than %s' % (n, who, names(t), names(want)),
                            WHERE)
        # iterating twice is the same
        got = compare(I, 'C18:again', 'iterating again',
                      lambda: I.iterate(g))
        if got is not None and tags(I, got) != want:
            R.violation('C18:again', 'the second iteration (%s) differs' %
                        who, WHERE)
    R.explore(who + ': iteration', run, 30)

    def length(I):
        g, canvas, layers = group_in(W, I, where, contents)
        n = compare(I, 'C18:len', 'len(group)', lambda: I.norm(
            I.length(g)))
        if isinstance(n, K) and n.v != len(layers):
            R.violation('C18:len', 'len() of a group (%s) is %s rather than '
                        '%d' % (who, n.v, len(layers)), WHERE)
    R.explore(who + ': length', length, 30)

    def index(I):
        g, canvas, layers = group_in(W, I, where, contents)
        want = list(reversed(layers))
        for i in range(-len(want) - 2, len(want) + 2):
            try:
                got = I.norm(I.getitem(g, K(i)))
            except PyRaise as e:
                if e.implicit:
                    continue
                R.decided('%s: group[%d]' % (who, i))
                if -len(want) <= i < len(want):
                    R.violation('C18:index', 'group[%d] (%s) raises %s' % (
                        i, who, e.name), e.loc)
                elif e.name != 'IndexError':
                    R.violation('C18:index', 'group[%d] (%s) raises %s '
                                'rather than IndexError' % (
                                    i, who, e.name), e.loc)
                continue
            R.decided('%s: group[%d]' % (who, i))
            if not isinstance(got, Inst):
                continue
            t = tags(I, [got])[0]
            if not -len(want) <= i < len(want):
                R.violation('C18:index', 'group[%d] (%s) is %s, but there '
                            'are only %d sub-layers' % (
                                i, who, t.label, len(want)), WHERE)
            elif t is not want[i]:
                R.violation('C18:index', 'group[%d] (%s) is %s rather than '
                            '%s' % (i, who, t.label, want[i].label), WHERE)
    R.explore(who + ': indexing', index, 30)

    def search(I):
        g, canvas, layers = group_in(W, I, where, contents)
        fa = I.getattr(g, 'find_all')
        kinds = {'circle': [x for x in layers if attr_of(x, 'type') ==
                            K('circle')],
                 'group': [x for x in layers if attr_of(x, 'type') ==
                           K('group')]}
        for n, args, kw, want in (
                ('True', [TRUE], {}, layers),
                ('False', [FALSE], {}, []),
                ("'circle'", [K('circle')], {}, kinds['circle']),
                ("type='group'", [], {'type': K('group')}, kinds['group']),
                ('a class', [W.cls('Group')], {}, kinds['group'])):
            n = 'find_all(%s, recursive=False)' % n
            got = compare(I, 'C18:search', n, lambda: I.iterate(I.call(
                fa, args, dict(kw, recursive=FALSE))))
            if got is None:
                continue
            t = tags(I, got)
            odd = [x for x in t if x not in want]
            miss = [x for x in want if x not in t]
            if odd or miss or len(t) != len(want):
                R.violation('C18:search', '%s (%s) %s' % (
                    n, who, 'finds %s' % odd[0].label if odd else
                    'misses %s' % miss[0].label if miss else
                    'finds something twice'), 'sangfroid/layer/layer.py')
        # everything inside: nothing outside is found, nothing is missed
        deep = [x for x in dom.descendants(canvas)
                if isinstance(x, NodeObj) and x.name == K('layer')]
        got = compare(I, 'C18:search', 'find_all(True)', lambda: I.iterate(
            I.call(fa, [TRUE], {})))
        if got is not None:
            t = tags(I, got)
            odd = [x for x in t if x not in deep]
            miss = [x for x in deep if x not in t]
            if odd or miss or len(t) != len(deep):
                R.violation('C18:search', 'find_all(True) (%s) %s' % (
                    who, 'finds %s' % odd[0].label if odd else
                    'misses %s' % miss[0].label if miss else
                    'finds something twice'), 'sangfroid/layer/layer.py')
    R.explore(who + ': search', search, 30)

    def parents(I):
        g, canvas, layers = group_in(W, I, where, contents)
        if 'animation' in where:
            return
        mine = tag_of(I, g)
        for x in I.iterate(g):
            try:
                p = I.norm(I.getattr(I.norm(x), 'parent'))
            except PyRaise as e:
                continue
            R.decided('%s: the parent of each' % who)
            if not isinstance(p, Inst) or tags(I, [p])[0] is not mine:
                R.violation('C18:parent', 'the parent of a sub-layer (%s) '
                            'is not the group' % who,
                            'sangfroid/layer/layer.py')
    R.explore(who + ': parents', parents, 30)


def snapshot(I):
    """The element children of every element in the documents."""
    return [(n, list(n.children), n.parent) for n in I.doc_nodes
            if isinstance(n, NodeObj)]


def is_space(I, x):
    return isinstance(x, TextObj) and isinstance(I.norm(x.value), K) and \
        not str(I.norm(x.value).v).strip()


def disturbed(I, before, canvas, moved):
    """What else than the layer which was added has moved."""
    for n, kids, parent in before:
        if n is moved:
            if [k for k in n.children if not is_space(I, k)] != \
                    [k for k in kids if not is_space(I, k)]:
                return 'the layer itself'
            continue
        was = [k for k in kids if not is_space(I, k) and k is not moved]
        now = [k for k in n.children if not is_space(I, k) and
               k is not moved]
        if was != now:
            return dom.label_of(I, n)
        for ch in dom.node_changes(I, n):
            if ch.startswith('attribute') or 'renamed' in ch:
                return '%s: %s' % (dom.label_of(I, n), ch)
    return None


def new_layer(W, I, source):
    """A layer to be added."""
    if source == 'new':
        return I.call(W.cls('Circle'), [], {})
    if source == 'new group':
        return I.call(W.cls('Group'), [], {})
    n = circle(I, 'moving')
    if source == 'from another document':
        document(I, inner(I, 'far', circle(I, 'f1'), n, circle(I, 'f2')))
    else:
        dom.adopt(I, n)
    return wrap_layer(W, I, n)


SOURCES = ('new', 'new group', 'from another document', 'loose')


def adding(R, W, where, contents):
    for source in SOURCES:
        who = 'append(a layer, %s) to %s, %s' % (source, where, contents)

        def run(I, source=source, who=who):
            g, canvas, layers = group_in(W, I, where, contents)
            x = new_layer(W, I, source)
            t = tag_of(I, x)
            before = snapshot(I)
            try:
                method(I, g, 'append', x)
            except PyRaise as e:
                if not e.implicit:
                    R.decided(who)
                    R.violation('C18:append', '%s raises %s' % (
                        who, e.name), e.loc)
                return
            R.decided(who)
            after(R, I, 'C18:append', who, g, canvas, t, before,
                  list(reversed(layers)) + [t])
        R.explore(who, run, 30)
        n = len([x for x in CONTENTS[contents](W.I)
                 if isinstance(x, NodeObj) and x.name == K('layer')])
        if where == 'inner animation':
            n += 1
        for i in range(-n - 1, n + 1):
            who = 'insert(%d, a layer, %s) in %s, %s' % (
                i, source, where, contents)

            def run(I, source=source, who=who, i=i):
                g, canvas, layers = group_in(W, I, where, contents)
                x = new_layer(W, I, source)
                t = tag_of(I, x)
                before = snapshot(I)
                order = list(reversed(layers))
                try:
                    method(I, g, 'insert', K(i), x)
                except PyRaise as e:
                    if e.implicit:
                        return
                    R.decided(who)
                    if -len(order) <= i < len(order):
                        R.violation('C18:insert', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if not -len(order) <= i < len(order):
                    R.violation('C18:insert', '%s is accepted, though there '
                                'is no layer at that index' % who, WHERE)
                    return
                at = i if i >= 0 else len(order) + i
                order.insert(at, t)
                after(R, I, 'C18:insert', who, g, canvas, t, before, order)
            if source in ('new', 'from another document') or R.thorough:
                R.explore(who, run, 30)


def after(R, I, key, who, g, canvas, t, before, want):
    now = list(reversed(direct(canvas)))
    if now != want:
        R.violation(key, 'after %s the sub-layers are %s rather than %s' % (
            who, names(now), names(want)), last_mutation(I) or WHERE)
        return
    d = disturbed(I, before, canvas, t)
    if d:
        R.violation(key + ':disturbed', '%s disturbs %s' % (who, d),
                    first_mutation(I) or WHERE)
    if [x for x in t.children if isinstance(x, TextObj)] and t.parent \
            is not canvas:
        R.violation(key, 'after %s the layer is not in the group' % who,
                    WHERE)
    got = [I.norm(y) for y in I.iterate(g)]
    if tags(I, got) != want:
        R.violation(key, 'after %s, iterating gives %s' % (
            who, names(tags(I, got))), WHERE)


def sequences(R, W):
    """Several changes in a row, to the same object."""
    plans = [
        ('append, append, append', [('a', None)] * 3),
        ('append, insert(0)', [('a', None), ('i', 0)]),
        ('append, insert(-1), append', [('a', None), ('i', -1),
                                        ('a', None)]),
        ('append, insert(0), insert(1), insert(-1)', [
            ('a', None), ('i', 0), ('i', 1), ('i', -1)]),
        ('append the same again', [('a', None), ('again', None)]),
        ('append, append, append the first again', [
            ('a', None), ('a', None), ('first', None)]),
        ('insert the last at the front', [('a', None), ('a', None),
                                          ('front', None)]),
    ]
    for where in PLACES:
        for contents in ('empty', 'one', 'groups', 'other elements'):
            for name, plan in plans:
                who = '%s on %s, %s' % (name, where, contents)

                def run(I, where=where, contents=contents, plan=plan,
                        who=who):
                    g, canvas, layers = group_in(W, I, where, contents)
                    order = list(reversed(layers))
                    mine = []
                    for op, i in plan:
                        if op in ('a', 'i'):
                            x = new_layer(W, I, 'new')
                            mine.append(x)
                        elif op == 'again':
                            x = mine[-1]
                        elif op == 'first':
                            x = mine[0]
                        else:
                            x = mine[-1]
                            i = 0
                        t = tag_of(I, x)
                        try:
                            if op in ('i', 'front'):
                                if op == 'front' and order[0] is t:
                                    return
                                method(I, g, 'insert', K(i), x)
                            else:
                                method(I, g, 'append', x)
                        except PyRaise as e:
                            # a layer can't be put after itself
                            if e.implicit or op in ('again', 'front'):
                                return
                            R.violation('C18:sequence', '%s raises %s' % (
                                who, e.name), e.loc)
                            return
                        if t in order:
                            if op == 'i' or op == 'front':
                                mark = order[i]
                                order.remove(t)
                                order.insert(order.index(mark), t)
                            else:
                                order.remove(t)
                                order.append(t)
                        elif op == 'i':
                            order.insert(i if i >= 0 else len(order) + i, t)
                        else:
                            order.append(t)
                        got = tags(I, [I.norm(y) for y in I.iterate(g)])
                        R.decided(who)
                        if got != order:
                            R.violation('C18:sequence', '%s: the sub-layers '
                                        'are %s rather than %s' % (
                                            who, names(got), names(order)),
                                        last_mutation(I) or WHERE)
                            return
                R.explore(who, run, 30)


def refusals(R, W):
    def tag(I):
        n = circle(I, 'a tag')
        dom.adopt(I, n)
        return n
    things = {
        'a str': lambda I: arg('text', 'str'),
        'an int': lambda I: arg('number', 'int'),
        'None': lambda I: NONE,
        'an object': lambda I: arg('object', 'object'),
        'a tag': tag,
        'a value': lambda I: value_arg(W, I, 'canvas'),
        'a class': lambda I: W.cls('Circle'),
        'a list of layers': lambda I: I.new_list([
            I.call(W.cls('Circle'), [], {})]),
        'a time': lambda I: I.call(W.T, [K(3)], {}),
        'anything but a layer': lambda I: arg('number', 'int', 'str'),
    }
    for where in PLACES:
        for contents in ('empty', 'groups'):
            for n, mk in things.items():
                for op in ('append', 'insert'):
                    if op == 'insert' and contents == 'empty':
                        continue
                    who = '%s(%s) on %s, %s' % (op, n, where, contents)

                    def run(I, where=where, contents=contents, mk=mk, op=op,
                            who=who):
                        g, canvas, layers = group_in(W, I, where, contents)
                        x = mk(I)
                        try:
                            method(I, g, op, *([x] if op == 'append'
                                               else [K(0), x]))
                        except PyRaise as e:
                            R.decided(who)
                            if changes(I):
                                R.violation('C18:refuse:%s' % op, '%s is '
                                            'refused, but changes the '
                                            'document' % who, e.loc)
                            return
                        R.decided(who)
                        R.violation('C18:refuse:%s' % op, '%s is accepted' %
                                    who, WHERE)
                    R.explore(who, run, 30)
    G = W.cls('Group')
    for c in W.layer_classes():
        if G in c.mro:
            continue
        for t in REFERENCE:
            if norm_type(t) == norm_type(c.name):
                break
        else:
            continue
        for op in ('append', 'insert'):
            who = '%s to a %s' % (op, c.name)

            def run(I, t=t, op=op, who=who, c=c):
                n = reference_layer(I, t, label='layer', open_=False)
                document(I, n)
                o = wrap_layer(W, I, n)
                x = new_layer(W, I, 'new')
                if op == 'insert' and member(c, 'insert') is None:
                    R.decided(who)
                    return
                try:
                    method(I, o, op, *([x] if op == 'append'
                                       else [K(0), x]))
                except PyRaise as e:
                    R.decided(who)
                    if changes(I):
                        R.violation('C18:notgroup', '%s is refused, but '
                                    'changes the document' % who, e.loc)
                    return
                R.decided(who)
                R.violation('C18:notgroup', '%s is accepted' % who,
                            W.qual(c))
            R.explore(who, run, 30)
