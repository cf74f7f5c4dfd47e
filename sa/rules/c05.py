"""C05: a layer's parameters are its own, never those of layers inside it."""
from .args import *

RULE = ('Ownership analysis of look-ups: on every path, the element a '
        'parameter look-up, test or assignment reaches has the layer itself '
        'as its owner, and not a layer nested inside it.')
SCOPE = ('Every layer class except Switch, every parameter Synfig or the '
         'class knows for it, by attribute, subscript and `in`; read and '
         'assigned; with the parameter present and absent; with a nested '
         'layer holding parameters of the same names before and after the '
         'layer\'s own, one and two levels down. Contents of groups, and the '
         'name and description of an animation, likewise.')
ASSUMPTIONS = ['Switch layers are exempt, as the property says']
MINIMUM = 1500
PARALLEL = True


def inside(node, anc):
    while node is not None:
        if node is anc:
            return True
        node = getattr(node, 'parent', None)
    return False


def build(W, I, t, name, present, order, deep):
    """A layer of type t, with another inside. Returns both."""
    names = list(REFERENCE[t]['params'])
    if name not in names:
        names.append(name)

    def par(n, label):
        tree = REFERENCE[t]['params'].get(n)
        kind = kind_of_tree(tree) or 'real'
        if kind == 'canvas':
            return param_node(I, n, value_node(I, 'canvas', label, layers=[
                layer_node(I, 'text', label=label + ' text', open_=False)]))
        return param_node(I, n, value_node(I, kind, label + '.' + n))
    inner = layer_node(I, t, [par(n, 'inner') for n in names],
                       label='inner', open_=False)
    held = inner
    if deep:
        held = layer_node(I, 'group', [param_node(I, 'canvas', value_node(
            I, 'canvas', 'between', layers=[inner]))], label='between',
            open_=False)
    if order == 'alone':
        # the only parameter, and nothing inside
        outer = layer_node(I, t, [par(name, 'own')] if present else [],
                           label='outer', open_=False)
        document(I, outer)
        return outer, inner, held
    holder = 'canvas' if name != 'canvas' else 'holder'
    hold = param_node(I, holder, value_node(I, 'canvas', 'held',
                                            layers=[held]))
    own = [par(n, 'own') for n in names
           if n != holder and (n != name or present)]
    params = [hold] + own if order == 'first' else own + [hold]
    outer = layer_node(I, t, params, label='outer', open_=False)
    document(I, outer)
    return outer, inner, held


def check(W, R):
    switch = norm_type('switch')
    for c in W.layer_classes():
        if norm_type(c.name) == switch:
            continue
        for t in REFERENCE:
            if norm_type(t) == norm_type(c.name):
                break
        else:
            continue
        names = list(REFERENCE[t]['params'])
        names += [d for d in descriptors(W, c)
                  if is_field(W, c, d) and d not in names]
        names.append('wombat')
        listings(W, R, c, t)
        for n in names:
            for present in (True, False):
                for order, deep in (('first', False), ('last', False),
                                    ('first', True), ('alone', False)):
                    if deep and not R.thorough and c.name not in (
                            'Group', 'Circle', 'Duplicate'):
                        continue
                    for op in OPS:
                        unit(R, W, c, t, n, present, order, deep, op)
    groups(W, R)
    animations(W, R)


def is_field(W, c, n):
    m = member(c, n)
    if not isinstance(m, Inst):
        return False
    return any(k.name == 'ParamTagField' for cc in m.cands for k in cc.mro
               if isinstance(k, ClassObj))


OPS = ('[]', '.', 'in', '[]=', '.=', '[]= a value', '.= a value', 'get')


def unit(R, W, c, t, n, present, order, deep, op):
    if op.startswith('.') and member(c, n) is None and op != '.':
        return      # would merely make an instance attribute
    if op == 'get' and member(c, 'get') is None:
        return
    who = '%s%s (%s, %s%s)' % (
        c.name, op.replace('[]', '[%r]' % n) if '[]' in op
        else op.replace('.', '.' + n) if '.' in op else ' in ' + n,
        'present' if present else 'absent', order, ', deep' if deep else '')

    m = member(c, n)
    known = n in REFERENCE[t]['params'] and (
        m is None or is_field(W, c, n)) or n == 'wombat'

    def answered(I, got, outer, key):
        if not known or op == '.' and m is None:
            return
        tag = tag_of(I, got) if isinstance(got, Inst) else None
        own = own_param(outer, n)
        if not isinstance(tag, NodeObj) or tag.parent is not own:
            R.violation(key, '%s isn\'t the value of that parameter' % who,
                        where(W, c))

    def answered_anyway(key):
        if known and not (op == 'get' or op.startswith('.=') and m is None):
            R.violation(key, '%s succeeds, though the layer has no such '
                        'parameter' % who, where(W, c))

    def refused(I, e, key, kind):
        if not known:
            return
        if present:
            if op in ('[]', 'in') and kind in IMPLEMENTED or \
                    op == '.' and m is not None and kind in IMPLEMENTED:
                R.violation(key, '%s raises %s' % (who, e.name), e.loc)
            return
        want = 'KeyError' if '[]' in op else 'AttributeError'
        if op != 'in' and want not in names_of(e):
            R.violation(key, '%s raises %s rather than %s' % (
                who, e.name, want), e.loc)

    def run(I):
        outer, inner, held = build(W, I, t, n, present, order, deep)
        o = wrap_layer(W, I, outer)
        key = 'C05:%s:%s' % (c.name, op)
        kind = kind_of_tree(REFERENCE[t]['params'].get(n)) or 'real'
        got = None
        try:
            if op == 'in':
                r = yes(I, I.contains(o, K(n)))
                if r and not present:
                    R.violation(key, '%r in %s is true, because of a layer '
                                'inside it' % (n, c.name), where(W, c))
                elif present and not r:
                    R.violation(key, '%r in %s is false though it has that '
                                'parameter' % (n, c.name), where(W, c))
            elif op == 'get':
                got = method(I, o, 'get', K(n))
            elif op == '[]':
                got = I.getitem(o, K(n))
            elif op == '.':
                got = I.getattr(o, n)
            else:
                if 'value' in op:
                    if kind not in IMPLEMENTED:
                        return
                    a = value_arg(W, I, kind, label='new')
                else:
                    a = good(I, kind) if kind in IMPLEMENTED else \
                        arg('new', 'float')
                if op.startswith('[]'):
                    I.setitem(o, K(n), a)
                else:
                    I.setattr(o, n, a)
            if present and op in ('[]', '.') and kind in IMPLEMENTED:
                answered(I, got, outer, key)
            elif not present and op != 'in':
                answered_anyway(key)
        except PyRaise as e:
            refused(I, e, key, kind)
        R.decided('%s concerns only the layer itself' % who)
        if isinstance(got, Inst) and '_tag' in got.attrs or \
                isinstance(got, Inst) and member(got.cands[0], 'tag'):
            tag = tag_of(I, got)
            if isinstance(tag, NodeObj) and inside(tag, held):
                R.violation(key, '%s reads the parameter of a layer inside '
                            '%s' % (who, c.name), where(W, c))
        for e in I.log:
            if e[0] == 'mutate' and isinstance(e[1], NodeObj) and \
                    changed_inside(e[1], held):
                R.violation(key, '%s changes the parameter of a layer inside '
                            '%s' % (who, c.name), e[-1])
                break
    R.explore(who, run, 200 if R.thorough else 30)


def own_param(outer, n):
    for p in kids_of(outer):
        if attr_of(p, 'name') == K(n):
            return p


def names_of(e):
    return [k.name for c in e.exc.cands for k in c.mro]


def listings(W, R, c, t):
    """keys(), values() and items() give the layer's own parameters."""
    names = list(REFERENCE[t]['params'])
    if not names:
        return
    whole = all(kind_of_tree(x) in KINDS or kind_of_tree(x) is None
                for x in REFERENCE[t]['params'].values())
    for op in ('keys', 'values', 'items'):
        if member(c, op) is None:
            continue
        for order in ('first', 'last'):
            who = '%s.%s() (nested layer %s)' % (c.name, op, order)

            def run(I, op=op, order=order, who=who):
                outer, inner, held = build(W, I, t, names[0], True, order,
                                           False)
                o = wrap_layer(W, I, outer)
                key = 'C05:%s.%s' % (c.name, op)
                R.decided(who)
                try:
                    got = I.iterate(method(I, o, op))
                except PyRaise as e:
                    if whole:
                        R.violation(key, '%s raises %s' % (who, e.name),
                                    e.loc)
                    return
                want = [p for p in kids_of(outer)]
                if len(got) != len(want):
                    R.violation(key, '%s gives %d things, but the layer has '
                                '%d parameters' % (who, len(got), len(want)),
                                where(W, c))
                    return
                for g, p in zip(got, want):
                    k, v = None, None
                    if op == 'items':
                        k, v = I.iterate(g)
                    elif op == 'keys':
                        k = g
                    else:
                        v = g
                    if k is not None and I.norm(k) != attr_of(p, 'name'):
                        R.violation(key, '%s gives %s where the parameter '
                                    'is %s' % (who, shown(I, k), shown(
                                        I, attr_of(p, 'name'))),
                                    where(W, c))
                        return
                    if v is not None:
                        tag = tag_of(I, v) if isinstance(v, Inst) else None
                        if not isinstance(tag, NodeObj) or \
                                tag.parent is not p:
                            R.violation(key, '%s gives a value which isn\'t '
                                        'in the parameter %s' % (who, shown(
                                            I, attr_of(p, 'name'))),
                                        where(W, c))
                            return
            R.explore(who, run, 30)


def changed_inside(node, held):
    return inside(node, held) and node.origin == 'doc'


def where(W, c):
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def groups(W, R):
    group = W.cls('Group')
    for order in ('first', 'last'):
        for present in (True, False):
            def build(I):
                stray = layer_node(I, 'circle', label='stray', open_=False)
                inner = layer_node(I, 'group', [param_node(
                    I, 'canvas', value_node(I, 'canvas', 'inner',
                                            layers=[stray]))],
                    label='inner', open_=False)
                hold = param_node(I, 'holder', value_node(
                    I, 'canvas', 'held', layers=[inner]))
                mine = layer_node(I, 'text', label='mine', open_=False)
                own = param_node(I, 'canvas', value_node(
                    I, 'canvas', 'own', layers=[mine]))
                ps = [own] if present else []
                outer = layer_node(
                    I, 'group', [hold] + ps if order == 'first'
                    else ps + [hold], label='outer', open_=False)
                document(I, outer)
                return wrap_layer(W, I, outer), hold, mine

            def layers_in(I, o):
                return I.iterate(o)
            ops = {
                'children': lambda I, o: layers_in(I, I.getattr(
                    o, 'children')),
                'descendants': lambda I, o: layers_in(I, I.getattr(
                    o, 'descendants')),
                'iteration': lambda I, o: layers_in(I, o),
                'index': lambda I, o: [I.getitem(o, K(0))],
                'find_all': lambda I, o: layers_in(I, method(
                    I, o, 'find_all', K(True), recursive=K(False))),
                'recursive find_all': lambda I, o: layers_in(I, method(
                    I, o, 'find_all', K(True))),
                'canvas': lambda I, o: [I.getattr(o, 'canvas')],
                'append': lambda I, o: method(I, o, 'append', new(W, I)),
                'insert': lambda I, o: method(I, o, 'insert', K(0),
                                              new(W, I)),
            }
            for opname, op in ops.items():
                who = 'Group %s (canvas %s, %s)' % (
                    opname, 'present' if present else 'absent', order)

                def run(I, opname=opname, op=op, who=who):
                    o, hold, mine = build(I)
                    r = None
                    try:
                        r = op(I, o)
                    except PyRaise:
                        pass
                    R.decided(who)
                    key = 'C05:Group:%s' % opname
                    for x in r or [] if isinstance(r, list) else []:
                        tag = tag_of(I, x) if isinstance(x, Inst) else None
                        if isinstance(tag, NodeObj) and inside(tag, hold):
                            R.violation(key, '%s finds something which is '
                                        'not in its own canvas' % who,
                                        where(W, group))
                    for e in I.log:
                        if e[0] == 'mutate' and isinstance(
                                e[1], NodeObj) and changed_inside(
                                    e[1], hold):
                            R.violation(key, '%s changes something not in '
                                        'its own canvas' % who, e[-1])
                            break
                R.explore(who, run, 100)


def new(W, I):
    n = layer_node(I, 'circle', label='added', open_=False)
    dom.adopt(I, n)
    return wrap_layer(W, I, n)


def animations(W, R):
    c = W.Animation
    for what in ('name', 'desc'):
        for present in (True, False):
            for op in ('read', 'write'):
                who = 'Animation.%s (%s, %s)' % (
                    what, op, 'present' if present else 'absent')

                def run(I, what=what, present=present, op=op, who=who):
                    cv = value_node(I, 'canvas', 'inner canvas', layers=[
                        layer_node(I, 'text', label='stray', open_=False)])
                    for w in ('name', 'desc'):
                        x = new_node(I, w, {}, [S('inner ' + w)])
                        x.parent = cv
                        cv.children.insert(0, x)
                    inner = layer_node(I, 'group', [
                        param_node(I, what, value_node(I, 'string', 'inner '
                                                       + what)),
                        param_node(I, 'canvas', cv)], label='inner',
                        open_=False)
                    defs = new_node(I, 'defs', {}, [
                        new_node(I, what, {}, [S('inner ' + what)])])
                    a = animation(W, I, inner, name=present, desc=present,
                                  extra=[defs])
                    R.decided(who)
                    key = 'C05:Animation.%s' % what
                    if op == 'read':
                        try:
                            got = I.getattr(a, what)
                        except PyRaise:
                            return
                        got = I.norm(got)
                        t = term_of(text_of(I, got))
                        if term_has(t, lambda x: x == (
                                'doc', 'inner ' + what)):
                            R.violation(key, '%s comes from inside a layer'
                                        % who, where(W, c))
                        elif present and not term_has(t, lambda x: x == (
                                'doc', 'animation ' + what)):
                            if isinstance(got, K):
                                R.violation(key, '%s isn\'t the animation\'s '
                                            'own' % who, where(W, c))
                    else:
                        try:
                            I.setattr(a, what, arg('new', 'str'))
                        except PyRaise:
                            pass
                        for e in I.log:
                            if e[0] == 'mutate' and isinstance(
                                    e[1], NodeObj) and (
                                        inside(e[1], inner) or
                                        inside(e[1], defs)):
                                R.violation(key, '%s changes something '
                                            'inside a layer' % who, e[-1])
                                break
                R.explore(who, run, 100)
