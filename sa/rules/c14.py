"""C14: type names are matched without regard to case or underscores."""
import ast
import os

from .args import *

RULE = ('Constant propagation through looking up, registering and searching: '
        'for every registered name, in spellings which differ in case and '
        'underscores, the same class is found, on both sides of the '
        'comparison; every class found registered in the source is what its '
        'own name leads to; names which are not registered lead to KeyError.')
SCOPE = ('Every layer type of the reference and every class registered with '
         'a decorator; elements, lookups by name, find, find_all and calls, '
         'with the type given as text, class, keyword or in attrs.')
MINIMUM = 500
PARALLEL = True


def spellings(n):
    flat = n.replace('_', '')
    r = [n, n.lower(), n.upper(), n.title(), flat, flat.upper(),
         flat.lower(), flat.capitalize(), '_' + flat, flat + '_',
         flat[:1] + '_' + flat[1:], '_'.join(flat),
         n.swapcase()]
    out = []
    for x in r:
        if x not in out:
            out.append(x)
    return out


def where(W):
    return 'sangfroid/registry.py'


def registrations(W):
    """(class, name) for each class decorated with handles_type(...)."""
    r = []
    for c in W.all_classes():
        node = getattr(c, 'node', None)
        if node is None:
            continue
        for d in node.decorator_list:
            if not isinstance(d, ast.Call):
                continue
            f = d.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                f, 'id', None)
            if nm != 'handles_type':
                continue
            a = list(d.args) + [k.value for k in d.keywords]
            if not a:
                name = c.name
            elif isinstance(a[0], ast.Constant) and isinstance(
                    a[0].value, str):
                name = a[0].value
            else:
                continue
            base = f.value if isinstance(f, ast.Attribute) else None
            which = base.id if isinstance(base, ast.Name) else None
            r.append((c, name, which))
    return r


def check(W, R):
    lookups(R, W)
    elements(R, W)
    registry(R, W)
    unknown(R, W)
    searches(R, W)


def registry_for(W, c):
    if W.Layer in c.mro:
        return W.Layer
    if W.Value in c.mro:
        return W.Value
    return None


def lookups(R, W):
    for c, name, which in registrations(W):
        base = registry_for(W, c)
        if base is None:
            continue
        for s in spellings(name):
            who = '%s.handles_type.from_name(%r)' % (base.name, s)

            def run(I, base=base, s=s, c=c, who=who, name=name):
                reg = I.getattr(base, 'handles_type')
                try:
                    got = I.norm(method(I, reg, 'from_name', K(s)))
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C14:lookup:%s' % name, '%s raises %s' %
                                    (who, e.name), W.qual(c))
                    return
                R.decided(who)
                if got is not c:
                    R.violation('C14:lookup:%s' % name, '%s is %s rather '
                                'than %s' % (who, getattr(
                                    got, 'name', got), c.name), W.qual(c))
            R.explore(who, run, 10)


def elements(R, W):
    """The class for an element, whatever the spelling of its type."""
    by_norm = {}
    for c, name, which in registrations(W):
        if W.Layer in c.mro:
            by_norm[norm_type(name)] = c
    for type_ in sorted(set(REFERENCE) | set(by_norm)):
        for s in spellings(type_):
            who = 'Layer.from_tag(<layer type=%r>)' % s

            def run(I, s=s, type_=type_, who=who):
                def cls(x):
                    n = layer_node(I, x)
                    document(I, n)
                    return wrap_layer(W, I, n).cands[0]
                want = by_norm.get(norm_type(type_))
                try:
                    if want is None:
                        want = cls(type_)
                except PyRaise:
                    return
                try:
                    got = cls(s)
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C14:element', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if got is not want:
                    R.violation('C14:element', '%s is a %s rather than a %s'
                                % (who, got.name, want.name), where(W))
            R.explore(who, run, 10)
    for kind in KINDS:
        if kind == 'transformation':
            continue
        for s in spellings(kind):
            who = 'Value.from_tag(<%s>)' % s

            def run(I, s=s, kind=kind, who=who):
                want = W.value_class(kind)
                n = value_node(I, kind)
                n.name = K(s)
                dom.adopt(I, n)
                try:
                    got = value_object(W, I, kind, n).cands[0]
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C14:value', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if want not in got.mro:
                    R.violation('C14:value', '%s is a %s rather than a %s' %
                                (who, got.name, want.name), where(W))
            R.explore(who, run, 10)
        for s in (kind, kind.upper(), kind.title()):
            who = 'Value.from_tag(<animated type=%r>)' % s

            def run(I, s=s, kind=kind, who=who):
                want = W.value_class(kind)
                n = animated_node(I, kind)
                n.attrs.entries[0][1] = K(s)
                dom.adopt(I, n)
                try:
                    got = value_object(W, I, kind, n).cands[0]
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C14:value', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if want not in got.mro:
                    R.violation('C14:value', '%s is a %s rather than a %s' %
                                (who, got.name, want.name), where(W))
            R.explore(who, run, 10)


def registry(R, W):
    """Registering a class."""
    for name in ('wombat', 'Wombat', 'WOMBAT', 'wom_bat', '_Wom_Bat_',
                 'two_words', 'TwoWords', 'Two_Words', None):
        for s in spellings(name or W.cls('Circle').name):
            who = 'from_name(%r) after registering %s' % (
                s, repr(name) if name else 'a class by its own name')

            def run(I, name=name, s=s, who=who):
                Reg = W.cls('Registry', 'sangfroid.registry')
                C = W.cls('Circle')
                D = W.cls('Rectangle')
                reg = I.call(Reg, [], {})
                other = I.call(Reg, [], {})
                try:
                    dec = I.call(reg, [K('other')], {})
                    I.call(dec, [D], {})
                    dec = I.call(reg, [K(name)] if name else [], {})
                    back = I.call(dec, [C], {})
                    if back is not C:
                        R.violation('C14:decorator', 'registering a class '
                                    'does not give it back', where(W))
                    got = I.norm(method(I, reg, 'from_name', K(s)))
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(who)
                        R.violation('C14:registry', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if got is not C:
                    R.violation('C14:registry', '%s is %s' % (
                        who, getattr(got, 'name', got)), where(W))
                try:
                    method(I, other, 'from_name', K(s))
                except PyRaise as e:
                    return
                R.violation('C14:shared', '%s also finds it in another '
                            'registry' % who, where(W))
            R.explore(who, run, 10)


def unknown(R, W):
    for s in ('wombat', '', '_', 'circ', 'circle2', 'circles', 'cir-cle',
              'cir cle', ' circle', 'layer', 'None', 'ircle'):
        for base in ('Layer', 'Value'):
            who = '%s.handles_type.from_name(%r)' % (base, s)

            def run(I, s=s, base=base, who=who):
                reg = I.getattr(getattr(W, base), 'handles_type')
                try:
                    got = method(I, reg, 'from_name', K(s))
                except PyRaise as e:
                    if e.implicit:
                        return
                    R.decided(who)
                    if e.name != 'KeyError':
                        R.violation('C14:unknown', '%s raises %s rather than '
                                    'KeyError' % (who, e.name), e.loc)
                    return
                R.decided(who)
                R.violation('C14:unknown', '%s is %s' % (
                    who, getattr(got, 'name', got)), where(W))
            R.explore(who, run, 10)
        who = 'from_tag() of type %r' % s

        def run(I, s=s, who=who):
            n = layer_node(I, s)
            document(I, n)
            try:
                got = wrap_layer(W, I, n)
            except PyRaise as e:
                if e.implicit:
                    return
                R.decided(who)
                if e.name != 'KeyError':
                    R.violation('C14:unknown', '%s raises %s rather than '
                                'KeyError' % (who, e.name), e.loc)
                return
            R.decided(who)
            R.violation('C14:unknown', '%s gives a %s' % (
                who, got.cands[0].name), where(W))
        R.explore(who, run, 10)


def searches(R, W):
    pairs = []
    for c, name, which in registrations(W):
        if W.Layer in c.mro:
            pairs.append((c, name))
    ways = {
        'find_all(%s)': lambda I, g, x: I.iterate(method(
            I, g, 'find_all', x)),
        'find_all(type=%s)': lambda I, g, x: I.iterate(I.call(
            I.getattr(g, 'find_all'), [], {'type': x})),
        'find_all(attrs={"type": %s})': lambda I, g, x: I.iterate(I.call(
            I.getattr(g, 'find_all'), [], {'attrs': I.new_dict(
                [[K('type'), x]])})),
        'find_all(%s, recursive=False)': lambda I, g, x: I.iterate(I.call(
            I.getattr(g, 'find_all'), [x], {'recursive': FALSE})),
        'find(%s)': lambda I, g, x: [method(I, g, 'find', x)],
        'group(%s)': lambda I, g, x: [I.call(g, [x], {})],
    }
    thorough = R.thorough
    for c, name in pairs:
        forms = spellings(name)
        if not thorough:
            forms = forms[:8]
        for wname, way in ways.items():
            if wname not in ('find_all(%s)', 'find_all(type=%s)') and \
                    not thorough and c.name not in (
                        'Circle', 'Text', 'Group', 'LinearGradient',
                        'Linear_Gradient'):
                continue
            for how in forms + ['class']:
                who = wname % (c.name if how == 'class' else repr(how)) + \
                    ' (%s)' % name

                def run(I, c=c, name=name, way=way, how=how, who=who,
                        wname=wname):
                    wanted = []
                    mine = []
                    for s in forms[:6]:
                        n = layer_node(I, s, group_params(I, c, W))
                        wanted.append(n)
                    for s in ('circle', 'text', 'rectangle') + tuple(
                            similar(name, [p[1] for p in pairs])):
                        if norm_type(s) != norm_type(name):
                            mine.append(layer_node(I, s))
                    kids = []
                    for i, n in enumerate(wanted):
                        kids.append(n)
                        if i < len(mine):
                            kids.append(mine[i])
                    kids += mine[len(wanted):]
                    a = animation(W, I, *kids)
                    x = c if how == 'class' else K(how)
                    try:
                        found = [I.norm(y) for y in way(I, a, x)]
                    except PyRaise as e:
                        if not e.implicit:
                            R.decided(who)
                            R.violation('C14:search:%s' % wname, '%s raises '
                                        '%s' % (who, e.name), e.loc)
                        return
                    tags = []
                    for y in found:
                        if y == NONE:
                            continue
                        tags.append(I.norm(I.getattr(y, 'tag')))
                    R.decided(who)
                    bad = [t for t in tags if t not in wanted]
                    if bad:
                        R.violation(
                            'C14:search:%s' % wname, '%s finds a layer of '
                            'type %s' % (who, shown(I, attr_of(
                                bad[0], 'type'))), 'sangfroid/layer/layer.py')
                        return
                    if wname.startswith('find_all'):
                        miss = [t for t in wanted if t not in tags]
                    else:
                        miss = wanted[:1] if not tags else []
                    if miss:
                        R.violation(
                            'C14:search:%s' % wname, '%s misses a layer of '
                            'type %s' % (who, shown(I, attr_of(
                                miss[0], 'type'))),
                            'sangfroid/layer/layer.py')
                R.explore(who, run, 10)


def similar(name, names):
    """The other names which it would be easiest to confuse with one."""
    n = norm_type(name)

    def nearness(m):
        x = norm_type(m)
        pre = os.path.commonprefix([n, x])
        post = os.path.commonprefix([n[::-1], x[::-1]])
        return (n in x or x in n, max(len(pre), len(post)),
                n[0] == x[0], -abs(len(n) - len(x)))
    r = [m for m in names if norm_type(m) != n]
    r.sort(key=nearness, reverse=True)
    return [m for m in r[:6] if norm_type(m) not in ('circle', 'text',
                                                     'rectangle')]


def group_params(I, c, W):
    if W.cls('Group') in c.mro:
        return [param_node(I, 'canvas', value_node(I, 'canvas', 'c'))]
    return []
