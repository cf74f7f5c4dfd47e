"""C17: each attribute reads and writes one place, under Synfig's name."""
from .args import *
from .c05 import inside
from .. import ext

RULE = ('For every attribute of every layer class, of Animation and of '
        'keyframes: the place in the document which reading it reaches, and '
        'every place which assigning it changes, are computed on all paths '
        'and compared with the place Synfig keeps it (the parameter, XML '
        'attribute or element of that name); no two fields of a class have '
        'the same place; a value which the document sets is what is read.')
SCOPE = ('All declared fields of all layer classes whose parameters Synfig\'s '
         'reference lists, the attributes of every layer, shortcuts to the '
         'members of a transformation, and all attributes of Animation and '
         'Keyframe which are stored in the document.')
MINIMUM = 900
PARALLEL = True

SUBKEYS = ('offset', 'angle', 'skew_angle', 'scale')


def where(W, c):
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def fields_of(W, c):
    return [n for n in descriptors(W, c) if not n.startswith('_')
            and isinstance(member(c, n), Inst)]


def type_of(c):
    for t in REFERENCE:
        if norm_type(t) == norm_type(c.name):
            return t
    return None


def place_name(t, n):
    """Synfig's name of the parameter behind an attribute."""
    ps = REFERENCE[t]['params']
    for x in (n, n.rstrip('_'), n + '[0]'):
        if x in ps:
            return x
    return None


def changed_nodes(I):
    return [n for n in I.doc_nodes if dom.node_changes(I, n)]


def check(W, R):
    for c in W.layer_classes():
        t = type_of(c)
        if t is None:
            continue
        places = {}
        for n in fields_of(W, c):
            if n in TAG_ATTRS or n == 'tag':
                continue
            p = place_name(t, n)
            if p is not None:
                param(R, W, c, t, n, p)
            elif 'transformation' in REFERENCE[t]['params'] and \
                    n in SUBKEYS:
                shortcut(R, W, c, t, n)
        injective(R, W, c, t)
    layer_attributes(R, W)
    animations(R, W)
    keyframes(R, W)


def lay(W, I, t):
    n = reference_layer(I, t, label='layer', open_=False)
    other = reference_layer(I, t, label='other layer', open_=False)
    document(I, n, other)
    return wrap_layer(W, I, n), n


def param_el(I, node, name):
    for k in kids_of(node):
        if attr_of(k, 'name') == K(name):
            return k
    return None


def param(R, W, c, t, n, p):
    kind = kind_of_tree(REFERENCE[t]['params'][p])
    if p == 'blend_method':
        kind = 'blend'
    if kind not in HOSTS:
        return
    key = 'C17:%s.%s' % (c.name, n)
    who = '%s.%s' % (c.name, n)

    def read(I):
        o, node = lay(W, I, t)
        want = param_el(I, node, p)
        if want is None or not kids_of(want):
            return
        try:
            v = I.getattr(o, n)
        except PyRaise as e:
            if e.name == 'NotImplementedError':
                return
            if not e.implicit:
                R.decided('%s is found in the document' % who)
                R.violation(key + ':missing',
                            '%s is not found in a document which has '
                            'Synfig\'s "%s": %s' % (who, p, e.name),
                            where(W, c))
            return
        got = place_of(I, v)
        if got is None:
            R.undecided(who)
            return
        R.decided('%s is read from "%s"' % (who, p))
        if got not in kids_of(want):
            R.violation(key, '%s is read from %s, not from the parameter '
                        '"%s"' % (who, place_str(I, got), p), where(W, c))
    R.explore(who + ' read', read, 60)

    seen = []

    def write(I):
        o, node = lay(W, I, t)
        want = param_el(I, node, p)
        try:
            I.setattr(o, n, good(I, kind))
        except PyRaise as e:
            return
        seen.append(bool(changed_nodes(I)))
        # a value made of layers or of other values may hold them
        bad_ = [x for x in changed_nodes(I) if not inside(x, want)
                and not was_inside(x, want)]
        R.decided('%s is written to "%s"' % (who, p))
        if bad_:
            R.violation(key, 'assigning %s changes %s' % (
                who, place_str(I, bad_[0])), first_mutation(I)
                or where(W, c))
    if kind != 'canvas':
        R.explore(who + ' write', write, 60)
    # assigning what is there already need not change anything, but
    # assigning something unknown sometimes must
    if kind in ('real', 'integer', 'angle', 'string', 'vector', 'color') \
            and seen and not any(seen):
        R.violation(key, 'assigning %s changes nothing in the document'
                    % who, where(W, c))


def was_inside(x, anc):
    n = x
    while n is not None:
        if n is anc:
            return True
        n = getattr(n, 'oparent', None)
    return False


def place_of(I, v):
    """The element behind a value."""
    if not isinstance(v, Inst):
        return None
    try:
        t = tag_of(I, v)
    except PyRaise:
        return None
    return t if isinstance(t, NodeObj) else None


def place_str(I, n):
    names = []
    x = n
    while isinstance(x, NodeObj) and len(names) < 4:
        nm = attr_of(x, 'name')
        s = shown(I, x.name).strip("'")
        if isinstance(nm, K):
            s += '[%s]' % nm.v
        if x.label and 'layer' in x.label:
            s = x.label
            names.append(s)
            break
        names.append(s)
        x = x.parent
    return '/'.join(reversed(names))


def shortcut(R, W, c, t, n):
    who = '%s.%s' % (c.name, n)
    key = 'C17:%s' % who

    def target(I, node):
        tr = param_el(I, node, 'transformation')
        for comp in kids_of(tr):
            for k in kids_of(comp):
                if k.name == K(n):
                    return k

    def read(I):
        o, node = lay(W, I, t)
        want = target(I, node)
        try:
            v = I.getattr(o, n)
        except PyRaise as e:
            if not e.implicit:
                R.violation(key, '%s raises %s' % (who, e.name), where(W, c))
            return
        got = place_of(I, v)
        if got is None:
            R.undecided(who)
            return
        R.decided('%s is read from the transformation' % who)
        if got not in kids_of(want):
            R.violation(key, '%s is read from %s' % (
                who, place_str(I, got)), where(W, c))
    R.explore(who + ' read', read, 60)

    seen = []

    def write(I):
        o, node = lay(W, I, t)
        want = target(I, node)
        try:
            I.setattr(o, n, good(I, 'vector' if n in ('offset', 'scale')
                                 else 'angle'))
        except PyRaise as e:
            return
        seen.append(bool(changed_nodes(I)))
        bad_ = [x for x in changed_nodes(I) if not inside(x, want)
                and not was_inside(x, want)]
        R.decided('%s is written to the transformation' % who)
        if bad_:
            R.violation(key, 'assigning %s changes %s' % (
                who, place_str(I, bad_[0])), first_mutation(I))
    R.explore(who + ' write', write, 60)
    if seen and not any(seen):
        R.violation(key, 'assigning %s changes nothing in the document'
                    % who, where(W, c))


def injective(R, W, c, t):
    def run(I):
        o, node = lay(W, I, t)
        seen = {}
        for n in fields_of(W, c):
            if n in TAG_ATTRS or n == 'tag':
                continue
            try:
                v = I.getattr(o, n)
            except PyRaise:
                continue
            got = place_of(I, v)
            if got is None:
                continue
            R.decided('%s.%s has a place of its own' % (c.name, n))
            if id(got) in seen:
                R.violation('C17:%s.%s' % (c.name, n), '%s.%s and %s.%s are '
                            'read from the same place, %s' % (
                                c.name, seen[id(got)], c.name, n,
                                place_str(I, got)), where(W, c))
            seen[id(got)] = n
    R.explore('the places of all fields of %s' % c.name, run, 20)


###### attributes of elements

# name of the attribute, name in XML, text in the document, what it means;
# texts are chosen so that none is the default
TAG_ATTRS = {
    'type_': ('type', None),
    'version': ('version', [('0.7', 0.7), ('0', 0.0)]),
    'active': ('active', [
        ('false', False), ('true', True), ('True', True),
        ('FALSE', False)]),
    'exclude_from_rendering': ('exclude_from_rendering', [
        ('true', True), ('false', False), ('TRUE', True)]),
    'desc': ('desc', [('A wombat', 'A wombat'), ('', '')]),
}
NEW = {float: (0.75, '0.75'), bool: None, str: ('changed', 'changed'),
       int: (123, '123')}


def as_saved(I, node):
    """Turns the attributes into text, as saving and loading does."""
    for e in node.attrs.entries:
        v = I.norm(e[1])
        if not isinstance(v, K) or not isinstance(v.v, str):
            e[1] = ext.str_(I, v)


def plain(I, got):
    """An attribute as a Python value; ('frames', n) for times."""
    if isinstance(got, Inst):
        f = I.norm(I.getattr(got, 'frames'))
        return ('frames', f.v) if isinstance(f, K) else None
    return got.v if isinstance(got, K) else None


def set_attr(node, k, v):
    for e in node.attrs.entries:
        if e[0] == K(k):
            e[1] = K(v)
            return
    node.attrs.entries.append([K(k), K(v)])


MISSING = object()


def attribute(R, W, owner, make, n, xml, cases, key, loc, default=MISSING):
    """make(I, {xml attribute: text}) -> object, its element."""
    def compare(I, o, who, want):
        try:
            got = I.norm(I.getattr(o, n))
            g = plain(I, got)
        except PyRaise as e:
            if not excused(e):
                R.decided(who)
                R.violation(key, '%s raises %s' % (who, e.name), e.loc)
            return
        if g is None and not isinstance(got, K):
            R.undecided(who)
            return
        R.decided(who)
        if type(g) is not type(want) and not (
                numeric(g) and numeric(want)) or (
                abs(g - want) > 1e-6 if isinstance(want, float)
                else g != want):
            R.violation(key, '%s is %r rather than %r' % (who, g, want), loc)
    for text, want in cases:
        who = '%s.%s of <... %s="%s">' % (owner, n, xml, text)

        def read(I, text=text, want=want, who=who):
            o, node = make(I, {xml: text})
            compare(I, o, who, want)
        R.explore(who, read, 20)
    if default is not MISSING:
        who = '%s.%s which is not in the document' % (owner, n)

        def absent(I):
            o, node = make(I, {})
            node.attrs.entries[:] = [e for e in node.attrs.entries
                                     if e[0] != K(xml)]
            compare(I, o, who, default)
        R.explore(who, absent, 20)
    sample = cases[0][1]
    values = {float: [(0.75, 0.75), (3, 3.0), (2834.645669, 2834.645669),
                      (123456.015625, 123456.015625)],
              bool: [(True, True), (False, False), (1, True), (0, False)],
              str: [('changed', 'changed')],
              int: [(123, 123)]}.get(type(sample), ())
    odd = {float: ['wombat', '0.25', None, ()],
           int: ['wombat', '17', 5.75, None, ()]}.get(type(sample), ())
    if isinstance(sample, tuple):
        values = [('2s 5f', ('frames', 53.0)), (17, ('frames', 17.0)),
                  ('2h', ('frames', 172800.0))]
        odd = ['wombat', None, ()]
    for v in odd:
        who = '%s.%s = %r' % (owner, n, v)

        def strange(I, v=v, who=who):
            o, node = make(I, {xml: cases[0][0]})
            try:
                I.setattr(o, n, K(v))
                got = plain(I, I.norm(I.getattr(o, n)))
            except PyRaise as e:
                return
            # what was accepted is there, and stays there
            as_saved(I, node)
            if got is not None:
                compare(I, o, who + ', when saved,', got)
        R.explore(who, strange, 20)
    for was in [cases[0][0], cases[-1][0]]:
        for v, want in values:
            who = '%s.%s = %r, which was "%s"' % (owner, n, v, was)

            def write(I, v=v, who=who, was=was, want=want):
                o, node = make(I, {xml: was})
                before = {k.v: x for k, x in node.attrs.entries
                          if isinstance(k, K)}
                try:
                    I.setattr(o, n, K(v))
                except PyRaise as e:
                    if not excused(e):
                        R.violation(key, '%s raises %s' % (who, e.name),
                                    e.loc)
                    return
                R.decided(who)
                others = [x for x in changed_nodes(I) if x is not node]
                if others:
                    R.violation(key, '%s changes %s' % (
                        who, place_str(I, others[0])), first_mutation(I))
                    return
                for ch in dom.node_changes(I, node):
                    if not ch.startswith('attribute %r ' % xml):
                        R.violation(key, '%s changes the element: %s' % (
                            who, ch), first_mutation(I))
                compare(I, o, 'after %s, it' % who, want)
                now = attr_of(node, xml)
                if now is None:
                    R.violation(key, 'after %s, the element has no "%s"' % (
                        who, xml), loc)
                as_saved(I, node)
                compare(I, o, 'after %s and saving, it' % who, want)
            R.explore(who, write, 20)


def numeric(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def layer_attributes(R, W):
    for c in W.layer_classes():
        t = type_of(c)
        if t is None:
            continue
        sample_only = c.name not in ('Circle', 'Group', 'Text', 'Timeloop',
                                     'Duplicate') and not R.thorough

        def make(I, attrs, t=t):
            n = layer_node(I, t, [param_node(I, 'amount', value_node(
                I, 'real', 'amount'))], label='layer', open_=False)
            for k, v in attrs.items():
                set_attr(n, k, v)
            document(I, n)
            return wrap_layer(W, I, n), n
        for n, (xml, cases) in TAG_ATTRS.items():
            if member(c, n) is None:
                continue
            if cases is None:
                cases_ = [(t, t)]
            else:
                cases_ = cases
            key = 'C17:Layer.%s' % n
            if n == 'type_':
                who = '%s.type_' % c.name

                def read(I, t=t, who=who, c=c):
                    o, node = make(I, {})
                    try:
                        got = I.norm(I.getattr(o, 'type_'))
                    except PyRaise:
                        return
                    if isinstance(got, K):
                        R.decided(who)
                        if got.v != t:
                            R.violation('C17:Layer.type_', '%s of <layer '
                                        'type="%s"> is %r' % (
                                            who, t, got.v), where(W, c))
                R.explore(who, read, 10)
                continue
            d = {'active': True, 'exclude_from_rendering': False,
                 'desc': None, 'version': float(REFERENCE[t]['version'])}
            attribute(R, W, c.name, make, n, xml, cases_[:1] if sample_only
                      else cases_, key, where(W, c), d[n])
            # not in the document at all
            if n == 'desc' and not sample_only:
                def removed(I, c=c):
                    o, node = make(I, {'desc': 'old'})
                    try:
                        I.setattr(o, 'desc', NONE)
                    except PyRaise:
                        return
                    R.decided('%s.desc = None' % c.name)
                    if attr_of(node, 'desc') is not None:
                        R.violation('C17:Layer.desc', 'after %s.desc = None '
                                    'there is still a description' % c.name,
                                    where(W, c))
                R.explore('%s.desc = None' % c.name, removed, 10)


ANIMATION = {
    'version': ('version', [('1.7', 1.7)]),
    'width': ('width', [('641', 641), ('0', 0)]),
    'height': ('height', [('642', 642), ('0', 0)]),
    'xres': ('xres', [('1.25', 1.25), ('0', 0.0)]),
    'yres': ('yres', [('2.25', 2.25), ('0', 0.0)]),
    'gamma_r': ('gamma-r', [('2.25', 2.25), ('0.0', 0.0)]),
    'gamma_g': ('gamma-g', [('3.25', 3.25), ('0.0', 0.0)]),
    'gamma_b': ('gamma-b', [('4.25', 4.25), ('0.0', 0.0)]),
    'view_box': ('view-box', [('1 2 3 4', '1 2 3 4')]),
    'antialias': ('antialias', [('7', 7), ('0', 0)]),
    'fps': ('fps', [('12.5', 12.5)]),
    'begin_time': ('begin-time', [('7f', ('frames', 7.0)),
                                  ('1s', ('frames', 24.0))]),
    'end_time': ('end-time', [('99f', ('frames', 99.0)),
                              ('0f', ('frames', 0.0))]),
    'bgcolor': ('bgcolor', [('1 2 3 4', '1 2 3 4')]),
}


# what an animation has if it doesn't say
DEFAULTS = {'version': 1.2, 'width': 480, 'height': 270,
            'xres': 2834.645669, 'yres': 2834.645669, 'gamma_r': 1.0,
            'gamma_g': 1.0, 'gamma_b': 1.0,
            'view_box': '-4.0 2.25 4.0 -2.25', 'antialias': 1, 'fps': 24.0,
            'begin_time': ('frames', 0.0), 'end_time': ('frames', 120.0),
            'bgcolor': '0.5 0.5 0.5 1.0'}


def animations(R, W):
    A = W.Animation
    loc = where(W, A)

    def make(I, attrs):
        lay_ = layer_node(I, 'circle', label='layer', attrs=[
            (k, K('1')) for k in ()])
        a = animation(W, I, lay_, attrs=dict(attrs))
        return a, tag_of(I, a)
    for n, (xml, cases) in ANIMATION.items():
        if member(A, n) is None:
            continue
        attribute(R, W, 'Animation', make, n, xml, cases,
                  'C17:Animation.%s' % n, loc,
                  DEFAULTS.get(n, MISSING))
    for n in ('name', 'desc'):
        for present in (True, False):
            for other in (True, False):
                child(R, W, n, present, other)

    def derived(n, attrs, want, convert):
        who = 'Animation.%s of %s' % (n, attrs)

        def run(I):
            a, node = make(I, attrs)
            try:
                got = convert(I, I.getattr(a, n))
            except PyRaise as e:
                if not e.implicit:
                    R.violation('C17:Animation.%s' % n, '%s raises %s' % (
                        who, e.name), e.loc)
                return
            if got is None:
                R.undecided(who)
                return
            R.decided(who)
            if got != want:
                R.violation('C17:Animation.%s' % n, '%s is %r rather than '
                            '%r' % (who, got, want), loc)
        if member(A, n) is not None:
            R.explore(who, run, 20)

    def tup(I, x):
        if isinstance(I.norm(x), ListObj):
            return 'a list'
        items = [I.norm(i) for i in I.iterate(x)]
        if all(isinstance(i, K) for i in items):
            return tuple(i.v for i in items)

    def col(I, x):
        return tup(I, method(I, x, 'as_tuple'))

    def num(I, x):
        x = I.norm(x)
        return x.v if isinstance(x, K) else None
    derived('size', {'width': '641', 'height': '362'}, (641, 362), tup)
    derived('viewbox', {'view-box': '1.5 2.5 3.5 4.5'},
            (1.5, 2.5, 3.5, 4.5), tup)
    derived('background', {'bgcolor': '0.25 0.5 0.75 0.125'},
            (0.25, 0.5, 0.75, 0.125), col)
    derived('framecount', {'begin-time': '0f', 'end-time': '99f'}, 100, num)


def child(R, W, n, present, other):
    who = 'Animation.%s%s' % (n, '' if present else ' (absent)')
    key = 'C17:Animation.%s' % n
    A = W.Animation
    second = 'desc' if n == 'name' else 'name'

    def make(I):
        kw = {n: present, second: other}
        a = animation(W, I, layer_node(I, 'circle', label='layer'),
                      name=kw['name'], desc=kw['desc'])
        return a, tag_of(I, a)

    def read(I):
        a, root = make(I)
        try:
            got = I.norm(I.getattr(a, n))
        except PyRaise as e:
            if not e.implicit:
                R.violation(key, '%s raises %s' % (who, e.name), e.loc)
            return
        if not present:
            return
        if isinstance(got, TextObj):
            got = I.norm(got.value)
        if not isinstance(got, (K, Opq)):
            R.undecided(who)
            return
        R.decided(who + ' read')
        if term_of(got) != ('doc', 'animation ' + n) and not (
                isinstance(got, Opq) and term_has(
                    got.term, lambda x: x == ('doc', 'animation ' + n))):
            R.violation(key, '%s is %s rather than the contents of <%s>' % (
                who, shown(I, got), n), where(W, A))
    R.explore('%s read, other %s' % (who, other), read, 20)

    def write(I):
        a, root = make(I)
        try:
            I.setattr(a, n, arg('new', 'str'))
        except PyRaise as e:
            if not excused(e):
                R.decided(who + ' written')
                R.violation(key, '%s = ... raises %s' % (who, e.name),
                            e.loc)
            return
        R.decided(who + ' written')
        found = [k for k in kids_of(root) if k.name == K(n)]
        if len(found) != 1:
            R.violation(key, 'after %s = ..., the animation has %d <%s>' % (
                who, len(found), n), where(W, A))
            return
        texts = [text_of(I, x) for x in found[0].children]
        if len(texts) != 1 or term_of(texts[0]) not in (
                ('arg', 'new'), ('str', ('arg', 'new'))):
            if all(isinstance(x, (K, Opq)) and not term_has(
                    term_of(x), lambda y: y == ('arg', 'new'))
                    for x in texts):
                R.violation(key, 'after %s = ..., <%s> does not hold it' % (
                    who, n), where(W, A))
                return
        for x in changed_nodes(I):
            if x is root or inside(x, found[0]):
                if x is root and present:
                    R.violation(key, '%s = ... changes the root element: %s'
                                % (who, dom.node_changes(I, x)[0]),
                                first_mutation(I))
                elif x is root:
                    for ch in dom.node_changes(I, x):
                        if ch != 'children changed':
                            R.violation(key, '%s = ... changes the root '
                                        'element: %s' % (who, ch),
                                        first_mutation(I))
                    old = [y for y in root.ochildren
                           if y not in root.children]
                    if old:
                        R.violation(key, '%s = ... removes something' % who,
                                    first_mutation(I))
                continue
            R.violation(key, '%s = ... changes %s' % (who, place_str(I, x)),
                        first_mutation(I))
        try:
            back = I.norm(I.getattr(a, n))
        except PyRaise as e:
            if not e.implicit:
                R.violation(key, 'after %s = ..., reading it raises %s' % (
                    who, e.name), e.loc)
            return
        if isinstance(back, K):
            R.violation(key, 'after %s = ..., it is always %r' % (
                who, back.v), where(W, A))
    R.explore('%s write, other %s' % (who, other), write, 20)


def keyframes(R, W):
    def make(I, attrs, text='k'):
        k0 = new_node(I, 'keyframe', {'time': K('9f'), 'active': K('true')},
                      [K('another')])
        k = new_node(I, 'keyframe', dict((x, K(y)) for x, y in
                                         attrs.items()), [K(text)])
        a = animation(W, I, keyframes=0, extra=[k0, k])
        r = I.iterate(I.getattr(a, 'keyframes'))
        return r[1] if len(r) == 2 else None
    for n, attrs, text, want in (
            ('time', {'time': '7f', 'active': 'true'}, 'k', 7.0),
            ('time', {'time': '1s', 'active': 'false'}, 'k', 24.0),
            ('active', {'time': '7f', 'active': 'false'}, 'k', False),
            ('active', {'time': '7f', 'active': 'true'}, 'k', True),
            ('name', {'time': '7f', 'active': 'true'}, 'Hello', 'Hello'),
            ('name', {'time': '7f', 'active': 'false'}, ' x ', ' x ')):
        who = 'the %s of a keyframe %s %r' % (n, attrs, text)

        def run(I, n=n, attrs=attrs, text=text, want=want, who=who):
            k = make(I, attrs, text)
            if k is None:
                R.violation('C17:Keyframes', 'an animation with two '
                            'keyframes has another number of them',
                            'sangfroid/keyframe.py')
                return
            try:
                got = I.norm(I.getattr(k, n))
                if isinstance(got, Inst):
                    got = I.norm(I.getattr(got, 'frames'))
            except PyRaise as e:
                if not e.implicit:
                    R.violation('C17:Keyframe.%s' % n, '%s raises %s' % (
                        who, e.name), e.loc)
                return
            if isinstance(got, TextObj):
                got = I.norm(got.value)
            if not isinstance(got, K):
                R.undecided(who)
                return
            R.decided(who)
            if got.v != want:
                R.violation('C17:Keyframe.%s' % n, '%s is %r rather than %r'
                            % (who, got.v, want), 'sangfroid/keyframe.py')
        R.explore(who, run, 20)
