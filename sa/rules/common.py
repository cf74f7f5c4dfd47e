"""What several rules need: the objects operations are analysed on."""
import json
import os

from ..world import *
from ..report import first_mutation, last_mutation
from .. import dom

with open(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'reference.json')) as f:
    REFERENCE = json.load(f)


def norm_type(s):
    return s.replace('_', '').lower()


REF_BY_NORM = {norm_type(k): v for k, v in REFERENCE.items()}


def kind_of_tree(t):
    """The kind of value in a parameter of the reference."""
    if t is None:
        return None
    if t[0] == 'composite':
        return 'transformation'
    if t[0] in KINDS:
        return t[0]
    return t[0]


def reference_params(I, type_, label='p', animated=(), skip=()):
    r = []
    for name, t in REFERENCE[type_]['params'].items():
        if name in skip:
            continue
        kind = kind_of_tree(t)
        if kind is None:
            r.append(new_node(I, 'param', {'name': K(name)}))
        elif name in animated:
            r.append(param_node(I, name, animated_node(
                I, kind, label='%s.%s' % (label, name))))
        else:
            r.append(param_node(I, name, plain_node(
                I, kind, '%s.%s' % (label, name))))
    return r


def plain_node(I, kind, label, **kw):
    return value_node(I, kind, label, **kw)


def reference_layer(I, type_, label=None, animated=(), skip=(), attrs=(),
                    open_=True):
    """A layer of a given type as Synfig writes it, with unknown contents."""
    return layer_node(I, type_, reference_params(
        I, type_, label or type_, animated, skip), attrs,
        label=label, open_=open_)


def group_node(I, *layers, **kw):
    """A group containing layers."""
    label = kw.pop('label', 'group')
    params = [param_node(I, 'amount', value_node(I, 'real',
                                                 label + '.amount')),
              param_node(I, 'transformation', value_node(
                  I, 'transformation', label + '.transformation'))]
    params.append(param_node(I, 'canvas', value_node(
        I, 'canvas', label + '.canvas', layers=layers)))
    return layer_node(I, kw.pop('type_', 'group'), params,
                      label=label, **kw)


###### the shapes in which a value may be found in a document

def shapes(kind):
    """Pairs of the name of a shape, and what makes one."""
    r = [('plain', lambda I: value_node(I, kind, 'v')),
         ('animated', lambda I: animated_node(I, kind, label='v')),
         ('animated, one waypoint', lambda I: animated_node(
             I, kind, ('1s',), label='v'))]
    if kind == 'bool':
        r.append(('false', lambda I: new_node(I, 'bool', {
            'value': K('false')})))
    return r


def odd_shapes(kind):
    def with_attrs(I):
        n = plain_node(I, kind, 'v')
        n.attrs.entries.append([K('guid'), S('guid')])
        return n

    def empty(I):
        n = plain_node(I, kind, 'v')
        del n.children[:]
        n.attrs.entries[:] = [e for e in n.attrs.entries
                              if e[0] == K('type')]
        return n

    def hollow(I):
        # the elements inside have neither contents nor attributes
        n = plain_node(I, kind, 'v')
        for c in dom.descendants(n):
            if isinstance(c, NodeObj) and not [
                    d for d in c.children if isinstance(d, NodeObj)]:
                del c.children[:]
                c.attrs.entries[:] = []
        return n

    def extra(I):
        n = plain_node(I, kind, 'v')
        n.children.append(new_node(I, 'extra', {}, [S('extra')]))
        n.children[-1].parent = n
        return n

    def fewer(I):
        n = plain_node(I, kind, 'v')
        kids = [c for c in n.children if isinstance(c, NodeObj)]
        if kids:
            n.children.remove(kids[-1])
            kids[-1].parent = None
        return n

    def unsorted(I):
        return animated_node(I, kind, ('3s', '1s'), label='v')

    def no_waypoints(I):
        return animated_node(I, kind, (), label='v')

    def no_interpolation(I):
        n = animated_node(I, kind, ('1s',), label='v')
        for c in n.children:
            if isinstance(c, NodeObj):
                c.attrs.entries[:] = [e for e in c.attrs.entries
                                      if e[0] == K('time')]
        return n

    def synonyms(I):
        return animated_node(I, kind, ('1s',), label='v',
                             interps=[('auto', 'halt')])

    def clash(I):
        return animated_node(I, kind, ('1s', '1s'), label='v')

    def same_in_frames(I):
        return animated_node(I, kind, ('24f', '1s', '1s 1f'), label='v')

    def alone(I):
        n = plain_node(I, kind, 'v')
        n.children[:] = [c for c in n.children if isinstance(c, NodeObj)]
        return n
    return [('with a guid', with_attrs), ('empty', empty),
            ('with nothing in it', hollow),
            ('with an extra child', extra), ('with a child missing', fewer),
            ('with waypoints out of order', unsorted),
            ('animated, no waypoints', no_waypoints),
            ('waypoint without interpolations', no_interpolation),
            ('waypoint with synonyms', synonyms),
            ('two waypoints at one time', clash),
            ('times in frames', same_in_frames),
            ('without whitespace', alone)]


HOSTS = {'real': ('circle', 'radius'), 'integer': ('star', 'points'),
         'bool': ('circle', 'invert'), 'angle': ('star', 'angle'),
         'time': ('timeloop', 'duration'), 'string': ('text', 'text'),
         'vector': ('circle', 'origin'), 'color': ('circle', 'color'),
         'gradient': ('linear_gradient', 'gradient'),
         'transformation': ('group', 'transformation'),
         'canvas': ('group', 'canvas'),
         'blend': ('circle', 'blend_method')}

IMPLEMENTED = tuple(HOSTS)


def hosted(I, kind, node, extra=()):
    """
    A document with one layer, with one parameter (two, for neighbours),
    which holds the given element. Returns the layer's element.
    """
    type_, pname = HOSTS[kind]
    lay = layer_node(I, type_, [
        param_node(I, 'z_depth', value_node(I, 'real', 'z_depth')),
        param_node(I, pname, node)] + list(extra),
        label='layer')
    document(I, lay)
    return lay


def value_object(W, I, kind, node):
    """The value object for an element."""
    if kind == 'blend':
        return I.call(I.getattr(W.value_class('blend'), 'from_tag'),
                      [node], {})
    return I.call(I.getattr(W.Value, 'from_tag'), [node], {})


def value_object_anyway(W, I, kind, node):
    """Likewise, with the class called directly if the element is odd."""
    try:
        return value_object(W, I, kind, node)
    except PyRaise:
        return I.call(W.value_class(kind), [node], {})


def quiet(I, f, *a, **k):
    """Runs f; returns the exception if it raises."""
    try:
        f(*a, **k)
        return None
    except PyRaise as e:
        return e


def kids_of(node):
    return [c for c in node.children if isinstance(c, NodeObj)]


def attr_of(node, name):
    for k, v in node.attrs.entries:
        if k == K(name):
            return v
    return None


def changes(I):
    return dom.document_changes(I)


def is_method(v):
    return isinstance(v, (Fn, CM, SM, Native))


def member(c, name):
    for k in c.mro:
        if isinstance(k, ClassObj) and name in k.ns:
            return k.ns[name]
    return None


def descriptors(W, c):
    """Names of all the attributes of a class which are computed."""
    r = []
    for k in c.mro:
        if not isinstance(k, ClassObj):
            continue
        for n, v in k.ns.items():
            if n in r or n.startswith('__'):
                continue
            if isinstance(v, (Prop, CachedProp)):
                r.append(n)
            elif isinstance(v, Inst) and any(
                    member(cc, '__get__') is not None for cc in v.cands):
                r.append(n)
    return r


###### comparing trees, where only definite differences count

def from_document(t):
    return term_has(t, lambda x: len(x) > 0 and x[0] == 'doc')


def definitely_differ(I, a, b):
    """Whether two texts certainly differ."""
    a, b = text_of(I, a), text_of(I, b)
    if dom.same_value(I, a, b):
        return False
    if isinstance(a, K) and isinstance(b, K):
        return True
    for x in (a, b):
        if isinstance(x, Inst):
            return False
    ta, tb = term_of(a), term_of(b)
    # what was in the document isn't what the caller gave
    return from_document(ta) != from_document(tb)


def text_of(I, x):
    x = I.norm(x)
    if isinstance(x, TextObj):
        x = I.norm(x.value)
    return x


def tree_diff(I, a, b, path=''):
    """A definite difference between two trees, or None."""
    if isinstance(a, TextObj) != isinstance(b, TextObj):
        return '%s: text against element' % path
    if isinstance(a, TextObj):
        if definitely_differ(I, a, b):
            return '%s: text %s rather than %s' % (
                path, shown(I, a), shown(I, b))
        return None
    if definitely_differ(I, a.name, b.name):
        return '%s: an element called %s rather than %s' % (
            path, shown(I, a.name), shown(I, b.name))
    here = path + '/' + shown(I, a.name)

    def ad(n):
        return {term_of(text_of(I, k)): v for k, v in n.attrs.entries}
    x, y = ad(a), ad(b)
    for k in x:
        if k not in y:
            return '%s: extra attribute %s' % (here, show(k))
        if definitely_differ(I, x[k], y[k]):
            return '%s: attribute %s is %s rather than %s' % (
                here, show(k), shown(I, x[k]), shown(I, y[k]))
    for k in y:
        if k not in x:
            return '%s: attribute %s missing' % (here, show(k))
    ka, kb = significant(I, a), significant(I, b)
    if len(ka) != len(kb):
        return '%s: %d children rather than %d' % (here, len(ka), len(kb))
    for p, q in zip(ka, kb):
        d = tree_diff(I, p, q, here)
        if d:
            return d
    return None


def significant(I, n):
    """Children other than whitespace."""
    r = []
    for c in n.children:
        if isinstance(c, TextObj):
            v = I.norm(c.value)
            if isinstance(v, K) and isinstance(v.v, str) and \
                    not v.v.strip():
                continue
        r.append(c)
    return r


def shown(I, x):
    x = text_of(I, x)
    if isinstance(x, K):
        return repr(x.v)
    return show(term_of(x))


def yes(I, x):
    return x if isinstance(x, bool) else I.truth(x)


def excused(e):
    """Whether it was raised because of unknown contents of the document."""
    return e.implicit and isinstance(e.cause, tuple) and \
        from_document(e.cause)
