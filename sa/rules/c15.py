"""C15: a new layer is complete and has Synfig's own defaults."""
from .args import *

RULE = ('Constant propagation through the construction of a new layer of '
        'every class; the resulting element is compared with what Synfig '
        'itself writes for a new layer of that type (sa/reference.json): '
        'type name, version, and each parameter of an implemented kind '
        'exactly once, with an equal value; and reading each parameter '
        'through the attribute gives a value of the declared class whose '
        'element is that parameter\'s.')
SCOPE = ('All layer classes; all parameters in the reference whose kind of '
         'value is implemented, and all those the class creates.')
MINIMUM = 500
PARALLEL = True

# In the reference, but not declared: Synfig writes one parameter for each
# member of an array, or the type of the contents isn't implemented.
UNDECLARED = {('outline', 'round_tip[0]'), ('outline', 'round_tip[1]'),
              ('halftone3', 'color[0]'), ('halftone3', 'color[1]'),
              ('halftone3', 'color[2]'), ('switch', 'canvas')} | {
    ('halftone3', 'tone[%d].%s' % (i, x)) for i in range(3)
    for x in ('angle', 'origin')}
CLASS_FOR = {'real': 'Real', 'integer': 'Integer', 'bool': 'Bool',
             'angle': 'Angle', 'time': 'Time', 'string': 'String',
             'vector': 'X_Y', 'color': 'Color', 'gradient': 'Gradient',
             'composite': 'Transformation', 'canvas': 'Canvas'}


def where(W, c):
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def number(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


def zero_time(s):
    return isinstance(s, str) and all(
        number(x[:-1]) == 0 and x[-1:] in 'hmsf' for x in s.split()) \
        and s.strip() != ''


def known(I, x):
    x = I.norm(x)
    if isinstance(x, TextObj):
        x = I.norm(x.value)
    if isinstance(x, K):
        return str(x.v)
    if isinstance(x, Inst):
        try:
            x = I.norm(I.ext.str_(I, x))
        except PyRaise:
            return None
        if isinstance(x, K):
            return str(x.v)
    return None


def differs(I, node, ref, path=''):
    """A difference, None if there is none; raises LookupError if unknown."""
    name, attrs, kids = ref
    got = known(I, node.name)
    if got is None:
        raise LookupError(path)
    here = '%s/%s' % (path, name)
    if got != name:
        return '%s: <%s> rather than <%s>' % (path, got, name)
    mine = {}
    for k, v in node.attrs.entries:
        mine[known(I, k)] = known(I, v)
    for k in set(mine) | set(attrs):
        if k in ('static', 'guid'):
            continue
        a, b = mine.get(k), attrs.get(k)
        if k in mine and a is None:
            raise LookupError(here)
        if k not in attrs:
            return '%s: it has an attribute %s=%r' % (here, k, a)
        if k not in mine:
            return '%s: it has no %s' % (here, k)
        if not same_text(a, b, name):
            return '%s: %s is %r rather than %r' % (here, k, a, b)
    g = []
    for x in node.children:
        if isinstance(x, TextObj):
            t = known(I, x)
            if t is None:
                raise LookupError(here)
            if t.strip():
                g.append(t.strip())
        else:
            g.append(x)
    if len(g) != len(kids):
        return '%s: %d items rather than %d' % (here, len(g), len(kids))
    if name in ('composite', 'gradient'):
        pass
    for x, y in zip(g, kids):
        if isinstance(x, str) != isinstance(y, str):
            return '%s: text against element' % here
        if isinstance(x, str):
            if not same_text(x, y, name):
                return '%s: %r rather than %r' % (here, x, y)
        else:
            d = differs(I, x, y, here)
            if d:
                return d
    return None


def same_text(a, b, element):
    if a == b:
        return True
    if element == 'time':
        return zero_time(a) and zero_time(b)
    if element == 'bool':
        return a.lower() == b.lower()
    x, y = number(a), number(b)
    if element == 'string' or x is None or y is None:
        return False
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def check(W, R):
    for c in W.layer_classes():
        one(R, W, c)


def ref_for(c):
    for t, r in REFERENCE.items():
        if norm_type(t) == norm_type(c.name):
            return r
    return None


def one(R, W, c):
    ref = ref_for(c)
    who = 'a new %s' % c.name

    def run(I):
        try:
            o = I.call(c, [], {})
            tag = I.norm(tag_of(I, o))
        except PyRaise as e:
            if not e.implicit:
                R.decided(who)
                R.violation('C15:%s' % c.name, '%s cannot be created: %s' % (
                    who, e.name), e.loc)
            return
        if not isinstance(tag, NodeObj):
            return
        R.decided(who)
        if known(I, tag.name) not in (None, 'layer'):
            R.violation('C15:%s:element' % c.name, '%s is a <%s>' % (
                who, known(I, tag.name)), where(W, c))
        for k in ('type', 'version'):
            v = attr_of(tag, k)
            if v is None:
                R.violation('C15:%s:%s' % (c.name, k), '%s has no %s' % (
                    who, k), where(W, c))
                continue
            v = known(I, v)
            R.decided('%s: %s' % (who, k))
            if ref is None:
                if k == 'type' and v is not None and \
                        norm_type(v) != norm_type(c.name):
                    R.violation('C15:%s:%s' % (c.name, k), '%s says its type '
                                'is %r' % (who, v), where(W, c))
                continue
            if v is not None and v != ref[k] and (
                    k == 'type' or number(v) is None or
                    number(v) != number(ref[k])):
                R.violation('C15:%s:%s' % (c.name, k), '%s says its %s is '
                            '%r; Synfig writes %r' % (
                                who, k, v, ref[k]), where(W, c))
        seen = {}
        for p in kids_of(tag):
            if known(I, p.name) != 'param':
                R.violation('C15:%s:extra' % c.name, '%s contains a <%s>' % (
                    who, known(I, p.name)), where(W, c))
                continue
            n = attr_of(p, 'name')
            n = known(I, n) if n is not None else None
            if n is None:
                R.violation('C15:%s:unnamed' % c.name, '%s has a parameter '
                            'without a name' % who, where(W, c))
                continue
            what = '%s: parameter %s' % (who, n)
            R.decided(what)
            if n in seen:
                R.violation('C15:%s.%s:twice' % (c.name, n), '%s is there '
                            'twice' % what, where(W, c))
                continue
            seen[n] = p
            vals = kids_of(p)
            if len(vals) != 1:
                R.violation('C15:%s.%s:values' % (c.name, n), '%s holds %d '
                            'values' % (what, len(vals)), where(W, c))
                continue
            if ref is not None:
                if n not in ref['params']:
                    R.violation('C15:%s.%s:unknown' % (c.name, n), '%s does '
                                'not exist in Synfig' % what, where(W, c))
                elif ref['params'][n] is not None:
                    try:
                        d = differs(I, vals[0], ref['params'][n])
                    except LookupError:
                        R.undecided(what)
                        d = None
                    if d:
                        R.violation('C15:%s.%s:default' % (c.name, n),
                                    '%s is not Synfig\'s default: %s' % (
                                        what, d), where(W, c))
            readable(R, W, I, c, o, n, vals[0], what)
        if ref is None:
            return
        for n, t in ref['params'].items():
            if t is None or n in seen or t[0] not in CLASS_FOR:
                continue
            if (ref['type'], n) in UNDECLARED:
                continue
            R.decided('%s: parameter %s' % (who, n))
            R.violation('C15:%s.%s:missing' % (c.name, n), '%s has no '
                        'parameter %s' % (who, n), where(W, c))
    R.explore(who, run, 60)
    if member(c, '__init__') is not None:
        who2 = who + ', in a document'

        def run2(I):
            """Added to a document, each parameter can be read there."""
            try:
                o = I.call(c, [], {})
                a = animation(W, I)
                method(I, a, 'append', o)
                tag = I.norm(tag_of(I, o))
            except PyRaise:
                return
            for p in kids_of(tag):
                n = attr_of(p, 'name')
                n = known(I, n) if n is not None else None
                if n is None or len(kids_of(p)) != 1:
                    continue
                if ref is not None and n not in ref['params']:
                    continue
                what = '%s: value of %s' % (who2, n)
                try:
                    v = I.getattr(o, attribute_for(c, n))
                    if W.value_class('canvas') in v.cands[0].mro:
                        continue
                    x = I.getattr(v, 'value')
                except PyRaise as e:
                    if not e.implicit:
                        R.decided(what)
                        R.violation('C15:%s.%s:read' % (c.name, n),
                                    '%s raises %s' % (what, e.name), e.loc)
                    continue
                R.decided(what)
        R.explore(who2, run2, 60)


def attribute_for(c, n):
    """The attribute for a parameter: reserved words get an underscore."""
    for x in (n, n + '_'):
        if member(c, x) is not None:
            return x
    return n


def readable(R, W, I, c, o, n, val, what):
    n = attribute_for(c, n)
    m = member(c, n)
    if m is None:
        R.violation('C15:%s.%s:attribute' % (c.name, n), '%s cannot be read '
                    'by an attribute' % what, where(W, c))
        return
    try:
        v = I.getattr(o, n)
    except PyRaise as e:
        if not e.implicit:
            R.violation('C15:%s.%s:read' % (c.name, n), 'reading %s raises '
                        '%s' % (what, e.name), e.loc)
        return
    R.decided('%s: read' % what)
    if not isinstance(v, Inst):
        R.violation('C15:%s.%s:read' % (c.name, n), 'reading %s gives %s' % (
            what, shown(I, v)), where(W, c))
        return
    t = I.norm(I.getattr(v, 'tag'))
    if isinstance(t, NodeObj) and t is not val:
        R.violation('C15:%s.%s:read' % (c.name, n), 'reading %s gives '
                    'something else' % what, where(W, c))
    el = known(I, val.name)
    if n == 'blend_method':
        want = W.value_class('blend')
    elif el in CLASS_FOR:
        want = W.value_class(CLASS_FOR[el])
    else:
        return
    if not any(want in k.mro for k in v.cands):
        R.violation('C15:%s.%s:class' % (c.name, n), 'reading %s, a <%s>, '
                    'gives a %s' % (what, el, v.cands[0].name), where(W, c))

