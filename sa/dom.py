"""
A model of Beautiful Soup's element tree (bs4 4.12).

Elements have a known shape; names, attribute values and text may be opaque.
Elements which belong to a document remember what they were like originally,
so that any change can be found by comparison.
"""
import re
import xml.etree.ElementTree as ET

from .ir import *

MAXDEPTH = 40


###### building

def new_node(I, name, attrs=(), children=(), origin='new', soup=False,
             label=None, src=None, open_=False):
    n = I.new(NodeObj)
    n.origin = origin
    n.name = name if isinstance(name, AV) else K(name)
    n.children = []
    n.parent = None
    n.soup = soup
    n.label = label
    n.src = src if src is not None else n.id
    n.finds = None
    n.depth = 0
    n.oname = n.oattrs = n.ochildren = n.oparent = None
    d = I.new_dict([(k if isinstance(k, AV) else K(k), v)
                    for k, v in (attrs.items() if isinstance(attrs, dict)
                                 else attrs)])
    d.owner = n
    d.kind = 'open' if open_ else 'dict'
    n.attrs = d
    for c in children:
        if isinstance(c, str):
            c = new_text(I, K(c), origin)
        elif isinstance(c, (K, Opq)):
            c = new_text(I, c, origin)
        c.parent = n
        n.children.append(c)
    return n


def new_text(I, value, origin='new'):
    value = I.norm(value)
    if isinstance(value, TextObj):
        value = value.value
    return I.new(TextObj, value=value, parent=None, origin=origin, ntype=None)


def adopt(I, node):
    """Declares a tree to be the document as it was originally."""
    if isinstance(node, TextObj):
        node.origin = 'doc'
        return node
    node.origin = 'doc'
    node.oname = node.name
    node.oattrs = {k.v: v for k, v in node.attrs.entries}
    node.ochildren = list(node.children)
    node.oparent = node.parent
    if not any(x is node for x in I.doc_nodes):
        I.doc_nodes.append(node)
    for c in node.children:
        adopt(I, c)
    return node


def copy_node(I, node, depth=0):
    if depth > MAXDEPTH:
        raise PathCut_()
    n = new_node(I, node.name, origin='copy', soup=node.soup,
                 label=node.label, src=node.src)
    n.attrs.entries = [list(e) for e in node.attrs.entries]
    n.attrs.kind = node.attrs.kind
    n.attrs.absent = set(node.attrs.absent)
    for c in node.children:
        if isinstance(c, TextObj):
            m = new_text(I, c.value)
        else:
            m = copy_node(I, c, depth + 1)
        m.parent = n
        n.children.append(m)
    return n


def PathCut_():
    from .interp import PathCut
    return PathCut()


def make_tag(I, a, k, n):
    name = k.get('name')
    if name is None:
        name = a[2] if len(a) > 2 else None
    if name is None:
        I.raise_('ValueError', 'Cannot create Tag with null name')
    name = I.norm(name)
    if isinstance(name, K) and name.v is None:
        I.raise_('ValueError', 'Cannot create Tag with null name')
    attrs = I.norm(k.get('attrs', a[5] if len(a) > 5 else NONE))
    r = new_node(I, name)
    if isinstance(attrs, DictObj):
        r.attrs.entries = [list(e) for e in attrs.entries]
    return r


def from_etree(I, e, origin):
    kids = []
    if e.text:
        kids.append(e.text)
    for c in e:
        kids.append(from_etree(I, c, origin))
        if c.tail:
            kids.append(c.tail)
    return new_node(I, K(e.tag), [(k, K(v)) for k, v in e.attrib.items()],
                    kids, origin)


def make_soup(I, a, k, n):
    src = I.norm(a[0]) if a else K('')
    feats = k.get('features', a[1] if len(a) > 1 else NONE)
    if isinstance(src, TextObj):
        src = I.norm(src.value)
    I.event('parse', src, feats)
    if isinstance(src, FileObj) and src.closed:
        I.raise_('ValueError', 'I/O operation on closed file')
    soup = new_node(I, '[document]', soup=True)
    if isinstance(src, K) and isinstance(src.v, (str, bytes)):
        try:
            root = ET.fromstring(src.v if isinstance(src.v, bytes)
                                 else src.v.encode('utf-8'))
        except ET.ParseError:
            return soup
        r = from_etree(I, root, 'doc')
    else:
        build = I.hooks.get('soup') if I.hooks else None
        r = build(I) if build is not None else new_node(
            I, 'canvas', [], [], 'doc', open_=True)
    r.parent = soup
    soup.children.append(r)
    adopt(I, soup)
    return soup


###### changes

def mutated(I, node, op):
    I.event('mutate', node, op)
    I.hooks_mutate = True


def same_value(I, a, b):
    a, b = I.norm(a), I.norm(b)
    if a is b:
        return True
    if isinstance(a, TextObj):
        a = I.norm(a.value)
    if isinstance(b, TextObj):
        b = I.norm(b.value)
    if isinstance(a, K) and isinstance(b, K):
        return a == b
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.term == b.term
    return a is b


def node_changes(I, n):
    """How this element differs from what it was: list of strings."""
    r = []
    if n.origin != 'doc' or n.oattrs is None:
        return r
    if not same_value(I, n.name, n.oname):
        r.append('element renamed')
    now = {}
    for k, v in n.attrs.entries:
        k = I.norm(k)
        if isinstance(k, TextObj):
            k = I.norm(k.value)
        key = k.v if isinstance(k, K) else term_of(k)
        now[key] = v
    for k, v in n.oattrs.items():
        if k not in now:
            r.append('attribute %r removed' % (k,))
        elif not same_value(I, now[k], v):
            r.append('attribute %r changed' % (k,))
    for k in now:
        if k not in n.oattrs:
            r.append('attribute %r added' % (k,))
    if len(n.children) != len(n.ochildren) or any(
            a is not b for a, b in zip(n.children, n.ochildren)):
        r.append('children changed')
    if n.parent is not n.oparent:
        r.append('moved or removed')
    return r


def label_of(I, n):
    if n.label:
        return n.label
    nm = I.norm(n.name)
    if not isinstance(nm, K) or not isinstance(nm.v, str):
        nm = I.norm(n.oname) if n.oname is not None else nm
    return '<%s>' % (nm.v if isinstance(nm, K) else '?')


def document_changes(I, only=None):
    r = []
    for n in I.doc_nodes:
        if only is not None and not only(n):
            continue
        for c in node_changes(I, n):
            r.append('%s: %s' % (label_of(I, n), c))
    return r


def document_changed(I):
    for n in I.doc_nodes:
        if node_changes(I, n):
            return True
    return False


def same_tree(I, a, b, path='', depth=0):
    """Differences between two trees: None, or a string."""
    if isinstance(a, TextObj) or isinstance(b, TextObj):
        if not (isinstance(a, TextObj) and isinstance(b, TextObj)):
            return '%s: text against element' % path
        if not same_value(I, a, b):
            return '%s: text %s against %s' % (
                path, show(term_of(I.norm(a.value))),
                show(term_of(I.norm(b.value))))
        return None
    if not same_value(I, a.name, b.name):
        return '%s: element name %s against %s' % (
            path, show(term_of(I.norm(a.name))),
            show(term_of(I.norm(b.name))))
    here = path + '/' + show(term_of(I.norm(a.name)))

    def ad(n):
        return {term_of(I.norm(k)): v for k, v in n.attrs.entries}
    x, y = ad(a), ad(b)
    for k in x:
        if k not in y:
            return '%s: extra attribute %s' % (here, show(k))
        if not same_value(I, x[k], y[k]):
            return '%s: attribute %s is %s against %s' % (
                here, show(k), show(term_of(I.norm(x[k]))),
                show(term_of(I.norm(y[k]))))
    for k in y:
        if k not in x:
            return '%s: attribute %s missing' % (here, show(k))
    if len(a.children) != len(b.children):
        return '%s: %d children against %d' % (
            here, len(a.children), len(b.children))
    if depth > MAXDEPTH:
        raise PathCut_()
    for p, q in zip(a.children, b.children):
        d = same_tree(I, p, q, here, depth + 1)
        if d:
            return d
    return None


def tree_str(I, n, depth=0):
    """Readable form, for reports."""
    if isinstance(n, TextObj):
        v = I.norm(n.value)
        return v.v if isinstance(v, K) else '{%s}' % show(term_of(v))
    if depth > 12:
        return '...'

    def s(v):
        v = I.norm(v)
        return str(v.v) if isinstance(v, K) else '{%s}' % show(term_of(v))
    r = '<' + s(n.name)
    for k, v in n.attrs.entries:
        r += ' %s="%s"' % (s(k), s(v))
    return r + '>' + ''.join(tree_str(I, c, depth + 1)
                             for c in n.children) + '</%s>' % s(n.name)


###### attributes of elements

def attrs_materialise(I, d, key):
    if d.kind != 'open' or d.owner is None:
        return ABSENT
    key = I.norm(key)
    if isinstance(key, TextObj):
        key = I.norm(key.value)
    if not isinstance(key, K) or not isinstance(key.v, str):
        return ABSENT
    if key.v in d.absent:
        return ABSENT
    n = d.owner
    if I.decide(('hasattr', n.src, key.v)):
        v = Opq(('attr', n.src, key.v), {'str'})
        d.entries.append([key, v])
        if n.origin == 'doc' and n.oattrs is not None and \
                key.v not in n.oattrs:
            n.oattrs[key.v] = v
        d.absent.add(key.v)
        return v
    d.absent.add(key.v)
    return ABSENT


def attrs_changed(I, d):
    if d.owner is not None and d.owner.attrs is d:
        mutated(I, d.owner, 'attributes')


def node_getitem(I, node, key):
    key = I.norm(key)
    r = I.dict_get(node.attrs, key)
    if r is ABSENT:
        I.raise_('KeyError', cause=term_of(key))
    return r


def node_setitem(I, node, key, value):
    I.touch(node, 'attrs')
    I.dict_set(node.attrs, key, value)
    return NONE


def node_delitem(I, node, key):
    I.touch(node, 'attrs')
    I.dict_del(node.attrs, key)
    return NONE


###### moving elements about

def do_extract(I, x):
    p = x.parent
    if p is not None:
        I.touch(p)
        for i, c in enumerate(p.children):
            if c is x:
                del p.children[i]
                break
        mutated(I, p, 'child removed')
    x.parent = None
    return x


def index_of(I, parent, x):
    for i, c in enumerate(parent.children):
        if c is x:
            return i
    I.raise_('ValueError', 'Tag.index: element not in tag')


def do_insert(I, parent, pos, x):
    x = I.norm(x)
    if isinstance(x, K) and x.v is None:
        I.raise_('ValueError', 'Cannot insert None into a tag.')
    if x is parent:
        I.raise_('ValueError', 'Cannot insert a tag into itself.')
    if isinstance(x, K) and isinstance(x.v, str) or (
            isinstance(x, Opq) and I.typeset(x) == {'str'}):
        x = new_text(I, x)
    elif isinstance(x, Opq) and I.typeset(x) is None:
        if I.isinstance_(x, Ext('builtins.str')):
            x = new_text(I, x)
        else:
            I.raise_('AttributeError', 'parent', cause=x.term)
    if not isinstance(x, (NodeObj, TextObj)):
        I.raise_('AttributeError', "no attribute 'parent'",
                 cause=term_of(x))
    if isinstance(x, NodeObj) and x.soup:
        for c in list(x.children):
            do_insert(I, parent, pos, c)
            pos += 1
        return
    pos = min(pos, len(parent.children))
    if pos < 0:
        pos = max(0, len(parent.children) + pos)
    if x.parent is not None:
        if x.parent is parent:
            if index_of(I, parent, x) < pos:
                pos -= 1
        do_extract(I, x)
    I.touch(parent)
    parent.children.insert(pos, x)
    x.parent = parent
    mutated(I, parent, 'child added')


def position(I, av):
    av = I.norm(av)
    if isinstance(av, K) and isinstance(av.v, int):
        return av.v
    if isinstance(av, K):
        I.raise_('TypeError', 'bad position', cause=term_of(av))
    I.note_imprecise('insert at unknown position')
    raise PathCut_()


def strings(I, node, out, depth=0):
    for c in node.children:
        if isinstance(c, TextObj):
            out.append(c)
        else:
            strings(I, c, out, depth + 1)
    return out


def parents(node):
    r = []
    n = node.parent
    while n is not None and len(r) < MAXDEPTH:
        r.append(n)
        n = n.parent
    return r


def descendants(node, depth=0):
    r = []
    for c in node.children:
        r.append(c)
        if isinstance(c, NodeObj) and depth < MAXDEPTH:
            r.extend(descendants(c, depth + 1))
    return r


def node_children(I, node):
    return list(node.children)


def live_children(I, node):
    def runner(on_yield):
        i = 0
        while i < len(node.children):
            on_yield(node.children[i])
            i += 1
    return I.new_gen(runner)


def get_string(I, node):
    if len(node.children) != 1:
        return NONE
    c = node.children[0]
    if isinstance(c, TextObj):
        return c
    return get_string(I, c)


def set_string(I, node, value):
    value = I.norm(value)
    clear(I, node)
    if isinstance(value, K) and value.v is None:
        I.raise_('TypeError', 'NoneType takes no arguments')
    if isinstance(value, Inst):
        I.raise_('AttributeError', "no attribute 'parent'",
                 cause=term_of(value))
    if isinstance(value, TextObj):
        value = new_text(I, value.value)
    do_insert(I, node, len(node.children), value)


def clear(I, node):
    for c in list(node.children):
        do_extract(I, c)


###### searching

def matches(I, node, name, attrs):
    """Whether an element matches a filter."""
    if name is not None and not match_one(I, node.name, name, node):
        return False
    for k, want in attrs:
        v = I.dict_get(node.attrs, k)
        if not match_one(I, NONE if v is ABSENT else v, want, None):
            return False
    return True


def match_one(I, have, want, node):
    want = I.norm(want)
    if isinstance(want, TextObj):
        want = I.norm(want.value)
    if isinstance(want, K) and want.v is True:
        return not (isinstance(have, K) and have.v is None)
    if isinstance(want, (Fn, Bound, Native)) or (
            isinstance(want, Inst) and I.has_class_attr(want, '__call__')):
        return I.truth(I.call(want, [node if node is not None else have],
                              {}))
    if isinstance(want, (ListObj, Tup, SetObj)):
        for w in want.items:
            if match_one(I, have, w, node):
                return True
        return False
    if isinstance(have, K) and have.v is None:
        if isinstance(want, K):
            return not want.v
        return I.identical(want, NONE)
    if isinstance(want, K) and isinstance(want.v, re.Pattern):
        h = I.norm(have)
        if isinstance(h, K):
            return want.v.search(h.v) is not None
        return I.decide(('re.search', ('k', 'str', want.v.pattern),
                         term_of(h)))
    if isinstance(want, K) and want.v is None:
        return False
    if isinstance(want, K) and not isinstance(want.v, str):
        want = K(str(want.v))
    if isinstance(have, Inst):
        have = I.ext.str_(I, have)
    return I.truth(I.eq(have, want))


def parse_filter(I, args, kw, for_parents=False):
    args = list(args)
    kw = dict(kw)
    name = args[0] if args else kw.pop('name', None)
    attrs = args[1] if len(args) > 1 else kw.pop('attrs', None)
    rest = args[2:]
    if for_parents:
        limit = rest[0] if rest else kw.pop('limit', None)
        recursive, string = TRUE, None
    else:
        recursive = rest[0] if rest else kw.pop('recursive', TRUE)
        string = rest[1] if len(rest) > 1 else kw.pop(
            'string', kw.pop('text', None))
        limit = rest[2] if len(rest) > 2 else kw.pop('limit', None)
    if name is not None:
        name = I.norm(name)
        if isinstance(name, K) and name.v is None:
            name = None
        elif isinstance(name, Opq) and I.typeset(name) is None:
            if I.identical(name, NONE):
                name = None
    pairs = []
    if attrs is not None:
        attrs = I.norm(attrs)
        if isinstance(attrs, DictObj):
            pairs = [(k, v) for k, v in attrs.entries]
        elif isinstance(attrs, K) and attrs.v is None:
            pass
        else:
            pairs = [(K('class'), attrs)]
    for k, v in kw.items():
        pairs.append((K('class' if k == 'class_' else k), v))
    lim = None
    if limit is not None:
        l = I.norm(limit)
        lim = l.v if isinstance(l, K) else None
    rec = I.truth(recursive)
    if string is not None:
        s = I.norm(string)
        if isinstance(s, K) and s.v is None:
            string = None
    return name, pairs, rec, string, lim


def search(I, node, args, kw, limit=None):
    name, pairs, rec, string, lim = parse_filter(I, args, kw)
    if limit is None:
        limit = lim
    cand = descendants(node) if rec else list(node.children)
    r = []
    for c in cand:
        if isinstance(c, TextObj):
            if string is not None and name is None and not pairs and \
                    match_one(I, c.value, string, None):
                r.append(c)
        else:
            if string is not None and name is None and not pairs:
                continue
            if matches(I, c, name, pairs):
                if string is not None:
                    s = get_string(I, c)
                    if not isinstance(s, TextObj) or not match_one(
                            I, s.value, string, None):
                        continue
                r.append(c)
        if limit and len(r) >= limit:
            break
    return r


def find_all(I, node, args, kw):
    I.event('find', node, args, kw)
    return I.new_list(search(I, node, args, kw))


def find(I, node, args, kw):
    I.event('find', node, args, kw)
    kw = dict(kw)
    kw.pop('limit', None)
    r = search(I, node, args, kw, 1)
    return r[0] if r else NONE


def seq_search(I, seq, args, kw, first):
    name, pairs, rec, string, lim = parse_filter(I, args, kw, True)
    r = []
    for c in seq:
        if isinstance(c, TextObj):
            if name is None and not pairs:
                r.append(c)
        elif matches(I, c, name, pairs):
            r.append(c)
        if (first and r) or (lim and len(r) >= lim):
            break
    if first:
        return r[0] if r else NONE
    return I.new_list(r)


def siblings(x, forward):
    p = x.parent
    if p is None:
        return []
    i = [j for j, c in enumerate(p.children) if c is x]
    if not i:
        return []
    return p.children[i[0] + 1:] if forward else p.children[:i[0]][::-1]


###### methods shared by elements and text

def page_method(I, x, name):
    """Method of PageElement, or None."""
    def f(py):
        return Native('tag.' + name, py)

    if name == 'extract':
        return f(lambda I, a, k, n: do_extract(I, x))
    if name == 'decompose':
        return f(lambda I, a, k, n: (do_extract(I, x), NONE)[1])
    if name in ('replace_with', 'replaceWith'):
        def py(I, a, k, n):
            if x.parent is None:
                I.raise_('ValueError', 'Cannot replace one element with '
                         'another when the element to be replaced is not '
                         'part of a tree.')
            if len(a) == 1 and a[0] is x:
                return NONE
            if any(y is x.parent for y in a):
                I.raise_('ValueError', 'Cannot replace a Tag with its parent')
            p = x.parent
            i = index_of(I, p, x)
            do_extract(I, x)
            for j, y in enumerate(a):
                do_insert(I, p, i + j, y)
            return x
        return f(py)
    if name in ('insert_before', 'insert_after'):
        def py(I, a, k, n):
            p = x.parent
            if p is None:
                I.raise_('ValueError', 'Element has no parent, so this has '
                         'no meaning.')
            if any(y is x for y in a):
                I.raise_('ValueError', "Can't insert an element relative to "
                         "itself.")
            off = 0
            for y in a:
                if isinstance(y, (NodeObj, TextObj)):
                    do_extract(I, y)
                i = index_of(I, p, x)
                if name == 'insert_before':
                    do_insert(I, p, i, y)
                else:
                    do_insert(I, p, i + 1 + off, y)
                    off += 1
            return NONE
        return f(py)
    if name == 'wrap':
        def py(I, a, k, n):
            w = a[0]
            p = x.parent
            if p is None:
                I.raise_('ValueError', 'not part of a tree')
            i = index_of(I, p, x)
            do_extract(I, x)
            do_insert(I, p, i, w)
            do_insert(I, w, len(w.children), x)
            return w
        return f(py)
    if name == 'parents':
        return I.new_gen(lambda cb: [cb(p) for p in parents(x)])
    if name in ('find_parents', 'find_parent'):
        return f(lambda I, a, k, n: seq_search(
            I, parents(x), a, k, name == 'find_parent'))
    if name in ('next_sibling', 'previous_sibling'):
        s = siblings(x, name[0] == 'n')
        return s[0] if s else NONE
    if name in ('next_siblings', 'previous_siblings'):
        return I.new_gen(lambda cb: [cb(p) for p in siblings(
            x, name[0] == 'n')])
    if name in ('find_next_siblings', 'find_next_sibling',
                'find_previous_siblings', 'find_previous_sibling'):
        return f(lambda I, a, k, n: seq_search(
            I, siblings(x, 'next' in name), a, k, name[-1] != 's'))
    return None


NODE_METHODS = set()


def node_getattr(I, node, name):
    def f(py):
        return Native('tag.' + name, py)

    if name == 'name':
        return node.name
    if name == 'attrs':
        return node.attrs
    if name == 'parent':
        return node.parent if node.parent is not None else NONE
    if name == 'contents':
        return I.new(ListObj, items=node.children, kind='list')
    if name == 'children':
        return live_children(I, node)
    if name == 'descendants':
        return I.new_gen(lambda cb: [cb(x) for x in descendants(node)])
    if name in ('strings', 'stripped_strings'):
        return I.new_gen(lambda cb: [cb(x) for x in strings(I, node, [])])
    if name == 'string':
        return get_string(I, node)
    if name == 'text':
        return I.ext.cat(I, [x.value for x in strings(I, node, [])])
    if name in ('get_text', 'getText'):
        return f(lambda I, a, k, n: I.ext.cat(
            I, [x.value for x in strings(I, node, [])]))
    if name == '__class__':
        return I.class_of(node)
    if name in ('hidden', 'is_empty_element', 'prefix', 'namespace',
                'sourceline', 'sourcepos'):
        return Opq(('tag.' + name, node.src))
    if name == 'is_xml':
        return TRUE
    r = page_method(I, node, name)
    if r is not None:
        return r
    if name == 'append':
        return f(lambda I, a, k, n: (do_insert(
            I, node, len(node.children), a[0]), NONE)[1])
    if name == 'insert':
        return f(lambda I, a, k, n: (do_insert(
            I, node, position(I, a[0]), a[1]), NONE)[1])
    if name == 'extend':
        def py(I, a, k, n):
            x = a[0]
            items = list(x.children) if isinstance(x, NodeObj) else \
                I.iterate(x)
            for y in items:
                do_insert(I, node, len(node.children), y)
            return NONE
        return f(py)
    if name == 'clear':
        return f(lambda I, a, k, n: (clear(I, node), NONE)[1])
    if name == 'unwrap':
        def py(I, a, k, n):
            p = node.parent
            if p is None:
                I.raise_('ValueError', 'not part of a tree')
            i = index_of(I, p, node)
            do_extract(I, node)
            for c in reversed(list(node.children)):
                do_insert(I, p, i, c)
            return node
        return f(py)
    if name in ('find_all', 'findAll', '__call__'):
        return f(lambda I, a, k, n: find_all(I, node, a, k))
    if name == 'find':
        return f(lambda I, a, k, n: find(I, node, a, k))
    if name == 'get':
        def py(I, a, k, n):
            r = I.dict_get(node.attrs, a[0])
            if r is ABSENT:
                return a[1] if len(a) > 1 else k.get('default', NONE)
            return r
        return f(py)
    if name == 'has_attr':
        return f(lambda I, a, k, n: K(
            I.dict_get(node.attrs, a[0]) is not ABSENT))
    if name == 'get_attribute_list':
        return f(lambda I, a, k, n: I.new_list(
            [v for v in [I.dict_get(node.attrs, a[0])] if v is not ABSENT]))
    if name == 'index':
        return f(lambda I, a, k, n: K(index_of(I, node, a[0])))
    if name in ('prettify', 'decode', 'decode_contents', '__str__',
                '__unicode__', '__repr__'):
        def py(I, a, k, n):
            if name == 'prettify' and (a or 'encoding' in k):
                enc = I.norm(a[0] if a else k['encoding'])
                if not (isinstance(enc, K) and enc.v is None):
                    t = I.ext.str_(I, node)
                    I.event('encode', term_of(t), enc)
                    return Opq(('encode', term_of(t), term_of(enc)),
                               {'bytes'})
            if name == 'prettify':
                t = I.ext.str_(I, node)
                return Opq(('pretty', term_of(t)), {'str'})
            return I.ext.str_(I, node)
        return f(py)
    if name in ('encode', 'encode_contents'):
        def py(I, a, k, n):
            enc = a[0] if a else k.get('encoding', K('utf-8'))
            t = I.ext.str_(I, node)
            I.event('encode', term_of(t), enc)
            I.may_raise('UnicodeEncodeError', term_of(t))
            return Opq(('encode', term_of(t), term_of(enc)), {'bytes'})
        return f(py)
    if name == 'new_tag' and node.soup:
        def py(I, a, k, n):
            k = dict(k)
            nm = a[0] if a else k.pop('name')
            t = new_node(I, I.norm(nm))
            at = k.pop('attrs', None)
            if isinstance(at, DictObj):
                t.attrs.entries = [list(e) for e in at.entries]
            for kk, v in k.items():
                t.attrs.entries.append([K(kk), v])
            return t
        return f(py)
    if name == 'new_string' and node.soup:
        return f(lambda I, a, k, n: new_text(I, a[0]))
    if name == '__iter__':
        return f(lambda I, a, k, n: live_children(I, node))
    if name == '__len__':
        return f(lambda I, a, k, n: K(len(node.children)))
    if name == '__getitem__':
        return f(lambda I, a, k, n: node_getitem(I, node, a[0]))
    if name == '__setitem__':
        return f(lambda I, a, k, n: node_setitem(I, node, a[0], a[1]))
    if name == '__delitem__':
        return f(lambda I, a, k, n: node_delitem(I, node, a[0]))
    if name == '__contains__':
        return f(lambda I, a, k, n: K(any(c is a[0]
                                          for c in node.children)))
    if name in ('__copy__', '__deepcopy__'):
        return f(lambda I, a, k, n: copy_node(I, node))
    if name == 'smooth':
        return f(lambda I, a, k, n: NONE)
    if name in ('select', 'select_one', 'next_element', 'next_elements',
                'previous_element', 'previous_elements', 'css',
                'find_next', 'find_all_next', 'find_previous',
                'find_all_previous', 'setup', 'builder'):
        I.note_imprecise('tag.' + name)
        raise PathCut_()
    if name.startswith('__'):
        I.raise_('AttributeError', name)
    # Tag.__getattr__: the first element of that name
    return find(I, node, [K(name)], {})


def node_setattr(I, node, name, value):
    I.touch(node, name)
    if name == 'name':
        node.name = I.norm(value)
        mutated(I, node, 'name')
        return NONE
    if name == 'attrs':
        value = I.norm(value)
        if isinstance(value, DictObj):
            if value.owner is not None and value.owner is not node:
                # shared with another element
                node.attrs = value
                if value.owner.attrs is not value:
                    value.owner = node
            else:
                value.owner = node
                node.attrs = value
        else:
            d = I.new_dict()
            d.owner = node
            node.attrs = d
        mutated(I, node, 'attributes')
        return NONE
    if name == 'string':
        set_string(I, node, value)
        return NONE
    if name == 'parent':
        node.parent = value if isinstance(value, NodeObj) else None
        mutated(I, node, 'parent')
        return NONE
    if name == 'contents':
        node.children = list(I.iterate(value))
        mutated(I, node, 'children')
        return NONE
    I.event('attr-write', node, name, value)
    return NONE


def text_getattr(I, x, name):
    if name == 'parent':
        return x.parent if x.parent is not None else NONE
    if name in ('string', 'text'):
        return x
    if name == 'name':
        return NONE
    if name in ('replace_with', 'extract', 'insert_before', 'insert_after',
                'wrap', 'parents', 'find_parents', 'find_parent',
                'next_sibling', 'previous_sibling', 'next_siblings',
                'previous_siblings', 'decompose'):
        return page_method(I, x, name)
    if name in ('get_text', 'getText'):
        return Native('text.' + name, lambda I, a, k, n: x.value)
    if name == '__class__':
        return Ext('bs4.NavigableString')
    return None
