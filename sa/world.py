"""
The analysed program (loaded once per run), and the abstract documents its
operations are analysed on.
"""
import os
import sys

from .interp import *
from . import dom
from .dom import new_node, new_text, adopt

sys.setrecursionlimit(30000)

REPO = os.environ.get('SANGFROID_REPO', '/repo')

WS = '\n'

# Synfig's element for each kind of value: how one is written in a file.
KINDS = ('real', 'integer', 'bool', 'angle', 'time', 'string', 'vector',
         'color', 'gradient', 'transformation', 'canvas')
CLASS_OF = {'real': 'Real', 'integer': 'Integer', 'bool': 'Bool',
            'angle': 'Angle', 'time': 'Time', 'string': 'String',
            'vector': 'X_Y', 'color': 'Color', 'gradient': 'Gradient',
            'transformation': 'Transformation', 'canvas': 'Canvas',
            'blend': 'BlendMethod'}
ELEMENT_OF = {'transformation': 'composite', 'blend': 'integer'}


CONSTANT = []


class constant_document:
    """Within this, numbers in documents are constants, and well-formed."""

    def __enter__(self):
        CONSTANT.append(1)

    def __exit__(self, *a):
        CONSTANT.pop()


ODD = []


class odd_spelling:
    """
    Within this, what is in documents is spelt in unusual ways: with
    capitals, spaces and superfluous digits.
    """

    def __enter__(self):
        ODD.append(1)

    def __exit__(self, *a):
        ODD.pop()


def respell(I, node):
    def odd(key, v, where):
        if isinstance(v, Opq) and v.term[:1] == ('doc',):
            return K(' 3 ' if where == 'integer' else ' 1.50 ')
        if not (isinstance(v, K) and isinstance(v.v, str)) or \
                key in ('name', 'id') or not v.v.strip():
            return v
        s = v.v
        if key == 'type':
            return K(s.upper()) if where == 'layer' else v
        if s in ('true', 'false'):
            return K(' %s ' % s.title())
        return K(' %s  ' % s.replace(' ', '  '))
    for n in [node] + list(dom.descendants(node)):
        if isinstance(n, NodeObj):
            name = n.name.v if isinstance(n.name, K) else None
            for e in n.attrs.entries:
                e[1] = odd(e[0].v if isinstance(e[0], K) else None, e[1],
                           name)
        elif isinstance(n, TextObj):
            n.value = odd(None, n.value, None)


def flag(label):
    """An unknown "true" or "false" found in a document."""
    if CONSTANT:
        return K('true')
    return Opq(('doc', label), {'str'})


def S(label):
    """Unknown text found in a document."""
    if CONSTANT:
        return K('1.5')
    return Opq(('doc', label), {'str'})


def arg(label, *types):
    """An unknown value passed by the caller."""
    return Opq(('arg', label), set(types) if types else None)


class World:

    def __init__(self, repo=REPO):
        self.repo = repo
        self.I = I = Interp({'sangfroid': os.path.join(repo, 'sangfroid'),
                             'bywords': os.path.join(repo, 'bywords')})
        self.load_errors = []
        for m in ('sangfroid', 'sangfroid.layer', 'sangfroid.value',
                  'sangfroid.template.replacer', 'bywords.adjust',
                  'bywords.__main__'):
            self.load(m)
        for m in self.all_module_names():
            if m not in I.modules or I.modules[m].state == 'new':
                self.load(m)
        I.freeze()

    def load(self, name):
        try:
            self.I.import_module(name)
        except PyRaise as e:
            a = e.exc.attrs.get('args')
            self.load_errors.append((name, e.name, a, e.loc))
            del self.I.stack[:]
            del self.I.handlers[:]

    def all_module_names(self):
        r = []
        for pkg, root in sorted(self.I.roots.items()):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(d, f), root)[:-3]
                        parts = [pkg] + rel.split(os.sep)
                        if parts[-1] == '__init__':
                            parts.pop()
                        r.append('.'.join(parts))
        return r

    def find(self, mod, name):
        return self.I.modules[mod].ns.get(name)

    def value_class(self, kind):
        n = CLASS_OF.get(kind, kind)
        c = self.find('sangfroid.value', n)
        if c is None:
            for m in sorted(self.I.modules):
                if m.startswith('sangfroid.value'):
                    c = self.I.modules[m].ns.get(n)
                    if isinstance(c, ClassObj):
                        break
        if not isinstance(c, ClassObj):
            raise AnchorGone('value class %s' % n)
        return c

    def cls(self, name, *mods):
        for m in mods + ('sangfroid', 'sangfroid.layer', 'sangfroid.value'):
            if m in self.I.modules:
                c = self.I.modules[m].ns.get(name)
                if isinstance(c, (ClassObj, Fn)):
                    return c
        for m in sorted(self.I.modules):
            c = self.I.modules[m].ns.get(name)
            if isinstance(c, ClassObj):
                return c
        raise AnchorGone('class %s' % name)

    @property
    def T(self):
        return self.cls('T')

    @property
    def Waypoint(self):
        return self.cls('Waypoint', 'sangfroid.value.value')

    @property
    def Value(self):
        return self.cls('Value', 'sangfroid.value.value')

    @property
    def Layer(self):
        return self.cls('Layer')

    @property
    def Animation(self):
        return self.cls('Animation')

    def all_classes(self):
        r = []
        for m in sorted(self.I.modules):
            for k, v in self.I.modules[m].ns.items():
                if isinstance(v, ClassObj) and v.mod is not None and \
                        v not in r:
                    r.append(v)
        r.sort(key=lambda c: c.order)
        return r

    def subclasses(self, base):
        return [c for c in self.all_classes() if base in c.mro]

    def layer_classes(self):
        """
        The layer classes users can create. Found from the classes, so that
        how the registry is kept doesn't matter.
        """
        L = self.Layer
        A = self.Animation
        r = []
        for c in self.subclasses(L):
            if c is L or c is A or c.name.startswith('_') or A in c.mro:
                continue
            r.append(c)
        return r

    def qual(self, c):
        return '%s:%s' % (self.I.relpath(c.mod.path), c.qual)


class AnchorGone(Exception):
    pass


###### documents

def value_node(I, kind, label='v', n=2, layers=()):
    """A value as found in a file, with unknown contents."""
    if kind in ('real', 'integer', 'angle', 'time', 'bool'):
        v = S(label)
        if kind == 'integer' and CONSTANT:
            v = K('3')
        if kind == 'bool':
            v = K('true')
        elif kind == 'time':
            v = K('2s')
        return new_node(I, kind, {'value': v})
    if kind == 'blend':
        return new_node(I, 'integer', {
            'static': K('true'), 'value': K('3') if CONSTANT else S(label)})
    if kind == 'string':
        return new_node(I, 'string', {}, [S(label)])
    if kind == 'vector':
        return new_node(I, 'vector', {}, [
            WS, new_node(I, 'x', {}, [S(label + '.x')]), WS,
            new_node(I, 'y', {}, [S(label + '.y')]), WS])
    if kind == 'color':
        kids = [WS]
        for d in 'rgba':
            kids += [new_node(I, d, {}, [S(label + '.' + d)]), WS]
        return new_node(I, 'color', {}, kids)
    if kind == 'gradient':
        kids = [WS]
        for i in range(n):
            c = value_node(I, 'color', '%s[%d]' % (label, i))
            c.attrs.entries.append([K('pos'), K('%d.0' % i)])
            kids += [c, WS]
        return new_node(I, 'gradient', {}, kids)
    if kind == 'transformation':
        kids = [WS]
        for k, t in (('offset', 'vector'), ('angle', 'angle'),
                     ('skew_angle', 'angle'), ('scale', 'vector')):
            kids += [new_node(I, k, {}, [
                WS, value_node(I, t, label + '.' + k), WS]), WS]
        return new_node(I, 'composite', {'type': K('transformation')}, kids)
    if kind == 'canvas':
        kids = [WS]
        for l in layers:
            kids += [l, WS]
        return new_node(I, 'canvas', {}, kids)
    # a kind which isn't implemented
    return new_node(I, kind, {}, [WS, new_node(I, 'entry', {}, [
        S(label)]), WS])


def animated_node(I, kind, times=('1s', '2s'), label='v', guid=False,
                  interps=None):
    """An animated value as found in a file."""
    kids = [WS]
    for i, t in enumerate(times):
        b, a = (interps[i] if interps else ('linear', 'clamped'))
        kids += [new_node(I, 'waypoint', [
            ('time', t if isinstance(t, AV) else K(t)),
            ('before', b if isinstance(b, AV) else K(b)),
            ('after', a if isinstance(a, AV) else K(a))],
            [WS, value_node(I, kind, '%s@%d' % (label, i)), WS]), WS]
    return new_node(I, 'animated', {
        'type': K(ELEMENT_OF.get(kind, kind))}, kids)


def param_node(I, name, value):
    return new_node(I, 'param', {
        'name': name if isinstance(name, AV) else K(name)}, [WS, value, WS])


def layer_node(I, type_, params=(), attrs=(), label=None, open_=True):
    kids = [WS]
    for p in params:
        kids += [p, WS]
    return new_node(I, 'layer', [
        ('type', type_ if isinstance(type_, AV) else K(type_)),
        ('active', flag('%s.active' % (label or 'layer'))),
        ('version', K('0.3'))] + list(attrs), kids,
        label=label, open_=open_)


ROOT_ATTRS = [
    ('version', '1.2'), ('width', '480'), ('height', '270'),
    ('xres', '2834.645669'), ('yres', '2834.645669'),
    ('gamma-r', '1.000000'), ('gamma-g', '1.000000'),
    ('gamma-b', '1.000000'),
    ('view-box', '-4.000000 2.250000 4.000000 -2.250000'),
    ('antialias', '1'), ('fps', '24.000'), ('begin-time', '0f'),
    ('end-time', '5s'), ('bgcolor', '0.5 0.5 0.5 1.0')]


def canvas_root(I, layers=(), name=True, desc=True, keyframes=1, attrs=None,
                extra=(), keyframe_times=None):
    """A whole document. Returns its root element."""
    kids = [WS]
    if name:
        kids += [new_node(I, 'name', {}, [S('animation name')]), WS]
    if desc:
        kids += [new_node(I, 'desc', {}, [S('animation desc')]), WS]
    kids += [new_node(I, 'meta', {'name': K('grid_size'),
                                  'content': K('0.25 0.25')}), WS]
    if keyframe_times is None:
        keyframe_times = ['%ds' % i for i in range(keyframes)]
    for i, t in enumerate(keyframe_times):
        at = {'active': flag('keyframe %d active' % i)}
        if t is not None:
            at['time'] = t if isinstance(t, AV) else K(t)
        kids += [new_node(I, 'keyframe', at, [S('keyframe %d' % i)]), WS]
    for x in tuple(extra) + tuple(layers):
        kids += [x, WS]
    at = dict(ROOT_ATTRS)
    if attrs:
        at.update(attrs)
    root = new_node(I, 'canvas', [
        (k, v if isinstance(v, AV) else K(v)) for k, v in at.items()
        if v is not None], kids, label='<canvas> (root)')
    return root


def in_document(I, root):
    if ODD:
        respell(I, root)
    soup = new_node(I, '[document]', soup=True, label='document')
    root.parent = soup
    soup.children.append(root)
    adopt(I, soup)
    return root


def document(I, *layers, **kw):
    return in_document(I, canvas_root(I, layers, **kw))


def wrap_layer(W, I, tag):
    """A layer object for an element in a document."""
    return I.call(I.getattr(W.Layer, 'from_tag'), [tag], {})


XML_START = b'<?xml version="1.0" encoding="UTF-8"?>'
GZIP_START = bytes([0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 0x4b, 0x4c])


def file_starting(start, whole=False):
    """Reads from a file of which we know the first bytes."""
    def read(I, f, a):
        n = I.norm(a[0]) if a else None
        if f.via == 'open' and (whole or isinstance(n, K) and isinstance(
                n.v, int) and 0 <= n.v <= len(start)):
            k = n.v if isinstance(n, K) and isinstance(n.v, int) and \
                n.v >= 0 else len(start)
            return K(start[:k] if 'b' in f.mode else
                     start[:k].decode('latin-1'))
        return Opq(('filedata', f.id, f.via), {'bytes'} if 'b' in f.mode
                   else {'str'})
    return read


def animation(W, I, *layers, **kw):
    """
    An Animation of an unknown document: what the constructor makes when the
    parser hands over that document.
    """
    magic = kw.pop('magic', XML_START)
    fname = kw.pop('filename', K('existing.sif'))
    root = canvas_root(I, layers, **kw)
    if ODD:
        respell(I, root)
    I.hooks['soup'] = lambda I: root
    I.hooks['read'] = file_starting(magic)
    try:
        return I.call(W.Animation, [fname], {})
    finally:
        I.hooks.clear()


def method(I, obj, name, *args, **kw):
    return I.call(I.getattr(obj, name), list(args), kw)


def tag_of(I, obj):
    return I.getattr(obj, 'tag')
