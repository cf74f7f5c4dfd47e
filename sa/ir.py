"""Abstract values and abstract heap objects."""


class AV:
    """An abstract value."""
    __slots__ = ()


class K(AV):
    """A constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return 'K(%r)' % (self.v,)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class Tup(AV):
    __slots__ = ('items', 'ntype')

    def __init__(self, items, ntype=None):
        self.items = tuple(items)
        self.ntype = ntype

    def __repr__(self):
        return 'Tup(%s)' % (', '.join(map(repr, self.items)))


class Opq(AV):
    """A value about which only its origin (term) and maybe its type is known."""
    __slots__ = ('term', 'types')

    def __init__(self, term, types=None):
        self.term = term
        self.types = frozenset(types) if types is not None else None

    def __repr__(self):
        return 'Opq(%s)' % (show(self.term),)


class Ext(AV):
    """Something that lives outside the analysed packages."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Fn(AV):
    __slots__ = ('node', 'frame', 'mod', 'qual', 'ccell', 'defaults',
                 'kwdefaults', 'isgen', 'id', 'attrs', 'base')

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class Bound(AV):
    __slots__ = ('obj', 'fn')

    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn

    def __repr__(self):
        return 'Bound(%r, %r)' % (self.obj, self.fn)


class Native(AV):
    """A built-in function or method: py(I, args, kwargs, node)."""
    __slots__ = ('name', 'py', 'obj')

    def __init__(self, name, py, obj=None):
        self.name = name
        self.py = py
        self.obj = obj

    def __repr__(self):
        return 'Native(%s)' % self.name


class Prop(AV):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedProp(AV):
    __slots__ = ('fn', 'name')

    def __init__(self, fn):
        self.fn = fn
        self.name = None


class CM(AV):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class SM(AV):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class SuperObj(AV):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Obj(AV):
    """Base of heap objects; identity matters."""
    __slots__ = ('id', 'base')


class Inst(Obj):
    """An instance. cands: the classes it may be a direct instance of."""
    __slots__ = ('cands', 'attrs', 'tagname', 'lazy')

    def __repr__(self):
        return '<%s#%s>' % ('|'.join(c.name for c in self.cands[:3]), self.id)


class ClassObj(Obj):
    __slots__ = ('name', 'bases', 'ns', 'mro', 'mod', 'node', 'qual', 'order')

    def __repr__(self):
        return '<class %s>' % self.qual


class ClassSet(AV):
    """One of several classes."""
    __slots__ = ('cands',)

    def __init__(self, cands):
        self.cands = tuple(cands)

    def __repr__(self):
        return '<oneof %d classes>' % len(self.cands)


class ModObj(Obj):
    __slots__ = ('name', 'ns', 'path', 'tree', 'state', 'ispkg')

    def __repr__(self):
        return '<module %s>' % self.name


class ListObj(Obj):
    __slots__ = ('items', 'kind')

    def __repr__(self):
        return 'List%r' % (self.items,)


class DictObj(Obj):
    """entries: list of [key, value]. owner: a document node whose
    attributes these are, and which may have more of them."""
    __slots__ = ('entries', 'owner', 'absent', 'kind', 'default')

    def __repr__(self):
        return 'Dict%r' % (self.entries,)


class SetObj(Obj):
    __slots__ = ('items', 'frozen')

    def __repr__(self):
        return 'Set%r' % (self.items,)


class GenObj(Obj):
    """A generator which hasn't been run yet."""
    __slots__ = ('runner', 'items', 'pos', 'eager')

    def __repr__(self):
        return '<gen#%s>' % self.id


class FileObj(Obj):
    __slots__ = ('fname', 'mode', 'via', 'closed', 'written', 'enc', 'kw', 'at')

    def __repr__(self):
        return '<file#%s>' % self.id


class Rest:
    """The part of a node's children nobody has looked at yet."""
    __slots__ = ('n',)
    count = 0

    def __repr__(self):
        return '...'


UNKNOWN = object()
ABSENT = object()


class NodeObj(Obj):
    """An XML element."""
    __slots__ = ('origin', 'name', 'attrs', 'children', 'parent', 'soup',
                 'oname', 'oattrs', 'ochildren', 'oparent', 'finds', 'label',
                 'depth', 'attrs0', 'src', 'tagged', 'strdep')

    def __repr__(self):
        return '<node#%s %s %r>' % (self.id, self.label or self.origin,
                                    self.name)


class TextObj(Obj):
    __slots__ = ('value', 'parent', 'origin', 'ntype')

    def __repr__(self):
        return '<text#%s %r>' % (self.id, self.value)


def show(t, depth=0):
    """Prints a term readably."""
    if not isinstance(t, tuple):
        return repr(t) if isinstance(t, str) and depth else str(t)
    if not t:
        return '()'
    if t[0] == 'k':
        return repr(t[2])
    if depth > 6:
        return '…'
    if t[0] == 'arg':
        return str(t[1])
    return '%s(%s)' % (t[0], ', '.join(show(x, depth + 1) for x in t[1:]))


def kterm(v):
    return ('k', type(v).__name__, v)


def term_of(av):
    if isinstance(av, K):
        return kterm(av.v)
    if isinstance(av, Opq):
        return av.term
    if isinstance(av, Tup):
        return ('tup',) + tuple(term_of(x) for x in av.items)
    if isinstance(av, TextObj):
        return term_of(av.value)
    if isinstance(av, Obj):
        return ('ref', av.id)
    if isinstance(av, Ext):
        return ('ext', av.name)
    if isinstance(av, Fn):
        return ('fn', av.qual)
    if isinstance(av, Bound):
        return ('bound', term_of(av.obj), term_of(av.fn))
    if isinstance(av, Native):
        return ('native', av.name)
    if isinstance(av, ClassSet):
        return ('classset', len(av.cands), av.cands[0].qual)
    return ('other', type(av).__name__)


def term_has(t, pred):
    """Whether any subterm satisfies pred."""
    if isinstance(t, tuple):
        if pred(t):
            return True
        for x in t:
            if isinstance(x, tuple) and term_has(x, pred):
                return True
    return False


def mentions_arg(t):
    return term_has(t, lambda x: len(x) > 0 and x[0] == 'arg')
