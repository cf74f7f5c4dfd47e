"""C16: objects do not influence one another through hidden shared state."""
from .args import *
from .relay import relay
from ..interp import Frame

RULE = ('Effect analysis: on no path does an operation write to anything '
        'which existed when the packages had been imported (a class, a '
        'module, a function, a field declaration, a default argument, or '
        'anything reachable from those), nor put such an object into a '
        'document, nor remember a result which is, or is made from, '
        'something that can change.')
SCOPE = ('All the operations which the rules for reading (C01), refused '
         'changes (C02), assigning (C03, C04, C06), timelines (C07), '
         'waypoints (C08), times (C09, C11), files (C12, C13) and new '
         'layers (C15), groups (C18) and the tools (C19, C23) analyse, '
         'searches, and creating two of everything.')
MINIMUM = 400
PARALLEL = True

RULES = ('C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13',
         'C15', 'C18', 'C19', 'C23', 'C02', 'C01', 'C17', 'C24', 'C25',
         'C26', 'C27', 'C29', 'C30')


def homes(W):
    """Names for what the packages keep."""
    r = {}
    todo = []
    for m in sorted(W.I.modules):
        mod = W.I.modules[m]
        r[id(mod)] = 'the module %s' % m
        for k, v in mod.ns.items():
            todo.append((v, '%s.%s' % (m, k), 0))
    while todo:
        v, name, depth = todo.pop(0)
        if isinstance(v, (K, Opq, Ext)) or id(v) in r or depth > 6:
            continue
        if isinstance(v, ClassObj):
            r[id(v)] = 'the class %s' % v.name
            for k, x in v.ns.items():
                todo.append((x, '%s.%s' % (v.name, k), depth + 1))
        elif isinstance(v, Fn):
            r[id(v)] = 'the function %s' % v.qual
            for i, x in enumerate(list(getattr(v, 'defaults', ()) or ())):
                todo.append((x, 'a default argument of %s' % v.qual,
                             depth + 1))
            d = getattr(v, 'kwdefaults', None)
            for x in (d.values() if isinstance(d, dict) else d or ()):
                todo.append((x, 'a default argument of %s' % v.qual,
                             depth + 1))
        elif isinstance(v, Inst):
            r[id(v)] = name
            for k, x in v.attrs.items():
                todo.append((x, '%s.%s' % (name, k), depth + 1))
        elif isinstance(v, (ListObj, SetObj)):
            r[id(v)] = name
            for x in v.items:
                todo.append((x, name, depth + 1))
        elif isinstance(v, DictObj):
            r[id(v)] = name
            for k, x in v.entries:
                todo.append((x, name, depth + 1))
        elif isinstance(v, Tup):
            for x in v.items:
                todo.append((x, name, depth + 1))
        elif isinstance(v, Prop):
            for x in (v.fget, v.fset, v.fdel):
                if x is not None:
                    todo.append((x, name, depth + 1))
        elif isinstance(v, (CM, SM)):
            todo.append((v.fn, name, depth + 1))
        elif isinstance(v, NodeObj):
            for x in [v] + list(dom.descendants(v)):
                r[id(x)] = name
                if isinstance(x, NodeObj):
                    r[id(x.attrs)] = name
        elif hasattr(v, 'id'):
            r[id(v)] = name
    return r


def same_state(a, b):
    if a is b:
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, set):
        return a == b
    if isinstance(a, K) and isinstance(b, K):
        return type(a.v) is type(b.v) and a.v == b.v
    if isinstance(a, Tup) and isinstance(b, Tup):
        return same_state(list(a.items), list(b.items))
    if isinstance(a, (str, int, bool)) or a is None:
        return a == b
    return False


def altered(I):
    """What differs from what it was after importing."""
    r = []
    for o, saved in I.saved_state:
        for k, v in saved.items():
            if not same_state(v, getattr(o, k)):
                r.append(o)
                break
    return r


def changeable(v, depth=0):
    """Whether a value is, or contains, something which may change."""
    if isinstance(v, (NodeObj, ListObj, DictObj, SetObj, TextObj)):
        return not getattr(v, 'frozen', False)
    if isinstance(v, Inst) and depth < 4:
        return any(changeable(x, depth + 1) for x in v.attrs.values())
    if isinstance(v, Tup):
        return any(changeable(x, depth + 1) for x in v.items)
    return False


def check(W, R):
    named = homes(W)

    def name_of(o):
        if isinstance(o, Frame):
            return 'a variable of %s' % (
                o.fn.qual if o.fn is not None else 'a module')
        if isinstance(o, Ext):
            return o.name
        if id(o) in named:
            return named[id(o)]
        if isinstance(o, Inst):
            return 'an object of class %s' % o.cands[0].name
        if isinstance(o, ClassObj):
            return 'the class %s' % o.name
        return 'a %s made when importing' % type(o).__name__.replace(
            'Obj', '').lower()

    def inspect(I, who):
        changed = None
        R.decided('%s: nothing shared is written' % who.split(' =')[0][:60])
        for e in I.log:
            if e[0] == 'shared-write':
                o = e[1]
                if isinstance(o, Ext):
                    if o.name.startswith(('sys', 'os')):
                        continue
                else:
                    if changed is None:
                        changed = {id(x) for x in altered(I)}
                        changed |= {id(x.attrs) for x in altered(I)
                                    if isinstance(x, NodeObj)}
                    if id(o) not in changed and not (
                            isinstance(o, Fn)):
                        continue
                what = e[2] if isinstance(e[2], str) else ''
                R.violation('C16:%s:%s' % (name_of(o).replace(' ', '_'),
                                           what),
                            '%s changes %s%s' % (
                                who, name_of(o), ' (%s)' % what
                                if what else ''), e[-1])
            elif e[0] == 'cached-call':
                f, args_, res = e[1], e[2], e[3]
                q = getattr(f, 'qual', None) or getattr(f, 'name', '?')
                if changeable(res):
                    R.violation('C16:cached:%s' % q,
                                '%s: %s hands the same changeable object to '
                                'everyone' % (who, q), e[-1])
                elif any(changeable(a) for a in args_):
                    R.violation('C16:cached:%s' % q,
                                '%s: %s remembers a result made from '
                                'something which can change' % (who, q),
                                e[-1])
    relay(R, [r for r in RULES if rule_exists(r)], inspect,
          cap=None if R.thorough else 80)
    creating(R, W, inspect, name_of)
    searching(R, W, inspect)


def rule_exists(r):
    return os.path.exists(os.path.join(os.path.dirname(
        os.path.abspath(__file__)), r.lower() + '.py'))


def creating(R, W, inspect, name_of):
    def shared_elements(I, obj, who):
        try:
            t = tag_of(I, obj)
        except PyRaise:
            return
        if not isinstance(t, NodeObj):
            return
        for n in [t] + list(dom.descendants(t)):
            if n.base:
                R.violation('C16:%s' % who.replace(' ', '_'),
                            'the element of %s contains one which was made '
                            'when importing, and which every other has too'
                            % who, name_of(n))
                return

    def trees(I, objs):
        r = []
        for o in objs:
            t = tag_of(I, o)
            r.append(set(id(n) for n in [t] + list(dom.descendants(t))))
        return r

    for c in W.layer_classes():
        who = 'a new %s' % c.name

        def run(I, c=c, who=who):
            a = I.call(c, [], {})
            b = I.call(c, [], {})
            inspect(I, who)
            shared_elements(I, a, who)
            ta, tb = trees(I, (a, b))
            R.decided('%s shares nothing with another' % who)
            if ta & tb:
                R.violation('C16:%s' % who.replace(' ', '_'),
                            '%s shares an element with another' % who,
                            W.qual(c))
            # changing one
            for n in descriptors(W, c):
                if n.startswith('_'):
                    continue
                try:
                    v = I.getattr(a, n)
                except PyRaise:
                    continue
                for op in (lambda: I.setattr(v, 'is_animated', TRUE),
                           lambda: I.setattr(a, n, v),
                           lambda: I.setattr(a, n, arg('x', 'str'))):
                    try:
                        if isinstance(v, Inst):
                            op()
                    except PyRaise:
                        pass
            inspect(I, 'changing ' + who)
        R.explore(who, run, 30)
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        who = 'a new %s' % c.name

        def run(I, c=c, who=who, kind=kind):
            a = I.call(c, [good(I, kind)], {})
            b = I.call(c, [good(I, kind)], {})
            inspect(I, who)
            shared_elements(I, a, who)
            ta, tb = trees(I, (a, b))
            R.decided('%s shares nothing with another' % who)
            if ta & tb:
                R.violation('C16:%s' % who.replace(' ', '_'),
                            '%s shares an element with another' % who,
                            W.qual(c))
        R.explore(who, run, 60)

    def blank(I):
        a = I.call(W.Animation, [], {})
        b = I.call(W.Animation, [], {})
        inspect(I, 'a new Animation')
        shared_elements(I, a, 'a new Animation')
        R.decided('a new Animation shares nothing with another')
        ta, tb = trees(I, (a, b))
        if ta & tb:
            R.violation('C16:Animation', 'new animations share an element',
                        W.qual(W.Animation))
    R.explore('a new Animation', blank, 30)

    def replacer(I):
        c = W.find('sangfroid.template.replacer', 'Replacer')
        if c is None:
            return
        a = I.call(c, [], {})
        method(I, a, 'add', K('Circle'), K('x = 1'))
        inspect(I, 'a new Replacer')
        R.decided('a new Replacer shares nothing with another')
    R.explore('a new Replacer', replacer, 30)


def searching(R, W, inspect):
    for mname in ('find', 'find_all', '__call__'):
        for how, mk in (
                ('name', lambda I: ([K('circle')], {})),
                ('class', lambda I: ([W.cls('Circle')], {})),
                ('anything', lambda I: ([arg('sought', 'str')], {})),
                ('True', lambda I: ([TRUE], {})),
                ('keyword', lambda I: ([], {'desc': arg('d', 'str')})),
                ('attrs', lambda I: ([], {'attrs': I.new_dict(
                    [[K('type'), K('Circle')]])})),
                ('not recursive', lambda I: ([K('circle')], {
                    'recursive': FALSE}))):
            who = '%s by %s' % (mname, how)

            def run(I, mname=mname, mk=mk, who=who):
                g = group_node(I, layer_node(I, 'circle'),
                               group_node(I, layer_node(I, 'circle')))
                document(I, g)
                o = wrap_layer(W, I, g)
                a, kw = mk(I)
                method(I, o, mname, *a, **kw)
                inspect(I, who)
            R.explore(who, run, 60)
