"""C30: what isn't a value of the type is refused."""
from .args import *

RULE = ('Must-raise analysis: every path on which something that is in no '
        'accepted notation is assigned ends in ValueError, TypeError or '
        'KeyError, and every path on which a malformed value is read ends '
        'in an exception.')
SCOPE = ('Every implemented value class; wrong arguments of each kind '
         '(wrong type, text in no accepted notation, too few or too many '
         'parts, one part wrong), given by the constructor, value, '
         'attribute, subscript and timeline; waypoints and timelines; '
         'values malformed in the document, read by value, part, number, '
         'text and timeline.')
ASSUMPTIONS = []
MINIMUM = 500
PARALLEL = True

ERRORS = ('ValueError', 'TypeError', 'KeyError')
BASES = {'UnicodeError', 'UnicodeDecodeError', 'UnicodeEncodeError'}

WORDS = ('banana', 'nought', '1,5', '--1', '1.5.0', '12px', '#')


def loc(W, c, name='value'):
    for k in c.mro:
        if isinstance(k, ClassObj) and name in k.ns:
            return '%s (%s.%s)' % (W.I.relpath(k.mod.path), k.name, name)
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def wrong(W, kind):
    """Pairs of a name, and what makes an argument which mustn't do."""
    r = []

    def add(name, f):
        r.append((name, f))

    def k(*cs):
        for c in cs:
            add(repr(c), lambda I, c=c: K(c))

    def tup(*cs):
        add(repr(cs), lambda I: Tup([K(c) for c in cs]))

    def dct(name, *es):
        add(name, lambda I: I.new_dict(
            [[K(a), b(I) if callable(b) else K(b)] for a, b in es]))

    def lst(*cs):
        add(repr(list(cs)), lambda I: I.new_list([K(c) for c in cs]))

    def values(*kinds):
        for q in kinds:
            add('a %s value' % q, lambda I, q=q: value_arg(W, I, q))
    obj = lambda I: I.new_list([K(1.0)])
    if kind != 'string' and kind != 'bool':
        add('a list of one', obj)
    if kind in ('real', 'angle', 'integer', 'blend'):
        k(*WORDS)
        k('', ' ', 'true', '0x10', '#ff0000')
        if kind in ('integer', 'blend'):
            k('2.5', '1e3', 'nan')
        lst()
        tup(1.0, 2.0)
        dct('a dict', ('x', 1.0))
        values('vector', 'color', 'string', 'gradient', 'transformation')
    elif kind == 'bool':
        k(*WORDS)
        k('', 'yes', 'no', '1', '0', 'tru', 'falsehood', 'on', 'None')
        values('vector', 'color', 'string', 'gradient', 'transformation')
    elif kind == 'time':
        k(*WORDS)
        k('3x', '3', '1s 2', 's', 'f', '1s1', 'one s')
        tup(1.0, 2.0)
        dct('a dict', ('x', 1.0))
    elif kind == 'string':
        add('an animated string value', lambda I: value_arg(
            W, I, 'string', animated=True))
    elif kind == 'vector':
        k(*WORDS)
        k('', '1,2', '(1,2)', 'xy', 1, 1.5, True)
        tup(1.0)
        tup(1.0, 2.0, 3.0)
        tup(1, 2, 3, 4)
        tup('1', '2')
        tup(1.0, 'banana')
        tup('banana', 1.0)
        tup(None, 1.0)
        add('a tuple with a list of one', lambda I: Tup([K(1.0), obj(I)]))
        lst(1.0, 2.0, 3.0)
        for a, b in (('banana', 1.0), (1.0, 'banana'), ('', 2.0),
                     (None, 1.0), (1.0, None)):
            dct('a dict of %r and %r' % (a, b), ('x', a), ('y', b))
        dct('a dict with a list of one', ('x', 1.0), ('y', obj))
        values('real', 'color', 'string', 'angle')
    elif kind == 'color':
        k(*WORDS)
        k('', '#12345', '12345', '#1234567', '1234567', '#123456789',
          'gggggg', '#12345g', '#1234567g', '##123456', '#', '0x1234',
          '+1+1+1', '#12 456', ' 123456', '123456 ', '#123456\n',
          '123456789abcdef', 1, 1.5, None, True, '-1-1-1', '0x0x0x')
        tup(1.0)
        tup(1.0, 1.0)
        tup(1.0, 1.0, 1.0, 1.0, 1.0)
        tup('banana', 1.0, 1.0)
        tup(1.0, 1.0, 1.0, 'banana')
        tup(1.0, None, 1.0)
        add('a tuple with a list of one', lambda I: Tup(
            [K(1.0), obj(I), K(1.0), K(1.0)]))
        dct('a dict', ('r', 1.0), ('g', 1.0), ('b', 1.0))
        values('vector', 'real', 'gradient', 'transformation')
    elif kind == 'gradient':
        k(*WORDS)
        k('', '#ff0000', 1, 1.5, None, True)
        lst()
        lst('#ff0000', '#00ff00')
        tup('#ff0000', '#00ff00')
        dct('an empty dict')
        dct('a dict of one', (0.0, '#ff0000'))
        for c in ('banana', '#12345', 1.0, None):
            dct('a dict of which %r is first' % (c,), (0.0, c),
                (1.0, '#ff0000'))
            dct('a dict of which %r is last' % (c,), (0.0, '#ff0000'),
                (0.5, '#00ff00'), (1.0, c))
        dct('a dict with a colour which lacks something',
            (0.0, '#ff0000'), (1.0, lambda I: Tup([K(1.0), K(1.0)])))
        dct('a dict by name', ('a', '#ff0000'), ('b', '#00ff00'))
        values('color', 'vector', 'real')
    elif kind == 'transformation':
        k(*WORDS)
        k('', 1, 1.5, None, True)
        lst()
        tup(1.0, 2.0)
        full = [('offset', lambda I: Tup([K(1.0), K(2.0)])),
                ('angle', 3.0), ('skew_angle', 4.0),
                ('scale', lambda I: Tup([K(5.0), K(6.0)]))]
        dct('an empty dict')
        for i, (n, v) in enumerate(full):
            dct('a dict without ' + n, *(full[:i] + full[i + 1:]))
            dct('a dict with %s misspelt' % n, *(
                full[:i] + [(n.upper(), v)] + full[i + 1:]))
            for w in ('banana', obj):
                dct('a dict with %s for %s' % (
                    'a list of one' if callable(w) else repr(w), n), *(
                        full[:i] + [(n, w)] + full[i + 1:]))
            if callable(v):
                dct('a dict with a number for ' + n, *(
                    full[:i] + [(n, 1.0)] + full[i + 1:]))
                dct('a dict with three numbers for ' + n, *(
                    full[:i] + [(n, lambda I: Tup([K(1.0)] * 3))] +
                    full[i + 1:]))
            else:
                dct('a dict with two numbers for ' + n, *(
                    full[:i] + [(n, lambda I: Tup([K(1.0)] * 2))] +
                    full[i + 1:]))
        dct('a dict with more', *(full + [('wombat', 1.0)]))
        dct('a dict with an empty name', *(full + [('', 1.0)]))
        values('vector', 'angle', 'color')
    elif kind == 'canvas':
        k('banana', 1, 1.5, None, True)
        lst(1)
        lst('banana')
        lst(None)

        def mixed(first):
            def f(I):
                n = layer_node(I, 'circle', label='new layer')
                dom.adopt(I, n)
                l = [wrap_layer(W, I, n), K(1.0)]
                return I.new_list(l if first else l[::-1])
            return f
        add('a layer and a number', mixed(True))
        add('a number and a layer', mixed(False))

        def element(I):
            n = layer_node(I, 'circle', label='new layer')
            dom.adopt(I, n)
            return I.new_list([n])
        add('an element', element)
        add('a list of values', lambda I: I.new_list(
            [value_arg(W, I, 'real')]))
    return r


def ways(kind):
    r = ['value', 'constructor', 'attribute', 'subscript']
    if kind == 'string':
        r.remove('subscript')       # that copies its animation
    if kind != 'canvas':
        r += ['value (animated)', 'timeline', 'timeline of a plain value']
    return r


def check(W, R):
    for kind in IMPLEMENTED:
        c = W.value_class(kind)
        for aname, mk in wrong(W, kind):
            for via in ways(kind):
                one(R, W, kind, c, aname, mk, via)
        reading(R, W, kind, c)
    waypoints(R, W)
    flags(R, W)


def flags(R, W):
    """Anything but 'true' is read as false."""
    c = W.value_class('bool')
    for text, want in (('true', True), ('false', False), ('True', True),
                       ('FALSE', False), ('', False), ('1', False),
                       ('0', False), ('banana', False), ('truely', False),
                       ('untrue', False)):
        for how in ('value', '__bool__', 'attribute'):
            who = 'a flag of %r, read (%s)' % (text, how)

            def run(I, text=text, want=want, how=how, who=who):
                n = new_node(I, 'bool', {'value': K(text)})
                lay = hosted(I, 'bool', n)
                R.decided(who)
                try:
                    v = value_object(W, I, 'bool', n)
                    if how == 'attribute':
                        v = I.getattr(wrap_layer(W, I, lay),
                                      HOSTS['bool'][1])
                    if how == '__bool__':
                        got = method(I, v, '__bool__')
                    else:
                        got = I.getattr(v, 'value')
                except PyRaise as e:
                    R.violation('C30:flag', '%s raises %s' % (who, e.name),
                                e.loc)
                    return
                got = I.norm(got)
                if isinstance(got, K) and got.v is not want:
                    R.violation('C30:flag', '%s is %r' % (who, got.v),
                                loc(W, c))
            R.explore(who, run, 20)


def must(R, W, who, key, f, at, errors=ERRORS, named=None):
    """f must raise."""
    def run(I):
        g = f(I)
        R.decided(who)
        try:
            got = g()
        except PyRaise as e:
            if excused(e) or errors is None:
                return
            if e.name not in errors and e.name not in BASES:
                R.violation(key, '%s raises %s' % (who, e.name), e.loc)
            return
        s = ''
        if isinstance(got, AV):
            s = '; it gives %s' % (shown(I, got) if not isinstance(
                got, (Inst, ListObj, DictObj)) else 'a ' + type(
                    got).__name__)
        R.violation(key, '%s isn\'t refused%s' % (who, s),
                    last_mutation(I) or at)
    R.explore(who, run, 60)


def one(R, W, kind, c, aname, mk, via):
    type_, pname = HOSTS[kind]
    who = '%s from %s by %s' % (c.name, aname, via)

    def f(I):
        n = animated_node(I, kind, label='old') \
            if via in ('value (animated)', 'timeline') \
            else value_node(I, kind, 'old')
        lay = hosted(I, kind, n)
        a = mk(I)
        if via == 'constructor':
            if isinstance(a, Tup) and kind in ('vector', 'color'):
                return lambda: I.call(c, list(a.items), {}) and None
            return lambda: I.call(c, [a], {}) and None
        l = wrap_layer(W, I, lay)
        if via == 'attribute':
            return lambda: I.setattr(l, pname, a)
        if via == 'subscript':
            return lambda: I.setitem(l, K(pname), a)
        v = value_object(W, I, kind, n)
        if via.startswith('timeline'):
            t = I.getattr(v, 'timeline')
            return lambda: I.setitem(t, K('36f'), a)
        return lambda: I.setattr(v, 'value', a)
    must(R, W, who, 'C30:%s:%s' % (c.name, aname), f, loc(W, c))


###### reading

def malformed(kind):
    """Pairs of a name, and what makes an element nobody can read."""
    r = []

    def add(name, f):
        r.append((name, f))
    text = lambda s: [new_text(s)] if s is not None else []

    def E(I, name, attrs=None, kids=()):
        return new_node(I, name, {k: K(v) for k, v in (
            attrs or {}).items()}, [K(x) if isinstance(x, str) else x
                                    for x in kids])
    if kind in ('real', 'angle', 'integer', 'blend', 'time', 'bool'):
        name = {'blend': 'integer'}.get(kind, kind)
        add('without a value', lambda I: E(I, name))
        add('with just a guid', lambda I: E(I, name, {'guid': 'ABC'}))
        add('with its value inside', lambda I: E(I, name, {}, ['1.0']))
        add('with another attribute', lambda I: E(I, name, {'val': '1'}))
        if kind != 'bool':
            for w in WORDS + (('', ' ') if kind != 'time' else ()):
                add('with %r' % w, lambda I, w=w: E(I, name, {'value': w}))
    elif kind == 'vector':
        def vec(*ps):
            return lambda I: E(I, 'vector', {}, [
                E(I, n, {}, [x] if x is not None else []) for n, x in ps])
        add('without y', vec(('x', '1.0')))
        add('without x', vec(('y', '1.0')))
        add('with z', vec(('x', '1.0'), ('y', '1.0'), ('z', '1.0')))
        add('with nothing', vec())
        for w in WORDS:
            add('with %r for x' % w, vec(('x', w), ('y', '1.0')))
            add('with %r for y' % w, vec(('x', '1.0'), ('y', w)))
    elif kind == 'color':
        def col(lack=None, bad=None, w=None):
            return lambda I: E(I, 'color', {}, [
                E(I, d, {}, [w if d == bad else '0.5'])
                for d in 'rgba' if d != lack])
        for d in 'rgba':
            add('without ' + d, col(lack=d))
            for w in WORDS:
                add('with %r for %s' % (w, d), col(bad=d, w=w))
        add('with nothing', lambda I: E(I, 'color'))
    elif kind == 'gradient':
        def grad(*ps):
            return lambda I: E(I, 'gradient', {}, [
                E(I, 'color', {'pos': p} if p is not None else {}, [
                    E(I, d, {}, ['0.5']) for d in 'rgba']) for p in ps])
        add('with no stops', grad())
        add('with one stop', grad('0.5'))
        add('with a stop which is nowhere', grad('0.0', None))
        for w in WORDS:
            add('with a stop at %r' % w, grad('0.0', w))
    elif kind == 'transformation':
        def comp(lack=None, twice=None, hollow=None, more=None,
                 type_='transformation'):
            def part(I, n):
                if n in ('offset', 'scale'):
                    v = lambda: E(I, 'vector', {}, [
                        E(I, 'x', {}, ['1.0']), E(I, 'y', {}, ['2.0'])])
                else:
                    v = lambda: E(I, 'angle', {'value': '1.0'})
                return E(I, n, {}, [] if n == hollow else [v(), v()]
                         if n == twice else [v()])

            def f(I):
                ns = [n for n in ('offset', 'angle', 'skew_angle', 'scale')
                      if n != lack]
                if more:
                    ns.append(more)
                return E(I, 'composite', {'type': type_} if type_ else {}, [
                    part(I, n) for n in ns])
            return f
        for n in ('offset', 'angle', 'skew_angle', 'scale'):
            add('without ' + n, comp(lack=n))
            add('with %s twice over' % n, comp(twice=n))
            add('with nothing in ' + n, comp(hollow=n))
        add('with more', comp(more='wombat'))
        add('with another type', comp(type_='banana'))
        add('without a type', comp(type_=None))
    elif kind == 'canvas':
        add('with a value', lambda I: E(I, 'canvas', {}, [
            E(I, 'real', {'value': '1.0'})]))
        add('with a layer and a value', lambda I: E(I, 'canvas', {}, [
            layer_node(I, 'circle', label='inside'),
            E(I, 'real', {'value': '1.0'})]))
    return r


def reading(R, W, kind, c):
    type_, pname = HOSTS[kind]
    for name, mk in malformed(kind):
        hows = ['value', 'by attribute', 'by subscript']
        if kind in ('real', 'angle') and member(c, '__float__') is not None:
            hows.append('__float__')
        if kind in ('integer', 'blend') and \
                member(c, '__int__') is not None:
            hows.append('__int__')
        if kind == 'vector':
            hows.append('as_tuple')
        if kind == 'color':
            hows.append('as_tuple')
        if kind in ('gradient', 'vector', 'transformation'):
            hows.append('items')
        if kind != 'canvas':
            hows.append('text')
        for how in hows:
            who = '%s %s, read (%s)' % (c.name, name, how)

            def f(I, mk=mk, how=how):
                n = mk(I)
                lay = hosted(I, kind, n)

                def g():
                    if how.startswith('by'):
                        l = wrap_layer(W, I, lay)
                        v = I.getattr(l, pname) if how == 'by attribute' \
                            else I.getitem(l, K(pname))
                    else:
                        v = value_object(W, I, kind, n)
                    if not isinstance(v, Inst):
                        return v
                    if how == 'text':
                        return I.call(I.builtin('str'), [v], {}) if hasattr(
                            I, 'builtin') else ext_str(I, v)
                    if how in ('value',) or how.startswith('by'):
                        if kind == 'vector':
                            # its value is made of the texts
                            return method(I, v, 'as_tuple')
                        x = I.getattr(v, 'value')
                        if kind == 'gradient':
                            for q in I.iterate(method(I, x, 'values')):
                                I.getattr(q, 'value')
                        return x
                    x = method(I, v, how)
                    if how == 'items':
                        for p in I.iterate(x):
                            pass
                    return x
                return g
            must(R, W, who, 'C30:%s:read %s' % (c.name, name), f,
                 loc(W, c), errors=None)


def ext_str(I, v):
    from .. import ext
    return ext.str_(I, v)


###### waypoints and timelines

def waypoints(R, W):
    c = W.Waypoint
    at = loc(W, c, '__init__')
    A = lambda I: value_arg(W, I, 'real')
    things = [('a number', lambda I: K(1.0)), ('text', lambda I: K('x')),
              ('None', lambda I: NONE),
              ('an animated value', lambda I: value_arg(
                  W, I, 'real', animated=True)),
              ('an element', lambda I: plain_node(I, 'real', 'v')),
              ('a tuple', lambda I: Tup([K(1.0), K(2.0)])),
              ('a list of one', lambda I: I.new_list([K('x')]))]
    for name, mk in things:
        who = 'Waypoint with %s for its value' % name

        def f(I, mk=mk):
            a = mk(I)
            return lambda: I.call(c, [K(1), a], {}) and None
        must(R, W, who, 'C30:Waypoint:value', f, at)
    for name, mk in (
            ('None', lambda I: NONE), ('banana', lambda I: K('banana')),
            ('a list', lambda I: I.new_list([K(1)])),
            ('a tuple', lambda I: Tup([K(1)])),
            ('a value', A),
            ('a list of one', lambda I: I.new_list([K('x')]))):
        who = 'Waypoint at %s' % name

        def f(I, mk=mk):
            a = mk(I)
            v = A(I)
            return lambda: I.call(c, [a, v], {}) and None
        must(R, W, who, 'C30:Waypoint:time', f, at)
    # timelines
    junk = [('a number', lambda I: K(1.0)), ('text', lambda I: K('x')),
            ('None', lambda I: NONE), ('a value', A),
            ('a list with a number', lambda I: I.new_list([K(1.0)])),
            ('a waypoint and a number', lambda I: I.new_list(
                [waypoint(W, I, '48f', 'real'), K(1.0)])),
            ('a number and a waypoint', lambda I: I.new_list(
                [K(1.0), waypoint(W, I, '48f', 'real')])),
            ('a dict of numbers', lambda I: I.new_dict([[K(1), K(1.0)]])),
            ('a list of values', lambda I: I.new_list([A(I)])),
            ('a list of one', lambda I: I.new_list([K('x')]))]
    tl = W.cls('Timeline', 'sangfroid.value.value')
    for shape in ('plain', 'animated'):
        for name, mk in junk:
            for how in ('timeline =', 'add', '+='):
                if how != 'timeline =' and member(tl, {
                        'add': 'add', '+=': '__iadd__'}[how]) is None:
                    continue
                who = '%s with %s, of a value which is %s' % (
                    how, name, shape)

                def f(I, mk=mk, how=how, shape=shape):
                    n = animated_node(I, 'real', label='old') if \
                        shape == 'animated' else value_node(
                            I, 'real', 'old')
                    hosted(I, 'real', n)
                    v = value_object(W, I, 'real', n)
                    a = mk(I)
                    if how == 'timeline =':
                        return lambda: I.setattr(v, 'timeline', a)
                    t = I.getattr(v, 'timeline')
                    if how == 'add':
                        return lambda: method(I, t, 'add', a) and None
                    return lambda: method(I, t, '__iadd__', a) and None
                must(R, W, who, 'C30:Timeline:%s' % how, f,
                     loc(W, tl, 'add'))
    # found in the document
    def E(I, name, attrs=None, kids=()):
        return new_node(I, name, {k: K(v) for k, v in (
            attrs or {}).items()}, [K(x) if isinstance(x, str) else x
                                    for x in kids])
    real = lambda I: E(I, 'real', {'value': '1.0'})
    good_ = {'time': '1s', 'before': 'clamped', 'after': 'clamped'}

    def but(**kw):
        d = dict(good_)
        for k, v in kw.items():
            if v is None:
                del d[k]
            else:
                d[k] = v
        return d
    odd = [
        ('called something else', lambda I: E(I, 'wombat', good_, [
            real(I)])),
        ('without a time', lambda I: E(I, 'waypoint', but(time=None), [
            real(I)])),
        ('at a time which isn\'t one', lambda I: E(
            I, 'waypoint', but(time='banana'), [real(I)])),
        ('without a value', lambda I: E(I, 'waypoint', good_)),
        ('with text instead of a value', lambda I: E(
            I, 'waypoint', good_, ['1.0'])),
        ('with two values', lambda I: E(I, 'waypoint', good_, [
            real(I), real(I)])),
        ('with an animated value', lambda I: E(I, 'waypoint', good_, [
            E(I, 'animated', {'type': 'real'}, [
                E(I, 'waypoint', good_, [real(I)])])])),
        ('with a value of another type', lambda I: E(
            I, 'waypoint', good_, [E(I, 'angle', {'value': '1.0'})])),
        ('with a value of an unknown type', lambda I: E(
            I, 'waypoint', good_, [E(I, 'wombat', {'value': '1.0'})])),
        ('with an interpolation which isn\'t one', lambda I: E(
            I, 'waypoint', but(before='banana'), [real(I)])),
        ('with an undefined interpolation', lambda I: E(
            I, 'waypoint', but(after='undefined'), [real(I)])),
    ]
    for name, mk in odd:
        for beside in (False, True):
            for how in ('list', 'keys', 'values', 'items', 'len', 'text'):
                who = 'a waypoint %s%s, read (%s)' % (
                    name, ', after another' if beside else '', how)

                def f(I, mk=mk, beside=beside, how=how):
                    kids = [mk(I)]
                    if beside:
                        kids.insert(0, E(I, 'waypoint', but(time='0s'), [
                            real(I)]))
                    n = E(I, 'animated', {'type': 'real'}, kids)
                    hosted(I, 'real', n)

                    def g():
                        v = value_object(W, I, 'real', n)
                        t = I.getattr(v, 'timeline')
                        if how == 'list':
                            list(I.iterate(t))
                        elif how == 'len':
                            return method(I, t, '__len__')
                        elif how == 'text':
                            return ext_str(I, t)
                        else:
                            list(I.iterate(method(I, t, how)))
                    return g
                must(R, W, who, 'C30:waypoint:%s' % name, f,
                     loc(W, c, 'from_tag'), errors=None)
