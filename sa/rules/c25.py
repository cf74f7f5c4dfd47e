"""C25: values compare by what they hold."""
from .args import *

RULE = ('Both sides of a comparison are elements of which the contents are '
        'unknown texts, the same ones on both sides for the components which '
        'agree, and different constants for those which do not. On every '
        'path through ==, the outcome is True if all components agree and '
        'False if one differs, != is the opposite, and the order of the '
        'components in the document plays no part; comparisons with objects '
        'of every other shape end without an exception, and with False if '
        'they hold nothing of the kind.')
SCOPE = ('Every implemented value class; values of the same class, attached '
         'and detached; each component differing in turn; the Python '
         'objects each class can be assigned from; None, containers of '
         'other shapes, values of other classes, unknown objects.')
ASSUMPTIONS = ['the contents of the document are numbers, where the class '
               'asks for numbers, and not NaN']
MINIMUM = 300
PARALLEL = True

SCALARS = {'real': ('1.25', '7.5'), 'angle': ('30', '30.5'),
           'integer': ('3', '4'), 'blend': ('3', '4'),
           'bool': ('true', 'false'), 'time': ('1s', '2s'),
           'string': ('some text', 'some texts')}
MORE = {'real': [('0.0', '0.01'), ('-1.0', '1.0'), ('5.0000000000',
                                                    '5.0100000000'),
                 ('1000000.0', '1000001.0')],
        'angle': [('0', '360'), ('-90', '90'), ('45', '45.01')],
        'integer': [('-1', '1'), ('0', '10'), ('10', '1')],
        'blend': [('-1', '1'), ('0', '21')],
        'time': [('0s', '1f'), ('1s', '1s 1f'), ('24f', '25f')],
        'string': [('a', 'A'), ('', ' '), ('x', ''), ('x', ' x'),
                   ('1', '1.0'), ('a', 'a\n')]}
COMPONENTS = {'vector': ('x', 'y'), 'color': tuple('rgba')}
PARTS = (('offset', 'vector'), ('angle', 'angle'), ('skew_angle', 'angle'),
         ('scale', 'vector'))
NUMBERS = [('0.250000', '0.750000'), ('1.000000', '0.000000'),
           ('-1.000000', '1.000000')]


def roles(kind):
    if kind in SCALARS:
        return [('',)]
    if kind in COMPONENTS:
        return [(d,) for d in COMPONENTS[kind]]
    if kind == 'gradient':
        return [(p, d) for p in ('0.0', '0.5', '1.0') for d in 'rgba']
    if kind == 'transformation':
        return [(k,) + r for k, t in PARTS for r in roles(t)]
    return []


def make(I, kind, texts, turned=False):
    """The element of a value; texts maps roles to their text."""
    if kind in ('real', 'angle', 'integer', 'bool', 'time'):
        return new_node(I, kind, {'value': texts['',]})
    if kind == 'blend':
        return new_node(I, 'integer', {'static': K('true'),
                                       'value': texts['',]})
    if kind == 'string':
        t = texts['',]
        return new_node(I, 'string', {}, [] if t == K('') else [t])
    if kind in COMPONENTS:
        ds = COMPONENTS[kind][::-1] if turned else COMPONENTS[kind]
        return new_node(I, kind, {}, [new_node(I, d, {}, [texts[d,]])
                                      for d in ds])
    if kind == 'gradient':
        stops = []
        for r in texts:
            if r[0] not in stops:
                stops.append(r[0])
        kids = []
        for p in stops[::-1] if turned else stops:
            c = make(I, 'color', {(d,): texts[p, d] for d in 'rgba'}, turned)
            c.attrs.entries.append([K('pos'), K(p)])
            kids.append(c)
        return new_node(I, 'gradient', {}, kids)
    if kind == 'transformation':
        kids = []
        for k, t in (PARTS[::-1] if turned else PARTS):
            kids.append(new_node(I, k, {}, [make(I, t, {
                r[1:]: x for r, x in texts.items() if r[0] == k}, turned)]))
        return new_node(I, 'composite', {'type': K('transformation')}, kids)
    raise KeyError(kind)


def unknown(kind):
    """Unknown texts, but constants where the type needs them."""
    if kind == 'bool':
        return {('',): K('true')}
    if kind == 'time':
        return {('',): K('3s')}
    return {r: S('text of ' + '.'.join(r)) for r in roles(kind)}


def given(kind):
    """Unknown texts, but constants in colours, which are shown in hex."""
    if kind in ('color', 'gradient'):
        return {r: K('%.6f' % (0.2 * (1 + 'rgba'.index(r[-1]))))
                for r in roles(kind)}
    return unknown(kind)


def value(W, I, kind, texts, turned=False, detached=False):
    n = make(I, kind, texts, turned)
    if detached:
        dom.adopt(I, n)
    else:
        hosted(I, kind, n)
    return value_object(W, I, kind, n)


def ask(I, op, a, b):
    return yes(I, I.compare(op, a, b))


def unreadable(I):
    """True if some text was found not to be a number on this path."""
    return any(d[0] == 'raised' and isinstance(d[2], tuple) and
               from_document(d[2]) for d in I.decisions)


def decide(R, I, who, a, b, want, key, both=True, strict=False):
    """a == b is want; != is the opposite; and the other way round."""
    for x, y, how in ((a, b, ''), (b, a, ', the other way round'))[
            :2 if both else 1]:
        for op, w in (('==', want), ('!=', not want)):
            try:
                got = ask(I, op, x, y)
            except PyRaise as e:
                if e.implicit and not strict:
                    # contents which aren't numbers
                    return
                R.decided(who)
                R.violation('C25:raises:' + key, '%s: %s%s raises %s' % (
                    who, op, how, e.name), e.loc)
                return
            if unreadable(I):
                return
            R.decided('%s: %s%s' % (who, op, how))
            if got != w:
                R.violation('C25:outcome:' + key, '%s: %s%s is %s' % (
                    who, op, how, got), where_eq(R.W, I, a))
                return


def where_eq(W, I, a):
    a = I.norm(a)
    if isinstance(a, Inst):
        for c in a.cands[0].mro:
            if isinstance(c, ClassObj) and '__eq__' in c.ns:
                return W.qual(c)
    return 'sangfroid/value/value.py'


def check(W, R):
    for kind in IMPLEMENTED:
        if kind == 'canvas':
            canvases(R, W)
            continue
        same(R, W, kind)
        different(R, W, kind)
        objects(R, W, kind)
    for kind in IMPLEMENTED:
        strangers(R, W, kind)


def same(R, W, kind):
    for turned, detached in ((False, False), (True, False), (False, True)):
        if detached and kind == 'time':
            continue
        for t, texts in [('unknown contents', unknown(kind))] + [
                (repr(c), {r: K(c) for r in roles(kind)})
                for c in (SCALARS[kind][:1] if kind in SCALARS else
                          [n[0] for n in NUMBERS])]:
            who = '%s and another one with the same contents (%s%s)' % (
                kind, t, ', in another order' if turned else
                ', detached' if detached else '')

            def run(I, texts=texts, turned=turned, detached=detached,
                    who=who):
                a = value(W, I, kind, texts)
                b = value(W, I, kind, texts, turned, detached)
                decide(R, I, who, a, b, True, '%s:same' % kind)
            R.explore(who, run, 60)

    def itself(I):
        a = value(W, I, kind, unknown(kind))
        decide(R, I, '%s and itself' % kind, a, a, True, '%s:itself' % kind)
    R.explore('%s and itself' % kind, itself, 60)


def different(R, W, kind):
    pairs = [SCALARS[kind]] + MORE.get(kind, []) if kind in SCALARS \
        else NUMBERS
    for role in roles(kind):
        for x, y in pairs:
            for turned in ((False,) if kind in SCALARS else (False, True)):
                who = '%s, with %s %r and %r%s' % (
                    kind, '.'.join(role) or 'value', x, y,
                    ', in another order' if turned else '')

                def run(I, role=role, x=x, y=y, turned=turned, who=who):
                    a = value(W, I, kind, {**given(kind), role: K(x)})
                    b = value(W, I, kind, {**given(kind), role: K(y)},
                              turned)
                    decide(R, I, who, a, b, False,
                           '%s:%s' % (kind, '.'.join(role)))
                R.explore(who, run, 60)
    if kind in ('vector', 'color'):
        ds = COMPONENTS[kind]
        who = '%s, with two components exchanged' % kind

        def run(I):
            t = {(d,): K(NUMBERS[0][0]) for d in ds}
            for i in range(len(ds)):
                for j in range(i):
                    a = value(W, I, kind, {**t, (ds[i],): K('0.5'),
                                           (ds[j],): K('1.0')})
                    b = value(W, I, kind, {**t, (ds[i],): K('1.0'),
                                           (ds[j],): K('0.5')})
                    decide(R, I, who, a, b, False, kind + ':exchanged')
        R.explore(who, run, 60)
    if kind == 'gradient':
        for n, texts in (
                ('another number of stops', lambda t: {
                    r: x for r, x in t.items() if r[0] != '0.5'}),
                ('one position moved', lambda t: {
                    ('0.25' if r[0] == '0.5' else r[0], r[1]): x
                    for r, x in t.items()}),
                ('one position moved a little', lambda t: {
                    ('0.5001' if r[0] == '0.5' else r[0], r[1]): x
                    for r, x in t.items()}),
                ('another colour in addition', lambda t: {
                    **t, **{('0.75', d): K('0.5') for d in 'rgba'}})):
            who = 'gradient and one with ' + n

            def run(I, texts=texts, who=who):
                a = value(W, I, kind, given(kind))
                b = value(W, I, kind, texts(given(kind)))
                decide(R, I, who, a, b, False, 'gradient:stops')
            R.explore(who, run, 60)


###### Python objects

def number(I, text, kind):
    f = 'int' if kind in ('integer', 'blend') else 'float'
    return I.call(Ext('builtins.' + f), [text], {})


def plain(I, kind, texts, how):
    """The Python object for these contents."""
    N = lambda r, k='real': number(I, texts[r], k)
    if kind in ('real', 'angle', 'integer', 'blend'):
        return N(('',), kind)
    if kind == 'bool':
        return K(texts['',] == K('true'))
    if kind == 'string':
        return texts['',]
    if kind == 'time':
        return texts['',]
    if kind == 'vector':
        x, y = N(('x',)), N(('y',))
        if how == 'tuple':
            return Tup([x, y])
        if how == 'list':
            return I.new_list([x, y])
        if how == 'dict':
            return I.new_dict([[K('x'), x], [K('y'), y]])
        return I.new_dict([[K('y'), y], [K('x'), x]])
    if kind == 'color':
        return Tup([N((d,)) for d in 'rgba'])
    if kind == 'gradient':
        e = []
        for p in ('0.0', '0.5', '1.0')[::-1 if how == 'turned' else 1]:
            e.append([K(float(p)), Tup([N((p, d)) for d in 'rgba'])])
        return I.new_dict(e)
    if kind == 'transformation':
        e = []
        for k, t in PARTS[::-1 if how == 'turned' else 1]:
            sub = {r[1:]: x for r, x in texts.items() if r[0] == k}
            e.append([K(k), plain(I, t, sub, 'tuple')])
        return I.new_dict(e)


HOWS = {'vector': ('tuple', 'list', 'dict', 'turned'),
        'gradient': ('dict', 'turned'), 'transformation': ('dict', 'turned')}


def objects(R, W, kind):
    for how in HOWS.get(kind, ('plain',)):
        for turned in ((False,) if kind in SCALARS else (False, True)):
            who = '%s and the %s object with its contents%s' % (
                kind, how, ', in another order' if turned else '')

            def run(I, how=how, turned=turned, who=who):
                t = unknown(kind)
                a = value(W, I, kind, t, turned)
                b = plain(I, kind, t, how)
                decide(R, I, who, a, b, True, '%s:object' % kind)
            R.explore(who, run, 60)
        for role in roles(kind):
            pairs = [SCALARS[kind]] + MORE.get(kind, []) \
                if kind in SCALARS else NUMBERS
            for x, y in pairs:
                who = '%s with %s %r and a %s object with %r' % (
                    kind, '.'.join(role) or 'value', x, how, y)

                def run(I, role=role, x=x, y=y, how=how, who=who):
                    t = given(kind)
                    a = value(W, I, kind, {**t, role: K(x)})
                    b = plain(I, kind, {**t, role: K(y)}, how)
                    decide(R, I, who, a, b, False, '%s:object:%s' % (
                        kind, '.'.join(role)))
                R.explore(who, run, 60)
    if kind in ('gradient', 'transformation'):
        more_or_less(R, W, kind)
    for text, obj, want in EXAMPLES.get(kind, ()):
        who = '%s holding %s and %r' % (kind, ' '.join(text), obj)

        def run(I, text=text, obj=obj, want=want, who=who):
            a = value(W, I, kind, dict(zip(roles(kind), map(K, text))))
            decide(R, I, who, a, constant(I, obj), want, '%s:%r' % (
                kind, obj))
        R.explore(who, run, 60)


def more_or_less(R, W, kind):
    """Dicts which have more or less in them than the value."""
    n = 4 if kind == 'transformation' else 3
    for i in range(n + 1):
        who = '%s and a dict with %s' % (
            kind, 'one entry more' if i == n else 'entry %d left out' % i)

        def run(I, i=i, who=who):
            t = given(kind)
            a = value(W, I, kind, t)
            b = plain(I, kind, t, 'dict')
            if i == n:
                k, x = b.entries[0]
                b.entries.append([K(0.625) if kind == 'gradient' else
                                  K('wombat'), x])
            else:
                del b.entries[i]
            decide(R, I, who, a, b, False, kind + ':more or less')
        R.explore(who, run, 60)
    if kind == 'gradient':
        def moved(I):
            t = given(kind)
            a = value(W, I, kind, t)
            b = plain(I, kind, t, 'dict')
            b.entries[1][0] = K(0.5001)
            decide(R, I, 'gradient and a dict with a position moved', a, b,
                   False, 'gradient:more or less')
        R.explore('gradient and a dict with a position moved', moved, 60)


RED = ('1.000000', '0.000000', '0.501961', '1.000000')
EXAMPLES = {
    'real': [(('1.5',), 1.5, True), (('2.0',), 2, True),
             (('1.5',), '1.5', True), (('1.5',), '1.6', False),
             (('1.5',), 'wombat', False), (('1.5',), '', False)],
    'angle': [(('1.5',), 1.5, True), (('2.0',), 2, True),
              (('1.5',), '1.5', True), (('1.5',), '2.5', False),
              (('1.5',), 'wombat', False)],
    'integer': [(('1',), 1, True), (('1',), 1.5, False), (('1',), 1.0, True),
                (('-1',), -1.25, False), (('1',), '1', True),
                (('1',), '2', False), (('1',), 'wombat', False),
                (('0',), 0.5, False)],
    'blend': [(('1',), 1, True), (('1',), 1.5, False), (('1',), 0, False)],
    'bool': [(('true',), True, True), (('true',), False, False),
             (('false',), False, True), (('false',), True, False),
             (('True',), True, True), (('true',), 2, False),
             (('true',), 'true', True), (('true',), 'false', False),
             (('false',), 'false', True), (('false',), 'true', False)],
    'time': [(('1s',), '24f', True), (('1s',), 24, True),
             (('1s',), 25, False), (('1s',), '1s 1f', False),
             (('36f',), '1s 12f', True), (('1s',), 'wombat', False)],
    'string': [(('a',), 'a', True), (('a',), 'b', False),
               (('1',), 1, False), (('',), '', True)],
    'color': [(RED, '#ff0080', True), (RED, '#FF0080', True),
              (RED, 'ff0080', True), (RED, '#ff0080ff', True),
              (RED, 'FF0080FF', True), (RED, '#ff0081', False),
              (RED, '#ff00807f', False), (RED, '#00ff80', False),
              (RED, 'wombat', False), (RED, '', False), (RED, '#', False),
              (RED, '#ff008', False), (RED, (1.0, 0.0, 0.501961), True),
              (RED, (1.0, 0.0, 0.501961, 1.0), True),
              (RED, (1, 0, 0.501961), True),
              (RED, (1.0, 0.0, 0.501961, 0.5), False),
              (RED, (1.0, 0.0), False), (RED, (), False),
              (RED[:3] + ('0.000000',), '#ff0080', False),
              (RED[:3] + ('0.000000',), '#ff008000', True),
              (RED[:3] + ('0.498039',), '#ff00807f', True),
              (RED[:3] + ('0.498039',), (1.0, 0.0, 0.501961), False)],
    'vector': [(('1.0', '2.0'), (1, 2), True), (('1.0', '2.0'), (2, 1), False),
               (('1.0', '2.0'), [1.0, 2.0], True),
               (('1.0', '2.0'), (1.0,), False),
               (('1.0', '2.0'), (1.0, 2.0, 3.0), False),
               (('1.0', '2.0'), {'x': 1.0, 'y': 2.0}, True),
               (('1.0', '2.0'), {'x': 2.0, 'y': 1.0}, False),
               (('1.0', '2.0'), {'x': 1.0, 'z': 2.0}, False),
               (('1.0', '2.0'), {'x': 1.0}, False),
               (('1.0', '2.0'), {1.0: 'x', 2.0: 'y'}, False),
               (('1.0', '2.0'), 'xy', False)],
}


def constant(I, obj):
    if isinstance(obj, tuple):
        return Tup([constant(I, x) for x in obj])
    if isinstance(obj, list):
        return I.new_list([constant(I, x) for x in obj])
    if isinstance(obj, dict):
        return I.new_dict([[constant(I, k), constant(I, v)]
                           for k, v in obj.items()])
    return K(obj)


###### canvases

def canvases(R, W):
    def layers(I, *names):
        return [layer_node(I, 'circle', [param_node(
            I, 'radius', value_node(I, 'real', 'radius of ' + n))],
            [('desc', K(n))], label=n, open_=False) for n in names]

    def canvas(I, *names):
        n = value_node(I, 'canvas', 'c', layers=layers(I, *names))
        hosted(I, 'canvas', n)
        return value_object(W, I, 'canvas', n)
    for x, y in ((), ()), (('a',), ('a',)), (('a', 'b'), ('a', 'b')), \
            (('a', 'b'), ('b', 'a')), (('a',), ('b',)), (('a',), ()), \
            (('a', 'b'), ('a',)), ((), ('a',)):
        who = 'canvases with %s and with %s' % (x or 'nothing',
                                                y or 'nothing')

        def run(I, x=x, y=y, who=who):
            a, b = canvas(I, *x), canvas(I, *y)
            decide(R, I, who, a, b, x == y, 'canvas')
        R.explore(who, run, 60)

        def listed(I, x=x, y=y, who=who):
            a, b = canvas(I, *x), canvas(I, *y)
            decide(R, I, who + ' (as a list)', a, I.getattr(b, 'value'),
                   x == y, 'canvas list', both=False)
        R.explore(who + ' (as a list)', listed, 60)

    def itself(I):
        a = canvas(I, 'a', 'b')
        decide(R, I, 'a canvas and itself', a, a, True, 'canvas:itself')
    R.explore('a canvas and itself', itself, 60)


###### anything else

def strangers(R, W, kind):
    """Comparing never raises."""
    def mine(I):
        if kind == 'canvas':
            return value_arg(W, I, 'canvas', label='mine')
        t = {r: K(SCALARS[kind][0] if kind in SCALARS else '0.250000')
             for r in roles(kind)}
        return value(W, I, kind, t)
    for name, f in bad(W, kind) + MORE_STRANGERS:
        if name in ('anything', 'an object') or 'animated' in name or 'malformed' in name or \
                name == 'a time value' and kind == 'time':
            continue
        who = '%s and %s' % (kind, name)

        def run(I, f=f, who=who, name=name):
            try:
                a, b = mine(I), f(I)
            except PyRaise as e:
                return
            before = len(I.decisions)
            try:
                got = ask(I, '==', a, b)
                ne = ask(I, '!=', a, b)
            except PyRaise as e:
                if e.implicit and (from_document_cause(e) or
                                   kind == 'canvas'):
                    return
                R.decided(who)
                R.violation('C25:raises:%s:%s' % (kind, name),
                            'comparing %s raises %s' % (who, e.name), e.loc)
                return
            if unreadable(I):
                return
            R.decided(who)
            if got == ne and len(I.decisions) == before:
                R.violation('C25:both:%s' % kind, '%s: both == and != are '
                            '%s' % (who, got), where_eq(W, I, a))
            if got and name in NOTHING and not (
                    kind == 'canvas' and name == 'an empty list'):
                if kind == 'canvas' and name in ('an empty tuple',
                                                 'an empty dict'):
                    return
                R.violation('C25:outcome:%s:%s' % (kind, name), '%s compare '
                            'equal' % who, where_eq(W, I, a))
        R.explore(who, run, 100)


def from_document_cause(e):
    c = e.cause
    return isinstance(c, tuple) and from_document(c)


NOTHING = {'None', 'an empty tuple', 'an empty list',
           'an empty dict', 'a dict of other keys', 'a class'}
MORE_STRANGERS = [
    ('a dict of other keys', lambda I: I.new_dict([
        [K('a'), K(1.0)], [K('b'), K(2.0)], [K('c'), K(3.0)],
        [K('d'), K(4.0)]])),
    ('a dict of two other keys', lambda I: I.new_dict([
        [K('a'), K(1.0)], [K('b'), K(2.0)]])),
    ('bytes', lambda I: K(b'xy')),
    ('a class', lambda I: Ext('builtins.int')),
    ('a long text', lambda I: K('wombat' * 3)),
    ('a complex number', lambda I: K(1j)),
    ('nan', lambda I: K(float('nan'))),
    ('infinity', lambda I: K(float('inf'))),
    ('a range', lambda I: K(range(2))),
]
