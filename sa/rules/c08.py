"""C08: waypoints only ever hold real interpolation types."""
from .args import *

RULE = ('Value-set analysis: on every path on which a waypoint accepts an '
        'interpolation, what it holds afterwards is the one of the five '
        'types that the input stands for, and every other input leads to '
        'ValueError; the before and after of each waypoint flow only to and '
        'from the attributes of those names.')
SCOPE = ('Construction, both setters, reading from and writing to elements, '
         'copying, and all timeline operations; interpolations which are '
         'unknown text, each valid name, each synonym, and constants which '
         'are none of these.')
MINIMUM = 80
PARALLEL = True

VALID = ('tcb', 'clamped', 'constant', 'linear', 'ease')
SYNONYMS = {'auto': 'tcb', 'halt': 'ease'}
ENDS = ('before', 'after')
WRONG = ('undefined', '', 'TCB', ' linear', 'linear ', 'Linear', 'wombat',
         'None', 'AUTO', 'manual')


def stands_for(x):
    return x if x in VALID else SYNONYMS.get(x)


def where(W):
    c = W.Waypoint
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def judge(R, W, I, who, key, given, held, what):
    """given: what was passed. held: what the waypoint then has."""
    given, held = I.norm(given), text_of(I, held)
    if isinstance(held, K):
        if held.v not in VALID:
            R.violation(key, '%s: %s is then %r' % (who, what, held.v),
                        where(W))
            return
        if isinstance(given, K):
            want = stands_for(given.v)
            if want is None:
                R.violation(key, '%s: %r is accepted as %s' % (
                    who, given.v, what), where(W))
            elif want != held.v:
                R.violation(key, '%s: %s is %r, though %r was given' % (
                    who, what, held.v, given.v), where(W))
        else:
            # any text at all becomes this
            R.violation(key, '%s: unknown text becomes %r' % (who, held.v),
                        where(W))
        return
    if isinstance(held, Opq):
        t = held.term
        if any(f[0] == 'in' and term_has(f, lambda x: x == t)
               for f in I.facts):
            R.undecided(who)
            return
        R.violation(key, '%s: %s is %s, which could be anything' % (
            who, what, show(t)), where(W))


def refused(R, W, I, who, key, given, e):
    given = I.norm(given)
    if isinstance(given, K) and stands_for(given.v):
        R.violation(key, '%s: %r is refused (%s)' % (who, given.v, e.name),
                    e.loc)
    elif not e.implicit and not any(
            getattr(k, 'name', '').split('.')[-1] == 'ValueError'
            for k in e.cls.mro):
        R.violation(key, '%s: refused with %s rather than ValueError' % (
            who, e.name), e.loc)


def inputs():
    r = [('unknown text', lambda: arg('interpolation', 'str'))]
    for x in VALID + tuple(SYNONYMS) + WRONG:
        r.append((repr(x), lambda x=x: K(x)))
    r.append(('None', lambda: NONE))
    r.append(('a number', lambda: K(3)))
    r.append(('an emoji', lambda: K('🟢')))
    return r


def value(W, I, kind='real', label='v'):
    n = value_node(I, kind, label)
    dom.adopt(I, n)
    return value_object(W, I, kind, n)


def check(W, R):
    for end in ENDS:
        other = ENDS[1 - ENDS.index(end)]
        for name, mk in inputs():
            # the constructor
            who = 'Waypoint(%s=%s)' % (end, name)

            def run(I, who=who, mk=mk, end=end, other=other):
                a = mk()
                try:
                    w = I.call(W.Waypoint, [], {
                        'time': K(12), 'value': value(W, I), end: a,
                        other: K('constant')})
                except PyRaise as e:
                    R.decided(who)
                    refused(R, W, I, who, 'C08:Waypoint', a, e)
                    return
                R.decided(who)
                judge(R, W, I, who, 'C08:Waypoint', a, I.getattr(w, end), end)
                judge(R, W, I, who, 'C08:Waypoint', K('constant'),
                      I.getattr(w, other), other)
                tag_says(R, W, I, who, w)
            R.explore(who, run, 100)
            # the setter
            who = 'Waypoint.%s = %s' % (end, name)

            def run(I, who=who, mk=mk, end=end, other=other):
                a = mk()
                w = I.call(W.Waypoint, [], {
                    'time': K(12), 'value': value(W, I),
                    end: K('clamped'), other: K('constant')})
                given = a
                try:
                    I.setattr(w, end, a)
                except PyRaise as e:
                    refused(R, W, I, who, 'C08:Waypoint.' + end, a, e)
                    given = K('clamped')
                R.decided(who)
                judge(R, W, I, who, 'C08:Waypoint.' + end, given,
                      I.getattr(w, end), end)
                judge(R, W, I, who, 'C08:Waypoint.' + end, K('constant'),
                      I.getattr(w, other), other)
                tag_says(R, W, I, who, w)
            R.explore(who, run, 100)
            # from the document
            who = 'a waypoint whose element has %s=%s' % (end, name)

            def run(I, who=who, mk=mk, end=end, other=other):
                a = mk()
                if not (isinstance(a, K) and not isinstance(a.v, str)):
                    n = animated_node(I, 'real', ('12f',), interps=[
                        (a, K('constant')) if end == 'before' else
                        (K('constant'), a)])
                    hosted(I, 'real', n)
                    v = value_object(W, I, 'real', n)
                    try:
                        ws = I.iterate(I.getattr(v, 'timeline'))
                    except PyRaise as e:
                        R.decided(who)
                        refused(R, W, I, who, 'C08:from_tag', a, e)
                        return
                    for w in ws:
                        R.decided(who)
                        judge(R, W, I, who, 'C08:from_tag', a,
                              I.getattr(w, end), end)
                        judge(R, W, I, who, 'C08:from_tag', K('constant'),
                              I.getattr(w, other), other)
                        tag_says(R, W, I, who, w)
            R.explore(who, run, 100)
    defaults(R, W)
    for kind in IMPLEMENTED:
        edits(R, W, kind)


def tag_says(R, W, I, who, w):
    """The element made for a waypoint says what the waypoint does."""
    t = I.getattr(w, 'tag')
    if not isinstance(t, NodeObj):
        return
    for end in ENDS:
        x = attr_of(t, end)
        if x is None:
            R.violation('C08:tag', '%s: its element has no %s' % (who, end),
                        where(W))
            continue
        have = text_of(I, I.getattr(w, end))
        if definitely_differ(I, x, have) or (
                isinstance(x, K) and isinstance(have, K) and x.v != have.v):
            R.violation('C08:tag', '%s: its element has %s=%s rather than %s'
                        % (who, end, shown(I, x), shown(I, have)), where(W))


def defaults(R, W):
    who = 'Waypoint() with no interpolations'

    def run(I):
        w = I.call(W.Waypoint, [], {'time': K(12), 'value': value(W, I)})
        R.decided(who)
        for end in ENDS:
            x = I.norm(I.getattr(w, end))
            if isinstance(x, K) and x.v not in VALID:
                R.violation('C08:default', 'by default, %s is %r' % (
                    end, x.v), where(W))
        tag_says(R, W, I, who, w)
    R.explore(who, run, 20)


def edits(R, W, kind):
    """Timeline operations carry the interpolations of each waypoint."""
    inter = [('tcb', 'linear'), ('constant', 'ease')]

    def wp(I, at=36, b='halt', a='tcb'):
        return I.call(W.Waypoint, [], {
            'time': K(at), 'value': value(W, I, kind), 'before': K(b),
            'after': K(a)})

    def tl(I, v):
        return I.getattr(v, 'timeline')

    old = {12: inter[0], 48: inter[1]}
    ops = {
        'add': (lambda I, v: method(I, tl(I, v), 'add', wp(I)),
                {**old, **{36: ('ease', 'tcb')}}),
        'add, overwriting': (lambda I, v: method(
            I, tl(I, v), 'add', wp(I, 12), overwrite=TRUE),
            {12: ('ease', 'tcb'), 48: inter[1]}),
        '+=': (lambda I, v: method(I, tl(I, v), '__iadd__', wp(I)),
               {**old, **{36: ('ease', 'tcb')}}),
        '[] = waypoint': (lambda I, v: I.setitem(tl(I, v), K(36), wp(I, 7)),
                          {**old, **{36: ('ease', 'tcb')}}),
        '[] = own waypoint': (lambda I, v: I.setitem(
            tl(I, v), K(36), I.getitem(tl(I, v), K(12))),
            {**old, **{36: inter[0]}}),
        'del': (lambda I, v: I.delitem(tl(I, v), K(12)), {48: inter[1]}),
        '= list': (lambda I, v: I.setattr(v, 'timeline', I.new_list(
            [wp(I, 36), wp(I, 7, 'linear', 'auto')])),
            {36: ('ease', 'tcb'), 7: ('linear', 'tcb')}),
        '= other timeline': (lambda I, v: I.setattr(
            v, 'timeline', other(I)), {5: ('ease', 'linear')}),
    }

    def other(I):
        n = animated_node(I, kind, ('5f',), interps=[('halt', 'linear')])
        hosted(I, kind, n)
        return tl(I, value_object(W, I, kind, n))
    for name, (op, want) in ops.items():
        who = 'timeline of %s %s' % (kind, name)

        def run(I, op=op, want=want, who=who, name=name):
            n = animated_node(I, kind, ('12f', '48f'), label='old',
                              interps=inter)
            hosted(I, kind, n)
            holder = n.parent
            try:
                v = value_object(W, I, kind, n)
                op(I, v)
            except PyRaise:
                return
            R.decided(who)
            for k in kids_of(holder):
                for w in kids_of(k):
                    if text_of(I, w.name) != K('waypoint'):
                        continue
                    f = position(W, I, attr_of(w, 'time'))
                    if f not in want:
                        continue
                    for end, x in zip(ENDS, want[f]):
                        got = text_of(I, attr_of(w, end) or K(None))
                        if isinstance(got, K) and got.v != x:
                            R.violation('C08:timeline %s' % name,
                                        '%s: the waypoint at %s has %s=%r '
                                        'rather than %r' % (
                                            who, f, end, got.v, x),
                                        last_mutation(I))
            try:
                for w in I.iterate(tl(I, v)):
                    f = I.norm(I.getattr(I.getattr(w, 'time'), 'frames'))
                    f = f.v if isinstance(f, K) else None
                    for end, x in zip(ENDS, want.get(f, ())):
                        got = I.norm(I.getattr(w, end))
                        if isinstance(got, K) and got.v != x:
                            R.violation('C08:timeline %s' % name,
                                        '%s: the waypoint read back at %s '
                                        'has %s=%r rather than %r' % (
                                            who, f, end, got.v, x), where(W))
            except PyRaise:
                pass
        R.explore(who, run, 40)


def position(W, I, t):
    if t is None:
        return None
    t = text_of(I, t)
    try:
        if isinstance(t, K):
            t = I.call(W.T, [t], {'ref': document(I)})
        f = I.norm(I.getattr(t, 'frames'))
    except PyRaise:
        return None
    return f.v if isinstance(f, K) else None
