"""C07: timelines are stored in order, and decide whether a value is animated.
"""
import itertools

from .args import *

RULE = ('Interpretation of every timeline operation with the stored result '
        'compared with what the operation calls for: the waypoints it names, '
        'in ascending order of time, in an <animated> element exactly if '
        'there is one; and with the refusals it calls for.')
SCOPE = ('Assignment of lists, dicts and timelines, subscripts, add (with '
         'and without overwriting), +=, del and is_animated, on plain values '
         'and timelines in and out of order; new times before, between, on '
         'and after the old ones in every order; times as numbers, text and '
         'T; also times of unknown position. Values of every implemented '
         'class, with unknown contents.')
MINIMUM = 600
PARALLEL = True

OLD = ((24, '24f'), (60, '60f'))


def frames_of(W, I, t):
    """The position of a time stored in the document, if constant."""
    t = I.norm(t)
    if isinstance(t, TextObj):
        t = I.norm(t.value)
    if isinstance(t, K) and isinstance(t.v, str):
        root = document(I)
        t = I.call(W.T, [t], {'ref': root})
    if isinstance(t, Inst):
        return I.norm(I.getattr(t, 'frames'))
    return None


def label_of(I, n):
    """Which waypoint's value this is: the label it was made with."""
    out = []

    def look(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ('doc', 'arg') and \
                    isinstance(t[1], str):
                out.append(t[1])
            for x in t:
                look(x)

    def walk(n):
        if isinstance(n, TextObj):
            look(term_of(I.norm(n.value)))
            return
        for k, v in n.attrs.entries:
            if k != K('static'):
                look(term_of(I.norm(v)) if not isinstance(v, Inst) else ())
        for c in n.children:
            walk(c)
    walk(n)
    if not out:
        return None
    return out[0].split('.')[0].split('[')[0]


def outcome(W, I, holder):
    """What's in the document: ('plain', label) or ('animated', [...])."""
    kids = kids_of(holder)
    if len(kids) != 1:
        return ('broken', '%d elements' % len(kids))
    n = kids[0]
    name = text_of(I, n.name)
    if not isinstance(name, K):
        return None
    if name.v != 'animated':
        if any(text_of(I, c.name) == K('waypoint') for c in kids_of(n)):
            return ('broken', 'waypoints in an element called %s' % name.v)
        return ('plain', label_of(I, n))
    r = []
    for c in kids_of(n):
        if text_of(I, c.name) != K('waypoint'):
            return ('broken', 'an element called %s in <animated>' %
                    shown(I, c.name))
        vs = kids_of(c)
        if len(vs) != 1:
            return ('broken', 'a waypoint with %d values' % len(vs))
        t = attr_of(c, 'time')
        f = frames_of(W, I, t) if t is not None else None
        r.append((f, label_of(I, vs[0]), vs[0]))
    ty = attr_of(n, 'type')
    return ('animated', r, text_of(I, ty) if ty is not None else None)


def wp(W, I, kind, at, label, T_=None):
    n = value_node(I, kind, label)
    dom.adopt(I, n)
    return I.call(W.Waypoint, [], {
        'time': T_ if T_ is not None else K(at),
        'value': value_object(W, I, kind, n)})


def unit(R, W, kind, who, key, start, op, want):
    """
    start: times of the existing waypoints ('plain' if not animated)
    want(): a list of (frames, label), 'plain', 'refused', or 'same'
    """
    def run(I):
        I.hooks.pop('x', None)
        if start == 'plain':
            n = value_node(I, kind, 'old')
        else:
            n = animated_node(I, kind, ['%df' % t for t in start])
            for i, (w, t) in enumerate(zip(kids_of(n), start)):
                w.children[:] = []
                x = value_node(I, kind, 'old%d' % t)
                x.parent = w
                w.children.append(x)
        lay = hosted(I, kind, n)
        holder = n.parent
        refused = None
        try:
            obj = value_object(W, I, kind, n)
        except PyRaise:
            # this kind can't be read when it's animated
            return
        try:
            op(I, obj)
        except PyRaise as e:
            if e.implicit:
                return
            refused = e
        R.decided(who)
        if want == 'refused':
            if refused is None:
                R.violation(key, '%s is accepted' % who,
                            last_mutation(I) or where(W))
            return
        if isinstance(want, tuple) and want[0] == 'refused with':
            if refused is None:
                R.violation(key, '%s is accepted' % who,
                            last_mutation(I) or where(W))
            elif not any(getattr(k, 'name', '').split('.')[-1] in want[1]
                         for k in refused.cls.mro):
                R.violation(key, '%s is refused with %s rather than %s' % (
                    who, refused.name, ' or '.join(want[1])), refused.loc)
            return
        if refused is not None:
            R.violation(key, '%s is refused (%s)' % (who, refused.name),
                        refused.loc)
            return
        got = outcome(W, I, holder)
        if got is None:
            R.undecided(who)
            return
        if got[0] == 'broken':
            R.violation(key, 'after %s, the document has %s' % (
                who, got[1]), last_mutation(I))
            return
        v = obj
        try:
            v = value_object(W, I, kind, kids_of(holder)[0])
        except PyRaise:
            pass
        if want == 'plain' or isinstance(want, tuple):
            if got[0] != 'plain':
                R.violation(key, 'after %s, the value is animated' % who,
                            last_mutation(I) or where(W))
                return
            if isinstance(want, tuple) and got[1] is not None and \
                    got[1] != want[1]:
                R.violation(key, 'after %s, the value is that of %s rather '
                            'than %s' % (who, got[1], want[1]),
                            last_mutation(I) or where(W))
            if I.truth(I.getattr(v, 'is_animated')):
                R.violation(key, 'after %s, is_animated is true' % who,
                            where(W))
            return
        if got[0] != 'animated':
            R.violation(key, 'after %s, the value isn\'t animated' % who,
                        last_mutation(I) or where(W))
            return
        if not I.truth(I.getattr(v, 'is_animated')):
            R.violation(key, 'after %s, is_animated is false' % who,
                        where(W))
        el = ELEMENT_OF.get(kind, kind)
        if isinstance(got[2], K) and got[2].v != el:
            R.violation(key, 'after %s, the type is %r rather than %r' % (
                who, got[2].v, el), last_mutation(I))
        fr = []
        for f, l, _ in got[1]:
            if not isinstance(f, K):
                R.undecided(who)
                return
            fr.append((f.v, l))
        if kind in ('bool', 'time', 'canvas'):
            # their values have no label
            fr = [(f, None) for f, l in fr]
            w = [(f, None) for f, l in want]
        else:
            w = list(want)
        if [f for f, _ in fr] != [f for f, _ in w]:
            R.violation(key, 'after %s, there are waypoints at %s rather '
                        'than %s' % (who, ', '.join('%g' % f for f, _ in fr),
                                     ', '.join('%g' % f for f, _ in w)),
                        last_mutation(I) or where(W))
        elif any(a != b for (_, a), (_, b) in zip(fr, w)
                 if a is not None):
            R.violation(key, 'after %s, the waypoints are %s rather than %s'
                        % (who, [l for _, l in fr], [l for _, l in w]),
                        last_mutation(I) or where(W))
        # and it reads back like that
        try:
            seen = [I.norm(I.getattr(I.getattr(x, 'time'), 'frames'))
                    for x in I.iterate(I.getattr(v, 'timeline'))]
            n2 = I.norm(I.length(I.getattr(v, 'timeline')))
        except PyRaise as e:
            R.violation(key + ':read', 'after %s, reading the timeline '
                        'raises %s' % (who, e.name), e.loc)
            return
        if all(isinstance(x, K) for x in seen) and \
                [x.v for x in seen] != [f for f, _ in w]:
            R.violation(key + ':read', 'after %s, iterating gives %s rather '
                        'than %s' % (who, [x.v for x in seen],
                                     [f for f, _ in w]), where(W))
        if isinstance(n2, K) and n2.v != len(w):
            R.violation(key + ':read', 'after %s, the length is %s rather '
                        'than %d' % (who, n2.v, len(w)), where(W))
    R.explore(who, run, 200 if R.thorough else 24)


def where(W):
    c = W.Value
    return '%s (class %s)' % (W.I.relpath(c.mod.path), c.name)


def tl(I, v):
    return I.getattr(v, 'timeline')


NEW = (0, 12, 24, 36, 60, 99.5, 24.5, 59.75, 24.01)


def check(W, R):
    for kind in IMPLEMENTED:
        c = W.value_class(kind).name
        starts = ['plain', (24, 60), (60, 24), (24,), (60, 0, 24)]
        for start in starts:
            old = [] if start == 'plain' else sorted(
                (t, 'old%d' % t) for t in start)
            sh = '%s at %s' % (c, start)

            def merged(new, old=old):
                d = dict(old)
                d.update(new)
                return sorted(d.items())
            few = NEW if R.thorough or kind in ('real', 'color') else \
                (0, 24, 36, 24.25)
            for t in few:
                w = [(t, 'new')]
                for form in ('number', 'text', 'T', 'T of the document'):
                    if form == 'text' and t != int(t):
                        continue

                    def when(I, v, t=t, form=form):
                        if form == 'number':
                            return K(t)
                        if form == 'text':
                            return K('%df' % t)
                        if form == 'T':
                            return I.call(W.T, [K(t)], {})
                        return I.call(W.T, [K(t)], {'ref': tag_of(I, v)})
                    if form != 'number' and kind not in ('real', 'color') \
                            and not R.thorough:
                        continue
                    if kind != 'canvas':
                        unit(R, W, kind, '%s: timeline[%s as %s] = value' % (
                            sh, t, form), 'C07:[]=', start,
                            lambda I, v, when=when: I.setitem(
                                tl(I, v), when(I, v), K(12) if kind == 'time'
                                else good(I, kind, 'new')),
                            merged(w))
                    unit(R, W, kind, '%s: timeline[%s as %s] = waypoint' % (
                        sh, t, form), 'C07:[]=', start,
                        lambda I, v, when=when: I.setitem(
                            tl(I, v), when(I, v),
                            wp(W, I, kind, 7, 'new')),
                        merged(w))
                    left = [x for x in old if x[0] != t]
                    unit(R, W, kind, '%s: del timeline[%s as %s]' % (
                        sh, t, form), 'C07:del', start,
                        lambda I, v, when=when: I.delitem(
                            tl(I, v), when(I, v)),
                        ('refused with', ('KeyError',)) if len(left) == len(
                            old) else left or 'plain')
                clash = any(x[0] == t for x in old)
                unit(R, W, kind, '%s: timeline.add(at %s)' % (sh, t),
                     'C07:add', start,
                     lambda I, v, t=t: method(I, tl(I, v), 'add', wp(
                         W, I, kind, t, 'new')),
                     ('refused with', ('ValueError',)) if clash
                     else merged(w))
                unit(R, W, kind, '%s: timeline.add(list at %s)' % (sh, t),
                     'C07:add', start,
                     lambda I, v, t=t: method(I, tl(I, v), 'add', I.new_list(
                         [wp(W, I, kind, 80, 'new2'),
                          wp(W, I, kind, t, 'new')])),
                     ('refused with', ('ValueError',)) if clash
                     else merged(w + [(80, 'new2')]))
                unit(R, W, kind, '%s: timeline.add(at %s, overwrite)' % (
                    sh, t), 'C07:add', start,
                    lambda I, v, t=t: method(I, tl(I, v), 'add', wp(
                        W, I, kind, t, 'new'), overwrite=TRUE),
                    merged(w))
                unit(R, W, kind, '%s: timeline += at %s' % (sh, t),
                     'C07:+=', start,
                     lambda I, v, t=t: I.setattr(v, 'timeline', method(
                         I, tl(I, v), '__iadd__', wp(
                             W, I, kind, t, 'new'))),
                     merged(w))
            whole(R, W, kind, sh, start, old)
            # nothing added
            in_order = start == 'plain' or list(start) == sorted(start)
            if in_order:
                unit(R, W, kind, '%s: timeline = itself' % sh, 'C07:=',
                     start, lambda I, v: I.setattr(v, 'timeline', tl(I, v)),
                     old or 'plain')
            if kind != 'canvas' and in_order:
                unit(R, W, kind, '%s: is_animated = True' % sh,
                     'C07:is_animated', start,
                     lambda I, v: I.setattr(v, 'is_animated', TRUE),
                     old if old else [(0, 'old')])
            if kind != 'canvas':
                unit(R, W, kind, '%s: is_animated = False' % sh,
                     'C07:is_animated', start,
                     lambda I, v: I.setattr(v, 'is_animated', FALSE),
                     ('plain', old[0][1] if old else 'old'))
        mismatches(R, W, kind, c)
    unknown_times(R, W)


def whole(R, W, kind, sh, start, old):
    sets = [(), (5,), (5, 36), (0, 24, 99.5), (3.25, 3.75, 4.0)]
    if old:
        # the same times as before
        sets.append(tuple(t for t, l in old))
    for s in sets:
        want = [(t, 'new%s' % str(t).replace('.', '_')) for t in s]
        perms = list(itertools.permutations(want))
        if not R.thorough and kind not in ('real', 'color'):
            perms = perms[-1:]
        for p in perms:
            def lst(I, p=p):
                return I.new_list([wp(W, I, kind, t, l) for t, l in p])

            def dct(I, p=p):
                return I.new_dict([[K(t), wp(W, I, kind, t, l)]
                                   for t, l in p])

            def timeline(I, p=p):
                n = animated_node(I, kind, ['%gf' % t for t, l in p])
                for w, (t, l) in zip(kids_of(n), p):
                    w.children[:] = []
                    x = value_node(I, kind, l)
                    x.parent = w
                    w.children.append(x)
                if not p:
                    n = value_node(I, kind, 'none')
                document(I, layer_node(I, HOSTS[kind][0], [
                    param_node(I, HOSTS[kind][1], n)]))
                return I.getattr(value_object(W, I, kind, n), 'timeline')
            for form, mk in (('a list', lst), ('a dict', dct),
                             ('a timeline', timeline)):
                if form == 'a timeline' and kind == 'transformation':
                    # these can't be read when they're animated
                    continue
                unit(R, W, kind, '%s: timeline = %s at %s' % (
                    sh, form, ', '.join('%s' % t for t, l in p) or
                    'no times'), 'C07:=', start,
                    lambda I, v, mk=mk: I.setattr(v, 'timeline', mk(I)),
                    sorted(want) if want else 'plain')


def mismatches(R, W, kind, c):
    el = ELEMENT_OF.get(kind, kind)
    for other in IMPLEMENTED:
        if ELEMENT_OF.get(other, other) == el:
            continue
        for start in ('plain', (24, 60)):
            sh = '%s at %s' % (c, start)

            def w(I):
                return wp(W, I, other, 36, 'new')
            for name, op in (
                    ('timeline[36] =', lambda I, v: I.setitem(
                        tl(I, v), K(36), w(I))),
                    ('timeline.add', lambda I, v: method(
                        I, tl(I, v), 'add', w(I))),
                    ('timeline.add(overwrite)', lambda I, v: method(
                        I, tl(I, v), 'add', w(I), overwrite=TRUE)),
                    ('timeline +=', lambda I, v: method(
                        I, tl(I, v), '__iadd__', w(I))),
                    ('timeline = list with', lambda I, v: I.setattr(
                        v, 'timeline', I.new_list([
                            wp(W, I, kind, 12, 'new0'), w(I)]))),
                    ('timeline = list of', lambda I, v: I.setattr(
                        v, 'timeline', I.new_list([w(I)]))),
                    ('timeline = dict of', lambda I, v: I.setattr(
                        v, 'timeline', I.new_dict([[K(36), w(I)]])))):
                unit(R, W, kind, '%s: %s a waypoint of %s' % (
                    sh, name, other), 'C07:type:%s' % name, start, op,
                    'refused')


def unknown_times(R, W):
    """Where the order depends on times we know nothing about."""
    kind = 'real'

    def T_(I, label, v):
        return I.call(W.T, [arg(label, 'float')], {'ref': tag_of(I, v)})
    ops = {
        'timeline = two waypoints': lambda I, v: I.setattr(
            v, 'timeline', I.new_list([
                wp(W, I, kind, 0, 'new0', T_(I, 't0', v)),
                wp(W, I, kind, 0, 'new1', T_(I, 't1', v))])),
        'timeline.add': lambda I, v: method(I, tl(I, v), 'add', wp(
            W, I, kind, 0, 'new0', T_(I, 't0', v))),
        'timeline[t] =': lambda I, v: I.setitem(
            tl(I, v), T_(I, 't0', v), arg('new', 'float')),
    }
    for name, op in ops.items():
        who = 'Real, unknown times: ' + name

        def run(I, op=op, who=who):
            n = animated_node(I, kind, ('24f', '60f'), label='old')
            hosted(I, kind, n)
            holder = n.parent
            v = value_object(W, I, kind, n)
            try:
                op(I, v)
            except PyRaise:
                return
            got = outcome(W, I, holder)
            R.decided(who)
            if got is None or got[0] != 'animated':
                return
            fs = [term_of(f) for f, l, _ in got[1] if f is not None]
            for a, b in zip(fs, fs[1:]):
                if I.theory(('<', b, a)) or I.facts.get(('<', b, a)):
                    R.violation('C07:order', 'after %s, the waypoint at %s '
                                'comes before the one at %s, which is '
                                'earlier' % (who, show(a), show(b)),
                                last_mutation(I))
                    return
        R.explore(who, run, 2000 if R.thorough else 300)
