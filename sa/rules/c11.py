"""C11: the frame rate and the length are never guessed."""
from .args import *

RULE = ('Dataflow analysis: wherever a time is made from a specification '
        'which needs a frame rate or a length, on every path the frames are '
        'computed from the "fps" (and "begin-time" and "end-time") of the '
        'root canvas of the document the reference belongs to, or ValueError '
        'is raised; a frame rate which is not positive leads to ValueError; '
        'the seconds of a time which has no frame rate are only given on '
        'paths where it is zero.')
SCOPE = ('T with every kind of specification (hours, minutes, seconds, their '
         'combinations, negative numbers, frames) and of reference (none, '
         'detached elements, elements at every depth of a document '
         'including inside nested canvases with attributes of their own, '
         'values, layers, animations); waypoints, timelines and time values '
         'which make times.')
MINIMUM = 250
PARALLEL = True

NEEDS_FPS = (('1s', 1), ('1.5s', 1.5), ('1m', 60), ('1h', 3600),
             ('1h 1m 1s', 3661), ('2m 3s', 123), ('-1s', -1), ('-1m', -60),
             ('0.001s', 0.001), ('0.0005s', 0.0005),
             ('0.0000001s', 0.0000001), ('-0.0000001s', -0.0000001), ('1h 0s', 3600), ('0h 1s', 1))
MIXED = (('1s 1f', 1, 1), ('0h 0m 2s 12f', 2, 12), ('1m 1f', 60, 1))


def where(W):
    return '%s (class T)' % W.I.relpath(W.T.mod.path)


def nested(W, I, fps='24.000', begin='0f', end='5s'):
    """
    Elements at every depth of a document. A canvas inside it has attributes
    of its own, which are not those of the animation.
    """
    inner_v = animated_node(I, 'real', ('1f',), label='inner')
    inner = layer_node(I, 'circle', [param_node(I, 'radius', inner_v)],
                       label='inner layer')
    tv = value_node(I, 'time')
    tl = layer_node(I, 'timeloop', [param_node(I, 'duration', tv)],
                    label='timeloop')
    grp = group_node(I, inner, tl, label='group')
    canvas = [k for k in kids_of(kids_of(grp)[-1]) if k.name == K('canvas')]
    if not canvas:
        canvas = kids_of(kids_of(grp)[-1])
    canvas = canvas[0]
    for k, v in (('fps', '7.000'), ('begin-time', '1f'),
                 ('end-time', '9f')):
        canvas.attrs.entries.append([K(k), K(v)])
    v = value_node(I, 'real', 'v')
    lay = layer_node(I, 'circle', [param_node(I, 'radius', v)],
                     label='layer')
    attrs = {'fps': fps, 'begin-time': begin, 'end-time': end}
    root = document(I, lay, grp, attrs=attrs)
    wp = kids_of(inner_v)[0]
    return {'the root': root, 'a layer': lay, 'a parameter': kids_of(lay)[0],
            'a value': v, 'a group': grp, 'a canvas inside': canvas,
            'a layer inside': inner, 'a value inside': inner_v,
            'a waypoint inside': wp, 'the value of a waypoint inside':
                kids_of(wp)[0], 'a time value inside': tv,
            'a layer object': lambda: wrap_layer(W, I, lay),
            'a layer object inside': lambda: wrap_layer(W, I, inner),
            'a value object': lambda: value_object(W, I, 'real', v),
            'an animated value object': lambda: value_object(
                W, I, 'real', inner_v)}


PLACES = ('the root', 'a layer', 'a parameter', 'a value', 'a group',
          'a canvas inside', 'a layer inside', 'a value inside',
          'a waypoint inside', 'the value of a waypoint inside',
          'a time value inside', 'a layer object', 'a layer object inside',
          'a value object', 'an animated value object')


def take(d, k):
    x = d[k]
    return x() if callable(x) else x


def detached(W, I, how):
    if how == 'nothing':
        return None
    if how == 'None':
        return NONE
    if how == 'a detached element':
        n = value_node(I, 'real')
        dom.adopt(I, n)
        return n
    if how == 'a detached layer element':
        n = layer_node(I, 'circle', [param_node(
            I, 'radius', value_node(I, 'real'))])
        dom.adopt(I, n)
        return n
    if how == 'an element of a detached layer':
        v = value_node(I, 'real')
        n = layer_node(I, 'circle', [param_node(I, 'radius', v)])
        dom.adopt(I, n)
        return v
    if how == 'a detached canvas':
        n = value_node(I, 'canvas', layers=[layer_node(I, 'circle')])
        n.attrs.entries.append([K('fps'), K('7.000')])
        dom.adopt(I, n)
        return n
    if how == 'a document which is no animation':
        root = layer_node(I, 'circle', [param_node(
            I, 'radius', value_node(I, 'real'))])
        root.attrs.entries.append([K('fps'), K('7.000')])
        in_document(I, root)
        return root
    if how == 'a detached value':
        n = value_node(I, 'real')
        dom.adopt(I, n)
        return value_object(W, I, 'real', n)
    raise KeyError(how)


DETACHED = ('nothing', 'None', 'a detached element',
            'a detached layer element', 'an element of a detached layer',
            'a detached canvas', 'a document which is no animation',
            'a detached value')


def check(W, R):
    anchored(R, W)
    unanchored(R, W)
    rates(R, W)
    seconds(R, W)
    lengths(R, W)
    users(R, W)


def kw_of(ref):
    return {} if ref is None else {'ref': ref}


def anchored(R, W):
    for place in PLACES:
        for fps in ('24.000', '25', '12.5', None):
            for spec, secs, fr in [(s, n, 0) for s, n in NEEDS_FPS] + \
                    list(MIXED):
                who = 'T(%r), from %s, %s fps' % (spec, place,
                                                  fps or 'unknown')

                def run(I, place=place, fps=fps, spec=spec, secs=secs,
                        fr=fr, who=who):
                    f = fps or S('root fps')
                    d = nested(W, I, fps=f)
                    ref = take(d, place)
                    try:
                        t = I.call(W.T, [K(spec)], {'ref': ref})
                        got = I.norm(I.getattr(t, 'frames'))
                        rate = I.norm(I.getattr(t, 'fps'))
                    except PyRaise as e:
                        if fps and not e.implicit:
                            R.violation('C11:refused', '%s raises %s' % (
                                who, e.name), e.loc)
                        return
                    if fps and isinstance(got, K) and isinstance(rate, K):
                        R.decided(who)
                        want = secs * float(fps) + fr
                        if rate.v != float(fps):
                            R.violation('C11:fps:%s' % place, '%s: the frame '
                                        'rate is %r' % (who, rate.v),
                                        where(W))
                        elif abs(got.v - want) > 1e-6:
                            R.violation('C11:frames', '%s is %r frames '
                                        'rather than %r' % (
                                            who, got.v, want), where(W))
                    elif fps is None:
                        # it must come from the root's attribute
                        if isinstance(rate, K) and I.eqk.get(
                                ('doc', 'root fps')) is None:
                            R.violation('C11:fps:%s' % place, '%s: the frame '
                                        'rate is %r, whatever the document '
                                        'says' % (who, rate.v), where(W))
                        elif isinstance(got, K) and got.v != 0 and \
                                not isinstance(rate, K):
                            R.violation('C11:frames', '%s is %r frames, '
                                        'whatever the frame rate' % (
                                            who, got.v), where(W))
                        R.decided(who)
                    else:
                        R.undecided(who)
                R.explore(who, run, 40)


def unanchored(R, W):
    specs = [K(s) for s, _ in NEEDS_FPS] + [K(s[0]) for s in MIXED] + \
        [K(-1), K(-1.0), K(-0.5), K(-1000)]
    for how in DETACHED:
        for spec in specs:
            who = 'T(%r), reference: %s' % (spec.v, how)

            def run(I, how=how, spec=spec, who=who):
                ref = detached(W, I, how)
                try:
                    t = I.call(W.T, [spec], kw_of(ref))
                    got = I.getattr(t, 'frames')
                except PyRaise as e:
                    R.decided(who)
                    if e.name != 'ValueError' and not e.implicit:
                        R.violation('C11:wrong error', '%s raises %s rather '
                                    'than ValueError' % (who, e.name), e.loc)
                    return
                R.decided(who)
                R.violation('C11:guessed:%s' % how, '%s is accepted, as %s '
                            'frames' % (who, shown(I, got)), where(W))
            R.explore(who, run, 20)
        for spec in [K('0s'), K('0s 0f'), K('5f'), K(0), K(12.5), K('0f')]:
            who = 'T(%r), reference: %s' % (spec.v, how)

            def run(I, how=how, spec=spec, who=who):
                ref = detached(W, I, how)
                try:
                    t = I.call(W.T, [spec], kw_of(ref))
                    rate = I.norm(I.getattr(t, 'fps'))
                except PyRaise as e:
                    if not e.implicit:
                        R.violation('C11:refused', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                R.decided(who)
                if rate != NONE:
                    R.violation('C11:guessed fps:%s' % how, '%s: the frame '
                                'rate is %s' % (who, shown(I, rate)),
                                where(W))
            R.explore(who, run, 20)
        who = 'T(n), reference: %s' % how

        def run(I, how=how, who=who):
            ref = detached(W, I, how)
            n = arg('n', 'float')
            try:
                t = I.call(W.T, [n], kw_of(ref))
                got = I.norm(I.getattr(t, 'frames'))
            except PyRaise:
                R.decided(who)
                return
            neg = I.facts.get(('<', n.term, ('k', 'int', 0)))
            if neg is None:
                neg = I.facts.get(('<', n.term, ('k', 'float', 0.0)))
            if neg is None:
                R.undecided(who)
                return
            R.decided(who)
            if neg:
                R.violation('C11:guessed:%s' % how, '%s is accepted when n '
                            'is negative, as %s frames' % (
                                who, shown(I, got)), where(W))
        R.explore(who, run, 40)


def rates(R, W):
    for fps in ('0', '0.0', '0.000', '-24', '-24.000', '-0.001', '-0.0', 'nan',
                'inf', '1e999'):
        for spec in (K('1s'), K(0), K(12), K('5f'), K(-1), K('0s')):
            for place in ('the root', 'a layer', 'a value inside'):
                who = 'T(%r), from %s, %s fps' % (spec.v, place, fps)

                def run(I, fps=fps, spec=spec, place=place, who=who):
                    d = nested(W, I, fps=fps)
                    try:
                        t = I.call(W.T, [spec], {'ref': take(d, place)})
                    except PyRaise as e:
                        R.decided(who)
                        if e.name != 'ValueError' and not e.implicit:
                            R.violation('C11:wrong error', '%s raises %s '
                                        'rather than ValueError' % (
                                            who, e.name), e.loc)
                        return
                    R.decided(who)
                    R.violation('C11:bad fps', '%s is accepted' % who,
                                where(W))
                R.explore(who, run, 20)

    def run(I):
        d = nested(W, I, fps=S('fps'))
        try:
            t = I.call(W.T, [K(12)], {'ref': d['the root']})
            rate = I.norm(I.getattr(t, 'fps'))
        except PyRaise:
            R.decided('T(12), unknown fps: refused')
            return
        if isinstance(rate, Opq):
            pos = None
            for z in (('k', 'float', 0.0), ('k', 'int', 0)):
                if pos is None:
                    pos = I.facts.get(('<', z, rate.term))
                if pos is None:
                    x = I.facts.get(('<=', rate.term, z))
                    pos = None if x is None else not x
            if pos is not None:
                R.decided('T(12), unknown fps: accepted')
                if not pos:
                    R.violation('C11:bad fps', 'T(12) is accepted with a '
                                'frame rate which is not positive', where(W))
            else:
                R.undecided('T(12), unknown fps')
    R.explore('T(12), unknown fps', run, 40)
    # an attribute which isn't there can't be made up
    for missing, spec in (('fps', K('1s')), ('end-time', K(-1))):
        who = 'T(%r) without "%s"' % (spec.v, missing)

        def run(I, missing=missing, spec=spec, who=who):
            root = document(I, attrs={missing: None})
            try:
                t = I.call(W.T, [spec], {'ref': root})
            except PyRaise:
                R.decided(who)
                return
            R.decided(who)
            R.violation('C11:missing', '%s is accepted, as %s frames' % (
                who, shown(I, I.getattr(t, 'frames'))), where(W))
        R.explore(who, run, 20)


def seconds(R, W):
    vals = [(K(0), 0.0), (K('0s'), 0.0), (K(0.0), 0.0), (K(12), None),
            (K('36f'), None), (K(0.001), None), (K(1e-9), None),
            (K(1e9), None), (K('-12f'), None)]
    for v, want in vals:
        who = 'seconds of T(%r)' % v.v

        def run(I, v=v, want=want, who=who):
            try:
                t = I.call(W.T, [v], {})
            except PyRaise:
                return
            try:
                s = I.norm(I.getattr(t, 'seconds'))
            except PyRaise as e:
                if e.implicit:
                    return
                R.decided(who)
                if want is not None or e.name != 'ValueError':
                    R.violation('C11:seconds', '%s raises %s' % (
                        who, e.name), e.loc)
                return
            R.decided(who)
            if want is None or isinstance(s, K) and s.v != want:
                R.violation('C11:seconds', '%s is %s' % (
                    who, shown(I, s)), where(W))
        R.explore(who, run, 20)

    def run(I):
        a = arg('a', 'float')
        try:
            t = I.call(W.T, [a], {})
        except PyRaise:
            return
        try:
            s = I.norm(I.getattr(t, 'seconds'))
        except PyRaise as e:
            if not e.implicit:
                R.decided('seconds of T(a): refused')
                if e.name != 'ValueError':
                    R.violation('C11:seconds', 'seconds of T(a) raises %s' %
                                e.name, e.loc)
            return
        zero = I.facts.get(I.eqterm(a.term, ('k', 'float', 0.0)))
        if zero is None:
            zero = I.theory(I.eqterm(a.term, ('k', 'float', 0.0)))
        k = I.eqk.get(a.term)
        if zero is None and k is not None:
            zero = k.v == 0
        if zero is None:
            # given whatever a is
            R.violation('C11:seconds', 'seconds of T(a), with no frame '
                        'rate, is %s whatever a is' % shown(I, s), where(W))
        elif not zero:
            R.violation('C11:seconds', 'seconds of T(a), with no frame '
                        'rate, is %s when a is not zero' % shown(I, s),
                        where(W))
        R.decided('seconds of T(a): given')
    R.explore('seconds of T(a)', run, 40)
    for fps in ('24.000', '25', '12.5', '0.5'):
        for v in (K(0), K(12), K('36f'), K('1m'), K(-1)):
            who = 'seconds of T(%r), %s fps' % (v.v, fps)

            def run(I, v=v, fps=fps, who=who):
                try:
                    t = I.call(W.T, [v], {'ref': nested(W, I, fps=fps)[
                        'a layer']})
                    fr = I.norm(I.getattr(t, 'frames'))
                    s = I.norm(I.getattr(t, 'seconds'))
                except PyRaise:
                    return
                if not isinstance(fr, K) or not isinstance(s, K):
                    R.undecided(who)
                    return
                R.decided(who)
                if abs(s.v - fr.v / float(fps)) > 1e-9:
                    R.violation('C11:seconds', '%s is %r, but it is at %r '
                                'frames' % (who, s.v, fr.v), where(W))
            R.explore(who, run, 20)


def lengths(R, W):
    for place in PLACES:
        # counting back from the end of something of the animation's length,
        # "in the usual Python indexing style"
        for fps, begin, end, last in (
                ('24.000', '0f', '5s', 120), ('24.000', '0f', '99f', 99),
                ('25', '0f', '2s 10f', 60), ('10', '0f', '1m', 600),
                ('24.000', '0f', '0f', 0), ('24.000', '1s', '5s', 96),
                ('10', '15f', '3s', 15)):
            for n in (-1, -2, -1.0, -12):
                who = 'T(%r) from %s, from %s to %s, %s fps' % (
                    n, place, begin, end, fps)

                def run(I, place=place, fps=fps, end=end, last=last, n=n,
                        who=who, begin=begin):
                    d = nested(W, I, fps=fps, begin=begin, end=end)
                    try:
                        t = I.call(W.T, [K(n)], {'ref': take(d, place)})
                        got = I.norm(I.getattr(t, 'frames'))
                    except PyRaise as e:
                        if not e.implicit:
                            R.violation('C11:refused', '%s raises %s' % (
                                who, e.name), e.loc)
                        return
                    if not isinstance(got, K):
                        R.undecided(who)
                        return
                    R.decided(who)
                    if abs(got.v - (last + 1 + n)) > 1e-6:
                        R.violation('C11:length:%s' % place, '%s is %r frames'
                                    ' rather than %r' % (
                                        who, got.v, last + 1 + n), where(W))
                R.explore(who, run, 20)


def users(R, W):
    """Whatever makes times from what a caller gave."""
    def real(I):
        n = value_node(I, 'real')
        dom.adopt(I, n)
        return value_object(W, I, 'real', n)

    def animated(I, times):
        n = animated_node(I, 'real', times)
        dom.adopt(I, n)
        return value_object(W, I, 'real', n)

    def timeval(I, text='2s'):
        n = new_node(I, 'time', {'value': K(text)})
        dom.adopt(I, n)
        return value_object(W, I, 'time', n)
    ops = {
        'Waypoint(%r)': lambda I, s: I.call(W.Waypoint, [], {
            'time': s, 'value': real(I)}),
        'Waypoint(%r, ref=detached)': lambda I, s: I.call(W.Waypoint, [], {
            'time': s, 'value': real(I),
            'ref': I.getattr(real(I), 'tag')}),
        'timeline[%r] = of a detached value': lambda I, s: I.setitem(
            I.getattr(real(I), 'timeline'), s, K(1.0)),
        'timeline[%r] of a detached value': lambda I, s: I.getitem(
            I.getattr(animated(I, ('12f',)), 'timeline'), s),
        'del timeline[%r] of a detached value': lambda I, s: I.delitem(
            I.getattr(animated(I, ('12f',)), 'timeline'), s),
        'Time(%r)': lambda I, s: I.getattr(I.call(
            W.value_class('time'), [s], {}), 'value'),
        'value = %r of a detached Time': lambda I, s: I.setattr(
            timeval(I), 'value', s),
        'reading a detached Time of %r': lambda I, s: I.getattr(
            timeval(I, s.v), 'value') if isinstance(s.v, str)
        else I.raise_('ValueError', ''),
        'reading a detached timeline at %r': lambda I, s: I.iterate(
            I.getattr(animated(I, (s.v,)), 'timeline'))
        if isinstance(s.v, str) else I.raise_('ValueError', ''),
    }
    for name, f in ops.items():
        for spec in [K(s) for s, _ in NEEDS_FPS] + [K(-1), K(-2.5)]:
            who = name % spec.v

            def run(I, f=f, spec=spec, who=who, name=name):
                try:
                    f(I, spec)
                except PyRaise as e:
                    if e.implicit:
                        return
                    R.decided(who)
                    if e.name != 'ValueError':
                        R.violation('C11:wrong error:' + name, '%s raises '
                                    '%s rather than ValueError' % (
                                        who, e.name), e.loc)
                    return
                R.decided(who)
                R.violation('C11:guessed:' + name, '%s is accepted' % who,
                            where(W))
            R.explore(who, run, 40)
