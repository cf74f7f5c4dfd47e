"""C10: times are written in the notation the reader understands."""
import re

from .args import *

RULE = ('Shape analysis of text: on every path through str() of a time, the '
        'resulting text is a concatenation whose parts are numbers written '
        'without exponents, each followed by a unit, in the order h, m, s, '
        'f, each unit at most once, and each divided by what the unit stands '
        'for; constant propagation through the writer and the parser agrees '
        'with the notation\'s own definition; the texts written for times in '
        'documents are those texts; texts outside the notation lead to '
        'ValueError.')
SCOPE = ('T with unknown frames and known or unknown or no frame rate; '
         'constants at and on both sides of each boundary between units, at '
         'several frame rates; the time attributes of animations, waypoints '
         'and time values.')
MINIMUM = 400
PARALLEL = True

SIZES = {'h': 3600, 'm': 60, 's': 1}
UNITS = 'hmsf'
FPS = ('24.000', '25', '30.0', '23.976', '12', '60', '1')
NOTATION = re.compile(
    r'^-?(?:\d+(?:\.\d+)?h)?(?: ?\d+(?:\.\d+)?m)?'
    r'(?: ?\d+(?:\.\d+)?s)?(?: ?\d+(?:\.\d+)?f)?$')


def where(W):
    return '%s (class T)' % W.I.relpath(W.T.mod.path)


def reference_parse(text, fps):
    """What a time means, in frames. The sign covers all of it."""
    sign = 1
    if text.startswith('-'):
        sign, text = -1, text[1:]
    n = 0.0
    for num, unit in re.findall(r'([0-9.]+)([hmsf])', text):
        n += float(num) * (1 if unit == 'f' else SIZES[unit] * fps)
    return sign * n


def bad_constant(text):
    if not text.strip('-') or not NOTATION.match(text):
        return 'the text %r is not in the notation' % text
    return None


###### the shape of a text

def pieces(I, t):
    """A text as a list of constants and terms."""
    k = I.eqk.get(t)
    if k is not None:
        return [str(k.v)]
    if t[0] == 'cat':
        r = []
        for x in t[1:]:
            r += pieces(I, x)
        out = []
        for x in r:
            if out and isinstance(x, str) and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        return out
    if t[0] == 'k':
        return [str(t[2])]
    return [t]


def number_shape(I, t):
    """(None or what's wrong, decided or not, the number inside)."""
    strip0 = stripdot = False
    while True:
        if t[0] in ('m:rstrip', 'rstrip') and len(t) == 3 and \
                t[2][0] == 'k':
            if t[2][2] == '0':
                strip0 = True
                if stripdot:
                    pass
            elif t[2][2] == '.':
                stripdot = True
            elif t[2][2] in ('0.', '.0'):
                return ('all trailing zeros are taken off, even those of '
                        'a whole number', True, None)
            t = t[1]
            continue
        if t[0] in ('str', 'repr') and len(t) == 2:
            inner = t[1]
            if inner[0] in ('int', 'round', 'floor', 'math.floor') and \
                    len(inner) == 2:
                spec = 'd'
            else:
                ty = I.types_of_term(inner) if hasattr(
                    I, 'types_of_term') else None
                if ty and 'float' not in ty:
                    return None, False, None
                spec = ''
            t = ('fmt', spec, inner)
        if t[0] == 'fmt' and len(t) == 3 and isinstance(t[1], str):
            m = re.match(r'^[-+ #0<>=^]*\d*([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$',
                         t[1])
            if m is None:
                return None, False, None
            comma, places, conv = m.groups()
            if comma:
                return 'a number is written with separators', True, None
            if conv in ('d', 'i', 'u'):
                whole = True
            elif conv in ('f', 'F'):
                whole = places == '0'
            elif conv in ('g', 'G', 'e', 'E', 'r', 's', '', 'n', '%',
                          'x', 'X', 'o', 'b', 'c'):
                if conv in ('s', 'r', '') and integral(t[2]):
                    whole = True
                elif conv in ('s', 'r', '') and not floating(I, t[2]):
                    return None, False, None
                else:
                    return ('a number is written with %r, which can give an '
                            'exponent' % ('%' + (t[1] or 's')), True, None)
            else:
                return None, False, None
            if strip0 and whole:
                return ('the trailing zeros of a whole number are taken off',
                        True, None)
            return None, True, t[2]
        return None, False, None


def integral(t):
    return t[0] in ('int', 'FloorDivInt') or \
        t[0] == 'round' and len(t) == 2


def floating(I, t):
    return t[0] in ('Mod', 'abs', 'Div', 'Add', 'Sub', 'Mult', 'FloorDiv',
                    'float', 'arg', 'doc') or \
        t[0] == 'round' and len(t) == 3


def shape_problem(I, text):
    """(None or what's wrong, decided)."""
    text = I.norm(text)
    if isinstance(text, TextObj):
        text = I.norm(text.value)
    if isinstance(text, K):
        return bad_constant(str(text.v)), True
    if not isinstance(text, Opq):
        return None, False
    ps = pieces(I, text.term)
    sure = True
    numbers = []
    flat = ''
    for p in ps:
        if isinstance(p, str):
            flat += p
        else:
            why, decided, inner = number_shape(I, p)
            if why:
                return why, True
            sure = sure and decided
            numbers.append(inner)
            flat += '1'
    if not sure and len(ps) == 1:
        return None, False
    if not sure:
        return None, False
    problem = bad_constant(flat)
    if problem:
        return 'the text has the form %s' % re.sub('1', '<number>', flat), \
            True
    for n, u in zip(numbers, re.findall('[hmsf]', flat)):
        if n is not None and u in SIZES and n[0] == 'int' and len(n) == 2:
            n = n[1]
        if n is not None and u in SIZES and n[0] in ('FloorDiv', 'Div') and \
                n[2][0] == 'k' and isinstance(n[2][2], (int, float)):
            if n[2][2] != SIZES[u] and whole_seconds(n[1]):
                return 'what is written as %r is %s, a count of %s ' \
                    'seconds rather than %d' % (
                        u, show(n), n[2][2], SIZES[u]), True
    return None, True


def whole_seconds(t):
    """Whether this is certainly a number of seconds."""
    while t[0] in ('abs', 'Mod') or t[0] == 'int' and len(t) == 2:
        t = t[1]
    return t[0] == 'Div'


###### the rule

def check(W, R):
    writer(R, W)
    writer_constants(R, W)
    reader(R, W)
    refusals(R, W)
    places(R, W)


def writer(R, W):
    for how in ('no frame rate',) + FPS + ('unknown frame rate',):
        for fn in ('str', 'repr', 'format'):
            who = '%s() of a time, %s' % (fn, how)

            def run(I, how=how, fn=fn, who=who):
                kw = {}
                if how == 'unknown frame rate':
                    kw['ref'] = document(I, attrs={'fps': S('fps')})
                elif how != 'no frame rate':
                    kw['ref'] = document(I, attrs={'fps': how})
                try:
                    t = I.call(W.T, [arg('frames', 'float')], kw)
                    if fn == 'repr' and member(
                            W.T, '__repr__') is None:
                        return
                    s = I.call(I.ext.builtin(I, fn), [t], {})
                except PyRaise as e:
                    if not e.implicit and e.loc and 'str' in str(e.loc[2]):
                        R.violation('C10:str raises', '%s raises %s' % (
                            who, e.name), e.loc)
                    return
                why, sure = shape_problem(I, s)
                if why:
                    R.violation('C10:notation', '%s: %s' % (who, why),
                                where(W))
                if sure:
                    R.decided(who)
                else:
                    R.undecided(who)
            R.explore(who, run, 800 if R.thorough else 160)


def instants(fps):
    f = float(fps)
    r = [0.0, 1.0, 2.0, 0.5, 0.001, 10.0, 20.0, 100.0, 5.25, 12345678.0,
         1e-3, 1000000.0]
    for secs in (1, 2, 10, 59, 60, 61, 119, 120, 3599, 3600, 3601, 3660,
                 3661, 7200, 7322, 36000, 90061, 360000):
        for d in (-1.0, 0.0, 1.0, 0.5):
            x = secs * f + d
            if x >= 0:
                r.append(x)
    out = []
    for x in r:
        if x not in out:
            out.append(x)
    return out


def decimal(x):
    return ('%.3f' % x).rstrip('0').rstrip('.')


def writer_constants(R, W):
    for fps in FPS + (None,):
        for x in instants(fps or '24'):
            for sign in (1, -1):
                if sign < 0 and (fps is None or x == 0 or not
                                 float(x * 1000).is_integer()):
                    continue
                who = 'str() of %g frames%s' % (
                    sign * x, ' at %s fps' % fps if fps else '')

                def run(I, x=x, fps=fps, sign=sign, who=who):
                    kw = {}
                    if fps:
                        kw['ref'] = document(I, attrs={'fps': fps})
                    v = K(x) if sign > 0 else K('-%sf' % decimal(x))
                    try:
                        t = I.call(W.T, [v], kw)
                        fr = I.norm(I.getattr(t, 'frames'))
                        s = I.norm(I.ext.str_(I, t))
                    except PyRaise as e:
                        if not e.implicit:
                            R.violation('C10:str raises', '%s raises %s' % (
                                who, e.name), e.loc)
                        return
                    if not isinstance(s, K) or not isinstance(fr, K):
                        R.undecided(who)
                        return
                    R.decided(who)
                    if abs(fr.v - sign * x) > 1e-6:
                        R.violation('C10:frames', '%s: the time is at %r' % (
                            who, fr.v), where(W))
                        return
                    why = bad_constant(s.v)
                    if why:
                        R.violation('C10:notation', '%s: %s' % (who, why),
                                    where(W))
                        return
                    means = reference_parse(s.v, float(fps or 24))
                    if abs(means - fr.v) > 1e-3 + abs(fr.v) * 1e-9:
                        R.violation(
                            'C10:amount', '%s is %r, which means %r frames' %
                            (who, s.v, means), where(W))
                        return
                    try:
                        back = I.call(W.T, [s], kw)
                        b = I.norm(I.getattr(back, 'frames'))
                    except PyRaise as e:
                        if not e.implicit:
                            R.violation('C10:rejected', '%s is %r, which '
                                        'cannot be read: %s' % (
                                            who, s.v, e.name), e.loc)
                        return
                    if isinstance(b, K) and abs(b.v - means) > \
                            1e-3 + abs(means) * 1e-9:
                        R.violation('C10:amount', '%s is %r, which is read '
                                    'as %r frames' % (who, s.v, b.v),
                                    where(W))
                R.explore(who, run, 20)


TEXTS = ('0f', '0s', '1f', '1s', '1m', '1h', '24f', '1.5s', '0.5f', '2m',
         '10m', '1h 1m', '1h 1m 1s', '1h 1m 1s 1f', '1s 1f', '1m 1f',
         '1h 1f', '2s 48f', '1h 30m', '90m', '3600s', '0.25h', '1.5m',
         '-1s', '-1s 1f', '-1m 5s', '-1h 1m 1s 1f', '-12f', '1s1f',
         '1h1m1s1f', '10s', '100s', '20f', '0h 0m 0s 5f', '0m 5s', ' 3s ',
         '12345.678f', '0.001s')


def reader(R, W):
    for fps in FPS:
        for text in TEXTS:
            who = 'T(%r) at %s fps' % (text, fps)

            def run(I, fps=fps, text=text, who=who):
                try:
                    t = I.call(W.T, [K(text)], {
                        'ref': document(I, attrs={'fps': fps})})
                    fr = I.norm(I.getattr(t, 'frames'))
                except PyRaise as e:
                    if not e.implicit:
                        R.violation('C10:refused', '%s raises %s' % (
                            who, e.name), e.loc)
                        R.decided(who)
                    return
                if not isinstance(fr, K):
                    R.undecided(who)
                    return
                R.decided(who)
                want = reference_parse(text.strip(), float(fps))
                if abs(fr.v - want) > 1e-6 + abs(want) * 1e-9:
                    R.violation('C10:read:%s' % text, '%s is read as %r '
                                'frames rather than %r' % (
                                    who, fr.v, want), where(W))
            R.explore(who, run, 20)


BAD = ('wombat', '1', '1.5', '0', '-1', '1x', '1s 1s', '1f 2f', '1h 2h',
       '1m 1m', '1e3f', '1e-3s', '1.2.3s', '.s', 's', 'f', '-s', '-f',
       '1s 2', '2 1s', '1s, 2f', '1s wombat', 'wombat 1s', 'infs', 'nanf',
       'inff', 'nans', '-inff', '--1s', '1S', '1F', '1ms', '1d', '1s-',
       '0x10f', '1_0s', '1s;2f', '1:00', '00:01:00', '1s 1f 1', '#', 'None',
       '1h 1m 1s 1', '1e5f', '2e0s', '1s -1f')


def refusals(R, W):
    for fps in ('24.000', None):
        for text in BAD:
            who = 'T(%r)%s' % (text, ' at %s fps' % fps if fps else '')

            def run(I, fps=fps, text=text, who=who):
                kw = {}
                if fps:
                    kw['ref'] = document(I, attrs={'fps': fps})
                try:
                    t = I.call(W.T, [K(text)], kw)
                    fr = I.norm(I.getattr(t, 'frames'))
                except PyRaise as e:
                    if e.implicit:
                        return
                    R.decided(who)
                    if e.name != 'ValueError' and not is_value_error(I, e):
                        R.violation('C10:wrong error', '%s raises %s rather '
                                    'than ValueError' % (who, e.name), e.loc)
                    return
                R.decided(who)
                R.violation('C10:accepted', '%s is accepted, as %s frames' % (
                    who, shown(I, fr)), where(W))
            R.explore(who, run, 20)


def is_value_error(I, e):
    c = getattr(e.exc, 'cls', None)
    for k in getattr(c, 'mro', ()):
        if getattr(k, 'name', '').split('.')[-1] == 'ValueError':
            return True
    return False


def places(R, W):
    """What's written to the document for a time."""
    def tv(I, t):
        n = value_node(I, 'time')
        lay = hosted(I, 'time', n)
        v = value_object(W, I, 'time', n)
        I.setattr(v, 'value', t(lay))
        return attr_of(I.norm(I.getattr(v, 'tag')), 'value')

    def tl(I, t):
        n = value_node(I, 'time')
        lay = hosted(I, 'time', n)
        layer = wrap_layer(W, I, lay)
        I.setattr(layer, 'duration', t(lay))
        return attr_of(value_of(lay, 'duration'), 'value')

    def ts(I, t):
        n = value_node(I, 'time')
        lay = hosted(I, 'time', n)
        layer = wrap_layer(W, I, lay)
        I.setitem(layer, K('duration'), t(lay))
        return attr_of(value_of(lay, 'duration'), 'value')

    def an(which, name):
        def f(I, t):
            a = animation(W, I)
            tag = I.norm(I.getattr(a, 'tag'))
            I.setattr(a, which, t(tag))
            return attr_of(tag, name)
        return f

    def wp(I, t):
        n = animated_node(I, 'real', ('12f',))
        lay = hosted(I, 'real', n)
        v = value_object(W, I, 'real', n)
        w = waypoint(W, I, t(lay), 'real')
        method(I, I.getattr(v, 'timeline'), 'add', w)
        tag = I.norm(I.getattr(v, 'tag'))
        ws = [k for k in kids_of(tag)
              if attr_of(k, 'time') is not None]
        got = []
        for k in ws:
            t = I.norm(attr_of(k, 'time'))
            if isinstance(t, Inst):
                t = I.ext.str_(I, t)
            if text_of(I, t) != K('12f'):
                got.append(t)
        return got[0] if len(got) == 1 else None

    def wc(I, t):
        n = value_node(I, 'real')
        lay = hosted(I, 'real', n)
        w = waypoint(W, I, t(lay), 'real', ref=lay)
        return attr_of(I.norm(I.getattr(w, 'tag')), 'time')
    table = {'Time.value =': tv, 'layer.duration =': tl,
             'layer["duration"] =': ts,
             'Animation.end_time =': an('end_time', 'end-time'),
             'Animation.begin_time =': an('begin_time', 'begin-time'),
             'timeline.add': wp, 'Waypoint()': wc}
    values = [(K(x), 'number') for x in (
        0, 1, 36, 24.0, 0.5, 1441, 86400, 90061.5, 100, 3600)] + \
        [(K(x), 'text') for x in ('1s', '36f', '1h', '1m 5s 3f', '90s',
                                  '0.5s', '0s 48f', '0s 48f ', ' 1s',
                                  '-1m 5s', '1h1m', '90m', '0f', '00s',
                                  '1.0s', '01s')] + \
        [(K(x), 'T') for x in ('1s', '36f', '1h', '1m 5s 3f', '0f',
                               '-2s')] + \
        [(arg('when', 'float'), 'number'), (arg('when', 'float'), 'T')]
    for name, f in table.items():
        for v, how in values:
            who = '%s %s (%s)' % (name, shown(W.I, v), how)

            def run(I, f=f, v=v, how=how, who=who, name=name):
                made = []

                def t(tag):
                    made.append(tag)
                    if how == 'T':
                        return I.call(W.T, [v], {'ref': tag})
                    return v
                try:
                    got = f(I, t)
                    want = I.ext.str_(I, I.call(W.T, [v], {'ref': made[0]}))
                except PyRaise:
                    return
                if got is None:
                    R.undecided(who)
                    return
                got = I.norm(got)
                if isinstance(got, Inst):
                    # Beautiful Soup takes str() of it
                    got = I.ext.str_(I, got)
                got, want = text_of(I, got), text_of(I, want)
                if isinstance(got, K) and isinstance(want, K):
                    R.decided(who)
                    why = bad_constant(str(got.v))
                    if why is None and got.v != want.v and \
                            got.v not in (
                                alone(W, I, v), alone(W, I, K(
                                    '%.9gf' % reference_parse(
                                        want.v, 24.0)))):
                        why = '%r is written rather than %r' % (
                            got.v, want.v)
                    if why:
                        R.violation('C10:written:%s' % name, '%s: %s' % (
                            who, why), where(W))
                    return
                why, sure = shape_problem(I, got)
                if why:
                    R.violation('C10:written:%s' % name, '%s: %s' % (
                        who, why), where(W))
                if sure:
                    R.decided(who)
                else:
                    R.undecided(who)
            R.explore(who, run, 1000 if R.thorough else 200)


def alone(W, I, v):
    """The text form of a time when the frame rate isn't known."""
    try:
        t = text_of(I, I.ext.str_(I, I.call(W.T, [v], {})))
    except PyRaise:
        return None
    return t.v if isinstance(t, K) else None


def value_of(lay, name):
    for p in kids_of(lay):
        if attr_of(p, 'name') == K(name):
            return kids_of(p)[0]
