"""C27: times and the frame count are what the document says, at any rate."""
import math
from fractions import Fraction

from .common import *
from .. import linear

RULE = ('The frame rate is an unknown text. The number of frames of each '
        'time, as an expression over the frame rate, is brought into '
        'polynomial normal form (value numbering up to the laws of '
        'arithmetic) on every path, and must be the polynomial which the '
        'specification stands for; likewise for seconds, for numbers which '
        'count back from the end, and for the frame count, which is that of '
        'the end minus that of the begin time, rounded down, plus one.')
SCOPE = ('T of specifications in every combination of units, positive and '
         'negative; negative numbers; the begin and end times and the frame '
         'count of animations with every pair of a dozen begin and end '
         'times; times of keyframes, waypoints and parameters; times '
         'anchored to the root, to layers and deep inside; for all frame '
         'rates.')
ASSUMPTIONS = ['rounding of floating-point numbers is ignored',
               'the frame rate is a positive number']
MINIMUM = 200
PARALLEL = True

WHERE = 'sangfroid/t.py'
SIZES = {'h': 3600, 'm': 60, 's': 1}
FPS = ('float', term_of(S('fps')))

SPECS = ['1s', '2.5s', '0.25s', '12f', '7.5f', '1h', '1m', '1h 1m 1s 1f',
         '2h 30m', '3m 20s', '1h 5s', '2h 7f', '4m 9f', '1s 12f', '0s 3f',
         '0s', '0f', '10s 48f', '1s12f', '1h1m', ' 1s 12f ', '100000f',
         '99h 59m 59s', '-1s', '-2.5s', '-1m', '-1h', '-1m 5s', '-1s 12f',
         '-1h 2m 3s 4f', '-12f', '0h 0m 0s 0f', '0m 5f', '0h 3s', '1m 0s',
         '1.5m', '0.1h', '30s 1.5f', '60s', '3600s', '90s 90f',
         '0.01m 5s', '0.0001h 5m 2s 3f', '0.5h 0.25m 0.125s', '0.001s 7f',
         '0.01m 0.5s 0.5f', '-0.01m 5s', '-0.5s 3f', '0h 2m', '0h 0m 4s 5f']


def meaning(spec):
    """The polynomial of a specification, from the documentation of T."""
    seconds, frames, sign = Fraction(0), Fraction(0), 1
    import re
    for number, unit in re.findall(r'(-?[0-9.]+)([hmsf])', spec):
        n = Fraction(number)
        if number.startswith('-'):
            sign = -1
            n = -n
        if unit == 'f':
            frames += n
        else:
            seconds += n * SIZES[unit]
    return linear.clean({(FPS,): sign * seconds, (): sign * frames})


def shown_poly(p):
    if not p:
        return '0'
    r = []
    for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
        c = float(c)
        r.append('*'.join(['%g' % c] * (c != 1 or not m) + [
            'fps' if x == FPS else '1/fps' if x == ('inv', FPS)
            else shown_atom(x) for x in m]))
    return ' + '.join(r)


def shown_atom(x):
    if x[0] in ROUND and isinstance(x[1], tuple):
        try:
            return '%s(%s)' % (x[0], shown_poly(dict(x[1])))
        except (TypeError, ValueError):
            pass
    return show(x)


ROUND = ('int', 'math.floor', 'math.trunc', 'floor')

# these don't give what a time or a count is said to be
OTHER = ('round', 'math.ceil')


def settled(p):
    """Whole numbers moved out of what is rounded down."""
    r = {}
    for m, c in p.items():
        extra = Fraction(0)
        if len(m) == 1 and m[0][0] in ROUND and isinstance(m[0][1], tuple):
            inner = {k: Fraction(round(float(x), 9)).limit_denominator(
                10**9) for k, x in dict(m[0][1]).items()}
            whole = inner.get((), Fraction(0))
            n = whole.numerator // whole.denominator
            inner[()] = whole - n
            inner = linear.clean(inner)
            extra = n * c
            if set(inner) <= {()}:
                inner = {}
            m = (('int', linear.frozen(inner)),) if inner else None
        if m is not None:
            r = linear.add(r, {m: c})
        if extra:
            r = linear.add(r, {(): extra})
    return r


class Check:
    def __init__(self, R, I, who, key):
        self.R, self.I, self.who, self.key = R, I, who, key

    def same(self, what, f, want, where=WHERE):
        try:
            v = self.I.norm(f())
        except PyRaise as e:
            if excused(e):
                return
            if self.odd_rate():
                return
            self.R.decided('%s: %s' % (self.who, what))
            self.R.violation('C27:%s:raises' % self.key, '%s: %s raises %s'
                             % (self.who, what, e.name), e.loc)
            return
        if not isinstance(v, (K, Opq)):
            self.R.undecided(self.who)
            return
        if isinstance(v, K) and (isinstance(v.v, bool) or
                                 not isinstance(v.v, (int, float))):
            self.R.violation('C27:%s' % self.key, '%s: %s is %r' % (
                self.who, what, v.v), where)
            return
        got = linear.poly(term_of(v))
        if self.unreadable(got):
            self.R.undecided(self.who)
            return
        self.R.decided('%s: %s' % (self.who, what))
        a, b = settled(got), settled(want)
        if not linear.near(a, b):
            self.R.violation('C27:%s' % self.key, '%s: %s is %s rather than '
                             '%s' % (self.who, what, shown_poly(got),
                                     shown_poly(want)), where)

    def odd_rate(self):
        """Whether the path is one of a rate which isn't a positive number."""
        lo = self.I.bounds.get(FPS, (None, False, None, False))
        return not (lo[0] is not None and lo[0] >= 0 and (
            lo[0] > 0 or lo[1]))

    def asked(self, op):
        """Whether the path depends on what this rounding gives."""
        return any(term_has(t, lambda x: len(x) > 1 and x[0] == op)
                   for t in self.I.facts
                   if t[0] not in ('isfinite', 'isnan', 'isinf'))

    def unreadable(self, p):
        """Whether there is something in it that we can't tell the value of."""
        for m in p:
            for x in m:
                if x == FPS or x == ('inv', FPS):
                    continue
                if x[0] in ROUND + OTHER and isinstance(x[1], tuple):
                    try:
                        if not self.unreadable(dict(x[1])) and not (
                                x[0] in OTHER and self.asked(x[0])):
                            continue
                    except (TypeError, ValueError):
                        pass
                return True
        return False


def fps_known(I):
    I.linear = True
    I.bound(FPS, lo=(0.0, True), hi=(math.inf, True))


def check(W, R):
    for spec in SPECS:
        specification(R, W, spec)
    for spec in SPECS:
        if not spec.strip().startswith('-'):
            places(R, W, spec)
    for b in ('0f', '0s', '1s', '12f', '1s 12f', '1m', '-1s'):
        for e in ('5s', '100f', '1s 12f', '1m 30s', '2h', '3s 1.5f', '60s',
                  '0f'):
            length(R, W, b, e)


def specification(R, W, spec):
    for ref in ('root', 'layer', 'deep', 'object'):
        who = 'T(%r) anchored to %s' % (spec, {
            'root': 'the root', 'layer': 'a layer', 'deep':
            'an element in a nested layer', 'object': 'an animation'}[ref])

        def run(I, ref=ref, who=who):
            fps_known(I)
            n = anchor(W, I, ref)
            C = Check(R, I, who, 'T')
            try:
                t = I.call(W.T, [K(spec)], {'ref': n})
            except PyRaise as e:
                if excused(e) or C.odd_rate():
                    return
                R.decided(who)
                R.violation('C27:T:raises', '%s raises %s' % (who, e.name),
                            e.loc)
                return
            m = meaning(spec)
            C.same('frames', lambda: I.getattr(t, 'frames'), m)
            C.same('float()', lambda: I.call(
                Ext('builtins.float'), [t], {}), m)
            if not spec.strip().startswith('-'):
                C.same('int()', lambda: I.call(
                    Ext('builtins.int'), [t], {}), {
                        (('int', linear.frozen(m)),): Fraction(1)}
                    if m else {})
            C.same('fps', lambda: I.getattr(t, 'fps'),
                   {(FPS,): Fraction(1)})
            C.same('seconds', lambda: I.getattr(t, 'seconds'), linear.mult(
                m, {(('inv', FPS),): Fraction(1)}))
            t2 = I.call(W.T, [t], {'ref': n})
            C.same('frames of T(T())', lambda: I.getattr(t2, 'frames'), m)
        R.explore(who, run, 100)


def anchor(W, I, ref):
    inner = layer_node(I, 'circle', [param_node(
        I, 'radius', value_node(I, 'real', 'r'))], label='inner')
    outer = group_node(I, inner, label='outer')
    at = {'fps': S('fps')}
    if ref == 'object':
        return animation(W, I, outer, attrs=at)
    root = document(I, outer, attrs=at)
    if ref == 'root':
        return root
    if ref == 'layer':
        return outer
    return kids_of(kids_of(inner)[0])[0]


def places(R, W, spec):
    """Times found in the document."""
    who = 'a document with times %r' % spec

    def run(I):
        fps_known(I)
        v = animated_node(I, 'real', (spec,), label='v')
        lay = layer_node(I, 'timeloop', [
            param_node(I, 'duration', new_node(I, 'time', {
                'value': K(spec)}))], label='loop')
        lay2 = layer_node(I, 'circle', [param_node(I, 'radius', v)],
                          label='circle')
        a = animation(W, I, lay, lay2, keyframe_times=[spec], attrs={
            'fps': S('fps'), 'begin-time': spec, 'end-time': spec})
        m = meaning(spec)
        C = Check(R, I, who, 'places')

        def frames(f):
            return lambda: I.getattr(f(), 'frames')
        C.same('begin_time', frames(lambda: I.getattr(a, 'begin_time')), m,
               'sangfroid/animation.py')
        C.same('end_time', frames(lambda: I.getattr(a, 'end_time')), m,
               'sangfroid/animation.py')
        C.same('time of the keyframe', frames(lambda: I.getattr(I.iterate(
            I.getattr(a, 'keyframes'))[0], 'time')), m,
            'sangfroid/keyframe.py')
        val = I.call(I.getattr(W.Value, 'from_tag'), [v], {})
        C.same('time of the waypoint', frames(lambda: I.getattr(I.iterate(
            I.getattr(val, 'timeline'))[0], 'time')), m,
            'sangfroid/value/value.py')
        C.same('the time parameter', frames(lambda: I.getattr(I.getattr(
            wrap_layer(W, I, lay), 'duration'), 'value')), m,
            'sangfroid/value/simple.py')
    R.explore(who, run, 100)


def length(R, W, b, e):
    who = 'an animation from %s to %s' % (b, e)
    d = linear.add(meaning(e), meaning(b), -1)

    def run(I):
        fps_known(I)
        a = animation(W, I, attrs={'fps': S('fps'), 'begin-time': b,
                                   'end-time': e})
        C = Check(R, I, who, 'framecount')
        want = {(('int', linear.frozen(d)),): Fraction(1),
                (): Fraction(1)} if d else {(): Fraction(1)}
        if not any(m for m in d):
            want = linear.clean({(): Fraction(int(d.get((), 0)) + 1)})
        C.same('framecount', lambda: I.getattr(a, 'framecount'), want,
               'sangfroid/animation.py')
        C = Check(R, I, who, 'from the end')
        for n in (1, 2, 0.5, 24, 100):
            C.same('T(%r)' % -n, lambda: I.getattr(I.call(
                W.T, [K(-n)], {'ref': tag_of(I, a)}), 'frames'),
                linear.add(d, {(): Fraction(1) - Fraction(n)}))
    R.explore(who, run, 100)
