"""C09: times are immutable; equality, hashing and ordering agree."""
import itertools

from .args import *

RULE = ('Effect and relational analysis: no operation changes the frames or '
        'frame rate of a time that already exists; on every path through '
        'the six comparisons of two times, their results agree with one '
        'another and with the comparison of the frames, equal times have '
        'the same hash term, and frame rates which are known to differ lead '
        'to ValueError.')
SCOPE = ('Every property, method and operator of T, and every library '
         'operation which is given a time; pairs of times with unknown '
         'frames, and constants (whole, fractional, very close, negative, '
         'zero); with no frame rate, the same or different frame rates, '
         'known and unknown.')
MINIMUM = 300
PARALLEL = True

CMP = ('==', '!=', '<', '<=', '>', '>=')


def where(W):
    return '%s (class T)' % W.I.relpath(W.T.mod.path)


def compare(I, op, a, b):
    return yes(I, I.compare(op, a, b))


def time(W, I, frames, fps):
    """fps: None for a time with none."""
    kw = {}
    if fps is not None:
        kw['ref'] = document(I, attrs={'fps': fps})
    if isinstance(frames, str):
        frames = K(frames)
    return I.call(W.T, [frames], kw)


def check(W, R):
    pairs(R, W)
    clashes(R, W)
    immutable(R, W)


def pairs(R, W):
    consts = [K(0), K(0.0), K(12), K(12.0), K(12.00001), K(12.0001),
              K(1e9), K(1e9 + 0.5), K(1.0000000001), K(1), '36f',
              K(0.5), K(1e-7)]
    fps = ('24.000', None)
    cases = []
    for a, b in itertools.product(consts, repeat=2):
        for f, g in itertools.product(fps, repeat=2):
            cases.append((a, f, b, g))
    for a, b in (('-1s', '-1s'), ('-1s', '1s'), ('-2s', '-1s'),
                 ('1s', K(24)), ('1s', '24f'), ('1s 1f', '25f'),
                 ('0s', '0f'), ('1h', '60m'), ('1m', '60s'),
                 ('-1s', K(0)), ('0.5s', '12f')):
        cases.append((a, '24.000', b, '24.000'))
    opq = [(arg('a', 'float'), arg('b', 'float')),
           (arg('a', 'float'), K(12.0)), (K(12.0), arg('b', 'float')),
           (arg('a', 'float'), arg('a', 'float')),
           (arg('a', 'int'), arg('b', 'float'))]
    for a, b in opq:
        for f, g in itertools.product(fps, repeat=2):
            cases.append((a, f, b, g))
    numbers(R, W, consts)
    cases.append((arg('a', 'float'), S('fps'), arg('b', 'float'), S('fps')))
    for a, f, b, g in cases:
        who = 'T(%s%s) and T(%s%s)' % (
            sh(a), ', %s fps' % f if f else '', sh(b),
            ', %s fps' % g if g else '')

        def run(I, a=a, b=b, f=f, g=g, who=who):
            try:
                if isinstance(f, Opq):
                    root = document(I, attrs={'fps': f})
                    x = I.call(W.T, [a], {'ref': root})
                    y = I.call(W.T, [b], {'ref': root})
                else:
                    x, y = time(W, I, a, f), time(W, I, b, g)
            except PyRaise:
                return
            relation(R, W, I, who, x, y)
        R.explore(who, run, 400 if R.thorough else 80)


def numbers(R, W, consts):
    """A time against a plain number, which counts frames."""
    cases = [(a, b) for a in consts + ['-1s', '1s', '1s 1f']
             for b in (0, 12, 12.0, 12.5, 12.00001, 1e9, 1, 1e-7, 24, -24,
                       25.0, -24.0, 2**53 + 1)]
    cases += [(K(12.5), 12), (K(24.5), 24), (K(0.5), 0), (K(1e-7), 0),
              (K(2.0**53), 2**53 + 1), (arg('a', 'float'), 12),
              (arg('a', 'float'), arg('b', 'float')),
              (arg('a', 'float'), arg('b', 'int')),
              (K(12), arg('b', 'float'))]
    for a, b in cases:
        for f in ('24.000', None):
            bb = b if isinstance(b, AV) else K(b)
            who = 'T(%s%s) and %s' % (
                sh(a), ', %s fps' % f if f else '', sh(bb))

            def run(I, a=a, b=bb, f=f, who=who):
                try:
                    x = time(W, I, a, f)
                except PyRaise:
                    return
                relation(R, W, I, who, x, b)
            R.explore(who, run, 400 if R.thorough else 80)


def sh(a):
    return repr(a) if isinstance(a, str) else repr(a.v) \
        if isinstance(a, K) else show(a.term)


def relation(R, W, I, who, x, y):
    r = {}
    fx = I.norm(I.getattr(x, 'frames'))
    fy = I.norm(I.getattr(y, 'frames')) if isinstance(y, Inst) else y
    for op in CMP:
        try:
            r[op] = compare(I, op, x, y)
        except PyRaise as e:
            if not e.implicit:
                R.violation('C09:compare', '%s: %s raises %s' % (
                    who, op, e.name), e.loc)
            return
    R.decided(who + ': comparisons')
    said = ', '.join('%s is %s' % (op, r[op]) for op in CMP)
    if (r['<'], r['=='], r['>']).count(True) != 1:
        R.violation('C09:exactly one', '%s: not exactly one of before, equal '
                    'and after holds: %s' % (who, said), where(W))
    elif r['!='] == r['=='] or r['<='] != (r['<'] or r['==']) or \
            r['>='] != (r['>'] or r['==']):
        R.violation('C09:agree', '%s: the comparisons disagree: %s' % (
            who, said), where(W))
    # and with the frames
    if isinstance(fx, K) and isinstance(fy, K):
        lt, eq = fx.v < fy.v, fx.v == fy.v
    else:
        tx, ty = term_of(fx), term_of(fy)
        eq = True if tx == ty else I.theory(I.eqterm(tx, ty))
        if eq is None:
            eq = I.facts.get(I.eqterm(tx, ty))
        lt = False if eq else I.facts.get(('<', tx, ty))
        if lt is None:
            lt = I.theory(('<', tx, ty))
    if eq is not None and eq != r['==']:
        R.violation('C09:frames', '%s: == is %s, but the frames are %s' % (
            who, r['=='], 'equal' if eq else 'different'), where(W))
    if lt is not None and lt != r['<'] and not (eq and r['==']):
        R.violation('C09:frames', '%s: < is %s, but of the frames it is %s'
                    % (who, r['<'], lt), where(W))
    if eq is None and lt is None:
        # nothing about the frames themselves was ever compared
        R.undecided(who)
    if r['==']:
        try:
            hx, hy = hash_of(I, x), hash_of(I, y)
        except PyRaise as e:
            R.violation('C09:hash', '%s: hash() raises %s' % (who, e.name),
                        e.loc)
            return
        R.decided(who + ': hashes')
        a, b = term_of(hx), term_of(hy)
        a, b = equal_terms(I, a), equal_terms(I, b)
        if a == b:
            return
        if isinstance(hx, K) and isinstance(hy, K) or \
                definite(I, a, b):
            R.violation('C09:hash', '%s are equal, but their hashes are %s '
                        'and %s' % (who, show(a), show(b)), where(W))
        else:
            R.undecided(who + ': hashes')


def hash_of(I, x):
    return I.norm(I.call(I.ext.builtin(I, 'hash'), [x], {}))


def equal_terms(I, t):
    """One name for all the terms that are known to be equal."""
    rep = {}
    for f, v in list(I.facts.items()):
        if v is True and f[0] == 'eq':
            a, b = sorted((f[1], f[2]), key=repr)
            rep[b] = a

    def go(t, depth=0):
        if depth > 40 or not isinstance(t, tuple):
            return t
        k = I.eqk.get(t)
        if k is not None:
            t = ('k', type(k.v).__name__, k.v)
        n = 0
        while t in rep and n < 9:
            t = rep[t]
            n += 1
        if t and t[0] == 'k':
            if isinstance(t[2], (int, float)) and not isinstance(
                    t[2], bool):
                return ('k', 'number', float(t[2]))
            return t
        return tuple(go(x, depth + 1) for x in t)
    return go(t)


def definite(I, a, b):
    """
    Whether two hashes certainly depend on different things: the same
    function of things, one of which is a different constant.
    """
    if a[0] == 'k' and b[0] == 'k':
        return a != b
    if len(a) != len(b) or a[0] != b[0]:
        return 'fps' in repr(a) or 'fps' in repr(b) or \
            constant_in(a) != constant_in(b)
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y:
            if x != y and definite(I, x, y):
                return True
        elif x != y:
            return True
    return False


def constant_in(t):
    r = set()

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'k':
                r.add(repr(t[2]))
            else:
                for x in t:
                    go(x)
    go(t)
    return r


def clashes(R, W):
    fs = [('24.000', '25.000'), ('24.000', '23.976'), ('12', '24'),
          (S('fps a'), S('fps b'))]
    vals = [(K(0), K(0)), (K(12), K(12)), (K(0), K(12)), (K(24), K(25)),
            (arg('a', 'float'), arg('b', 'float')), (K(0.0), K(1))]
    for f, g in fs:
        for a, b in vals:
            for op in CMP:
                who = 'T(%s) %s T(%s), %s and %s fps' % (
                    sh(a), op, sh(b), f, g)

                def run(I, f=f, g=g, a=a, b=b, op=op, who=who):
                    try:
                        x, y = time(W, I, a, f), time(W, I, b, g)
                        fx = I.norm(I.getattr(x, 'fps'))
                        fy = I.norm(I.getattr(y, 'fps'))
                    except PyRaise:
                        return
                    if I.truth(I.eq(fx, fy)):
                        return
                    try:
                        compare(I, op, x, y)
                    except PyRaise as e:
                        R.decided(who)
                        if e.name != 'ValueError' and not e.implicit:
                            R.violation('C09:clash', '%s raises %s rather '
                                        'than ValueError' % (who, e.name),
                                        e.loc)
                        return
                    R.decided(who)
                    R.violation('C09:clash:%s' % op, '%s does not raise '
                                'ValueError' % who, where(W))
                R.explore(who, run, 60)


def immutable(R, W):
    def make(I, how):
        if how == 'anchored':
            return time(W, I, arg('a', 'float'), '24.000')
        if how == 'unanchored':
            return time(W, I, arg('a', 'float'), None)
        if how == 'constant':
            return time(W, I, '1s 6f', '24.000')
        return time(W, I, K(12), None)
    ops = {}
    for n in descriptors(W, W.T):
        ops['.' + n] = lambda I, t, n=n: I.getattr(t, n)
        ops['.%s =' % n] = lambda I, t, n=n: I.setattr(t, n, K(7.0))
    for c in W.T.mro:
        if not isinstance(c, ClassObj):
            continue
        for n, v in c.ns.items():
            if not is_method(v) or n in ('__init__', '__new__',
                                         '__setattr__', '__set_name__',
                                         '__delattr__'):
                continue
            if n.startswith('_') and not n.startswith('__'):
                continue
            a = []
            if isinstance(v, Fn):
                a = v.node.args.args[1:]
                a = a[:len(a) - len(v.node.args.defaults)]
            elif n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__',
                       '__ne__'):
                a = ['other']
            for label, other in (('number', lambda I: K(5)),
                                 ('T', lambda I: time(W, I, K(5), None)),
                                 ('same fps', lambda I: time(
                                     W, I, K(5), '24.000'))):
                ops['%s(%s)' % (n, label)] = \
                    lambda I, t, n=n, k=len(a), other=other: method(
                        I, t, n, *[other(I) for _ in range(k)])
    ops['str()'] = lambda I, t: I.ext.str_(I, t)
    ops['T(t)'] = lambda I, t: I.call(W.T, [t], {})
    ops['T(t, ref)'] = lambda I, t: I.call(
        W.T, [t], {'ref': document(I)})

    def value(I):
        n = animated_node(I, 'real', ('12f', '48f'))
        hosted(I, 'real', n)
        return value_object(W, I, 'real', n)
    ops['timeline[t]'] = lambda I, t: I.getitem(
        I.getattr(value(I), 'timeline'), t)
    ops['timeline[t] ='] = lambda I, t: I.setitem(
        I.getattr(value(I), 'timeline'), t, K(1.0))
    ops['del timeline[t]'] = lambda I, t: I.delitem(
        I.getattr(value(I), 'timeline'), t)

    def wp(I, t):
        n = value_node(I, 'real')
        dom.adopt(I, n)
        return I.call(W.Waypoint, [], {
            'time': t, 'value': value_object(W, I, 'real', n)})
    ops['Waypoint(t)'] = lambda I, t: I.getattr(wp(I, t), 'tag')
    ops['str(Waypoint(t))'] = lambda I, t: I.ext.str_(I, wp(I, t))
    ops['timeline.add'] = lambda I, t: method(
        I, I.getattr(value(I), 'timeline'), 'add', wp(I, t))
    ops['timeline[0] = Waypoint(t)'] = lambda I, t: I.setitem(
        I.getattr(value(I), 'timeline'), K(0), wp(I, t))

    def tv(I):
        n = value_node(I, 'time')
        hosted(I, 'time', n)
        return value_object(W, I, 'time', n)
    ops['Time.value ='] = lambda I, t: I.setattr(tv(I), 'value', t)
    ops['Animation.end_time ='] = lambda I, t: I.setattr(
        animation(W, I), 'end_time', t)
    ops['Animation.begin_time ='] = lambda I, t: I.setattr(
        animation(W, I), 'begin_time', t)
    ops['Time(t)'] = lambda I, t: I.call(W.value_class('time'), [t], {})
    for how in ('anchored', 'unanchored', 'constant', 'constant unanchored'):
        for name, op in ops.items():
            who = '%s of a time (%s)' % (name, how)

            def run(I, op=op, who=who, name=name):
                t = make(I, how)
                before = {n: I.norm(I.getattr(t, n))
                          for n in ('frames', 'fps')}
                try:
                    op(I, t)
                except PyRaise:
                    pass
                R.decided(who)
                for n, v in before.items():
                    now = I.norm(I.getattr(t, n))
                    if now is not v and not (
                            isinstance(now, (K, Opq)) and
                            dom.same_value(I, now, v)):
                        R.violation('C09:%s' % name, '%s changes its %s '
                                    'from %s to %s' % (
                                        who, n, shown(I, v), shown(I, now)),
                                    where(W))
            R.explore(who, run, 100 if R.thorough else 30)
