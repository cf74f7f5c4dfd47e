"""C28: Bywords shows every word of a line, in order and in proportion."""
from fractions import Fraction

from .c19 import *
from .c19 import attr, text_layer, group, circle, tidy, line, layers_in
from .. import ext, linear

RULE = ('adjust() is interpreted on documents and subtitles whose words are '
        'known; on every path, the waypoints which each text layer ends up '
        'with must be those which the words of its line call for: their '
        'order, texts, times and interpolations. With the start and the '
        'duration of the line unknown, the time of each word is brought into '
        'polynomial normal form, and must be the start of the line plus the '
        'share of its duration which the words before it have.')
SCOPE = ('Groups of one to four text layers with one to five words, in '
         'nested groups and with other layers among them, plain, empty and '
         'animated; one to three lines, which match, do not match, follow '
         'each other, overlap and coincide; word at a time and letter at a '
         'time; several frame rates; every start and duration.')
ASSUMPTIONS = ['rounding of floating-point numbers is ignored',
               'each line matches at most one group']
MINIMUM = 100
PARALLEL = True

WHERE = 'bywords/bywords.py'

# descriptions of the text layers, topmost first, for each group
GROUPS = {
    'a word': [['Hello']],
    'two words': [['Hello world']],
    'two layers': [['HOW', 'can I sing like a']],
    'three layers': [['by the rest', 'of', 'the world?']],
    'four layers': [['not be', 'stigmatised', 'I', 'a b c d e']],
    'alike words': [['da da da', 'da', 'da da']],
    'punctuation': [["It's a-ok,", 'yes? "Yes"']],
    'one letter': [['I']],
    'spaces': [['big  bad', 'wolf']],
    'two groups': [['HOW', 'can I sing'], ['like a girl']],
    'three groups': [['one two'], ['three', 'four five'], ['six']],
    'same words': [['the', 'the end', 'the', 'the end']],
    'digits': [['take 1', '2']],
    'prefixes': [['how'], ['how', 'are you'], ['how are']],
    'same layers': [['the end'], ['the', 'start']],
}

TIMES = [(0, 2000), (1000, 2000), (2700, 3300), (12345, 678), (1, 1),
         (0, 1), (3600000, 61000), (5, 0), (0, 0)]
RATES = ['24.000', '25.000', '29.970030', '0.500']


def layouts(name):
    return ['plain', 'empty', 'animated'] if name in (
        'two layers', 'two groups') else ['plain']


def check(W, R):
    for name, groups in GROUPS.items():
        for shape in layouts(name):
            for letters in (False, True):
                if letters and name == 'spaces':
                    continue
                for lname, lines in scripts(groups, R.thorough):
                    one(R, W, name, groups, shape, letters, lname, lines,
                        '24.000')
    for rate in RATES[1:]:
        for letters in (False, True):
            for start, length in ((1000, 2000), (12345, 678)):
                one(R, W, 'two layers', GROUPS['two layers'], 'plain',
                    letters, 'from %d for %d' % (start, length),
                    [(start, length, 0)], rate)
    for name, groups in GROUPS.items():
        for letters in (False, True):
            if letters and name == 'spaces':
                continue
            for order in (False, True):
                unknown(R, W, name, groups, letters, order)


def scripts(groups, thorough):
    """name, [(start, duration, number of the group or text)]"""
    n = len(groups)
    for start, length in TIMES:
        r = []
        t = start
        for i in range(n):
            r.append((t, length, i))
            t += length + 250
        yield 'from %d for %d' % (start, length), r
    if n > 1:
        yield 'at once', [(1000, 2000, i) for i in range(n)]
        yield 'at once, briefly', [(1000, 0, i) for i in range(n)]
        yield 'overlapping', [(1000 + 700 * i, 2000, i) for i in range(n)]
        yield 'the other way round', [
            (9000 - 2000 * i, 1500, i) for i in range(n)]
    yield 'with others', [(0, 500, 'nothing like it'), (600, 1200, 0),
                          (2000, 100, ''), (2100, 100, 'hell'),
                          (2200, 50, '?!')]
    yield 'twice', [(1000, 900, 0), (4000, 1800, 0)]
    yield 'none', []
    for i, g in enumerate(groups):
        t = spoken(g)
        yield 'lines like that of group %d' % i, [
            (1000 * k, 500, x) for k, x in enumerate((
                t + ' more', 'more ' + t, ' ' + t + ' ', t[:-2],
                t + t, t + ' 1', '1 ' + t, ' '.join(t.split()[1:]),
                ' '.join(t.split()[:-1]), ' '.join(t.split()[::-1]) + ' x',
                t.replace(' ', ''), t.replace(' ', ' and '),
                t.replace('1', '2'), t.replace('a', 'b').replace('I', 'u')
                .replace('E', 'u').replace('A', 'b')))
            if tidy(x) != tidy(t) and all(
                tidy(x) != tidy(spoken(o)) for o in groups)]
    yield 'no match', [(1000, 900, 'something else')]


def words_of(desc, letters):
    """(text up to the word, characters in the word)"""
    r = []
    end = 0
    for w in ([c for c in desc if not c.isspace()] if letters
              else desc.split()):
        i = desc.index(w, end)
        end = i + len(w)
        r.append((desc[:end], len(w)))
    return r


def spoken(descs):
    return ' '.join(descs).upper() if len(descs) % 2 else \
        ' '.join(descs) + '!'


def layers(I, groups, shape, deep=False):
    """The groups, which the document lists from the bottom to the top."""
    r = [text_layer(I, 'not a word', 'plain', label='loose text'),
         circle(I, 'circle')]
    texts = []
    for i, descs in enumerate(groups):
        ts = [text_layer(I, d, shape, label='layer %d of group %d' % (
            j, i)) for j, d in enumerate(descs)]
        texts.append(ts)
        inner = list(reversed(ts))
        if deep:
            inner = [group(I, 'inner', *inner[:1])] + inner[1:]
        inner.insert(1, circle(I, 'Hello'))
        r.append(group(I, 'bywords-%s' % 'cab'[i % 3], *inner))
    return r, texts


def expected(groups, lines, letters):
    """{(group, layer): [(ms, text)]} for the layers which get words"""
    r = {}
    shown = []
    for start, length, i in lines:
        if not isinstance(i, int):
            continue
        ws = [(j, t, n) for j, d in enumerate(groups[i])
              for t, n in words_of(d, letters)]
        total = sum(n for _, _, n in ws)
        before = 0
        for j, t, n in ws:
            shown.append((Fraction(start) + Fraction(length) * before /
                          total, i, j, t))
            before += n
    shown.sort(key=lambda x: x[0])
    for ms, i, j, t in shown:
        w = r.setdefault((i, j), [(Fraction(0), '')])
        if w[-1][0] == ms:
            w.pop()
        w.append((ms, t))
    return r


def one(R, W, name, groups, shape, letters, lname, lines, rate):
    who = 'adjust(): %s (%s)%s, %s%s' % (
        name, shape, ', by letter' if letters else '', lname,
        '' if rate == '24.000' else ' at %s frames a second' % rate)
    deep = name == 'three layers'

    def run(I):
        ls, texts = layers(I, groups, shape, deep)
        a = animation(W, I, *ls, attrs={'fps': rate})
        root = tag_of(I, a)
        srt = subtitles(I, [
            (s, d, spoken(groups[t]) if isinstance(t, int) else t)
            for s, d, t in lines])
        f = W.find('bywords.adjust', 'adjust')
        if f is None:
            raise AnchorGone('bywords.adjust.adjust')
        try:
            I.call(f, [srt, a], {'letter_at_a_time': TRUE} if letters
                   else {})
        except PyRaise as e:
            if e.implicit and isinstance(e.cause, tuple) and \
                    from_document(e.cause):
                return
            R.decided(who)
            R.violation('C28:raises', '%s raises %s' % (who, e.name), e.loc)
            return
        want = expected(groups, lines, letters)
        for i, ts in enumerate(texts):
            for j, n in enumerate(ts):
                w = want.get((i, j))
                if w is None:
                    R.decided('%s: the layer %r' % (who, groups[i][j]))
                    if any(was_under(x, n) or inside(x, n)
                           for x in changed_nodes(I)):
                        R.violation('C28:match', '%s: the layer %r is '
                                    'changed, though its group matches no '
                                    'line' % (who, groups[i][j]), WHERE)
                    continue
                got = waypoints(W, I, n, root)
                if got is None:
                    R.undecided(who)
                    continue
                R.decided('%s: the layer %r' % (who, groups[i][j]))
                compare(R, who, groups[i][j], got, [
                    (float(ms * Fraction(rate) / 1000), t)
                    for ms, t in w])
    R.explore(who, run, 20)


def waypoints(W, I, n, root):
    """[(frames, text, before, after)], None if they can't be told."""
    ps = [p for p in kids_of(n) if attr(p, 'name') == 'text']
    if len(ps) != 1:
        return []
    kids = kids_of(ps[0])
    if len(kids) != 1 or kids[0].name != K('animated'):
        return []
    r = []
    for w in kids_of(kids[0]):
        t = attr_of(w, 'time')
        try:
            # it may not have been turned into text yet
            t = I.norm(ext.str_(I, t))
            if not isinstance(t, (K, Inst)):
                return None
            f = I.norm(I.getattr(I.call(W.T, [t], {'ref': root}), 'frames'))
        except PyRaise:
            return None
        if not isinstance(f, K):
            return None
        text = ''
        for s in kids_of(w):
            for x in s.children:
                x = text_of(I, x)
                if not isinstance(x, K):
                    return None
                text += str(x.v)
        r.append((float(f.v), text, attr(w, 'before'), attr(w, 'after')))
    return r


def compare(R, who, desc, got, want):
    def fail(key, text):
        R.violation('C28:' + key, '%s: the layer %r %s' % (who, desc, text),
                    WHERE)
    if not got:
        fail('words', 'is not animated')
        return
    if [x[0] for x in got] != sorted(x[0] for x in got):
        fail('order', 'has its waypoints in another order')
    # what is too near in time to be told apart may be merged
    texts = [x[1] for x in got]
    if texts != [t for _, t in want]:
        near = [w for w, nxt in zip(want, want[1:] + [None])
                if nxt is None or nxt[0] - w[0] > 1e-3]
        if texts != [t for _, t in near]:
            fail('words', 'shows %s rather than %s' % (
                texts, [t for _, t in want]))
            return
        want = near
    for g, w in zip(got, want):
        if abs(g[0] - w[0]) > 0.01 + 1e-6 * w[0]:
            fail('time', 'shows %r at frame %g rather than %g' % (
                g[1], g[0], w[0]))
            return
        if g[2] != 'constant' or g[3] != 'constant':
            fail('interpolation', 'fades into %r' % g[1])
            return


START, LENGTH = 'start', 'length'


def unknown(R, W, name, groups, letters, reverse):
    """Lines which start and last for unknown times, one after another."""
    who = 'Bywords: %s%s, unknown times%s' % (
        name, ', by letter' if letters else '',
        ', last line first' if reverse else '')

    def run(I):
        B = W.find('bywords.bywords', 'Bywords')
        if B is None:
            return
        I.linear = True
        ls, texts = layers(I, groups, 'plain')
        a = animation(W, I, *ls)
        atoms = {}

        def number(label, positive):
            v = arg(label, 'int')
            I.bounds[term_of(v)] = (0, positive, None, False)
            atoms[label] = term_of(v)
            return v
        lines = []
        want = []
        t = {}
        for i in range(len(groups)):
            gap = number('gap %d' % i, False)
            dur = number('duration %d' % i, True)
            t = linear.add(t, linear.poly(term_of(gap)))
            start = gap if i == 0 else I.binop('Add', prev, gap)
            line_ = unknown_line(I, i, start, dur, spoken(groups[i]))
            lines.append(line_)
            ws = [(j, x, n) for j, d in enumerate(groups[i])
                  for x, n in words_of(d, letters)]
            total = sum(n for _, _, n in ws)
            before = 0
            for j, x, n in ws:
                share = linear.mult(linear.poly(term_of(dur)),
                                    {(): Fraction(before, total)})
                want.append((linear.mult(linear.add(t, share), {
                    (): Fraction(1, 1000)}), x, texts[i][j]))
                before += n
            t = linear.add(t, linear.poly(term_of(dur)))
            prev = I.binop('Add', start, dur)
        if reverse:
            lines.reverse()
        try:
            b = I.call(B, [], {'srt': I.new_list(lines), 'sif': a,
                               'letter_at_a_time': K(letters)})
            ws = I.iterate(b)
            got = [(I.norm(I.getattr(w, 'time')),
                    I.norm(I.getattr(w, 'text')),
                    tag_of(I, I.getattr(w, 'item'))) for w in ws]
        except PyRaise as e:
            R.undecided(who)
            return
        if not all(isinstance(x, (K, Opq)) and isinstance(y, K)
                   for x, y, _ in got):
            R.undecided(who)
            return
        R.decided(who)
        if [(y.v, z) for _, y, z in got] != [(y, z) for _, y, z in want]:
            R.violation('C28:words', '%s: the words are %s rather than %s' %
                        (who, [y.v for _, y, _ in got],
                         [y for _, y, _ in want]), WHERE)
            return
        for (x, y, _), (p, _, _) in zip(got, want):
            R.decided('%s: %r' % (who, y.v))
            q = linear.poly(term_of(x))
            if not linear.near(p, q):
                R.violation('C28:time', '%s: %r appears at %s rather than '
                            'at %s seconds' % (who, y.v, shown_poly(q),
                                               shown_poly(p)), WHERE)
                return
    R.explore(who, run, 30)


def shown_poly(p):
    r = []
    for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
        r.append('*'.join(['%.4g' % float(c)] + [show(x) for x in m]))
    return ' + '.join(r) or '0'


def unknown_line(I, i, start, dur, text):
    def at(v):
        return Tup([v], ['ordinal'])
    return Tup([K(i + 1), at(start), at(I.binop('Add', start, dur)),
                at(dur), K(text), K(text), K('')],
               ['index', 'start', 'end', 'duration', 'text',
                'text_without_tags', 'position'])
