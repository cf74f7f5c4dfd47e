"""C19: Bywords changes only the words it animates, and saves last."""
from .files import *
from .c05 import inside
from .c17 import changed_nodes

RULE = ('Effect analysis of adjust(): on every path, each element of the '
        'document which differs afterwards lies inside the "text" parameter '
        'of a text layer in a group which is described as "bywords..." and '
        'whose words are those of a line; nothing else is changed. Ordering '
        'analysis of main(): on every path, the animation file is opened '
        'for writing at most once, never before the subtitles and the '
        'animation were read and adjusted, and not at all on paths which '
        'fail earlier; no other file is opened for writing; and on paths '
        'which end normally it was saved.')
SCOPE = ('adjust() on animations with matching and other groups, with text '
         'layers outside groups, in nested groups and of other types, with '
         'static and animated texts; subtitles which match, do not match, '
         'match several times, are empty or are unknown; word at a time and '
         'letter at a time. main() with the subtitles given and not given, '
         'every reading step failing or not.')
MINIMUM = 30
PARALLEL = True

ADJUST = 'bywords/adjust.py'


def moment(ms):
    return Tup([K(ms), K(ms // 3600000), K(ms // 60000 % 60),
                K(ms // 1000 % 60), K(ms % 1000)],
               ['ordinal', 'hours', 'minutes', 'seconds', 'milliseconds'])


def line(i, start, length, text):
    if not isinstance(text, AV):
        text = K(text)
    return Tup([K(i), moment(start), moment(start + length), moment(length),
                text, text, K('')],
               ['index', 'start', 'end', 'duration', 'text',
                'text_without_tags', 'position'])


def subtitles(I, lines):
    r = []
    for i, (start, length, text) in enumerate(lines):
        r.append(line(i + 1, start, length, text))
    return I.new_list(r)


def text_layer(I, desc, shape='plain', label=None):
    v = {'plain': lambda: value_node(I, 'string', 'text'),
         'empty': lambda: new_node(I, 'string'),
         'animated': lambda: animated_node(I, 'string', label='text'),
         }[shape]()
    return layer_node(I, 'text', [
        param_node(I, 'amount', value_node(I, 'real', 'amount')),
        param_node(I, 'color', value_node(I, 'color', 'color')),
        param_node(I, 'text', v),
        param_node(I, 'family', value_node(I, 'string', 'family')),
        param_node(I, 'origin', value_node(I, 'vector', 'origin')),
    ], [('desc', K(desc))] if desc is not None else [],
        label=label or 'the text layer %r' % desc, open_=False)


def group(I, desc, *layers):
    return group_node(I, *layers, label='the group %r' % desc, open_=False,
                      attrs=[('desc', K(desc))] if desc is not None else [])


def circle(I, desc):
    return layer_node(I, 'circle', [
        param_node(I, 'radius', value_node(I, 'real', 'radius')),
        param_node(I, 'text', value_node(I, 'string', 'not text'))],
        [('desc', K(desc))], label='the circle %r' % desc, open_=False)


def documents(shape):
    """name, what makes the layers, lines -> descriptions which match."""
    T = lambda I, d, s=None: text_layer(I, d, s or shape)
    return {
        'two groups': (lambda I: [
            group(I, 'bywords-1', T(I, 'Hello'), T(I, 'big world')),
            group(I, 'bywords-2', T(I, 'Good'), T(I, 'bye'))],
            {'big world hello': [0], 'hello big world': [0],
             'bye good': [1], 'good bye': [1]}),
        'others': (lambda I: [
            T(I, 'Hello'), circle(I, 'Hello'),
            group(I, 'words', T(I, 'Hello')),
            group(I, None, T(I, 'Hello')),
            group(I, 'bywords', circle(I, 'Hello'), T(I, 'Hello')),
            group(I, 'Not bywords', T(I, 'Hello'))],
            {'hello': [4]}),
        'nested': (lambda I: [
            group(I, 'outer', T(I, 'Hello'), group(
                I, 'ByWords x', T(I, 'Hello'), group(
                    I, 'deep', T(I, 'there')))),
            group(I, 'bywords', group(I, 'inner', T(I, 'Hello')))],
            {}),
        'alike': (lambda I: [
            group(I, 'bywords a', T(I, 'Hello')),
            group(I, 'bywords b', T(I, 'Hello')),
            group(I, 'bywords c', T(I, 'Hello you'))], {}),
        'empty groups': (lambda I: [
            group(I, 'bywords a'), group(I, 'bywords b', circle(I, 'x')),
            T(I, 'Hello')], {}),
        'no groups': (lambda I: [T(I, 'Hello'), circle(I, 'Hello')], {}),
        'punctuation': (lambda I: [
            group(I, 'bywords', T(I, 'HOW'), T(I, "It's a-ok, yes?")),
            T(I, 'HOW')], {}),
        'spaces': (lambda I: [
            group(I, 'bywords ', T(I, ' Hello '), T(I, 'big  world\n')),
            group(I, 'bywords 2', T(I, 'Hello ')),
            group(I, ' bywords', T(I, 'Hello'))], {}),
        'no words': (lambda I: [
            group(I, 'bywords', T(I, ''), T(I, 'Hello')),
            group(I, 'bywords x', T(I, '!?'))], {}),
    }


LINES = {
    'one line': [(1000, 2000, 'Hello')],
    'two words': [(1000, 2000, 'Hello big world')],
    'reversed': [(1000, 2000, 'big world Hello')],
    'both': [(1000, 2000, 'big world hello'), (5000, 1000, 'Bye, good!'),
             (7000, 1000, 'Good bye')],
    'no match': [(1000, 2000, 'Something else'), (4000, 500, '')],
    'twice': [(1000, 2000, 'Hello'), (5000, 2000, 'Hello')],
    'match, then not': [(1000, 2000, 'Hello'), (5000, 2000, 'Other')],
    'not, then match': [(1000, 2000, 'Other'), (5000, 2000, 'Hello')],
    'at once': [(0, 2000, 'Hello'), (0, 0, 'Hello')],
    'punctuation': [(10, 99, "How it's aok yes"),
                    (1000, 99, "It's a-ok, yes? How")],
    'none': [],
    'spaces': [(1000, 100, 'Hello '), (2000, 100, 'big  world\n hello '),
               (3000, 100, 'hello')],
    'nothing': [(1000, 100, ''), (2000, 100, ' hello'),
                (3000, 100, 'hello ')],
    'nested': [(1000, 100, 'hello there'), (2000, 100, 'there hello')],
    'prefix': [(1000, 100, 'hell'), (2000, 100, 'hello y'),
               (3000, 100, 'bywords'), (4000, 100, 'hello you')],
}


def tidy(s):
    """How Bywords compares texts, from its documentation and tests."""
    return ''.join(c for c in s.lower() if c in
                   'abcdefghijklmnopqrstuvwxyz0123456789 ')


def layers_in(n):
    return [x for x in dom.descendants(n) if isinstance(x, NodeObj) and
            x.name == K('layer')]


def attr(n, k):
    v = attr_of(n, k)
    return v.v if isinstance(v, K) else None


def allowed(root, lines):
    """The elements which may be changed: "text" parameters."""
    r = []
    said = [sorted(tidy(t).split()) for _, _, t in lines]
    for g in layers_in(root):
        if attr(g, 'type') != 'group' or not (
                attr(g, 'desc') or '').lower().startswith('bywords'):
            continue
        texts = [x for x in layers_in(g) if attr(x, 'type') == 'text']
        # the words in whichever order; that is for Bywords to know
        words = sorted(tidy(' '.join(attr(x, 'desc') or ''
                                     for x in texts)).split())
        if words not in said:
            continue
        for x in texts:
            for p in kids_of(x):
                if p.name == K('param') and attr(p, 'name') == 'text':
                    r.append(p)
    return r


def was_under(n, p):
    while n is not None:
        if n is p:
            return True
        n = getattr(n, 'oparent', None)
    return False


def check(W, R):
    for shape in ('plain', 'empty', 'animated'):
        for dname, (make, _) in documents(shape).items():
            for lname, lines in LINES.items():
                for letters in (False, True):
                    if shape == 'empty' and not R.thorough and \
                            dname != 'two groups':
                        continue
                    adjusting(R, W, shape, dname, make, lname, lines,
                              letters)
    unknown_lines(R, W)
    mains(R, W)


def adjusting(R, W, shape, dname, make, lname, lines, letters):
    who = 'adjust(): %s (%s), %s%s' % (dname, shape, lname,
                                      ', by letter' if letters else '')

    def run(I):
        a = animation(W, I, *make(I))
        root = tag_of(I, a)
        ok = allowed(root, lines)
        srt = subtitles(I, lines)
        f = W.find('bywords.adjust', 'adjust')
        if f is None:
            raise AnchorGone('bywords.adjust.adjust')
        failed = None
        try:
            I.call(f, [srt, a], {'letter_at_a_time': TRUE} if letters
                   else {})
        except PyRaise as e:
            failed = e
        R.decided(who)
        for e in I.log:
            if writes(e) and e[1].via != 'mem':
                R.violation('C19:adjust writes', '%s opens a file for '
                            'writing' % who, e[-1])
        for n in changed_nodes(I):
            if not any(inside(n, p) or was_under(n, p) for p in ok):
                R.violation('C19:adjust', '%s changes %s: %s' % (
                    who, describe(I, n), '; '.join(dom.node_changes(I, n))),
                    first_mutation(I) or ADJUST)
                return
        for p in ok:
            bad_ = [c for c in dom.node_changes(I, p)
                    if not c.startswith('children')]
            if bad_:
                R.violation('C19:adjust', '%s changes the parameter itself: '
                            '%s' % (who, bad_[0]), first_mutation(I))
            if attr(p, 'name') != 'text':
                R.violation('C19:adjust', '%s renames a parameter' % who,
                            first_mutation(I))
        if failed is None:
            timelines(R, W, I, who, ok, lines)
    R.explore(who, run, 200 if R.thorough else 40)


def timelines(R, W, I, who, ok, lines):
    """What was animated shows parts of its own words, in its line's time."""
    for p in ok:
        lay = p.parent
        desc = attr(lay, 'desc') or ''
        kids = [k for k in kids_of(p)]
        if len(kids) != 1 or kids[0].name != K('animated'):
            continue
        R.decided(who + ': the words shown')
        for w in kids_of(kids[0]):
            for s in kids_of(w):
                ts = [text_of(I, t) for t in s.children]
                if not all(isinstance(t, K) for t in ts):
                    continue
                t = ''.join(str(t.v) for t in ts)
                if not desc.startswith(t):
                    R.violation('C19:words', '%s: the layer %r shows %r, '
                                'which is no part of its words' % (
                                    who, desc, t), ADJUST)


def describe(I, n):
    names = []
    x = n
    while isinstance(x, NodeObj) and len(names) < 5:
        nm = attr(x, 'name')
        names.append(x.label or '<%s%s>' % (
            shown(I, x.name).strip("'"), ' "%s"' % nm if nm else ''))
        if x.label:
            break
        x = x.parent
    return ' in '.join(names)


def unknown_lines(R, W):
    """Subtitles of which nothing is known."""
    for shape in ('plain', 'animated'):
        for dname in ('others', 'nested', 'no groups', 'empty groups'):
            make = documents(shape)[dname][0]
            for n in (1, 2):
                who = 'adjust(): %s (%s), %d unknown lines' % (
                    dname, shape, n)

                def run(I, make=make, n=n, who=who):
                    a = animation(W, I, *make(I))
                    root = tag_of(I, a)
                    srt = subtitles(I, [
                        (1000 * i, 500, arg('line %d' % i, 'str'))
                        for i in range(n)])
                    f = W.find('bywords.adjust', 'adjust')
                    try:
                        I.call(f, [srt, a], {})
                    except PyRaise as e:
                        pass
                    R.decided(who)
                    ok = []
                    for g in layers_in(root):
                        if attr(g, 'type') == 'group' and (
                                attr(g, 'desc') or '').lower().startswith(
                                    'bywords'):
                            for x in layers_in(g):
                                if attr(x, 'type') == 'text':
                                    ok += [p for p in kids_of(x)
                                           if attr(p, 'name') == 'text']
                    for x in changed_nodes(I):
                        if not any(inside(x, p) or was_under(x, p)
                                   for p in ok):
                            R.violation('C19:adjust', '%s changes %s' % (
                                who, describe(I, x)),
                                first_mutation(I) or ADJUST)
                            return
                R.explore(who, run, 200 if R.thorough else 40)


def mains(R, W):
    main = W.find('bywords.__main__', 'main')
    if main is None:
        raise AnchorGone('bywords.__main__.main')
    names = {'sif': XML_START, 'sifz': GZIP_START}
    for dname in ('others', 'no groups', 'two groups'):
        for lname in ('one line', 'no match', 'both', 'none'):
            for ext, magic in names.items():
                for fail in ((), ('open',), ('serialise', 'encode'),
                             ('commandline',)):
                    for srt in (True, False):
                        for letter in (True, False):
                            if not R.thorough and fail and (
                                    letter or dname != 'others'):
                                continue
                            who = 'bywords a.%s%s%s (%s, %s%s)' % (
                                ext, ' b.srt' if srt else '',
                                ' --letter' if letter else '', dname, lname,
                                ', %s failing' % '/'.join(fail) if fail
                                else '')
                            running(R, W, main, who,
                                    documents('plain')[dname][0],
                                    LINES[lname], magic, fail,
                                    commandline('a.' + ext, srt, letter))
    for ext, magic in names.items():
        running(R, W, main, 'bywords with an unknown command line (%s)' %
                ext, documents('plain')['others'][0], LINES['no match'],
                magic, (), None)


def commandline(sif, srt, letter):
    def f(v, i, action):
        ts = v.types if isinstance(v, Opq) else None
        if i == 0 and ts == {'str'}:
            return K(sif)
        if action == 'store_true':
            return K(letter)
        if action == 'count':
            return K(2 if letter else 0)
        if ts == {'str', 'NoneType'}:
            return K('b.srt') if srt else NONE
    return f


def running(R, W, main, who, make, lines, magic, fail, cmd):
    def run(I):
        root = canvas_root(I, make(I))
        I.hooks['soup'] = lambda I: root
        I.hooks['read'] = file_starting(magic)
        I.hooks['srt'] = lambda I: subtitles(I, lines)
        given = []

        def choose(v, i, action):
            r = cmd(v, i, action) if cmd else None
            if i == 0:
                given.append(r or v)
            return r
        I.hooks['commandline'] = choose
        if fail:
            I.hooks['fail'] = fail
        failed = None
        try:
            I.call(main, [], {})
        except PyRaise as e:
            failed = e
        finally:
            I.hooks.clear()
        R.decided(who)
        outs = []
        first = {}
        for i, e in enumerate(I.log):
            if writes(e) and e[1].via != 'mem':
                outs.append((i, e))
            elif e[0] in ('unlink', 'truncate') or e[0] == 'rename':
                outs.append((i, e))
            elif e[0] == 'srt-open' or e[0] == 'open':
                first.setdefault(e[0], i)
                if outs:
                    R.violation('C19:order', '%s: something is read after '
                                'the animation was written' % who, e[-1])
            elif e[0] == 'mutate' and outs:
                # only what changes the document is of interest
                if e[1].origin == 'doc':
                    R.violation('C19:order', '%s: the animation is changed '
                                'after it was written' % who, e[-1])
        named = [e for _, e in outs if e[0] == 'open' and
                 not is_temp(I, e[2])]
        for e in named:
            if given and not same_name(I, e[2], given[0]) and not \
                    renamed_later(I, e):
                R.violation('C19:target', '%s: writes to %s, not to the '
                            'animation file given' % (who, shown(
                                I, e[2])), e[-1])
        if len(named) > 1:
            R.violation('C19:twice', '%s: the animation is written %d times'
                        % (who, len(named)), named[1][-1])
        if failed is not None:
            R.decided(who + ': failing')
            if outs and not during_save(failed, fail):
                R.violation('C19:failed', '%s: fails with %s after the file '
                            'was opened for writing' % (who, failed.name),
                            failed.loc)
            return
        if outs and ('srt-open' not in first and 'open' not in first):
            R.violation('C19:order', '%s: nothing was read' % who, outs[0][1])
        if not named and not any(e[0] == 'rename' for _, e in outs):
            R.violation('C19:unsaved', '%s: ends normally, but nothing was '
                        'saved' % who, 'bywords/__main__.py')
    R.explore(who, run, 200 if R.thorough else 60)


def during_save(e, fail):
    c = getattr(e, 'cause', None)
    return e.implicit or isinstance(c, tuple) and c and c[0] == 'open'


def renamed_later(I, e):
    return any(x[0] == 'rename' and same_name(I, x[1], e[2])
               for x in I.log)
