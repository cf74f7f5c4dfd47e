"""C13: formats are chosen unambiguously and read as they were written."""
import itertools

from .files import *

RULE = ('Dataflow analysis of the bytes: on loading, which container the '
        'parser is given follows from the first bytes alone; on saving, '
        'which container is written follows from the extension alone, and '
        'the data written is the UTF-8 encoding of the text of the whole '
        'document, once; unknown signatures and extensions lead to '
        'ValueError; no two format classes share a signature or extension.')
SCOPE = ('Animation() and Animation.save with each known signature and '
         'extension in several spellings, combined with each other, and '
         'with unknown ones; saving without a name after nothing, or after '
         'one or two other saves, which worked or not.')
MINIMUM = 90
PARALLEL = True

LOADS = (('plain', XML_START), ('gzip', GZIP_START),
         ('zip', b'PK\x03\x04\x14\x00\x00\x00\x08\x00\x00\x00'),
         ('empty', b''), ('unknown', b'RIFF\x00\x00\x00\x00WEBP'),
         ('unknown', b'\x89PNG\r\n\x1a\n\x00\x00\x00\x00'),
         ('unknown', b'#!/bin/sh\n\n\n'), ('unknown', b'<c'),
         ('unknown', b'<'), ('unknown', b'\x1f\x9d\x90\x00\x00\x00'),
         ('unknown', b'\x8b\x1f\x08\x00\x00\x00'),
         ('unknown', b'?<xml version="1.0"'),
         ('unknown', b'P6\n1 1\n255\n'),
         ('unknown', b'\x00\x00\x00\x00\x00\x00'))
FILES = ('a.sif', 'a.sifz', 'a.sfg', 'a', 'A.SIFZ', 'a.txt')

SAVES = {'new.sif': 'plain', 'new.sifz': 'gzip', 'NEW.SIF': 'plain',
         'New.SifZ': 'gzip', 'new.SIFZ': 'gzip', 'new.v2.sif': 'plain',
         'new.sif.sifz': 'gzip', 'new.sifz.sif': 'plain',
         'd.sifz/new.sif': 'plain', '/d.sif/new.sifz': 'gzip',
         'sifz.sif': 'plain', 'sif.sifz': 'gzip', 'new.sfg.sif': 'plain',
         'a b.sif': 'plain', 'new.Sif': 'plain'}
REFUSED = ('new', 'new.txt', 'new.svg', 'new.sif.bak', 'new.sif~', 'sif',
           'sifz', 'new.sifzz', 'new.si', 'new.xsif', 'new.', 'newsif',
           'new.gz', 'new.zip', 'd.sif/new', 'new.sif/')


# ways of treating what can't be converted which lose it
LOSSY = ('xmlcharrefreplace', 'ignore', 'replace', 'backslashreplace', 'namereplace')
# what changes a document which is written
ALTERING = {'m:' + n for n in (
    'replace', 'lower', 'upper', 'title', 'capitalize', 'casefold',
    'swapcase', 'translate', 'expandtabs', 'split', 'splitlines')} | {
        'slice', 'getslice', 'sub'}


def lossy(R, I, who, since):
    for e in I.log[since:]:
        if e[0] == 'codec errors':
            R.decided(who + ': what can\'t be converted')
            if e[1] in LOSSY:
                R.violation('C13:lossy', '%s: what can\'t be converted is '
                            'not refused, but lost (errors=%r)' % (
                                who, e[1]), e[-1])


def where(W):
    return 'sangfroid/format.py'


def check(W, R):
    loading(R, W)
    saving(R, W)
    sequences(R, W)
    table(R, W)


def loading(R, W):
    for (kind, start), fname in itertools.product(LOADS, FILES):
        who = 'loading %r, which starts with %r' % (fname, start[:4])

        def run(I, kind=kind, start=start, fname=fname, who=who):
            root = canvas_root(I)
            I.hooks['soup'] = lambda I: root
            I.hooks['read'] = file_starting(
                start, whole=len(start) < 4)
            since = len(I.log)
            try:
                I.call(W.Animation, [K(fname)], {})
            except PyRaise as e:
                I.hooks.clear()
                if e.implicit:
                    return
                R.decided(who)
                if kind in ('plain', 'gzip'):
                    R.violation('C13:load refused', '%s raises %s' % (
                        who, e.name), e.loc)
                elif e.name != 'ValueError' and kind != 'zip':
                    R.violation('C13:load error', '%s raises %s rather than '
                                'ValueError' % (who, e.name), e.loc)
                return
            I.hooks.clear()
            R.decided(who)
            lossy(R, I, who, since)
            parses = [e for e in I.log[since:] if e[0] == 'parse']
            if kind not in ('plain', 'gzip'):
                R.violation('C13:load unknown', '%s is accepted' % who,
                            where(W))
                return
            for e in parses:
                R.site(e[-1])
                src = I.norm(e[1])
                feats = I.norm(e[2])
                if isinstance(feats, K) and feats.v not in (
                        'xml', 'lxml-xml'):
                    R.violation('C13:features', '%s: it is parsed as %r' % (
                        who, feats.v), e[-1])
                got, text, f = source(I, src)
                if got is None:
                    R.undecided(who + ': container')
                    continue
                R.decided(who + ': container')
                if got != kind:
                    R.violation('C13:load container', '%s is read as if it '
                                'were %s' % (who, got), e[-1])
                if text is not None and not utf8(text):
                    R.violation('C13:load encoding', '%s: it is decoded as '
                                '%s' % (who, text), e[-1])
                if f is not None and skipped(I, f, e):
                    R.violation('C13:load part', '%s: the parser is given '
                                'the file after its first bytes were read' %
                                who, e[-1])
        R.explore(who, run, 60)


def source(I, src):
    """(container, encoding if decoded, file) for what a parser is given."""
    enc = None
    if isinstance(src, FileObj):
        f = src
        base, layers = under(I, f)
        if 'b' not in f.mode:
            e = I.norm(f.enc) if f.enc is not None else None
            enc = e.v if isinstance(e, K) and isinstance(e.v, str) else \
                'the locale\'s encoding'
        return container(I, f), enc, f
    if isinstance(src, Opq):
        t = src.term
        n = 0
        while True:
            if t[0] in ('decode', 'm:decode'):
                enc = 'utf-8'
                if len(t) > 2 and t[2][0] == 'k':
                    enc = t[2][2]
                t = t[1]
            elif t[0] == 'gunzip':
                n += 1
                t = t[1]
            elif t[0] == 'filedata':
                if t[2] == 'gzip':
                    n += 1
                return ({0: 'plain', 1: 'gzip'}.get(n, 'gzip twice'),
                        enc, None)
            else:
                return None, None, None
    return None, None, None


def skipped(I, f, upto):
    pos = 0
    for e in I.log:
        if e is upto:
            break
        if e[0] == 'read' and e[1] is f:
            pos = 1
        elif e[0] == 'seek' and e[1] is f:
            pos = 0
    return pos


def saving(R, W):
    for origin, magic, fname in (('.sif', XML_START, 'old.sif'),
                                 ('.sifz', GZIP_START, 'old.sifz'),
                                 ('mislabelled', GZIP_START, 'old.sif'),
                                 ('new', None, None)):
        for target in list(SAVES) + list(REFUSED) + ['new.sfg', None]:
            who = 'save(%r) of a %s animation' % (target, origin)

            def run(I, origin=origin, magic=magic, fname=fname,
                    target=target, who=who):
                if fname is None:
                    a = I.call(W.Animation, [], {})
                else:
                    a = animation(W, I, magic=magic, filename=K(fname))
                soup = I.norm(I.getattr(a, 'tag')).parent
                since = len(I.log)
                try:
                    method(I, a, 'save', *([K(target)] if target else []))
                except PyRaise as e:
                    if e.implicit:
                        return
                    R.decided(who)
                    if target in SAVES or target is None and fname:
                        R.violation('C13:save refused', '%s raises %s' % (
                            who, e.name), e.loc)
                    elif target in REFUSED and e.name != 'ValueError':
                        R.violation('C13:save error', '%s raises %s rather '
                                    'than ValueError' % (who, e.name), e.loc)
                    return
                R.decided(who)
                if target in REFUSED or target is None and fname is None or \
                        target == 'new.sfg' and False:
                    R.violation('C13:save unknown', '%s is accepted' % who,
                                where(W))
                    return
                if target == 'new.sfg':
                    return
                name = target or fname
                want = SAVES[target] if target else (
                    'gzip' if magic == GZIP_START else 'plain')
                written(R, W, I, who, since, name, want, soup)
            R.explore(who, run, 60)


def sequences(R, W):
    """Saving without a name goes where it was last saved, or loaded from."""
    for origin, magic, fname in (('.sif', XML_START, 'old.sif'),
                                 ('.sifz', GZIP_START, 'old.sifz'),
                                 ('mislabelled', GZIP_START, 'old.sif'),
                                 ('new', None, None)):
        for first in ('b.sif', 'b.sifz', 'b.txt', 'b'):
            for second in (None, 'c.sif', 'c.sifz', 'c.txt'):
                who = 'save(%r), save(%s), save() of a %s animation' % (
                    first, repr(second) if second else '', origin)

                def run(I, origin=origin, magic=magic, fname=fname,
                        first=first, second=second, who=who):
                    if fname is None:
                        a = I.call(W.Animation, [], {})
                    else:
                        a = animation(W, I, magic=magic, filename=K(fname))
                    soup = I.norm(I.getattr(a, 'tag')).parent
                    name = fname
                    want = None if fname is None else \
                        'gzip' if magic == GZIP_START else 'plain'
                    for t in (first, second):
                        try:
                            method(I, a, 'save', *([K(t)] if t else []))
                        except PyRaise as e:
                            if e.implicit:
                                return
                            continue
                        if t:
                            name = t
                            want = 'gzip' if t.endswith('z') else 'plain'
                    since = len(I.log)
                    try:
                        method(I, a, 'save')
                    except PyRaise as e:
                        if e.implicit:
                            return
                        R.decided(who)
                        if name is not None:
                            R.violation('C13:save again', '%s raises %s' % (
                                who, e.name), e.loc)
                        elif e.name != 'ValueError':
                            R.violation('C13:save error', '%s raises %s '
                                        'rather than ValueError' % (
                                            who, e.name), e.loc)
                        return
                    R.decided(who)
                    if name is None:
                        R.violation('C13:save unknown', '%s is accepted' %
                                    who, where(W))
                        return
                    written(R, W, I, who, since, name, want, soup)
                R.explore(who, run, 60)


def written(R, W, I, who, since, name, want, soup):
    log = I.log[since:]
    lossy(R, I, who, since)
    ws = [e for e in log if e[0] == 'write' and
          under(I, e[1])[0].via != 'mem']
    outs = [e for e in log if writes(e)]
    R.decided(who + ': file')
    final = [e for e in outs if same_name(I, e[2], K(name))] or \
        [e for e in log if e[0] in ('rename', 'copyfile') and
         same_name(I, e[2], K(name))]
    if outs and not final:
        R.violation('C13:save file', '%s writes to %s' % (
            who, shown(I, outs[0][2])), outs[0][-1])
        return
    if not ws:
        if not outs:
            R.violation('C13:nothing', '%s writes nothing' % who, where(W))
        else:
            R.undecided(who + ': contents')
        return
    if len(ws) > 1:
        R.undecided(who + ': contents')
        return
    e = ws[0]
    R.site(e[-1])
    f = e[1]
    for o in outs:
        if o[1] is under(I, f)[0] and ('a' in o[3] or '+' in o[3] and
                                       'r' in o[3]):
            R.violation('C13:mode', '%s: the file is opened with mode %r, '
                        'which keeps what was in it' % (who, o[3]), o[-1])
    n = {'plain': 0, 'gzip': 1}.get(container(I, f), 2)
    t = term_of(I.norm(e[2]))
    enc = None
    whole = None
    if 'b' not in f.mode:
        x = I.norm(f.enc) if f.enc is not None else None
        enc = x.v if isinstance(x, K) and isinstance(x.v, str) else \
            'the locale\'s encoding'
    pretty = False
    while True:
        if t[0] == 'gzip':
            n += 1
            t = t[1]
        elif t[0] == 'part of':
            R.violation('C13:save part', '%s takes the compressed data '
                        'before all of it is there' % who, e[-1])
            t = t[1]
        elif t[0] == 'encode':
            enc = t[2][2] if t[2][0] == 'k' else None
            t = t[1]
        elif t[0] == 'pretty':
            pretty = True
            t = t[1]
        elif t[0] == 'str' and len(t) == 2:
            t = t[1]
        elif t[0] == 'xml':
            whole = t[1]
            break
        else:
            break
    if whole is None:
        R.undecided(who + ': container, contents')
        if t[0] in ALTERING and term_has(
                t, lambda x: len(x) > 0 and x[0] == 'xml'):
            R.violation('C13:save altered', '%s writes the document after '
                        'changing its text: %s' % (who, show(t)[:80]), e[-1])
        return
    R.decided(who + ': container')
    got = {0: 'plain', 1: 'gzip'}.get(n, 'gzip twice')
    if got != want:
        R.violation('C13:save container', '%s writes it %s' % (who, got),
                    e[-1])
    if enc is not None and isinstance(enc, str):
        R.decided(who + ': encoding')
        if not utf8(enc) or codecs.lookup(enc).name != 'utf-8':
            R.violation('C13:save encoding', '%s encodes it in %s' % (
                who, enc), e[-1])
    else:
        R.undecided(who + ': encoding')
    R.decided(who + ': contents')
    if whole != soup.id:
        R.violation('C13:save part', '%s writes only a part of the document'
                    % who, e[-1])
    elif pretty:
        R.violation('C13:save pretty', '%s writes the document with '
                    'whitespace added to its text' % who, e[-1])


def table(R, W):
    try:
        F = W.cls('Format', 'sangfroid.format')
    except AnchorGone:
        return

    def run(I):
        seen = {}
        for c in W.subclasses(F):
            if c is F:
                continue
            m = member(c, 'magic_number')
            x = member(c, 'extensions')
            keys = []
            if isinstance(m, K) and m.v is not None:
                keys.append(('signature', m.v))
            if isinstance(x, (Tup, ListObj)):
                for i in x.items:
                    i = I.norm(i)
                    if isinstance(i, K):
                        keys.append(('extension', str(i.v).lower()))
            for k in keys:
                R.decided('%s %r' % k)
                if k in seen and seen[k] is not c:
                    R.violation('C13:shared', 'the %s %r belongs to both %s '
                                'and %s' % (k + (seen[k].name, c.name)),
                                W.qual(c))
                seen[k] = c
    R.explore('signatures and extensions', run)
