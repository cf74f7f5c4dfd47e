"""C12: a failed save never damages the file that was there."""
from .files import *

RULE = ('Ordering analysis of effects: on every path through saving, no step '
        'which can fail because of the document (turning it into text, '
        'encoding it) comes after an existing file was opened for writing, '
        'truncated, moved or removed; paths on which the save is refused or '
        'fails before writing open nothing for writing, and a following '
        'plain save() goes to the file and format the animation had.')
SCOPE = ('Animation.save with no name, and with names of every kind '
         '(supported, other case, unsupported, unknown, none, unknown at '
         'analysis time), for animations loaded from .sif and .sifz and for '
         'new ones; each serialisation, encoding and opening failing or not; '
         'save() of each format class.')
MINIMUM = 40
PARALLEL = True

NAMES = ('new.sif', 'new.sifz', 'NEW.SIF', 'existing.sif', 'existing.sifz',
         'new.sfg', 'new.txt', 'new', '', 'new.sif.bak', 'dir.sif/new',
         'existing.sfg')


def where(W):
    return 'sangfroid/format.py'


def check(W, R):
    for origin, magic, fname in (('.sif', XML_START, 'existing.sif'),
                                 ('.sifz', GZIP_START, 'existing.sifz'),
                                 ('new', None, None)):
        for target in NAMES + (None, 'unknown'):
            who = 'save(%s) of a %s animation' % (
                repr(target) if target != 'unknown' else 'name', origin)
            one(R, W, who, origin, magic, fname, target)
    for cname in ('Sif', 'Sifz', 'Sfg', 'Blank'):
        for target in ('new.sif', 'new.sifz', None):
            format_save(R, W, cname, target)


def make(W, I, magic, fname):
    if fname is None:
        return I.call(W.Animation, [], {})
    return animation(W, I, magic=magic, filename=K(fname))


def problems(I, since):
    """
    The first step that can fail because of the document, after a file
    was opened for writing.
    """
    opened = None
    for e in I.log[since:]:
        if writes(e) and not is_temp(I, e[2]) and e[1].via != 'mem':
            opened = opened or ('opened for writing', e)
        elif e[0] == 'unlink' and not is_temp(I, e[1]):
            opened = opened or ('removed', e)
        elif e[0] == 'rename':
            if not is_temp(I, e[1]) and not earlier(I, since, e[1], e):
                opened = opened or ('moved away', e)
        elif e[0] in ('serialise', 'encode') and opened:
            if e[0] == 'encode' and isinstance(e[1], tuple) and \
                    e[1][0] == 'k':
                continue
            return opened[0], opened[1], e
    return None


def earlier(I, since, name, upto):
    """Whether we created this file ourselves."""
    for e in I.log[since:]:
        if e is upto:
            return False
        if writes(e) and same_name(I, e[2], name):
            return True
    return False


def one(R, W, who, origin, magic, fname, target):
    def run(I):
        a = make(W, I, magic, fname)
        since = len(I.log)
        I.hooks['fail'] = ('serialise', 'encode', 'open')
        args = []
        if target == 'unknown':
            args = [arg('name', 'str')]
        elif target is not None:
            args = [K(target)]
        failed = None
        try:
            method(I, a, 'save', *args)
        except PyRaise as e:
            failed = e
        finally:
            I.hooks.clear()
        R.decided(who)
        p = problems(I, since)
        if p:
            how, e1, e2 = p
            R.site(e1[-1])
            R.violation('C12:order:%s' % (e1[-1][2],), '%s: the document is '
                        '%s after the file was %s at %s:%s' % (
                            who, 'serialised' if e2[0] == 'serialise' else
                            'encoded', how, e1[-1][0], e1[-1][1]), e2[-1])
        wrote = [e for e in I.log[since:] if writes(e) and
                 e[1].via != 'mem' and not is_temp(I, e[2])]
        for e in wrote:
            R.site(e[-1])
        if failed is None:
            return
        R.decided(who + ': refused or failed')
        touched = wrote + [e for e in I.log[since:] if e[0] in (
            'unlink', 'rename', 'truncate')]
        if touched and cause_is_document(failed):
            R.violation('C12:touched:%s' % touched[0][-1][2], '%s: a file '
                        'has been %s although the save fails with %s' % (
                            who, touched[0][0] + 'ed', failed.name),
                        touched[0][-1])
        if touched and failed.cause is None:
            R.violation('C12:touched:%s' % touched[0][-1][2], '%s: a file '
                        'has been opened although the save is refused with '
                        '%s' % (who, failed.name), touched[0][-1])
        # and a plain save afterwards
        mark = len(I.log)
        again = None
        try:
            method(I, a, 'save')
        except PyRaise as e:
            again = e
        outs = [e for e in I.log[mark:] if writes(e) and e[1].via != 'mem']
        if fname is None:
            if outs and target is not None:
                R.violation('C12:refers', '%s fails, and then save() writes '
                            'to %s' % (who, shown(I, outs[0][2])),
                            outs[0][-1])
            return
        if again is not None:
            if not again.implicit:
                R.violation('C12:refers', '%s fails, and then save() raises '
                            '%s' % (who, again.name), again.loc)
            return
        target_ok = False
        for e in outs:
            if is_temp(I, e[2]):
                target_ok = True
                continue
            if not same_name(I, e[2], K(fname)) and not any(
                    r[0] == 'rename' and same_name(I, r[1], e[2])
                    for r in I.log[mark:]):
                R.violation('C12:refers', '%s fails, and then save() writes '
                            'to %s rather than %s' % (
                                who, shown(I, e[2]), fname), e[-1])
            want = 'gzip' if fname.endswith('z') else 'plain'
            got = container(I, e[1])
            data = [w for w in I.log[mark:] if w[0] == 'write' and
                    under(I, w[1])[0] is under(I, e[1])[0]]
            if any(term_has(term_of(w[2]), lambda t: len(t) > 0 and
                            t[0] == 'gzip') for w in data):
                got = 'gzip'
            if any(under(I, w[1])[1].count('gzip') for w in data):
                got = 'gzip'
            if data and got in ('plain', 'gzip') and got != want:
                R.violation('C12:format', '%s fails, and then save() writes '
                            '%s data to %s' % (who, got, fname), e[-1])
    R.explore(who, run, 400 if R.thorough else 120)


def cause_is_document(e):
    c = getattr(e, 'cause', None)
    return isinstance(c, tuple) and c and c[0] in ('serialise', 'encode')


def format_save(R, W, cname, target):
    who = '%s.save(%s)' % (cname, target)

    def run(I):
        try:
            c = W.cls(cname, 'sangfroid.format')
            F = W.cls('Format', 'sangfroid.format')
        except AnchorGone:
            return
        root = document(I)
        soup = root.parent
        f = I.new_inst(c)
        I.setattr(f, 'filename', K('existing'))
        since = len(I.log)
        I.hooks['fail'] = ('serialise', 'encode')
        failed = None
        try:
            kw = {'content': soup}
            if target:
                kw['filename'] = K(target)
            I.call(I.getattr(f, 'save'), [], kw)
        except PyRaise as e:
            failed = e
        finally:
            I.hooks.clear()
        R.decided(who)
        p = problems(I, since)
        if p:
            how, e1, e2 = p
            R.violation('C12:order:%s' % (e1[-1][2],), '%s: the document is '
                        '%s after the file was %s' % (
                            who, 'serialised' if e2[0] == 'serialise' else
                            'encoded', how), e2[-1])
        if failed is not None:
            now = I.norm(I.getattr(f, 'filename'))
            if now != K('existing'):
                R.violation('C12:filename:%s' % cname, '%s fails with %s, '
                            'but the filename has become %s' % (
                                who, failed.name, shown(I, now)), failed.loc)
    R.explore(who, run, 60)
