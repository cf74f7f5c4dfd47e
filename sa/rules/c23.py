"""C23: the code generator never leaves a source file half-written."""
from .files import *

RULE = ('Typestate of files, on every path through the replacer: the source '
        'file is never opened for writing, truncated, copied onto or '
        'removed; what is moved onto it was opened, written with the whole '
        'new text and closed before; nothing is moved onto it on a path '
        'which goes on to read it or which raises; and nothing at all is '
        'written for a file which is malformed or has no matching block. '
        'The text is computed by constant propagation, and its lines outside '
        'blocks compared with those of the source.')
SCOPE = ('Replacer.handle, handle_all_files and write_to, on source files '
         'with no, one and several blocks, matching or not, named and '
         'unnamed, indented, malformed in each way, with odd line ends, '
         'without a final newline, and with unknown contents; each opening, '
         'writing and renaming failing or not.')
MINIMUM = 40
PARALLEL = True

NAME = 'sangfroid/layer/wombat.py'
WHERE = 'sangfroid/template/replacer.py'

OPEN = '### {{{'
CLOSE = '### }}}'

# name -> (source, well-formed, has a block which is generated)
FIELDS = {'Wombat': 'a = 1\nb = 2\n', 'other': 'x = 3', 'Blank': '',
          'Deep': 'if x:\n    y = 1\n\n\nz = 2'}

SOURCES = {
    'one block': (
        'import os\n\nclass Wombat:\n    """Doc."""\n    ### {{{\n'
        '    old = 1\n    older = 2\n    ### }}}\n\n    def f(self):\n'
        '        return 1\n', True, True),
    'empty block': (
        'class Wombat:\n    ### {{{\n    ### }}}\nx = 1\n', True, True),
    'named block': (
        'a\n### {{{ other\nold\n### }}}\nb\n', True, True),
    'two blocks': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\n  \n\tb = 1  \n'
        'class Nobody:\n    ### {{{\n    kept = 1\n    ### }}}\n'
        '### {{{ other\n### }}}\nend\n', True, True),
    'not ours': (
        'class Nobody:\n    ### {{{\n    kept = 1\n    ### }}}\nx\n',
        True, False),
    'no blocks': ('import os\nx = 1\n', True, False),
    'nothing': ('', True, False),
    'no final newline': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\nlast line',
        True, True),
    'ends with a block': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\n', True, True),
    'deep': (
        'class Deep:\n  if 1:\n        ### {{{\n        old\n'
        '        ### }}}\n  x\n', True, True),
    'blank': ('class Blank:\n    ### {{{\n    old\n    ### }}}\ny\n',
              True, True),
    'other line ends': (
        'import os\r\nclass Wombat:\n    x = 1\r\n    ### {{{\n    old\n'
        '    ### }}}\n    y = "\x0c"\r\n', True, True),
    'trailing spaces': (
        'x = 1   \n\n\n   \nclass Wombat:   \n    ### {{{\n    old\n'
        '    ### }}}\n\t\n  y  \n', True, True),
    'looks like a block': (
        '# ### {{{ no\n#### }}} no\nx = "### {{{"\nclass Wombat:\n'
        '    ### {{{\n    old\n    ### }}}\nx ### }}}\n', True, True),
    'unclosed': ('class Wombat:\n    ### {{{\n    old\nx = 1\n',
                 False, True),
    'unclosed second': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\nx = 1\n'
        '### {{{ other\ny = 2\n', False, True),
    'unclosed, not ours': (
        'class Wombat:\n    ### {{{\n    ### }}}\n### {{{ nobody\ny\n',
        False, True),
    'never opened': ('x = 1\n### }}}\ny = 2\n', False, False),
    'closed twice': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\n    ### }}}\n',
        False, True),
    'opened twice': (
        'class Wombat:\n    ### {{{\n    old\n    ### {{{ other\n    x\n'
        '    ### }}}\n', False, True),
    'opened twice, only the first ours': (
        '### {{{ other\nold\n### {{{ nobody\nx\n### }}}\n', False, True),
    'opened twice, only the second ours': (
        '### {{{ nobody\nold\n### {{{ other\nx\n### }}}\ny\n',
        False, True),
    'no name': ('### {{{\nx\n### }}}\n', False, False),
    'no name, second': (
        'class Wombat:\n    ### {{{\n    old\n    ### }}}\nx\n### {{{\n'
        'y\n### }}}\n', False, True),
}


def check(W, R):
    try:
        cls = W.cls('Replacer', 'sangfroid.template.replacer')
    except AnchorGone:
        raise
    for name, (src, good_, ours) in SOURCES.items():
        for fail in ((), ('open',), ('write',), ('rename',)):
            for how in ('handle', 'handle_all_files'):
                for verbose in (False, True):
                    if (fail or how != 'handle') and verbose:
                        continue
                    one(R, W, cls, name, src, good_, ours, fail, how,
                        verbose)
    for fields in (None, 'empty'):
        none(R, W, cls, fields)
    every(R, W, cls)
    unknown(R, W, cls)
    writing(R, W, cls)


def fields_av(I):
    return I.new_dict([[K(k), K(v)] for k, v in FIELDS.items()])


def replacer(I, cls, verbose, added):
    """One which knows our texts, given in either way."""
    if not added or member(cls, 'add') is None:
        return I.call(cls, [], {'fields': fields_av(I),
                                'verbose': K(verbose)})
    r = I.call(cls, [], {'verbose': K(verbose)})
    for k, v in FIELDS.items():
        method(I, r, 'add', K(k), K(v))
    return r


def target_events(I, name):
    """What happens to a file, in order."""
    r = []
    for i, e in enumerate(I.log):
        if e[0] == 'open' and writes(e) and same_name(I, e[2], name):
            r.append((i, 'opened for writing', e))
        elif e[0] == 'unlink' and same_name(I, e[1], name):
            r.append((i, 'removed', e))
        elif e[0] == 'copyfile' and same_name(I, e[2], name):
            r.append((i, 'copied onto', e))
        elif e[0] == 'rename' and same_name(I, e[2], name):
            r.append((i, 'replaced', e))
        elif e[0] == 'rename' and same_name(I, e[1], name):
            r.append((i, 'moved away', e))
    return r


def text_written(I, f):
    """The text written to a file, or None if not known."""
    r = ''
    for x in f.written:
        x = I.norm(x)
        parts = [x]
        if isinstance(x, (ListObj, Tup, GenObj)):
            parts = [I.norm(y) for y in I.iterate(x)]
        for y in parts:
            if not isinstance(y, K) or not isinstance(y.v, str):
                return None
            r += y.v
    return r


def examine(R, I, who, name, failed, must=None, expected=None):
    """Applies the rule to one path. Returns the text put in place."""
    evs = target_events(I, name)
    text = None
    for i, how, e in evs:
        if how != 'replaced':
            R.violation('C23:direct', '%s: the source file is %s' % (
                who, how), e[-1])
            return None
        src = e[1]
        opened = [(j, x) for j, x in enumerate(I.log[:i])
                  if x[0] == 'open' and writes(x) and same_name(
                      I, x[2], src)]
        if not opened:
            R.violation('C23:unwritten', '%s: the source file is replaced '
                        'by a file which was not written' % who, e[-1])
            return None
        j, x = opened[-1]
        f = x[1]
        later = [y for y in I.log[i:] if y[0] == 'write' and
                 under(I, y[1])[0] is f]
        if later:
            R.violation('C23:late', '%s: the new file is written to after '
                        'it was moved into place' % who, later[0][-1])
        closed = [y for y in I.log[:i] if y[0] == 'close' and y[1] is f]
        if not closed:
            R.violation('C23:open', '%s: the new file is moved into place '
                        'before it is closed' % who, e[-1])
        again = [y for y in I.log[i:] if y[0] == 'read' and
                 same_name(I, y[1].fname, name)]
        if again:
            R.violation('C23:early', '%s: the source file is replaced '
                        'before it is read to its end' % who, e[-1])
        if 'a' in x[3]:
            R.violation('C23:append', '%s: the new text is added to what is '
                        'in the other file already' % who, x[-1])
        text = text_written(I, f)
    for d in I.decisions:
        if evs and len(d) == 3 and d[0] == 'raised' and isinstance(
                d[2], tuple) and d[2] and d[2][0] == 'write':
            R.violation('C23:incomplete', '%s: writing the new file fails, '
                        'but it is moved into place all the same' % who,
                        evs[0][2][-1])
    if len(evs) > 1:
        R.violation('C23:twice', '%s: the source file is replaced twice' %
                    who, evs[1][2][-1])
    if failed is not None and evs and not failed.implicit:
        R.violation('C23:failed', '%s: fails with %s after the source file '
                    'was replaced' % (who, failed.name), failed.loc)
    return text


def split_blocks(text):
    """Lines outside blocks, and the contents of each block."""
    outside, blocks, cur = [], [], None
    import io
    for l in io.StringIO(text, newline=''):
        s = l.lstrip(' ')
        if cur is None and s.startswith(OPEN):
            cur = []
            outside.append(('open', l))
        elif cur is not None and s.startswith(CLOSE):
            blocks.append(cur)
            cur = None
            outside.append(('close', l.strip()))
        elif cur is not None:
            cur.append(l)
        else:
            outside.append(('line', l))
    return outside, blocks


def trimmed(lines):
    """Without blank lines at the end."""
    lines = list(lines)
    while lines and not lines[-1]:
        lines.pop()
    return lines


def block_names(text):
    import re
    r = []
    cls = None
    for l in text.split('\n'):
        m = re.match(r'class ([A-Za-z0-9_]+)', l)
        if m:
            cls = m.group(1)
        m = re.match(r' *### {{{ *([A-Za-z0-9_]*)', l)
        if m:
            r.append(m.group(1) or cls)
    return r


def one(R, W, cls, name, src, good_, ours, fail, how, verbose):
    who = '%s(), %s%s%s' % (how, name, ', verbose' if verbose else '',
                            ', %s failing' % fail[0] if fail else '')

    def run(I):
        r = replacer(I, cls, verbose, how == 'handle')
        I.hooks['source'] = {NAME: src}
        if fail:
            I.hooks['fail'] = fail
        if how != 'handle':
            I.hooks['glob'] = [NAME]
        failed = None
        try:
            if how == 'handle':
                method(I, r, 'handle', K(NAME))
            else:
                method(I, r, 'handle_all_files')
        except PyRaise as e:
            failed = e
        finally:
            I.hooks.clear()
        R.decided(who)
        text = examine(R, I, who, K(NAME), failed)
        evs = target_events(I, K(NAME))
        if not good_ or not ours:
            R.decided(who + ': not touched')
            if not fail and failed is not None and not of_system(failed) and (
                    good_ or failed.name != 'ValueError'):
                R.violation('C23:refused', '%s raises %s' % (
                    who, failed.name), failed.loc)
            if evs:
                R.violation('C23:touched', '%s: the file is %s, though it '
                            'is %s' % (who, evs[0][1], 'malformed' if
                                       not good_ else 'without a matching '
                                       'block'), evs[0][2][-1])
            if not good_ and failed is None and not fail:
                R.violation('C23:silent', '%s: no error for a malformed '
                            'file' % who, WHERE)
            return
        if failed is not None:
            if not fail and not of_system(failed):
                R.violation('C23:refused', '%s raises %s, though nothing is '
                            'wrong with the file' % (who, failed.name),
                            failed.loc)
            return
        if not evs:
            R.violation('C23:not written', '%s: the file has a matching '
                        'block, but is not written' % who, WHERE)
            return
        if text is None:
            R.undecided(who + ': the text')
            return
        R.decided(who + ': the lines outside blocks')
        was, old = split_blocks(src)
        now, new = split_blocks(text)
        if was != now:
            a = next((i for i, (x, y) in enumerate(zip(was, now))
                      if x != y), min(len(was), len(now)))
            R.violation('C23:lines', '%s: outside of blocks, line %r has '
                        'become %r' % (
                            who, was[a][1] if a < len(was) else None,
                            now[a][1] if a < len(now) else None), WHERE)
            return
        indents = [len(l) - len(l.lstrip(' ')) for k, l in was
                   if k == 'open']
        for n, x, y in zip(block_names(src), old, new):
            if n in FIELDS:
                indent = ' ' * indents.pop(0)
                want = [(indent + l).rstrip()
                        for l in FIELDS[n].split('\n')]
                got = [l.rstrip() for l in y]
                if trimmed(want) != trimmed(got):
                    R.violation('C23:block', '%s: the block %s is %r' % (
                        who, n, got), WHERE)
                continue
            indents.pop(0)
            if x != y:
                R.violation('C23:lines', '%s: the block %s, for which there '
                            'is no text, is changed' % (who, n), WHERE)
    R.explore(who, run, 60)


PLACES = ('sangfroid/x.py', 'sangfroid/__init__.py',
          'sangfroid/layer/wombat.py', 'sangfroid/value/__init__.py',
          'sangfroid/layer/more/deep.py', 'sangfroid/a/b/c/d.py')


OS = ('OSError', 'IOError', 'FileNotFoundError', 'PermissionError',
      'FileExistsError', 'UnicodeDecodeError', 'UnicodeEncodeError')


def of_system(e):
    """Whether it is the fault of the filing system."""
    return excused(e) or e.implicit and e.name in OS


def every(R, W, cls):
    """handle_all_files() sees to each file, wherever it is."""
    def run(I):
        r = replacer(I, cls, False, False)
        I.hooks['source'] = {n: SOURCES['one block'][0] for n in PLACES}
        I.hooks['glob'] = list(PLACES)
        try:
            method(I, r, 'handle_all_files')
        except PyRaise as e:
            if not of_system(e):
                R.violation('C23:all', 'handle_all_files() of several files '
                            'raises %s' % e.name, e.loc)
            return
        finally:
            I.hooks.clear()
        if not any(e[0] == 'glob' for e in I.log):
            R.undecided('handle_all_files(): which files')
            return
        for n in PLACES:
            R.decided('handle_all_files(): %s' % n)
            if not any(h == 'replaced' for i, h, e in target_events(
                    I, K(n))):
                R.violation('C23:all', 'handle_all_files() passes over %s' %
                            n, WHERE)
    R.explore('handle_all_files() of several files', run, 60)


def none(R, W, cls, fields):
    who = 'handle() with %s' % ('no texts' if fields is None
                                else 'an empty set of texts')

    def run(I):
        r = I.call(cls, [I.new_dict()] if fields else [], {})
        I.hooks['source'] = {NAME: SOURCES['one block'][0]}
        I.hooks['glob'] = [NAME]
        try:
            method(I, r, 'handle', K(NAME))
            method(I, r, 'handle_all_files')
        except PyRaise as e:
            return
        finally:
            I.hooks.clear()
        R.decided(who)
        if target_events(I, K(NAME)):
            R.violation('C23:touched', '%s writes the file' % who, WHERE)
    R.explore(who, run, 20)


def unknown(R, W, cls):
    """A file of which nothing is known."""
    for fail in ((), ('open',), ('write',), ('rename',)):
        who = 'handle() of an unknown file%s' % (
            ', %s failing' % fail[0] if fail else '')

        def run(I, fail=fail, who=who):
            r = I.call(cls, [], {'fields': fields_av(I)})
            if fail:
                I.hooks['fail'] = fail
            failed = None
            name = arg('filename', 'str')
            try:
                method(I, r, 'handle', name)
            except PyRaise as e:
                failed = e
            finally:
                I.hooks.clear()
            R.decided(who)
            examine(R, I, who, name, failed)
        R.explore(who, run, 400 if R.thorough else 100)


def writing(R, W, cls):
    if member(cls, 'write_to') is None:
        return
    for text in (K('one\ntwo\n'), K(''), K('no newline'),
                 arg('text', 'str')):
        for fail in ((), ('open',), ('write',), ('rename',)):
            who = 'write_to(%s)%s' % (
                repr(text.v) if isinstance(text, K) else 'text',
                ', %s failing' % fail[0] if fail else '')

            def run(I, text=text, fail=fail, who=who):
                r = I.call(cls, [], {'fields': fields_av(I)})
                if fail:
                    I.hooks['fail'] = fail
                failed = None
                try:
                    method(I, r, 'write_to', K(NAME), text)
                except PyRaise as e:
                    failed = e
                finally:
                    I.hooks.clear()
                R.decided(who)
                got = examine(R, I, who, K(NAME), failed)
                if failed is None and isinstance(text, K) and \
                        got is not None and got != text.v:
                    R.violation('C23:text', '%s writes %r' % (who, got),
                                WHERE)
            R.explore(who, run, 20)
