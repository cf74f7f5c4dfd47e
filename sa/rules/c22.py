"""C22: every advertised name exists."""
import ast
import os

from .args import *
from .c14 import registrations

RULE = ('Name resolution over all modules: every module of the packages can '
        'be imported (each import statement resolves, with the modules '
        'interpreted in import order); every name in an __all__ is bound in '
        'its module when that has been imported; every name which a module '
        'imports from another module of the packages, in whichever function '
        'or branch, is bound there; every registered class is bound, under '
        'its own name, in its package.')
SCOPE = ('All modules of sangfroid and bywords, all import statements, all '
         '__all__ lists and all classes registered with a decorator.')
MINIMUM = 150


def check(W, R):
    R.count = 0
    I = W.I
    for name, exc, a, loc in W.load_errors:
        R.decided('importing %s' % name)
        msg = ''
        try:
            x = I.norm(a.items[0]) if a is not None else None
            msg = ': %s' % x.v if isinstance(x, K) else ''
        except (AttributeError, IndexError):
            pass
        R.violation('C22:import:%s%s' % (name, key_of(msg)),
                    'importing %s raises %s%s' % (name, exc, msg),
                    loc or name)
    broken = {e[0] for e in W.load_errors}
    for m in sorted(I.modules):
        mod = I.modules[m]
        R.decided('importing %s' % m)
        R.site(I.relpath(mod.path))
        tree = tree_of(mod)
        if tree is None:
            continue
        if m not in broken:
            exports(R, W, m, mod)
        imports(R, W, m, mod, tree)
    classes(R, W)
    R.units['all modules'] = {'paths': len(I.modules), 'cut': 0,
                              'complete': True, 'escaped': [], 's': 0}


def key_of(msg):
    w = [x for x in msg.replace("'", ' ').split() if '.' in x]
    return ':' + w[0].strip(':') if w else ''


def tree_of(mod):
    try:
        with open(mod.path, encoding='utf-8') as f:
            return ast.parse(f.read())
    except (OSError, SyntaxError, TypeError):
        return None


def exports(R, W, m, mod):
    I = W.I
    a = mod.ns.get('__all__')
    if a is None:
        return
    try:
        items = [I.norm(x) for x in I.iterate(a)]
    except PyRaise:
        return
    for x in items:
        if not isinstance(x, K):
            continue
        R.decided('%s.__all__: %s' % (m, x.v))
        if not isinstance(x.v, str):
            R.violation('C22:all:%s' % m, '%s.__all__ has something other '
                        'than a name: %r' % (m, x.v), I.relpath(mod.path))
        elif x.v not in mod.ns and m + '.' + x.v not in I.modules and \
                '__getattr__' not in mod.ns:
            R.violation('C22:all:%s.%s' % (m, x.v), '%s.__all__ lists %s, '
                        'which does not exist' % (m, x.v),
                        I.relpath(mod.path))


def absolute(m, mod, node):
    if not node.level:
        return node.module
    parts = m.split('.')
    if not os.path.basename(mod.path) == '__init__.py':
        parts = parts[:-1]
    if node.level > 1:
        parts = parts[:-(node.level - 1)]
    return '.'.join(parts + ([node.module] if node.module else []))


def guarded(tree):
    """Import statements for the failure of which there is a handler."""
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                names = []
                t = h.type
                for x in ([] if t is None else t.elts if isinstance(
                        t, ast.Tuple) else [t]):
                    names.append(getattr(x, 'id', getattr(x, 'attr', '')))
                if t is None or set(names) & {
                        'ImportError', 'ModuleNotFoundError', 'Exception',
                        'BaseException'}:
                    for b in n.body:
                        r.update(id(x) for x in ast.walk(b))
    return r


def exists(I, m):
    if m in I.modules:
        return True
    pkg = m.split('.')[0]
    root = I.roots.get(pkg)
    if root is None:
        return None
    p = os.path.join(root, *m.split('.')[1:])
    return os.path.isfile(p + '.py') or os.path.isdir(p)


def imports(R, W, m, mod, tree):
    I = W.I
    skip = guarded(tree)
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        loc = '%s:%d' % (I.relpath(mod.path), getattr(n, 'lineno', 0))
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] not in I.roots:
                    continue
                R.decided('%s: import %s' % (m, a.name))
                if not exists(I, a.name):
                    R.violation('C22:import:%s:%s' % (m, a.name),
                                '%s imports %s, which does not exist' % (
                                    m, a.name), loc)
        elif isinstance(n, ast.ImportFrom):
            src = absolute(m, mod, n)
            if not src or src.split('.')[0] not in I.roots:
                continue
            R.decided('%s: from %s import ...' % (m, src))
            if not exists(I, src):
                R.violation('C22:import:%s:%s' % (m, src), '%s imports from '
                            '%s, which does not exist' % (m, src), loc)
                continue
            target = I.modules.get(src)
            if target is None:
                continue
            for a in n.names:
                if a.name == '*':
                    continue
                R.decided('%s: from %s import %s' % (m, src, a.name))
                if a.name not in target.ns and not exists(
                        I, src + '.' + a.name) and \
                        '__getattr__' not in target.ns and \
                        target.state != 'new':
                    R.violation('C22:name:%s:%s.%s' % (m, src, a.name),
                                '%s imports %s from %s, which does not '
                                'define it' % (m, a.name, src), loc)


def classes(R, W):
    I = W.I
    for c, name, which in registrations(W):
        if W.Layer in c.mro:
            pkg = 'sangfroid.layer'
        elif W.Value in c.mro:
            pkg = 'sangfroid.value'
        else:
            continue
        if pkg not in I.modules:
            raise AnchorGone(pkg)
        who = '%s.%s' % (pkg, c.name)
        R.decided(who)
        got = I.modules[pkg].ns.get(c.name)
        if got is not c:
            R.violation('C22:class:%s' % c.name, 'the class registered as '
                        '%r cannot be reached as %s' % (name, who),
                        W.qual(c))
