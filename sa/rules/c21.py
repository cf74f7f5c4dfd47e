"""C21: error handling raises the error it sets out to raise."""
import ast
import builtins
import os
import symtable

from .args import *
from .c22 import tree_of
from .relay import relay

RULE = ('Name resolution and definite-assignment dataflow over every '
        'function: each name which is read resolves to a variable, a module '
        'name or a builtin, is assigned on at least one path before it is '
        'read, and each attribute of a module, and each attribute of self, '
        'is defined somewhere. Every raise statement raises an exception, '
        'and its message can be made: formats match their arguments, text '
        'is not added to something else. Then the operations of the other '
        'rules are followed on every path, and no path reads a name which '
        'has no value, or fails while making an exception.')
SCOPE = ('Every function, class body and module of sangfroid and bywords; '
         'every raise statement; the operations of all other rules, with '
         'wrong arguments and malformed documents.')
MINIMUM = 900
PARALLEL = True

RULES = ('C02', 'C10', 'C09', 'C11', 'C14', 'C07', 'C08', 'C12', 'C13',
         'C18', 'C20', 'C23', 'C19', 'C04', 'C06', 'C15', 'C01', 'C03',
         'C05', 'C17', 'C24', 'C25', 'C26', 'C27', 'C29', 'C30')
QUICK_PATHS = 60
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
MAGIC = {'__class__', '__file__', '__name__', '__doc__', '__path__',
         '__package__', '__spec__', '__loader__', '__module__',
         '__qualname__', '__annotations__', '__builtins__'}


def check(W, R):
    R.count = 0
    if R.shard[0] == 0 and not R.only:
        static(R, W)
    dynamic(R, W)


# ---------------------------------------------------------------- by path

def intended(node):
    e = node.exc
    if isinstance(e, ast.Call):
        e = e.func
    return getattr(e, 'id', getattr(e, 'attr', None))


def dynamic(R, W):
    reached = set()

    def inspect(I, who):
        for e in I.log:
            loc = e[-1]
            if e[0] == 'raising':
                if loc not in reached:
                    reached.add(loc)
                R.decided('%s: the exception of line %d is raised' % (
                    loc[0], loc[1]))
            elif e[0] == 'unbound':
                R.violation('C21:name:%s:%s' % (loc[2], e[1]),
                            '%s: on a path, %s has no value where it is '
                            'read' % (who, e[1]), loc)
            elif e[0] == 'no-such-module-attr':
                R.violation('C21:attr:%s.%s' % (e[1], e[2]),
                            '%s: the module %s has no %s' % (
                                who, e[1], e[2]), loc)
            elif e[0] == 'raise-failed':
                node, x = e[1], e[2]
                want = intended(node)
                if x is None:
                    R.violation('C21:raise:%s' % loc[2], '%s: what is '
                                'raised is not an exception' % who, loc)
                elif want is None or x.name == want or any(
                        getattr(c, 'name', '').split('.')[-1] == want
                        for c in x.cls.mro):
                    continue
                else:
                    R.violation('C21:raise:%s:%s' % (loc[2], want),
                                '%s: making the %s which is about to be '
                                'raised raises %s instead' % (
                                    who, want, x.name), loc)
    cap = None if R.thorough else QUICK_PATHS
    names = [r for r in RULES if os.path.exists(os.path.join(
        os.path.dirname(os.path.abspath(__file__)), r.lower() + '.py'))]
    relay(R, names, inspect, cap=cap)


# ---------------------------------------------------------------- by source

def static(R, W):
    I = W.I
    broken = {e[0] for e in W.load_errors}
    units = 0
    stored = attribute_stores(W)
    for m in sorted(I.modules):
        mod = I.modules[m]
        tree = tree_of(mod)
        if tree is None:
            continue
        path = I.relpath(mod.path)
        with open(mod.path, encoding='utf-8') as f:
            text = f.read()
        known = set(mod.ns) | global_names(tree)
        if m in broken:
            known |= top_names(tree)
        scope(R, W, mod, path, symtable.symtable(text, mod.path, 'exec'),
              tree, known)
        for fn, cls in functions(tree):
            units += 1
            assignment(R, path, fn, cls)
        selves(R, W, mod, path, tree, stored)
        raises(R, W, mod, path, tree)
    R.units['every function'] = {'paths': units, 'cut': 0, 'complete': True,
                                 'escaped': [], 's': 0}


def global_names(tree):
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            r.update(n.names)
    return r


def top_names(tree):
    """For a module which cannot be imported, what it would have bound."""
    r = set()
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            r.add(n.name)
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                r.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        if not isinstance(n, FUNCTIONS):
            todo.extend(ast.iter_child_nodes(n))
    return r


def functions(tree):
    """Each function of a module, with the name of its class."""
    r = []

    def walk(n, cls, inside):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r.append((c, cls))
                walk(c, cls, True)
            elif isinstance(c, ast.ClassDef):
                walk(c, c.name, False)
            else:
                walk(c, cls, inside)
    walk(tree, None, False)
    return r


def own_nodes(fn):
    """The nodes of a function, without those of functions inside it."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUNCTIONS + (ast.ClassDef,)):
                if not isinstance(c, ast.Lambda):
                    todo.extend(c.decorator_list)
                continue
            todo.append(c)


def scope(R, W, mod, path, table, tree, known):
    """Every name which a function takes from its module exists there."""
    lines = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    guards = guarded_names(tree)
    outer = top_names(tree)
    todo = [table]
    while todo:
        t = todo.pop()
        todo.extend(t.get_children())
        if t.get_type() not in ('function', 'class', 'module'):
            continue
        top = t.get_type() == 'module'
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            n = s.get_name()
            if not (s.is_global() or (top and not s.is_assigned())):
                continue
            R.decided('%s %s: %s' % (path, t.get_name(), n))
            if n in known or hasattr(builtins, n) or n in MAGIC or \
                    n in guards or (top and n in outer):
                continue
            here = [x for x in lines.get(n, [0]) if x >= t.get_lineno()]
            R.violation('C21:name:%s:%s' % (t.get_name(), n),
                        '%s reads %s, which is not defined anywhere' % (
                            t.get_name(), n),
                        '%s:%d' % (path, (here or [0])[0]))
    attributes(R, W, mod, path, tree)


def guarded_names(tree):
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(
                h.type is None or 'NameError' in ast.dump(h.type)
                for h in n.handlers):
            for b in n.body:
                r.update(x.id for x in ast.walk(b)
                         if isinstance(x, ast.Name))
    return r


def local_names(fn):
    r = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        r.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            r.add(x.arg)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            r.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                r.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            r.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            r.add(n.rest)
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef,
                                          ast.AsyncFunctionDef)):
            r.add(n.name)
    return r


def attributes(R, W, mod, path, tree):
    """module.name, for modules of ours and of the standard library."""
    I = W.I

    def walk(n, shadow):
        if isinstance(n, FUNCTIONS):
            shadow = shadow | local_names(n)
        for c in ast.iter_child_nodes(n):
            walk(c, shadow)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            return
        if not isinstance(n, ast.Attribute) or \
                not isinstance(n.ctx, ast.Load):
            return
        base = resolve(n.value, shadow)
        if base is None:
            return
        loc = '%s:%d' % (path, n.lineno)
        if isinstance(base, ModObj):
            if base.state == 'new' or '__getattr__' in base.ns or any(
                    e[0] == base.name for e in W.load_errors):
                return
            R.decided('%s: %s.%s' % (path, base.name, n.attr))
            if n.attr not in base.ns and base.name + '.' + n.attr not in \
                    I.modules and n.attr not in MAGIC and \
                    n.attr != '__dict__':
                R.violation('C21:attr:%s.%s' % (base.name, n.attr),
                            'the module %s has no %s' % (base.name, n.attr),
                            loc)
        elif isinstance(base, Ext):
            h = I.ext.host_module(base.name)
            if h is None:
                return
            R.decided('%s: %s.%s' % (path, base.name, n.attr))
            if not hasattr(h, n.attr) and I.ext.host_module(
                    base.name + '.' + n.attr) is None:
                R.violation('C21:attr:%s.%s' % (base.name, n.attr),
                            'the module %s has no %s' % (base.name, n.attr),
                            loc)

    def resolve(n, shadow):
        if isinstance(n, ast.Name):
            if n.id in shadow:
                return None
            v = mod.ns.get(n.id)
            return v if isinstance(v, (ModObj, Ext)) else None
        if isinstance(n, ast.Attribute):
            b = resolve(n.value, shadow)
            if isinstance(b, ModObj):
                v = b.ns.get(n.attr)
                if v is None:
                    v = I.modules.get(b.name + '.' + n.attr)
                return v if isinstance(v, (ModObj, Ext)) else None
            if isinstance(b, Ext):
                return Ext(b.name + '.' + n.attr)
        return None
    walk(tree, frozenset())


# ------------------------------------------------- definite assignment

class Flow:
    """
    Which variables may have been assigned at each point. Reading one
    which is assigned on no path to there cannot work.
    """

    def __init__(self, fn, report):
        self.fn = fn
        self.report = report
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = local_names(fn)
        for n in own_nodes(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.locals -= set(n.names)
        self.inner = {n.name for n in ast.walk(fn) if n is not fn and
                      isinstance(n, (ast.FunctionDef, ast.ClassDef,
                                     ast.AsyncFunctionDef))}
        self.breaks = []
        self.quiet = 0
        self.block(fn.body, set(params))

    def block(self, body, s):
        """Returns what may be assigned afterwards; None if never there."""
        for x in body:
            if s is None:
                return None
            s = self.stmt(x, s)
        return s

    def use(self, node, s):
        """Checks an expression, and returns what it assigns."""
        if node is None:
            return s
        bound = set()
        for n in ast.walk(node):
            if isinstance(n, ast.comprehension):
                bound |= {x.id for x in ast.walk(n.target)
                          if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Lambda):
                bound |= {x.arg for x in n.args.args + n.args.kwonlyargs +
                          n.args.posonlyargs}
                bound |= {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
            elif isinstance(n, ast.NamedExpr):
                s = s | {n.target.id}
        late = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Lambda):
                late.update(id(x) for x in ast.walk(n.body))
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    id(n) not in late:
                if n.id in self.locals and n.id not in bound and \
                        n.id not in s:
                    self.bad(n)
        return s

    def bad(self, n):
        if not self.quiet:
            self.report(n)

    def bind(self, t, s):
        if isinstance(t, ast.Name):
            return s | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.bind(x, s)
            return s
        if isinstance(t, ast.Starred):
            return self.bind(t.value, s)
        for c in ast.iter_child_nodes(t):
            s = self.use(c, s)
        return s

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, x, s):
        if isinstance(x, (ast.Return, ast.Expr)):
            s = self.use(x.value, s)
            return None if isinstance(x, ast.Return) else s
        if isinstance(x, ast.Raise):
            s = self.use(x.exc, s)
            self.use(x.cause, s)
            return None
        if isinstance(x, ast.Assign):
            s = self.use(x.value, s)
            for t in x.targets:
                s = self.bind(t, s)
            return s
        if isinstance(x, ast.AugAssign):
            s = self.use(x.value, s)
            if isinstance(x.target, ast.Name):
                if x.target.id in self.locals and x.target.id not in s:
                    self.bad(x.target)
                return s | {x.target.id}
            return self.bind(x.target, s)
        if isinstance(x, ast.AnnAssign):
            if x.value is None:
                return s
            s = self.use(x.value, s)
            return self.bind(x.target, s)
        if isinstance(x, ast.Assert):
            s = self.use(x.test, s)
            self.use(x.msg, s)
            if isinstance(x.test, ast.Constant) and not x.test.value:
                return None
            return s
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals and t.id not in s:
                        self.bad(t)
                    s = s - {t.id}
                else:
                    s = self.bind(t, s)
            return s
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            return s | {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            for d in x.decorator_list:
                s = self.use(d, s)
            return s | {x.name}
        if isinstance(x, ast.If):
            s = self.use(x.test, s)
            return self.join(self.block(x.body, s),
                             self.block(x.orelse, s))
        if isinstance(x, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(x, s)
        if isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                s = self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.bind(i.optional_vars, s)
            r = self.block(x.body, s)
            # a context manager may swallow an exception
            return self.join(r, s) if not leaves(x.body) else r
        if isinstance(x, ast.Try) or type(x).__name__ == 'TryStar':
            return self.try_(x, s)
        if isinstance(x, ast.Match):
            s = self.use(x.subject, s)
            out = s
            for c in x.cases:
                t = s | {n.name for n in ast.walk(c.pattern)
                         if isinstance(n, (ast.MatchAs, ast.MatchStar)) and
                         n.name}
                t |= {n.rest for n in ast.walk(c.pattern)
                      if isinstance(n, ast.MatchMapping) and n.rest}
                t = self.use(c.guard, t)
                out = self.join(out, self.block(c.body, t))
            return out
        if isinstance(x, (ast.Break, ast.Continue)):
            if self.breaks:
                self.breaks[-1].append(s)
            return None
        return s

    def loop(self, x, s):
        self.quiet += 1
        start = s
        for _ in range(3):
            start2 = self.once(x, start)[0]
            start = start | start2
        self.quiet -= 1
        end, out = self.once(x, start)
        forever = isinstance(x, ast.While) and isinstance(
            x.test, ast.Constant) and x.test.value
        r = None if forever else self.block(x.orelse, start | end)
        for b in out:
            r = self.join(r, b)
        return r

    def once(self, x, s):
        self.breaks.append([])
        if isinstance(x, ast.While):
            s = self.use(x.test, s)
            e = self.block(x.body, s)
        else:
            s = self.use(x.iter, s)
            e = self.block(x.body, self.bind(x.target, s))
        out = self.breaks.pop()
        for b in out:
            e = self.join(e, b)
        return self.join(e, s), out

    def try_(self, x, s):
        # anything assigned in the body may be there for a handler
        every = set(s) | assigned_in(x.body)
        r = self.block(x.body, s)
        if r is not None:
            r = self.block(x.orelse, r)
        for h in x.handlers:
            t = every
            self.use(h.type, t)
            if h.name:
                t = t | {h.name}
            t = self.block(h.body, t)
            if t is not None and h.name:
                t = t - {h.name}
            r = self.join(r, t)
        if x.finalbody:
            f = every
            for h in x.handlers:
                f = f | assigned_in(h.body)
            f = f | assigned_in(x.orelse)
            self.quiet += 0
            g = self.block(x.finalbody, f)
            if g is None:
                return None
            if r is not None:
                r = r | assigned_in(x.finalbody)
        return r


def leaves(body):
    return any(isinstance(n, ast.Return) for b in body for n in ast.walk(b))


def assigned_in(body):
    r = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                r.update((a.asname or a.name).split('.')[0]
                         for a in n.names)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef,
                                ast.AsyncFunctionDef)):
                r.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
    return r


def assignment(R, path, fn, cls):
    who = '%s.%s' % (cls, fn.name) if cls else fn.name
    R.decided('%s: variables of %s' % (path, who))
    R.site('%s:%d %s' % (path, fn.lineno, who))

    def report(n):
        R.violation('C21:unassigned:%s:%s' % (who, n.id),
                    '%s reads %s, which has been assigned on no path to '
                    'there' % (who, n.id), '%s:%d' % (path, n.lineno))
    Flow(fn, report)


# ------------------------------------------------- attributes of self

def attribute_stores(W):
    """Every name which anything in the packages assigns an attribute to."""
    r = set()
    for m in W.I.modules.values():
        tree = tree_of(m)
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                r.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'setattr' and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                r.add(n.args[1].value)
            elif isinstance(n, ast.ClassDef) and (n.bases or
                                                  n.decorator_list):
                # dataclasses and the like
                r.update(x.target.id for x in n.body
                         if isinstance(x, ast.AnnAssign) and
                         isinstance(x.target, ast.Name))
        if any(by_computed_name(n) for n in ast.walk(tree)):
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    r.update(n.value.split())
                elif isinstance(n, ast.keyword) and n.arg:
                    r.add(n.arg)
    return r


def by_computed_name(n):
    """setattr(self, name, ...), self.__dict__..., vars(self)..."""
    if isinstance(n, ast.Attribute):
        return n.attr == '__dict__' and \
            getattr(n.value, 'id', None) == 'self'
    return isinstance(n, ast.Call) and getattr(n.func, 'id', None) in (
        'setattr', 'vars') and n.args and \
        getattr(n.args[0], 'id', None) == 'self' and (
            len(n.args) < 2 or not isinstance(n.args[1], ast.Constant))


def selves(R, W, mod, path, tree, stored):
    I = W.I
    for n in ast.walk(tree):
        if not isinstance(n, ast.ClassDef):
            continue
        c = mod.ns.get(n.name)
        if not isinstance(c, ClassObj):
            continue
        family = [d for d in W.all_classes() if c in d.mro]
        have = set(stored)
        opaque = False
        for d in set(family) | {x for d in family for x in d.mro
                                if isinstance(x, ClassObj)}:
            have |= set(d.ns)
        for d in family:
            for x in d.mro:
                if isinstance(x, Ext) and x.name != 'builtins.object':
                    h = host_class(I, x.name)
                    if h is None:
                        opaque = True
                    else:
                        have |= set(dir(h))
        have |= set(dir(object)) | {'__dict__', '__class__', '__name__',
                                    '__qualname__', '__mro__',
                                    '__subclasses__', '__bases__', 'mro'}
        if opaque or any('__getattr__' in d.ns or '__getattribute__' in d.ns
                         for f in family for d in f.mro
                         if isinstance(d, ClassObj)):
            # __getattr__ decides by itself what there is, but private names
            # never come from a document
            private = True
            if opaque:
                continue
        else:
            private = False
        for f in n.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args:
                continue
            if any(getattr(d, 'id', '') == 'staticmethod'
                   for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Load) and isinstance(
                        x.value, ast.Name) and x.value.id == me:
                    if private and not x.attr.startswith('_'):
                        continue
                    R.decided('%s: %s.%s' % (path, n.name, x.attr))
                    if x.attr not in have and not guarded_attr(f, x):
                        R.violation('C21:self:%s.%s' % (n.name, x.attr),
                                    '%s.%s reads %s.%s, which nothing '
                                    'defines' % (n.name, f.name, me, x.attr),
                                    '%s:%d' % (path, x.lineno))


def host_class(I, name):
    if '.' not in name:
        name = 'builtins.' + name
    m, _, c = name.rpartition('.')
    h = I.ext.host_module(m) if m != 'builtins' else builtins
    return getattr(h, c, None) if h is not None else None


def guarded_attr(f, x):
    for n in ast.walk(f):
        if isinstance(n, ast.Try) and any(
                h.type is None or any(w in ast.dump(h.type) for w in (
                    'AttributeError', "'Exception'"))
                for h in n.handlers):
            if any(y is x for b in n.body for y in ast.walk(b)):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'hasattr' and len(n.args) > 1 and isinstance(
                n.args[1], ast.Constant) and n.args[1].value == x.attr:
            return True
    return False


# ------------------------------------------------- what is raised

def raises(R, W, mod, path, tree):
    for n in ast.walk(tree):
        loc = '%s:%d' % (path, getattr(n, 'lineno', 0))
        if isinstance(n, ast.Raise) and n.exc is not None:
            R.decided('%s: the raise statement of line %d' % (path,
                                                              n.lineno))
            e = n.exc
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple,
                              ast.List, ast.Dict)) or (
                    isinstance(f, ast.Name) and not exception(
                        W, mod, f.id)):
                R.violation('C21:raise:%s:%s' % (path, ast.unparse(f)),
                            'what is raised here is not an exception: %s' %
                            ast.unparse(e)[:60], loc)
            message(R, path, e)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
            for t in ts:
                R.decided('%s: the except clause of line %d' % (
                    path, n.lineno))
                if isinstance(t, ast.Constant) or (isinstance(
                        t, ast.Name) and not exception(W, mod, t.id)):
                    R.violation('C21:except:%s:%s' % (path, ast.unparse(t)),
                                'the except clause names %s, which is not '
                                'an exception' % ast.unparse(t), loc)
        elif isinstance(n, ast.Try) and n.finalbody:
            for x in leaving(n.finalbody):
                R.violation('C21:finally:%s' % path, 'leaving a finally '
                            'clause this way discards the exception which '
                            'was on its way',
                            '%s:%d' % (path, x.lineno))


def leaving(body, loop=False):
    for b in body:
        if isinstance(b, ast.Return):
            yield b
        elif isinstance(b, (ast.Break, ast.Continue)) and not loop:
            yield b
        elif isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            inner = loop or isinstance(b, (ast.For, ast.While))
            for f in ('body', 'orelse', 'finalbody'):
                yield from leaving(getattr(b, f, []) or [], inner)
            for h in getattr(b, 'handlers', []):
                yield from leaving(h.body, inner)


def exception(W, mod, name):
    """False if the name is certainly not that of an exception."""
    v = mod.ns.get(name)
    if v is None:
        b = getattr(builtins, name, None)
        if b is None:
            return True
        return isinstance(b, type) and issubclass(b, BaseException)
    v = W.I.norm(v)
    if isinstance(v, ClassObj):
        return any(isinstance(x, Ext) and is_exc(W.I, x.name)
                   for x in v.mro)
    if isinstance(v, Ext):
        h = host_class(W.I, v.name)
        return not isinstance(h, type) or issubclass(h, BaseException)
    return not isinstance(v, (K, ModObj))


def is_exc(I, name):
    h = host_class(I, name)
    return h is None or (isinstance(h, type) and
                         issubclass(h, BaseException))


def message(R, path, e):
    for n in ast.walk(e):
        loc = '%s:%d' % (path, getattr(n, 'lineno', 0))
        if not isinstance(n, ast.BinOp):
            continue
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            want = placeholders(n.left.value)
            if want is None:
                continue
            got = len(n.right.elts) if isinstance(n.right, ast.Tuple) and \
                not any(isinstance(x, ast.Starred) for x in n.right.elts) \
                else None
            if got is not None and got != want:
                R.violation('C21:format:%s' % path, 'the message has %d '
                            'placeholders, and %d values for them' % (
                                want, got), loc)
            elif got is None and want != 1 and isinstance(n.right, (
                    ast.Constant, ast.JoinedStr, ast.Name,
                    ast.Attribute)) and not isinstance(n.right, ast.Name):
                if not isinstance(n.right, ast.Attribute):
                    R.violation('C21:format:%s' % path, 'the message has %d '
                                'placeholders, and 1 value for them' % want,
                                loc)
        elif isinstance(n.op, ast.Add):
            kinds = {kind(n.left), kind(n.right)}
            if 'str' in kinds and 'other' in kinds:
                R.violation('C21:concat:%s' % path, 'the message adds text '
                            'to something which is not text: %s' %
                            ast.unparse(n)[:60], loc)


def kind(n):
    if isinstance(n, ast.JoinedStr):
        return 'str'
    if isinstance(n, ast.Constant):
        return 'str' if isinstance(n.value, str) else 'other'
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        k = {kind(n.left), kind(n.right)}
        return 'str' if 'str' in k else None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        if n.func.id in ('str', 'repr', 'ascii', 'format', 'chr', 'hex'):
            return 'str'
        if n.func.id in ('type', 'len', 'int', 'float', 'list', 'tuple',
                         'dict', 'set', 'sorted', 'id', 'abs', 'sum'):
            return 'other'
    if isinstance(n, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp)):
        return 'other'
    return None


def placeholders(s):
    """How many values the format wants; None if they have names."""
    n = i = 0
    while i < len(s):
        if s[i] == '%':
            i += 1
            if i < len(s) and s[i] == '%':
                i += 1
                continue
            if i < len(s) and s[i] == '(':
                return None
            while i < len(s) and s[i] in '#0- +123456789.*':
                if s[i] == '*':
                    n += 1
                i += 1
            n += 1
        i += 1
    return n
