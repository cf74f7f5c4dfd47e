"""
A path-sensitive abstract interpreter for Python source.

The source of the analysed packages is parsed, never imported or run.  Module
bodies are evaluated by constant propagation (they contain no unknowns), which
gives the classes, registries and field declarations.  Operations are then
interpreted over abstract values: constants, opaque values known only by their
origin ("terms") and type, abstract objects, and abstract XML elements whose
contents are unknown until the code looks at them.

Where a condition isn't decided by constants, types or an identical earlier
condition, both outcomes are analysed (trace partitioning); there is no
constraint solver.  Sequences of unknown length are represented by none, one
or two generic elements.
"""
import ast
import builtins
import math
import os
import sys

from . import linear
from .ir import *

MAX_DEPTH = 70
HOST_EXC = {n: getattr(builtins, n) for n in dir(builtins)
            if isinstance(getattr(builtins, n), type)
            and issubclass(getattr(builtins, n), BaseException)}
HOST_TYPES = {n: getattr(builtins, n) for n in (
    'int', 'float', 'str', 'bytes', 'bool', 'tuple', 'list', 'dict', 'set',
    'frozenset', 'type', 'object', 'complex', 'bytearray', 'range', 'slice',
    'property', 'classmethod', 'staticmethod', 'super', 'enumerate', 'zip',
    'map', 'filter', 'reversed')}


class PyRaise(Exception):
    """An exception raised by the analysed code."""

    def __init__(self, exc, loc=None, implicit=False, cause=None):
        self.exc = exc
        self.loc = loc
        self.implicit = implicit
        self.cause = cause

    @property
    def cls(self):
        return self.exc.cands[0]

    @property
    def name(self):
        return self.cls.name

    def __str__(self):
        return 'PyRaise(%s at %s%s)' % (self.name, self.loc,
                                        ' implicit' if self.implicit else '')


class Control(BaseException):
    pass


class Return(Control):
    def __init__(self, v):
        self.v = v


class Break(Control):
    pass


class Continue(Control):
    pass


class PathCut(Control):
    """This path can't be followed any further."""


class Diverges(PathCut):
    """
    Nor has it an end: a loop or a recursion which goes on far beyond the
    size of anything it's given, with nothing unknown to decide whether it
    stops.
    """


class Through(Control):
    """What the consumer of a generator raised, on its way past it."""
    def __init__(self, exc, key):
        self.exc = exc
        self.key = key


class StopGen(Control):
    def __init__(self, key):
        self.key = key


CUT_DEBUG = bool(os.environ.get('SA_CUT'))


class AnalysisError(Exception):
    pass


class Frame:
    __slots__ = ('vars', 'parent', 'mod', 'fn', 'scope', 'isclass', 'node',
                 'ccell', 'selfav', 'on_yield', 'handling', 'base', 'at')

    def __init__(self, parent, mod, fn=None, scope=None, isclass=False):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.fn = fn
        self.scope = scope
        self.isclass = isclass
        self.node = None
        self.ccell = parent.ccell if parent is not None else None
        self.selfav = parent.selfav if parent is not None else None
        self.on_yield = None
        self.handling = None
        self.base = False
        self.at = None


class Scope:
    __slots__ = ('assigned', 'globals', 'nonlocals', 'isgen')


_scope_cache = {}


def scope_of(node):
    """The names a function assigns, and whether it's a generator."""
    r = _scope_cache.get(node)
    if r is not None:
        return r
    r = Scope()
    r.assigned, r.globals, r.nonlocals = set(), set(), set()
    r.isgen = False

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                r.assigned.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            r.assigned.add(n.name)
            for d in n.decorator_list + n.args.defaults + [
                    d for d in n.args.kw_defaults if d]:
                visit(d)
            return
        if isinstance(n, ast.ClassDef):
            r.assigned.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            visit(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    r.assigned.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            r.isgen = True
        if isinstance(n, ast.Global):
            r.globals.update(n.names)
        if isinstance(n, ast.Nonlocal):
            r.nonlocals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            r.assigned.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            r.assigned.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    r.assigned.add(a.asname or a.name.split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            r.assigned.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        r.assigned.add(p.arg)
    if a.vararg:
        r.assigned.add(a.vararg.arg)
    if a.kwarg:
        r.assigned.add(a.kwarg.arg)
    r.assigned -= r.globals
    r.assigned -= r.nonlocals
    _scope_cache[node] = r
    return r


def neg(t):
    return t[1] if t[0] == 'not' else ('not', t)


class Interp:

    def __init__(self, roots):
        """roots: dict of package name to directory."""
        self.roots = roots
        self.modules = {}
        self.trees = {}
        self.base_phase = True
        self.next_id = 0
        self.extclasses = {}
        self.visited_fns = set()
        self.imprecise_notes = {}
        self.diverged = []
        self.import_log = []
        self.class_order = 0
        self.read_files = {}
        self.max_steps = 400000
        from . import ext
        self.ext = ext
        self.reset([])

    ###### paths

    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.facts = {}
        self.typefacts = {}
        self.eqk = {}
        self.neqk = {}
        self.eqclass = {}
        self.unequal = False
        self.bounds = {}
        self.linear = False
        self.log = []
        self.stack = []
        self.undo = []
        self.saved = set()
        self.saved_state = []
        self.mats = {}
        self.handlers = []
        self.passed = set()
        self.track_implicit = False
        self.in_raise = 0
        self.summaries = {}
        self.imprecise = []
        self.steps = 0
        self.doc_nodes = []
        self.decisions = []
        self.uniq = 0
        self.hooks = {}
        self.lastcall = {}
        if not self.base_phase:
            self.next_id = self.base_next
            Rest.count = 0

    def freeze(self):
        self.base_phase = False
        self.base_next = self.next_id
        self.reset([])

    def cleanup(self):
        for obj, restore in reversed(self.undo):
            restore()
        self.undo = []
        self.saved = set()
        self.saved_state = []

    def explore(self, fn, max_paths=3000):
        """Runs fn(self) for every combination of undecided choices."""
        prefix = []
        paths = cut = 0
        complete = True
        while True:
            self.reset(prefix)
            try:
                fn(self)
            except PathCut as e:
                cut += 1
                if isinstance(e, Diverges):
                    self.diverged.append(e.args[0])
                if CUT_DEBUG:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    print('cut at', tb.filename.split('/')[-1], tb.lineno,
                          self.loc())
            except RecursionError:
                cut += 1
            finally:
                self.cleanup()
            paths += 1
            trace = self.trace
            while trace and trace[-1][0] + 1 >= trace[-1][1]:
                trace.pop()
            if not trace:
                break
            if paths >= max_paths:
                complete = False
                break
            prefix = [c for c, n in trace]
            prefix[-1] += 1
        return {'paths': paths, 'cut': cut, 'complete': complete}

    def choose(self, n, why=None):
        if n == 1:
            return 0
        if self.base_phase:
            self.note_imprecise('undecided while importing: %s' % (why,))
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            c = n - 1
        self.trace.append([c, n])
        return c

    def note_imprecise(self, what):
        self.imprecise.append((what, self.loc()))
        self.imprecise_notes[(what, self.loc())] = \
            self.imprecise_notes.get((what, self.loc()), 0) + 1

    def loc(self):
        for f in reversed(self.stack):
            if f.node is not None:
                return (self.relpath(f.mod.path), f.node.lineno,
                        f.fn.qual if f.fn is not None else f.mod.name)
        return ('?', 0, '?')

    def locs(self):
        """The whole call stack, innermost last."""
        r = []
        for f in self.stack:
            if f.node is not None:
                r.append('%s:%d %s' % (
                    self.relpath(f.mod.path), f.node.lineno,
                    f.fn.qual if f.fn is not None else f.mod.name))
        return r

    def relpath(self, p):
        for d in self.roots.values():
            top = os.path.dirname(d)
            if p.startswith(top + '/'):
                return p[len(top) + 1:]
        return p

    def event(self, kind, *data):
        self.log.append((kind,) + data + (self.loc(),))

    def fresh_id(self):
        self.next_id += 1
        return self.next_id

    def unique(self):
        self.uniq += 1
        return self.uniq

    ###### objects

    def new(self, cls, **kw):
        o = cls()
        o.id = self.fresh_id()
        o.base = self.base_phase
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def new_list(self, items=()):
        return self.new(ListObj, items=list(items), kind='list')

    def new_dict(self, entries=()):
        return self.new(DictObj, entries=[list(e) for e in entries],
                        owner=None, absent=set(), kind='dict', default=None)

    def new_set(self, items=(), frozen=False):
        return self.new(SetObj, items=list(items), frozen=frozen)

    def new_inst(self, cls, **attrs):
        cands = cls if isinstance(cls, tuple) else (cls,)
        return self.new(Inst, cands=cands, attrs=dict(attrs), tagname=None,
                        lazy=None)

    def touch(self, o, what=''):
        """Must be called before changing any heap object."""
        if self.base_phase or not o.base:
            return
        self.event('shared-write', o, what)
        if id(o) in self.saved:
            return
        self.saved.add(id(o))
        saved = {}
        self.saved_state.append((o, saved))
        for k in type(o).__slots__:
            if hasattr(o, k):
                v = getattr(o, k)
                if isinstance(v, dict):
                    v = dict(v)
                elif isinstance(v, list):
                    v = [list(e) if isinstance(e, list) else e for e in v]
                elif isinstance(v, set):
                    v = set(v)
                saved[k] = v

        def restore():
            for k, v in saved.items():
                setattr(o, k, v)
        self.undo.append((o, restore))

    def touch_frame(self, f, name):
        self.event('shared-write', f, name)
        if id(f) in self.saved:
            return
        self.saved.add(id(f))
        saved = {'vars': dict(f.vars)}
        self.saved_state.append((f, saved))
        self.undo.append((f, lambda: setattr(f, 'vars', saved['vars'])))

    def extclass(self, name):
        """A class object standing for a builtin or external class."""
        c = self.extclasses.get(name)
        if c is None:
            c = ClassObj()
            c.id = -len(self.extclasses) - 1
            c.base = True
            short = name.split('.')[-1]
            c.name = c.qual = short
            c.bases = []
            c.ns = {}
            c.mod = None
            c.node = None
            c.order = 0
            c.mro = [c, Ext(name)]
            host = HOST_EXC.get(short) if name.startswith('builtins.') else None
            if host is not None:
                for h in host.__mro__[1:]:
                    c.mro.append(Ext('builtins.' + h.__name__))
            self.extclasses[name] = c
        return c

    def make_exc(self, name, args=()):
        if '.' not in name:
            name = 'builtins.' + name
        return self.new_inst(self.extclass(name), args=Tup(args))

    def raise_(self, name, msg=None, implicit=False, cause=None):
        exc = self.make_exc(name, (K(msg),) if msg is not None else ())
        raise PyRaise(exc, self.loc(), implicit=implicit, cause=cause)

    def may_raise(self, name, cause=None, what=None):
        """
        Something which may or may not raise, depending on unknown data.
        We only follow the raising path where that can matter.
        What has succeeded once on a path goes on succeeding.
        """
        if self.base_phase:
            return
        caller = sys._getframe(1)
        key = (name, cause, what, caller.f_code.co_name, caller.f_lineno)
        if cause is not None:
            try:
                if key in self.passed:
                    return
            except TypeError:
                key = None
        offer = False
        for h in reversed(self.handlers):
            if any(self.exc_matches_name(name, c) for c in h):
                offer = True
                break
        if not offer and self.track_implicit and self.document_changed():
            offer = True
        if not offer and self.hooks and isinstance(cause, tuple) and \
                cause[0] in self.hooks.get('fail', ()):
            offer = True
        if offer and self.choose(2, 'may raise ' + name) == 1:
            self.decisions.append(('raised', name, cause))
            self.raise_(name, implicit=True, cause=cause)
        if cause is not None and key is not None:
            self.passed.add(key)

    def exc_matches_name(self, name, c):
        return any(self.subclass_of_ext(self.extclass('builtins.' + name), x)
                   for x in [c])

    ###### deciding conditions

    def norm(self, av):
        if isinstance(av, Opq):
            k = self.eqk.get(av.term)
            if k is not None:
                return k
        return av

    def typeset(self, av):
        """Possible type names of an opaque value; None if unknown."""
        tf = self.typefacts.get(av.term)
        if tf is not None and tf[0] is not None:
            return tf[0]
        return av.types

    def not_types(self, av):
        tf = self.typefacts.get(av.term)
        return tf[1] if tf is not None else frozenset()

    def narrow(self, av, only=None, exclude=None):
        have, no = self.typefacts.get(av.term, (None, frozenset()))
        if have is None:
            have = av.types
        if only is not None:
            have = frozenset(only) if have is None else have & frozenset(only)
        if exclude is not None:
            if have is not None:
                have = have - frozenset(exclude)
            no = no | frozenset(exclude)
        self.typefacts[av.term] = (have, no)

    def decide(self, term):
        """Truth of an opaque condition, trying both if it's undecided."""
        if term[0] == 'not':
            return not self.decide(term[1])
        if term in self.facts:
            return self.facts[term]
        r = self.theory(term)
        if r is None:
            r = self.choose(2, term) == 0
            self.decisions.append((term, r, self.loc()))
        self.facts[term] = r
        self.learn(term, r)
        return r

    def theory(self, term):
        op = term[0]
        if op == 'eq':
            a, b = term[1], term[2]
            if a == b:
                return True
            ka, kb = self.const_of(a), self.const_of(b)
            if ka is not None and kb is not None:
                return bool(ka.v == kb.v)
            if kb is not None and a in self.neqk and kb.v in self.neqk[a]:
                return False
            if ka is not None and b in self.neqk and ka.v in self.neqk[b]:
                return False
            if self.facts.get(('<', a, b)) or self.facts.get(('<', b, a)):
                return False
            if self.facts.get(('<', a, b)) is False and \
                    self.facts.get(('<', b, a)) is False:
                return True
            for x, k in ((a, kb), (b, ka)):
                if k is not None and isinstance(k.v, (int, float)):
                    lo, los, hi, his = self.bounds.get(
                        x, (None, False, None, False))
                    if lo is not None and (k.v < lo or (k.v == lo and los)):
                        return False
                    if hi is not None and (k.v > hi or (k.v == hi and his)):
                        return False
            return self.same_class(a, b, ka, kb)
        elif op == '<':
            a, b = term[1], term[2]
            if a == b:
                return False
            ka, kb = self.const_of(a), self.const_of(b)
            if ka is not None and kb is not None:
                try:
                    return bool(ka.v < kb.v)
                except TypeError:
                    return None
            if self.facts.get(('<', b, a)):
                return False
            e = self.facts.get(self.eqterm(a, b))
            if e:
                return False
            if e is False and self.facts.get(('<', b, a)) is False:
                return True
            if kb is not None and isinstance(kb.v, (int, float)):
                lo, los, hi, his = self.bounds.get(
                    a, (None, False, None, False))
                if lo is not None and lo >= kb.v:
                    return False
                if hi is not None and (hi < kb.v or (hi == kb.v and his)):
                    return True
            if ka is not None and isinstance(ka.v, (int, float)):
                lo, los, hi, his = self.bounds.get(
                    b, (None, False, None, False))
                if hi is not None and hi <= ka.v:
                    return False
                if lo is not None and (lo > ka.v or (lo == ka.v and los)):
                    return True
            if self.facts.get(('isnan', a)) or self.facts.get(('isnan', b)):
                return False
        elif op in ('isfinite', 'isnan', 'isinf'):
            if self.linear:
                return op == 'isfinite'
            x = term[1]
            for o in ('isfinite', 'isnan', 'isinf'):
                if o != op and self.facts.get((o, x)):
                    return False
            rest = [self.facts.get((o, x)) for o in
                    ('isfinite', 'isnan', 'isinf') if o != op]
            if rest == [False, False]:
                return True
            lo, los, hi, his = self.bounds.get(
                x, (None, False, None, False))
            if op == 'isnan' and not (lo is None and hi is None):
                # comparisons take it for a number
                return False
            if lo is not None and hi is not None and \
                    (lo > -math.inf or los) and (hi < math.inf or his):
                return op == 'isfinite'
        elif op == 'truth':
            k = self.const_of(term[1])
            if k is not None:
                return bool(k.v)
        elif op == 'in':
            k = self.const_of(term[1])
            c = self.const_of(term[2])
            if k is not None and c is not None:
                try:
                    return k.v in c.v
                except TypeError:
                    return None
        elif op == 'startswith' or op == 'endswith':
            k = self.const_of(term[1])
            c = self.const_of(term[2])
            if k is not None and c is not None and isinstance(k.v, str):
                try:
                    return getattr(k.v, op)(c.v)
                except TypeError:
                    return None
        if self.linear and op in ('eq', '<'):
            return self.arithmetic(op, term[1], term[2])
        return None

    # set by rules which want comparisons decided by arithmetic
    linear = False

    def arithmetic(self, op, a, b):
        p = linear.add(linear.poly(b), linear.poly(a), -1)
        if p and linear.near(p, {}):
            p = {}

        def sign_of(x):
            lo, los, hi, his = self.bounds.get(
                x, (None, False, None, False))
            if lo is None or lo < 0:
                return None
            return 1 if lo > 0 or los else 2
        s = linear.sign(p, sign_of)
        if s is None:
            return None
        return s == 0 if op == 'eq' else s > 0

    def same_class(self, a, b, ka, kb):
        """What follows about a==b from other equalities."""
        ca, cb = (self.eqclass.get(x) for x in (a, b))
        if ca is not None and ca is cb:
            return True
        if not self.unequal:
            return None
        for x, cx, k, y, cy in ((a, ca, kb, b, cb), (b, cb, ka, a, ca)):
            if k is not None:
                # all that is known to be that constant
                cy = [y] + [t for t, v in self.eqk.items() if v == k]
            for p in cx or (x,):
                if k is not None and k.v in self.neqk.get(p, ()):
                    return False
                for q in cy or (y,):
                    if self.facts.get(self.eqterm(p, q)) is False:
                        return False
        return None

    def learn(self, term, r):
        op = term[0]
        if op == 'eq':
            a, b = term[1], term[2]
            if not r:
                self.unequal = True
            elif self.const_of(a) is None and self.const_of(b) is None:
                u = {a, b} | self.eqclass.get(a, set()) | \
                    self.eqclass.get(b, set())
                for x in u:
                    self.eqclass[x] = u
            else:
                k = self.const_of(a) or self.const_of(b)
                for x in (a, b):
                    for y in self.eqclass.get(x, ()):
                        if self.const_of(y) is None:
                            self.eqk[y] = k
            for x, y in ((a, b), (b, a)):
                k = self.const_of(y)
                if k is not None and self.const_of(x) is None:
                    if r:
                        self.eqk[x] = k
                    else:
                        self.neqk.setdefault(x, set()).add(k.v)
        elif op == '<':
            a, b = term[1], term[2]
            ka, kb = self.const_of(a), self.const_of(b)
            if kb is not None and isinstance(kb.v, (int, float)):
                self.bound(a, hi=(kb.v, True) if r else None,
                           lo=(kb.v, False) if not r else None)
            if ka is not None and isinstance(ka.v, (int, float)):
                self.bound(b, lo=(ka.v, True) if r else None,
                           hi=(ka.v, False) if not r else None)
        elif op == 'isnone':
            if r:
                self.eqk[term[1]] = NONE

    def bound(self, x, lo=None, hi=None):
        l, ls, h, hs = self.bounds.get(x, (None, False, None, False))
        if lo is not None and (l is None or lo[0] > l or
                               (lo[0] == l and lo[1])):
            l, ls = lo
        if hi is not None and (h is None or hi[0] < h or
                               (hi[0] == h and hi[1])):
            h, hs = hi
        self.bounds[x] = (l, ls, h, hs)

    def const_of(self, t):
        if isinstance(t, tuple) and t and t[0] == 'k':
            return K(t[2])
        return self.eqk.get(t)

    @staticmethod
    def eqterm(a, b):
        return ('eq',) + tuple(sorted((a, b), key=repr))

    def bool_av(self, term):
        if term in self.facts:
            return K(self.facts[term])
        if term[0] == 'not' and term[1] in self.facts:
            return K(not self.facts[term[1]])
        return Opq(term, {'bool'})

    def truth(self, av):
        """Python's truth value of av, as a Python bool."""
        av = self.norm(av)
        if isinstance(av, K):
            return bool(av.v)
        if isinstance(av, Tup):
            return len(av.items) > 0
        if isinstance(av, (ListObj, SetObj)):
            return len(av.items) > 0
        if isinstance(av, DictObj):
            return len(av.entries) > 0
        if isinstance(av, TextObj):
            return self.truth(av.value)
        if isinstance(av, Inst):
            m = self.find_special(av, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.find_special(av, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(av, Opq):
            t = self.typeset(av)
            if t == {'bool'}:
                return self.decide(av.term)
            if t is not None and 'NoneType' not in t:
                if t <= {'str'}:
                    return not self.decide(self.eqterm(av.term, kterm('')))
                if t <= {'int', 'float', 'bool'}:
                    return not self.decide(self.eqterm(av.term, kterm(0)))
            if t is not None and t <= {'tuple', 'list', 'dict'} and t:
                return len(self.iterate(av)) > 0
            if av.term in self.facts and av.term[0] in ('eq', '<', 'in'):
                return self.facts[av.term]
            return self.decide(('truth', av.term))
        return True

    def eq_nodes(self, a, b):
        """Elements are equal if what they look like is the same."""
        if a is b:
            return TRUE
        unsure = self.bool_av(self.eqterm(term_of(a), term_of(b)))
        known = True
        for x, y in ((a.name, b.name),):
            r = self.eq(x, y)
            if r == FALSE:
                return FALSE
            known = known and r == TRUE
        if any(isinstance(c, Rest) for n in (a, b) for c in n.children):
            return unsure
        x = {term_of(k): v for k, v in a.attrs.entries}
        y = {term_of(k): v for k, v in b.attrs.entries}
        if set(x) != set(y):
            return FALSE if all(k[0] == 'k' for k in set(x) ^ set(y)) \
                else unsure
        if len(a.children) != len(b.children):
            return FALSE
        for p, q in [(x[k], y[k]) for k in x] + list(zip(a.children,
                                                         b.children)):
            if isinstance(p, NodeObj) != isinstance(q, NodeObj):
                return FALSE
            if isinstance(p, NodeObj):
                r = self.eq_nodes(p, q)
            else:
                r = TRUE if term_of(p) == term_of(q) else self.eq(p, q)
            if r == FALSE:
                return FALSE
            known = known and r == TRUE
        return TRUE if known else unsure

    def eq(self, a, b):
        """a == b, as an abstract value."""
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, TextObj):
            a = self.norm(a.value)
        if isinstance(b, TextObj):
            b = self.norm(b.value)
        if isinstance(a, K) and isinstance(b, K):
            return K(bool(a.v == b.v))
        if isinstance(a, Inst):
            m = self.find_special(a, '__eq__')
            if m is not None:
                r = self.call(m, [b], {})
                if not (isinstance(r, Ext) and r.name.endswith('NotImplemented')):
                    return r
        if isinstance(b, Inst):
            m = self.find_special(b, '__eq__')
            if m is not None and not isinstance(a, Inst):
                r = self.call(m, [a], {})
                if not (isinstance(r, Ext) and r.name.endswith('NotImplemented')):
                    return r
        if a is b:
            return TRUE
        if isinstance(a, (Inst, ClassObj, NodeObj, Fn, ModObj, Bound)) and \
                isinstance(b, (Inst, ClassObj, NodeObj, Fn, ModObj, Bound)):
            if isinstance(a, NodeObj) and isinstance(b, NodeObj):
                return self.eq_nodes(a, b)
            if isinstance(a, Bound) and isinstance(b, Bound):
                return K(a.obj is b.obj and a.fn is b.fn)
            return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return K(a.name == b.name)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.eq_seq(a.items, b.items)
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return self.eq_seq(a.items, b.items)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            if len(a.entries) != len(b.entries):
                return FALSE
            for k, v in a.entries:
                w = self.dict_get(b, k)
                if w is ABSENT:
                    return FALSE
                if not self.truth(self.eq(v, w)):
                    return FALSE
            return TRUE
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            if len(a.items) != len(b.items):
                return FALSE
            for x in a.items:
                if not self.contains(b, x):
                    return FALSE
            return TRUE
        if isinstance(a, Opq) or isinstance(b, Opq):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opq):
                    t = self.typeset(x)
                    ty = self.typename(y)
                    if ty is not None:
                        if t is not None and not self.types_may_equal(t, {ty}):
                            return FALSE
                        no = self.not_types(x)
                        if ty in no and ty in ('str', 'NoneType', 'tuple',
                                               'list', 'dict', 'set'):
                            return FALSE
            return self.bool_av(self.eqterm(term_of(a), term_of(b)))
        return FALSE

    NUMERIC = {'int', 'float', 'bool'}

    def types_may_equal(self, a, b):
        if a & b:
            return True
        if a & self.NUMERIC and b & self.NUMERIC:
            return True
        known = {'int', 'float', 'bool', 'str', 'NoneType', 'tuple', 'list',
                 'dict', 'bytes', 'set'}
        if a <= known and b <= known:
            return False
        return True

    def eq_seq(self, x, y):
        if len(x) != len(y):
            return FALSE
        for i, j in zip(x, y):
            if not self.truth(self.eq(i, j)):
                return FALSE
        return TRUE

    def typename(self, av):
        """Type name of a value if known exactly."""
        if isinstance(av, K):
            return type(av.v).__name__
        if isinstance(av, Tup):
            return 'tuple'
        if isinstance(av, ListObj):
            return 'list'
        if isinstance(av, DictObj):
            return 'dict'
        if isinstance(av, SetObj):
            return 'set'
        if isinstance(av, TextObj):
            return 'str'
        if isinstance(av, NodeObj):
            return 'Tag'
        if isinstance(av, Opq):
            t = self.typeset(av)
            if t is not None and len(t) == 1:
                return next(iter(t))
        return None

    def identical(self, a, b):
        """a is b, as a Python bool."""
        a, b = self.norm(a), self.norm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and x.v is None:
                if isinstance(y, K):
                    return y.v is None
                if isinstance(y, Opq):
                    t = self.typeset(y)
                    if t is not None and 'NoneType' not in t:
                        return False
                    if 'NoneType' in self.not_types(y):
                        return False
                    if t == {'NoneType'}:
                        return True
                    r = self.decide(('isnone', y.term))
                    if not r:
                        self.narrow(y, exclude={'NoneType'})
                    return r
                return False
        if isinstance(a, K) and isinstance(b, K):
            return a == b and (isinstance(a.v, (bool, type(None), int, str)) or
                               a is b)
        if isinstance(a, (Opq, K)) and isinstance(b, (Opq, K)):
            if isinstance(a, Opq) and isinstance(b, Opq) and a.term == b.term:
                return True
            ta = {self.typename(a)} if isinstance(a, K) else self.typeset(a)
            tb = {self.typename(b)} if isinstance(b, K) else self.typeset(b)
            if ta is not None and tb is not None and not (set(ta) & set(tb)):
                return False
            return self.decide(self.eqterm(term_of(a), term_of(b)))
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.decide(self.eqterm(term_of(a), term_of(b)))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return a is b

    def less(self, a, b):
        """a < b as an abstract value."""
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, TextObj):
            a = self.norm(a.value)
        if isinstance(b, TextObj):
            b = self.norm(b.value)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(bool(a.v < b.v))
            except TypeError:
                self.raise_('TypeError', 'not supported between instances')
        if isinstance(a, Inst):
            r = self.compare_inst(a, '<', b)
            if r is not None:
                return r
        if isinstance(b, Inst):
            r = self.compare_inst(b, '>', a)
            if r is not None:
                return r
        if isinstance(a, (Tup, ListObj)) and isinstance(b, (Tup, ListObj)):
            for x, y in zip(a.items, b.items):
                if self.identical_quick(x, y):
                    continue
                if self.truth(self.eq(x, y)):
                    continue
                return self.less(x, y)
            return K(len(a.items) < len(b.items))
        if isinstance(a, Opq) or isinstance(b, Opq):
            self.may_raise('TypeError', ('lt', term_of(a), term_of(b)))
            return self.bool_av(('<', term_of(a), term_of(b)))
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return K(all(self.contains(b, x) for x in a.items)
                     and len(a.items) < len(b.items))
        self.raise_('TypeError', 'not supported between instances')

    def identical_quick(self, x, y):
        return x is y

    OPS = {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}
    SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}

    def compare_inst(self, a, op, b):
        m = self.find_special(a, self.OPS[op])
        if m is None:
            return None
        r = self.call(m, [b], {})
        if isinstance(r, Ext) and r.name.endswith('NotImplemented'):
            return None
        return r

    def compare(self, op, a, b):
        """Rich comparison, as an abstract value."""
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            aa = self.norm(a)
            if isinstance(aa, Inst):
                m = self.find_special(aa, '__ne__')
                if m is not None:
                    return self.call(m, [b], {})
            return self.not_(self.eq(a, b))
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst):
                r = self.compare_inst(a, op, b)
                if r is not None:
                    return r
            if isinstance(b, Inst):
                r = self.compare_inst(b, self.SWAP[op], a)
                if r is not None:
                    return r
            self.raise_('TypeError', 'comparison not supported')
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            if op == '<=':
                return K(all(self.contains(b, x) for x in a.items))
            if op == '>=':
                return K(all(self.contains(a, x) for x in b.items))
        if op == '<':
            return self.less(a, b)
        if op == '>':
            return self.less(b, a)
        if op == '<=':
            return self.not_(self.less(b, a))
        return self.not_(self.less(a, b))

    def not_(self, av):
        av = self.norm(av)
        if isinstance(av, Opq) and self.typeset(av) == {'bool'}:
            return self.bool_av(neg(av.term))
        return K(not self.truth(av))

    ###### classes and attributes

    def mro_lookup(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassObj) and name in c.ns:
                return c.ns[name], c
        return None, None

    def lookup_in_cands(self, cands, name):
        """Finds name in each candidate's MRO, grouped by what's found."""
        groups = []
        for c in cands:
            v, owner = self.mro_lookup(c, name)
            for g in groups:
                if g[0] is v:
                    g[2].append(c)
                    break
            else:
                groups.append([v, owner, [c]])
        return groups

    def class_attr(self, inst, name):
        """
        What the class of inst defines under this name. If the candidates
        disagree, settles on one of the answers and drops the others.
        """
        if len(inst.cands) == 1:
            return self.mro_lookup(inst.cands[0], name)
        groups = self.lookup_in_cands(inst.cands, name)
        if len(groups) > 1:
            groups.sort(key=lambda g: (-len(g[2]), g[2][0].order))
            g = groups[self.choose(len(groups), 'class of %r' % name)]
            self.set_cands(inst, g[2])
        else:
            g = groups[0]
        return g[0], g[1]

    def set_cands(self, inst, cands):
        inst.cands = tuple(cands)

    def find_special(self, inst, name):
        v, owner = self.class_attr(inst, name)
        if v is None or (isinstance(v, K) and v.v is None):
            return None
        return self.bind(v, inst, owner)

    def bind(self, v, inst, owner=None):
        if isinstance(v, (Fn,)):
            return Bound(inst, v)
        if isinstance(v, CM):
            return Bound(self.class_of(inst), v.fn)
        if isinstance(v, SM):
            return v.fn
        if isinstance(v, Prop):
            if v.fget is None:
                self.raise_('AttributeError')
            return self.call(v.fget, [inst], {})
        if isinstance(v, Native) and v.name.startswith('method:'):
            return Bound(inst, v)
        if isinstance(v, Inst) and self.has_class_attr(v, '__get__'):
            g = self.find_special(v, '__get__')
            return self.call(g, [inst, self.class_of(inst)], {})
        return v

    def has_class_attr(self, inst, name):
        return any(self.mro_lookup(c, name)[0] is not None
                   for c in inst.cands)

    def class_of(self, av):
        if isinstance(av, Inst):
            if len(av.cands) == 1:
                return av.cands[0]
            return ClassSet(av.cands)
        if isinstance(av, ClassObj):
            return Ext('builtins.type')
        t = self.typename(av)
        if isinstance(av, NodeObj):
            return Ext('bs4.BeautifulSoup' if av.soup else 'bs4.Tag')
        if t in HOST_TYPES:
            return Ext('builtins.' + t)
        if t == 'NoneType':
            return Ext('builtins.NoneType')
        if isinstance(av, (Fn, Bound, Native)):
            return Ext('builtins.function')
        return Opq(('type', term_of(av)), {'type'})

    def is_data_descriptor(self, v):
        if isinstance(v, Prop):
            return True
        return isinstance(v, Inst) and (self.has_class_attr(v, '__set__') or
                                        self.has_class_attr(v, '__delete__'))

    def getattr(self, av, name, default=ABSENT):
        if default is not ABSENT:
            self.handlers.append([Ext('builtins.AttributeError')])
            try:
                return self.getattr_(av, name)
            except PyRaise as e:
                if self.exc_isinstance(e.exc, Ext('builtins.AttributeError')):
                    return default
                raise
            finally:
                self.handlers.pop()
        return self.getattr_(av, name)

    def getattr_(self, av, name):
        av = self.norm(av)
        if isinstance(av, Inst):
            return self.inst_getattr(av, name)
        if isinstance(av, ClassObj):
            return self.class_getattr(av, name)
        if isinstance(av, ModObj):
            if name in av.ns:
                return av.ns[name]
            sub = av.name + '.' + name
            if sub in self.modules and self.modules[sub].state != 'new':
                return self.modules[sub]
            if name == '__name__':
                return K(av.name)
            if name == '__dict__':
                return self.new_dict([(K(k), v) for k, v in av.ns.items()])
            if name == '__file__':
                return K(av.path)
            self.event('no-such-module-attr', av.name, name)
            self.raise_('AttributeError',
                        "module %r has no attribute %r" % (av.name, name))
        if isinstance(av, SuperObj):
            return self.super_getattr(av, name)
        if isinstance(av, ClassSet):
            return self.classset_getattr(av, name)
        if isinstance(av, Prop):
            if name in ('setter', 'getter', 'deleter'):
                def set_(I, args, kw, node, av=av, name=name):
                    p = Prop(av.fget, av.fset, av.fdel)
                    setattr(p, {'setter': 'fset', 'getter': 'fget',
                                'deleter': 'fdel'}[name], args[0])
                    return p
                return Native('property.' + name, set_)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(av, name) or NONE
            if name == '__get__':
                return Native('property.__get__', lambda I, a, k, n:
                              I.call(av.fget, [a[0]], {}))
            if name == '__set__':
                return Native('property.__set__', lambda I, a, k, n:
                              I.call(av.fset, [a[0], a[1]], {}))
            return Opq(('attr', term_of(av), name))
        if isinstance(av, Fn):
            if name == '__name__':
                return K(av.qual.split('.')[-1])
            if name == '__qualname__':
                return K(av.qual)
            if name == '__doc__':
                return NONE
            if name == '__module__':
                return K(av.mod.name)
            if name == '__get__':
                return Native('fn.__get__', lambda I, a, k, n:
                              Bound(a[0], av))
            if name in av.attrs:
                return av.attrs[name]
            if name == '__dict__':
                return self.new_dict()
            if name == '__call__':
                return av
            self.raise_('AttributeError', name)
        if isinstance(av, Bound):
            if name == '__self__':
                return av.obj
            if name == '__func__':
                return av.fn
            return self.getattr_(av.fn, name)
        if isinstance(av, Native):
            if name == '__name__':
                return K(av.name.split('.')[-1])
            if name == '__call__':
                return av
            r = self.ext.native_getattr(self, av, name)
            if r is not None:
                return r
            self.raise_('AttributeError', name)
        return self.ext.getattr_(self, av, name)

    def inst_getattr(self, av, name):
        if name == '__class__':
            return self.class_of(av)
        if name == '__dict__':
            d = self.new_dict([(K(k), v) for k, v in av.attrs.items()])
            return d
        v, owner = self.class_attr(av, name)
        if v is not None and self.is_data_descriptor(v):
            try:
                return self.bind(v, av, owner)
            except PyRaise as e:
                if self.exc_isinstance(e.exc, Ext('builtins.AttributeError')):
                    g, o = self.class_attr(av, '__getattr__')
                    if g is not None:
                        return self.call(self.bind(g, av, o), [K(name)], {})
                raise
        if name in av.attrs:
            return av.attrs[name]
        if isinstance(v, CachedProp):
            r = self.call(v.fn, [av], {})
            self.touch(av, name)
            av.attrs[name] = r
            return r
        if v is not None:
            return self.bind(v, av, owner)
        if self.inst_is_exc(av):
            r = self.ext.exc_getattr(self, av, name)
            if r is not None:
                return r
        r = self.ext.ext_base_getattr(self, av, name)
        if r is not None:
            return r
        if av.lazy is not None:
            r = av.lazy(self, av, name)
            if r is not None:
                return r
        g, o = self.class_attr(av, '__getattr__')
        if g is not None:
            return self.call(self.bind(g, av, o), [K(name)], {})
        r = self.ext.object_getattr(self, av, name)
        if r is not None:
            return r
        self.raise_('AttributeError', "%r object has no attribute %r" % (
            av.cands[0].name, name))

    def inst_is_exc(self, av):
        return any(isinstance(c, Ext) and c.name == 'builtins.BaseException'
                   for c in av.cands[0].mro)

    def class_getattr(self, cls, name):
        v, owner = self.mro_lookup(cls, name)
        if v is not None:
            return self.bind_class(v, cls)
        r = self.ext.class_getattr(self, cls, name)
        if r is not None:
            return r
        self.raise_('AttributeError', "type object %r has no attribute %r" % (
            cls.name, name))

    def bind_class(self, v, cls):
        if isinstance(v, CM):
            return Bound(cls, v.fn)
        if isinstance(v, SM):
            return v.fn
        if isinstance(v, Inst) and self.has_class_attr(v, '__get__'):
            return self.call(self.find_special(v, '__get__'), [NONE, cls], {})
        return v

    def classset_getattr(self, cs, name):
        if name == '__name__' or name == '__qualname__':
            return Opq(('classname',) + tuple(c.id for c in cs.cands),
                       {'str'})
        groups = self.lookup_in_cands(cs.cands, name)
        if len(groups) > 1:
            groups.sort(key=lambda g: (-len(g[2]), g[2][0].order))
            g = groups[self.choose(len(groups), 'class of %r' % name)]
        else:
            g = groups[0]
        if g[0] is None:
            return self.class_getattr(g[2][0], name)
        sub = g[2][0] if len(g[2]) == 1 else ClassSet(g[2])
        if isinstance(g[0], CM):
            return Bound(sub, g[0].fn)
        return self.bind_class(g[0], sub)

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, ClassObj):
            cands = (obj,)
        elif isinstance(obj, ClassSet):
            cands = obj.cands
        elif isinstance(obj, Inst):
            cands = obj.cands
        else:
            self.raise_('TypeError', 'super(type, obj)')
        groups = []
        for c in cands:
            mro = list(c.mro)
            if s.cls in mro:
                mro = mro[mro.index(s.cls) + 1:]
            found = None
            for k in mro:
                if isinstance(k, ClassObj) and name in k.ns:
                    found = (k.ns[name], k)
                    break
                if isinstance(k, Ext):
                    r = self.ext.ext_class_method(self, k, name)
                    if r is not None:
                        found = (r, k)
                        break
            key = found[0] if found else None
            for g in groups:
                if g[0] is key:
                    g[2].append(c)
                    break
            else:
                groups.append([key, found, [c]])
        if len(groups) > 1:
            groups.sort(key=lambda g: (-len(g[2]), g[2][0].order))
            g = groups[self.choose(len(groups), 'super %r' % name)]
            if isinstance(obj, Inst):
                self.set_cands(obj, g[2])
        else:
            g = groups[0]
        if g[1] is None:
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k, n: NONE)
            if name == '__new__':
                return Native('object.__new__', lambda I, a, k, n:
                              I.ext.object_new(I, a))
            if name == '__init_subclass__':
                return Native('object.__init_subclass__',
                              lambda I, a, k, n: NONE)
            if name in ('__setattr__',) and isinstance(obj, Inst):
                return Native('object.__setattr__', lambda I, a, k, n:
                              I.inst_setattr(obj, I.const(a[0]), a[1],
                                             raw=True))
            if name == '__getattribute__' and isinstance(obj, Inst):
                return Native('object.__getattribute__', lambda I, a, k, n:
                              I.inst_getattr(obj, I.const(a[0])))
            if name in ('__str__', '__repr__'):
                return Native('object.__repr__', lambda I, a, k, n:
                              Opq(('repr', term_of(obj)), {'str'}))
            if name == '__eq__':
                return Native('object.__eq__', lambda I, a, k, n:
                              K(a[0] is obj))
            if name == '__hash__':
                return Native('object.__hash__', lambda I, a, k, n:
                              Opq(('hash', term_of(obj)), {'int'}))
            self.raise_('AttributeError', "'super' object has no attribute %r"
                        % name)
        v = g[1][0]
        if isinstance(obj, Inst):
            if isinstance(v, CM):
                return Bound(self.class_of(obj), v.fn)
            return self.bind(v, obj)
        if isinstance(v, CM):
            return Bound(obj, v.fn)
        if isinstance(v, SM):
            return v.fn
        return v

    def const(self, av):
        av = self.norm(av)
        if isinstance(av, TextObj):
            av = self.norm(av.value)
        if isinstance(av, K):
            return av.v
        self.note_imprecise('constant needed')
        raise PathCut()

    def setattr(self, av, name, value):
        av = self.norm(av)
        if isinstance(av, Inst):
            return self.inst_setattr(av, name, value)
        if isinstance(av, ClassObj):
            self.touch(av, name)
            av.ns[name] = value
            return
        if isinstance(av, ModObj):
            self.touch(av, name)
            av.ns[name] = value
            return
        if isinstance(av, ClassSet):
            for c in av.cands:
                self.touch(c, name)
            return
        if isinstance(av, Fn):
            if av.base and not self.base_phase:
                self.event('shared-write', av, name)
            else:
                av.attrs[name] = value
            return
        if isinstance(av, SuperObj) and isinstance(av.obj, Inst):
            return self.inst_setattr(av.obj, name, value)
        return self.ext.setattr_(self, av, name, value)

    def inst_setattr(self, av, name, value, raw=False):
        if not raw:
            s, o = self.class_attr(av, '__setattr__')
            if s is not None:
                self.call(self.bind(s, av, o), [K(name), value], {})
                return NONE
        v, owner = self.class_attr(av, name)
        if isinstance(v, Prop):
            if v.fset is None:
                self.raise_('AttributeError',
                            "property %r has no setter" % name)
            self.call(v.fset, [av, value], {})
            return NONE
        if isinstance(v, Inst) and self.has_class_attr(v, '__set__'):
            self.call(self.find_special(v, '__set__'), [av, value], {})
            return NONE
        slots = self.slots_of(av)
        if slots is not None and name not in slots and v is None:
            self.raise_('AttributeError', name)
        if self.frozen_dataclass(av):
            self.raise_('AttributeError', name)
        self.touch(av, name)
        if not self.base_phase:
            self.event('attr-write', av, name, value)
        if name == '__class__':
            av.cands = (value,) if isinstance(value, ClassObj) else av.cands
            return NONE
        av.attrs[name] = value
        return NONE

    def slots_of(self, av):
        names = set()
        for c in av.cands[0].mro:
            if isinstance(c, ClassObj) and c.node is not None:
                s = c.ns.get('__slots__')
                if s is None:
                    return None
                try:
                    items = [s] if isinstance(s, K) else self.iterate(s)
                    names.update(x.v for x in items if isinstance(x, K))
                except PyRaise:
                    return None
        return names if names else None

    def frozen_dataclass(self, av):
        return any(isinstance(c, ClassObj) and '__frozen__' in c.ns
                   for c in av.cands[0].mro)

    def delattr(self, av, name):
        av = self.norm(av)
        if isinstance(av, Inst):
            v, o = self.class_attr(av, name)
            if isinstance(v, Prop):
                if v.fdel is None:
                    self.raise_('AttributeError', name)
                return self.call(v.fdel, [av], {})
            if isinstance(v, Inst) and self.has_class_attr(v, '__delete__'):
                return self.call(self.find_special(v, '__delete__'), [av], {})
            if name in av.attrs:
                self.touch(av, name)
                del av.attrs[name]
                return
            self.raise_('AttributeError', name)
        if isinstance(av, (ClassObj, ModObj)):
            self.touch(av, name)
            av.ns.pop(name, None)
            return
        return self.ext.delattr_(self, av, name)

    ###### subclass and instance tests

    def subclass_of_ext(self, c, x):
        """Whether class c (ClassObj or Ext) is a subclass of class x."""
        if isinstance(c, ClassObj):
            if c is x:
                return True
            if isinstance(x, ClassObj):
                return x in c.mro
            for m in c.mro:
                if isinstance(m, Ext) and self.ext.ext_issubclass(
                        m.name, x.name):
                    return True
            return x.name == 'builtins.object'
        if isinstance(c, Ext):
            if isinstance(x, Ext):
                return self.ext.ext_issubclass(c.name, x.name)
            return False
        return False

    def exc_isinstance(self, exc, x):
        if isinstance(x, Tup):
            return any(self.exc_isinstance(exc, y) for y in x.items)
        if not isinstance(exc, Inst):
            return True
        return any(self.subclass_of_ext(c, x) for c in exc.cands)

    def isinstance_(self, av, cls):
        """isinstance(), as a Python bool."""
        av, cls = self.norm(av), self.norm(cls)
        if isinstance(cls, Tup):
            for c in cls.items:
                if self.isinstance_(av, c):
                    return True
            return False
        if isinstance(cls, Opq) and cls.term[0] == 'union':
            raise PathCut()
        if isinstance(av, Inst):
            if isinstance(cls, (ClassObj, Ext)):
                yes = [c for c in av.cands if self.subclass_of_ext(c, cls)]
                no = [c for c in av.cands if c not in yes]
                if yes and no:
                    if self.choose(2, 'isinstance') == 0:
                        self.set_cands(av, yes)
                        return True
                    self.set_cands(av, no)
                    return False
                return bool(yes)
            if isinstance(cls, ClassSet):
                if len(av.cands) == 1 and all(
                        self.subclass_of_ext(av.cands[0], c)
                        for c in cls.cands):
                    return True
                return self.decide(('isinstance', term_of(av), term_of(cls)))
        if isinstance(cls, ClassObj) and isinstance(av, Opq):
            if self.typeset(av) is not None or mentions_arg(av.term):
                # instances of our classes are passed explicitly
                return False
            r = self.decide(('isinstance', av.term, term_of(cls)))
            return r
        if isinstance(cls, Ext):
            return self.ext.isinstance_ext(self, av, cls)
        if isinstance(cls, ClassObj):
            return False
        return self.decide(('isinstance', term_of(av), term_of(cls)))

    def issubclass_(self, c, x):
        c, x = self.norm(c), self.norm(x)
        if isinstance(x, Tup):
            for y in x.items:
                if self.issubclass_(c, y):
                    return True
            return False
        if isinstance(c, ClassSet) and isinstance(x, (ClassObj, Ext)):
            rs = {self.subclass_of_ext(k, x) for k in c.cands}
            if len(rs) == 1:
                return rs.pop()
            return self.decide(('issubclass', term_of(c), term_of(x)))
        if isinstance(c, (ClassObj, Ext)) and isinstance(x, (ClassObj, Ext)):
            return self.subclass_of_ext(c, x)
        if isinstance(c, (K, Inst)):
            self.raise_('TypeError', 'issubclass() arg 1 must be a class')
        return self.decide(('issubclass', term_of(c), term_of(x)))

    ###### containers

    def dict_find(self, d, key):
        key = self.norm(key)
        if isinstance(key, TextObj):
            key = self.norm(key.value)
        for e in d.entries:
            k = e[0]
            if k is key or (isinstance(k, K) and isinstance(key, K) and
                            type(k.v) is type(key.v) and k.v == key.v):
                return e
        opaque = not isinstance(key, K)
        for e in d.entries:
            k = self.norm(e[0])
            if isinstance(k, K) and isinstance(key, K):
                try:
                    if k.v == key.v:
                        return e
                except Exception:
                    pass
                continue
            if isinstance(k, (ListObj, DictObj)) or \
                    isinstance(key, (ListObj, DictObj)):
                continue
            if self.truth(self.eq(k, key)):
                return e
        return None

    def dict_get(self, d, key):
        """Value or ABSENT."""
        e = self.dict_find(d, key)
        if e is not None:
            return e[1]
        if d.owner is not None:
            return self.ext.attrs_materialise(self, d, key)
        return ABSENT

    def dict_set(self, d, key, value):
        key = self.norm(key)
        if isinstance(key, (ListObj, DictObj, SetObj)):
            self.raise_('TypeError', 'unhashable type')
        if isinstance(key, Inst):
            self.hash_check(key)
        e = self.dict_find(d, key)
        if e is None and d.owner is not None:
            self.ext.attrs_materialise(self, d, key)
            e = self.dict_find(d, key)
        self.touch(d, key)
        if e is not None:
            e2 = self.dict_find_exact(d, e)
            e2[1] = value
        else:
            d.entries.append([key, value])
        self.ext.attrs_changed(self, d)

    def dict_find_exact(self, d, e):
        for x in d.entries:
            if x is e:
                return x
        for x in d.entries:
            if x[0] is e[0]:
                return x
        return e

    def hash_check(self, inst):
        v, o = self.class_attr(inst, '__hash__')
        if v is not None and isinstance(v, K):
            self.raise_('TypeError', 'unhashable type')
        if v is None and self.class_attr(inst, '__eq__')[0] is not None:
            self.raise_('TypeError', 'unhashable type')

    def dict_del(self, d, key):
        e = self.dict_find(d, key)
        if e is None and d.owner is not None:
            r = self.ext.attrs_materialise(self, d, key)
            e = self.dict_find(d, key)
        if e is None:
            return False
        self.touch(d, key)
        d.entries.remove(self.dict_find_exact(d, e))
        self.ext.attrs_changed(self, d)
        return True

    def contains(self, c, item):
        """item in c, as a Python bool."""
        c, item = self.norm(c), self.norm(item)
        if isinstance(c, TextObj):
            c = self.norm(c.value)
        if isinstance(c, (Tup, ListObj, SetObj)):
            for x in list(c.items):
                if x is item:
                    return True
                if self.truth(self.eq(x, item)):
                    return True
            return False
        if isinstance(c, DictObj):
            return self.dict_get(c, item) is not ABSENT
        if isinstance(c, Inst):
            m = self.find_special(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [item], {}))
            for x in self.iterate(c):
                if x is item or self.truth(self.eq(x, item)):
                    return True
            return False
        if isinstance(c, K) and isinstance(item, K):
            try:
                return item.v in c.v
            except TypeError:
                self.raise_('TypeError', 'argument is not iterable')
        if isinstance(c, (K, Opq)):
            if isinstance(c, K) and isinstance(c.v, str) and \
                    isinstance(item, Opq):
                ne = self.neqk.get(item.term, set())
                if c.v and all(ch in ne for ch in c.v) and '' in ne:
                    pass
            return self.decide(('in', term_of(item), term_of(c)))
        if isinstance(c, NodeObj):
            return any(x is item for x in self.ext.node_children(self, c))
        if isinstance(c, GenObj):
            for x in self.iterate(c):
                if x is item or self.truth(self.eq(x, item)):
                    return True
            return False
        if isinstance(c, (ClassObj, Ext)):
            return self.decide(('in', term_of(item), term_of(c)))
        self.raise_('TypeError', 'argument is not iterable')

    def iterate(self, av):
        """A list of the elements of av."""
        av = self.norm(av)
        if isinstance(av, (Tup, ListObj, SetObj)):
            return list(av.items)
        if isinstance(av, DictObj):
            return [e[0] for e in av.entries]
        if isinstance(av, K):
            if isinstance(av.v, (str, bytes)):
                return [K(x) for x in av.v]
            if isinstance(av.v, range):
                return [K(x) for x in av.v]
            self.raise_('TypeError', '%r object is not iterable'
                        % type(av.v).__name__, cause=term_of(av))
        if isinstance(av, GenObj):
            return self.drain(av)
        if isinstance(av, NodeObj):
            return self.ext.node_children(self, av)
        if isinstance(av, Inst):
            m = self.find_special(av, '__iter__')
            if m is not None:
                r = self.call(m, [], {})
                if isinstance(r, Inst):
                    return self.iterate_next(r)
                return self.iterate(r)
            m = self.find_special(av, '__getitem__')
            if m is not None:
                r = []
                for i in range(200):
                    try:
                        r.append(self.call(m, [K(i)], {}))
                    except PyRaise as e:
                        if e.name in ('IndexError', 'StopIteration'):
                            return r
                        raise
                self.note_imprecise('iteration by __getitem__')
                raise PathCut()
            self.raise_('TypeError', '%r object is not iterable'
                        % av.cands[0].name, cause=term_of(av))
        if isinstance(av, TextObj):
            return self.iterate(av.value)
        if isinstance(av, Opq):
            return self.materialise(av)
        if isinstance(av, FileObj):
            self.event('read', av, [])
            lines = self.ext.source_lines(self, av)
            if lines is not None:
                if av.closed:
                    self.raise_('ValueError', 'I/O operation on closed file')
                at = getattr(av, 'at', 0)
                av.at = len(lines)
                return [K(x) for x in lines[at:]]
            return self.materialise(
                Opq(('lines', ('file', av.id)), {'list'}), elem={'str'})
        r = self.ext.iterate_ext(self, av)
        if r is not None:
            return r
        self.raise_('TypeError', 'not iterable')

    def iterate_next(self, it):
        r = []
        for i in range(6):
            m = self.find_special(it, '__next__')
            if m is None:
                self.raise_('TypeError', 'not an iterator')
            try:
                self.handlers.append([Ext('builtins.StopIteration')])
                r.append(self.call(m, [], {}))
            except PyRaise as e:
                if self.exc_isinstance(e.exc, Ext('builtins.StopIteration')):
                    return r
                raise
            finally:
                self.handlers.pop()
        raise PathCut()

    def materialise(self, av, elem=None, sizes=(0, 1, 2)):
        """Gives an opaque collection elements: none, one or two."""
        if av.term in self.mats:
            return list(self.mats[av.term])
        t = self.typeset(av)
        if t is not None and not (t & {'list', 'tuple', 'dict', 'set', 'str',
                                       'bytes', 'gen', 'iter'}):
            self.raise_('TypeError', 'not iterable', cause=av.term)
        if t is None:
            self.may_raise('TypeError', ('iter', av.term))
        k = self.facts_len(av.term)
        if k is not None:
            n = k
        else:
            n = sizes[self.choose(len(sizes), ('len', av.term))]
        if t == {'str'}:
            elem = {'str'}
        r = [Opq(('elem', av.term, i), elem) for i in range(n)]
        self.mats[av.term] = r
        if k is None:
            self.eqk.setdefault(('len', av.term), K(n))
        return list(r)

    def facts_len(self, term):
        k = self.eqk.get(('len', term))
        return k.v if k is not None else None

    def drain(self, g):
        """The remaining items of a generator."""
        if g.items is None:
            items = []
            self.run_gen(g, items.append)
            g.items = items
            g.pos = 0
        r = g.items[g.pos:]
        g.pos = len(g.items)
        return r

    def run_gen(self, g, on_yield, throw=False):
        runner = g.runner
        g.runner = lambda cb: None
        count = [0]
        key = object()

        def cb(x):
            count[0] += 1
            if count[0] > 4000:
                raise PathCut()
            try:
                on_yield(x)
            except (Return, Break, Continue, PyRaise) as e:
                if throw and isinstance(e, PyRaise):
                    raise
                # not for the generator to catch
                raise Through(e, key)
        try:
            runner(cb)
        except Through as t:
            if t.key is not key:
                raise
            raise t.exc

    def new_gen(self, runner, eager=False):
        """
        An iterator. If it's eager, then it doesn't matter when its items
        are made, so they're all made when the first is asked for.
        """
        return self.new(GenObj, runner=runner, items=None, pos=0,
                        eager=eager)

    def new_iter(self, items):
        return self.new(GenObj, runner=None, items=list(items), pos=0,
                        eager=True)

    def foreach(self, av, body):
        """
        Calls body for each element, interleaving properly with
        generators. body may raise StopGen(key) to stop.
        """
        av = self.norm(av)
        if isinstance(av, Inst):
            m = self.find_special(av, '__iter__')
            if m is not None:
                av = self.call(m, [], {})
                if isinstance(av, Inst):
                    for x in self.iterate_next(av):
                        body(x)
                    return
        if isinstance(av, GenObj) and av.items is None:
            self.run_gen(av, body)
            return
        if isinstance(av, NodeObj):
            i = 0
            while i < len(av.children):
                body(av.children[i])
                i += 1
            return
        if isinstance(av, ListObj):
            i = 0
            while i < len(av.items):
                body(av.items[i])
                i += 1
                if i > 3000:
                    raise PathCut()
            return
        for x in self.iterate(av):
            body(x)

    def length(self, av):
        """len(), as an abstract value."""
        av = self.norm(av)
        if isinstance(av, TextObj):
            av = self.norm(av.value)
        if isinstance(av, (Tup, ListObj, SetObj)):
            return K(len(av.items))
        if isinstance(av, DictObj):
            return K(len(av.entries))
        if isinstance(av, K):
            try:
                return K(len(av.v))
            except TypeError:
                self.raise_('TypeError', 'object has no len()')
        if isinstance(av, Inst):
            m = self.find_special(av, '__len__')
            if m is None:
                self.raise_('TypeError', 'object of type %r has no len()'
                            % av.cands[0].name)
            return self.call(m, [], {})
        if isinstance(av, NodeObj):
            return K(len(self.ext.node_children(self, av)))
        if isinstance(av, Opq):
            t = self.typeset(av)
            if t is not None and not t & {'list', 'tuple', 'dict', 'set',
                                          'str', 'bytes'}:
                self.raise_('TypeError', 'no len()', cause=av.term)
            if t is None:
                self.may_raise('TypeError', ('len', av.term))
            if av.term in self.mats:
                return K(len(self.mats[av.term]))
            lt = ('len', av.term)
            if lt in self.eqk:
                return self.eqk[lt]
            self.bounds.setdefault(lt, (0, False, None, False))
            return Opq(lt, {'int'})
        if isinstance(av, GenObj):
            self.raise_('TypeError', "object of type 'generator' has no len()")
        if isinstance(av, (ClassObj, Fn, Bound, ModObj)) or \
                isinstance(av, Ext) and av.name in (
                    'builtins.int', 'builtins.str', 'builtins.object'):
            self.raise_('TypeError', 'object has no len()')
        return Opq(('len', term_of(av)), {'int'})

    def getitem(self, av, idx):
        av, idx = self.norm(av), self.norm(idx)
        if isinstance(idx, Inst):
            m = self.find_special(idx, '__index__')
            if m is not None and isinstance(av, (ListObj, Tup, K)):
                idx = self.call(m, [], {})
        if isinstance(av, TextObj):
            av = self.norm(av.value)
        if isinstance(av, DictObj):
            r = self.dict_get(av, idx)
            if r is ABSENT:
                if av.kind == 'defaultdict' and av.default is not None:
                    v = self.call(av.default, [], {})
                    self.dict_set(av, idx, v)
                    return v
                self.raise_('KeyError', cause=term_of(idx))
            return r
        if isinstance(av, (Tup, ListObj)):
            if isinstance(idx, K) and isinstance(idx.v, int):
                try:
                    return av.items[idx.v]
                except IndexError:
                    self.raise_('IndexError', 'index out of range',
                                cause=('index', term_of(av)))
            if isinstance(idx, K) and isinstance(idx.v, slice):
                part = av.items[idx.v]
                return Tup(part) if isinstance(av, Tup) else \
                    self.new_list(part)
            if isinstance(idx, Opq):
                if not av.items:
                    self.raise_('IndexError', 'index out of range')
                for i, x in enumerate(av.items):
                    last = i == len(av.items) - 1
                    t = self.eqterm(idx.term, kterm(i))
                    tn = self.eqterm(idx.term, kterm(i - len(av.items)))
                    if self.decide(t) or self.decide(tn):
                        return x
                self.raise_('IndexError', cause=idx.term)
        if isinstance(av, K):
            if isinstance(idx, K):
                try:
                    return K(av.v[idx.v])
                except IndexError:
                    self.raise_('IndexError', 'index out of range')
                except TypeError:
                    self.raise_('TypeError', 'not subscriptable')
            return Opq(('item', term_of(av), term_of(idx)),
                       {'str'} if isinstance(av.v, str) else None)
        if isinstance(av, Inst):
            m = self.find_special(av, '__getitem__')
            if m is not None:
                return self.call(m, [idx], {})
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(av, (ClassObj, ClassSet)):
            if isinstance(av, ClassObj):
                m, o = self.mro_lookup(av, '__class_getitem__')
                if m is not None:
                    return self.call(self.bind_class(m, av), [idx], {})
            return av
        return self.ext.getitem_(self, av, idx)

    def setitem(self, av, idx, value):
        av, idx = self.norm(av), self.norm(idx)
        if isinstance(av, DictObj):
            return self.dict_set(av, idx, value)
        if isinstance(av, ListObj):
            if isinstance(idx, K) and isinstance(idx.v, int):
                self.touch(av)
                try:
                    av.items[idx.v] = value
                except IndexError:
                    self.raise_('IndexError')
                return
            if isinstance(idx, K) and isinstance(idx.v, slice):
                self.touch(av)
                av.items[idx.v] = self.iterate(value)
                return
            self.note_imprecise('list store at unknown index')
            raise PathCut()
        if isinstance(av, Inst):
            m = self.find_special(av, '__setitem__')
            if m is not None:
                return self.call(m, [idx, value], {})
            self.raise_('TypeError', 'no item assignment')
        return self.ext.setitem_(self, av, idx, value)

    def delitem(self, av, idx):
        av, idx = self.norm(av), self.norm(idx)
        if isinstance(av, DictObj):
            if not self.dict_del(av, idx):
                self.raise_('KeyError', cause=term_of(idx))
            return
        if isinstance(av, ListObj) and isinstance(idx, K):
            self.touch(av)
            try:
                del av.items[idx.v]
            except IndexError:
                self.raise_('IndexError')
            return
        if isinstance(av, Inst):
            m = self.find_special(av, '__delitem__')
            if m is not None:
                return self.call(m, [idx], {})
            self.raise_('TypeError', 'no item deletion')
        return self.ext.delitem_(self, av, idx)

    ###### calls

    def call(self, f, args, kwargs, node=None):
        f = self.norm(f)
        if isinstance(f, Bound):
            if isinstance(f.fn, Native):
                return f.fn.py(self, [f.obj] + list(args), kwargs, node)
            return self.call(f.fn, [f.obj] + list(args), kwargs, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, Native):
            return f.py(self, list(args), kwargs, node)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, ClassSet):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.ext.call_ext(self, f, list(args), kwargs, node)
        if isinstance(f, Inst):
            m = self.find_special(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs, node)
            self.raise_('TypeError', 'object is not callable')
        if isinstance(f, NodeObj):
            return self.ext.node_find_all(self, f, args, kwargs)
        if isinstance(f, (CM, SM)):
            return self.call(f.fn, args, kwargs, node)
        if isinstance(f, Opq):
            t = self.typeset(f)
            if t is not None and not t & {'function', 'type'}:
                self.raise_('TypeError', 'object is not callable',
                            cause=f.term)
            self.event('opaque-call', f.term, list(args))
            self.may_raise('Exception', ('call', f.term))
            return Opq(('ocall', f.term) + tuple(term_of(a) for a in args)
                       + (self.unique(),))
        if isinstance(f, K):
            self.raise_('TypeError', '%r object is not callable'
                        % type(f.v).__name__)
        self.note_imprecise('call of %r' % (type(f).__name__,))
        return Opq(('call?', self.unique()))

    def instantiate(self, cls, args, kwargs, node=None):
        cands = cls.cands if isinstance(cls, ClassSet) else (cls,)
        s = self.summaries.get(cands[0].qual) if len(cands) == 1 else None
        if s is not None:
            r = s(self, cls, args, kwargs)
            if r is not None:
                return r
        if len(cands) == 1:
            r = self.ext.instantiate_special(self, cands[0], args, kwargs,
                                             node)
            if r is not None:
                return r
            nw, o = self.mro_lookup(cands[0], '__new__')
            if nw is not None:
                fn = nw.fn if isinstance(nw, SM) else nw
                r = self.call(fn, [cands[0]] + list(args), kwargs, node)
                if not (isinstance(r, Inst) and
                        cands[0] in r.cands[0].mro):
                    return r
                inst = r
            else:
                inst = self.new_inst(cands)
        else:
            inst = self.new_inst(cands)
        init, owner = self.class_attr(inst, '__init__')
        if init is not None:
            self.call(self.bind(init, inst), args, kwargs, node)
        elif self.inst_is_exc(inst):
            inst.attrs['args'] = Tup(args)
        elif args or kwargs:
            if not any(isinstance(c, Ext) and c.name != 'builtins.object'
                       for c in inst.cands[0].mro):
                self.raise_('TypeError', '%s() takes no arguments'
                            % inst.cands[0].name)
        return inst

    def bind_args(self, f, args, kwargs, frame):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vars_ = frame.vars
        args = list(args)
        n = len(params)
        for name, v in zip(params, args):
            vars_[name] = v
        extra = args[n:]
        if a.vararg:
            vars_[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_('TypeError', '%s() takes %d positional arguments but '
                        '%d were given' % (f.qual, n, len(args)))
        posonly = {p.arg for p in a.posonlyargs}
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = []
        for k, v in kwargs.items():
            if k in params and k not in posonly:
                if k in vars_:
                    self.raise_('TypeError', '%s() got multiple values for '
                                'argument %r' % (f.qual, k))
                vars_[k] = v
            elif k in kwonly:
                vars_[k] = v
            elif a.kwarg:
                rest.append((K(k), v))
            else:
                self.raise_('TypeError', '%s() got an unexpected keyword '
                            'argument %r' % (f.qual, k))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new_dict(rest)
        nd = len(f.defaults)
        for i, name in enumerate(params):
            if name not in vars_:
                j = i - (n - nd)
                if j >= 0:
                    vars_[name] = f.defaults[j]
                else:
                    self.raise_('TypeError', '%s() missing required argument '
                                '%r' % (f.qual, name))
        for name, d in zip(kwonly, f.kwdefaults):
            if name not in vars_:
                if d is None:
                    self.raise_('TypeError', '%s() missing keyword-only '
                                'argument %r' % (f.qual, name))
                vars_[name] = d

    def call_fn(self, f, args, kwargs, node=None):
        h = self.hooks.get(f.qual) if self.hooks else None
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not None:
                return r
        if len(self.stack) > MAX_DEPTH:
            self.note_imprecise('call depth')
            again = [x for x in self.stack if x.fn is not None and
                     x.fn.node is f.node and x.at == len(self.trace)]
            if len(again) > 10 and not self.imprecise[:-1]:
                raise Diverges(self.loc())
            raise PathCut()
        self.visited_fns.add((self.relpath(f.mod.path), f.qual))
        scope = scope_of(f.node)
        frame = Frame(f.frame, f.mod, f, scope)
        frame.base = self.base_phase
        frame.at = len(self.trace)
        frame.ccell = f.ccell
        self.bind_args(f, args, kwargs, frame)
        frame.selfav = args[0] if args else None
        if isinstance(f.node, ast.Lambda):
            self.stack.append(frame)
            frame.node = f.node
            try:
                return self.ev(f.node.body, frame)
            finally:
                self.stack.pop()
        if scope.isgen:
            def runner(on_yield):
                frame.on_yield = on_yield
                self.stack.append(frame)
                frame.node = f.node
                try:
                    self.exec_body(f.node.body, frame)
                except Return:
                    pass
                finally:
                    self.stack.pop()
            return self.new_gen(runner)
        self.stack.append(frame)
        frame.node = f.node
        try:
            self.exec_body(f.node.body, frame)
            return NONE
        except Return as r:
            return r.v
        finally:
            self.stack.pop()

    ###### statements

    def exec_body(self, body, fr):
        for s in body:
            self.ex(s, fr)

    def ex(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps and not self.base_phase:
            self.note_imprecise('too many steps')
            raise PathCut()
        fr.node = s
        getattr(self, 'ex_' + type(s).__name__)(s, fr)

    def ex_Expr(self, s, fr):
        self.ev(s.value, fr)

    def ex_Pass(self, s, fr):
        pass

    def ex_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def ex_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        if fr.isclass and isinstance(s.target, ast.Name):
            fr.vars.setdefault('__annots__', [])
            fr.vars['__annots__'].append(s.target.id)

    def ex_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t, fr)
            self.store_name(t.id, self.iop(op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.iop(op, old, self.ev(s.value, fr)))

    IOPS = {'Add': '__iadd__', 'Sub': '__isub__', 'BitOr': '__ior__',
            'BitAnd': '__iand__', 'Mult': '__imul__', 'Div': '__itruediv__'}

    def iop(self, op, a, b):
        a = self.norm(a)
        if isinstance(a, Inst) and op in self.IOPS:
            m = self.find_special(a, self.IOPS[op])
            if m is not None:
                return self.call(m, [b], {})
        if isinstance(a, ListObj) and op == 'Add':
            self.touch(a)
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, DictObj) and op == 'BitOr':
            self.ext.dict_update(self, a, b)
            return a
        if isinstance(a, SetObj) and op in ('BitOr', 'Sub', 'BitAnd') and \
                not a.frozen:
            r = self.binop(op, a, b)
            self.touch(a)
            a.items = list(r.items)
            return a
        return self.binop(op, a, b)

    def ex_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else NONE)

    def ex_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_body(s.body, fr)
        else:
            self.exec_body(s.orelse, fr)

    def ex_For(self, s, fr):
        it = self.ev(s.iter, fr)
        key = object()

        def body(x):
            fr.node = s
            self.assign(s.target, x, fr)
            try:
                self.exec_body(s.body, fr)
            except Continue:
                pass
            except Break:
                raise StopGen(key)
        try:
            self.foreach(it, body)
        except StopGen as g:
            if g.key is not key:
                raise
            return
        self.exec_body(s.orelse, fr)

    def ex_While(self, s, fr):
        n = 0
        undecided = 0
        at_first = len(self.trace), len(self.imprecise)
        while True:
            before = len(self.trace)
            fr.node = s
            if not self.truth(self.ev(s.test, fr)):
                break
            if len(self.trace) != before:
                undecided += 1
            n += 1
            if undecided > 3 or n > 1000:
                if at_first == (len(self.trace), len(self.imprecise)):
                    raise Diverges(self.loc())
                raise PathCut()
            try:
                self.exec_body(s.body, fr)
            except Continue:
                pass
            except Break:
                return
            if len(self.trace) - before > 12 and n > 4:
                raise PathCut()
        self.exec_body(s.orelse, fr)

    def ex_Break(self, s, fr):
        raise Break()

    def ex_Continue(self, s, fr):
        raise Continue()

    def ex_Raise(self, s, fr):
        if s.exc is None:
            if fr.handling is not None:
                raise fr.handling
            for f in reversed(self.stack):
                if f.handling is not None:
                    raise f.handling
            self.raise_('RuntimeError', 'No active exception to reraise')
        self.in_raise += 1
        self.event('raising', s)
        try:
            e = self.ev(s.exc, fr)
            if s.cause is not None:
                self.ev(s.cause, fr)
        except PyRaise as x:
            if not x.implicit:
                self.event('raise-failed', s, x)
            raise
        finally:
            self.in_raise -= 1
        e = self.norm(e)
        if isinstance(e, ClassObj):
            e = self.instantiate(e, [], {})
        elif isinstance(e, Ext):
            e = self.ext.call_ext(self, e, [], {}, s)
        if isinstance(e, Inst) and self.inst_is_exc(e):
            raise PyRaise(e, self.loc())
        if isinstance(e, Opq):
            raise PyRaise(self.make_exc('Exception'), self.loc())
        self.event('raise-failed', s, None)
        self.raise_('TypeError', 'exceptions must derive from BaseException')

    def ex_Try(self, s, fr):
        classes = []
        for h in s.handlers:
            if h.type is None:
                classes.append(Ext('builtins.BaseException'))
            else:
                t = self.ev(h.type, fr)
                classes.append(t)
        flat = []
        for c in classes:
            flat.extend(c.items if isinstance(c, Tup) else [c])

        def main():
            self.handlers.append(flat)
            depth = len(self.handlers)
            sdepth = len(self.stack)
            try:
                try:
                    self.exec_body(s.body, fr)
                finally:
                    del self.handlers[depth - 1:]
            except PyRaise as e:
                del self.stack[sdepth:]
                for h, c in zip(s.handlers, classes):
                    if self.exc_isinstance(e.exc, c):
                        if h.name:
                            self.store_name(h.name, e.exc, fr)
                        old = fr.handling
                        fr.handling = e
                        self.decisions.append(('caught', e.name, e.cause))
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            fr.handling = old
                        if h.name:
                            fr.vars.pop(h.name, None)
                        return
                raise
            self.exec_body(s.orelse, fr)

        if not s.finalbody:
            return main()
        try:
            main()
        except (PyRaise, Control) as e:
            if isinstance(e, PathCut):
                raise
            self.exec_body(s.finalbody, fr)
            raise
        self.exec_body(s.finalbody, fr)

    ex_TryStar = ex_Try

    def ex_With(self, s, fr):
        self.do_with(list(s.items), s, fr)

    ex_AsyncWith = ex_With

    def do_with(self, items, s, fr):
        if not items:
            self.exec_body(s.body, fr)
            return
        item = items.pop(0)
        cm = self.norm(self.ev(item.context_expr, fr))

        def inner(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            self.do_with(list(items), s, fr)

        if isinstance(cm, GenObj):       # from contextlib.contextmanager
            left = []

            def on_yield(x):
                try:
                    inner(x)
                except PathCut:
                    raise
                except Control as c:
                    left.append(c)
            self.run_gen(cm, on_yield, throw=True)
            if left:
                raise left[0]
            return
        if isinstance(cm, Inst):
            enter = self.find_special(cm, '__enter__')
            exit_ = self.find_special(cm, '__exit__')
            if enter is None or exit_ is None:
                self.raise_('TypeError', 'not a context manager')
            v = self.call(enter, [], {})
            try:
                inner(v)
            except PyRaise as e:
                r = self.call(exit_, [self.class_of(e.exc), e.exc, NONE], {})
                if self.truth(r):
                    return
                raise
            except Control as c:
                if not isinstance(c, PathCut):
                    self.call(exit_, [NONE, NONE, NONE], {})
                raise
            self.call(exit_, [NONE, NONE, NONE], {})
            return
        self.ext.with_ext(self, cm, inner)

    def ex_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_('AssertionError')

    def ex_Delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            fr2 = self.frame_for_store(t.id, fr)
            if t.id not in fr2.vars:
                self.raise_('NameError', t.id)
            del fr2.vars[t.id]
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, fr), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, fr)

    def ex_Global(self, s, fr):
        pass

    ex_Nonlocal = ex_Global

    def ex_FunctionDef(self, s, fr):
        f = self.make_fn(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            fr.node = s
            v = self.call(dv, [v], {}, s)
        self.store_name(s.name, v, fr)

    def ex_AsyncFunctionDef(self, s, fr):
        self.store_name(s.name, Opq(('async', s.name)), fr)

    def make_fn(self, s, fr):
        f = Fn()
        f.node = s
        f.frame = fr
        f.mod = fr.mod
        prefix = ''
        if fr.isclass:
            prefix = fr.vars['__qualname__'].v + '.'
        elif fr.fn is not None:
            prefix = fr.fn.qual + '.'
        f.qual = prefix + getattr(s, 'name', '<lambda>')
        f.ccell = fr.ccell
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, fr) if d is not None else None
                        for d in s.args.kw_defaults]
        f.isgen = False
        f.id = self.fresh_id()
        f.attrs = {}
        f.base = self.base_phase
        return f

    def ex_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords}
        c = self.new(ClassObj)
        c.name = s.name
        c.bases = bases
        c.mod = fr.mod
        c.node = s
        self.class_order += 1
        c.order = self.class_order
        if fr.isclass:
            c.qual = fr.vars['__qualname__'].v + '.' + s.name
        elif fr.fn is not None:
            c.qual = fr.fn.qual + '.' + s.name
        else:
            c.qual = s.name
        body = Frame(fr, fr.mod, fr.fn, None, isclass=True)
        body.ccell = [None]
        body.vars['__qualname__'] = K(c.qual)
        body.vars['__module__'] = K(fr.mod.name)
        self.stack.append(body)
        body.node = s
        try:
            if s.body and isinstance(s.body[0], ast.Expr) and isinstance(
                    s.body[0].value, ast.Constant) and isinstance(
                        s.body[0].value.value, str):
                body.vars['__doc__'] = K(s.body[0].value.value)
            else:
                body.vars['__doc__'] = NONE
            self.exec_body(s.body, body)
        finally:
            self.stack.pop()
        c.ns = body.vars
        c.mro = self.linearise(c)
        body.ccell[0] = c
        if '__eq__' in c.ns and '__hash__' not in c.ns:
            c.ns['__hash__'] = NONE
        for name, v in list(c.ns.items()):
            if isinstance(v, Inst) and self.has_class_attr(v, '__set_name__'):
                self.call(self.find_special(v, '__set_name__'),
                          [c, K(name)], {})
            if isinstance(v, CachedProp):
                v.name = name
        for b in c.mro[1:]:
            if isinstance(b, ClassObj) and '__init_subclass__' in b.ns:
                m = b.ns['__init_subclass__']
                self.call(m.fn if isinstance(m, CM) else m, [c], {
                    k: v for k, v in kw.items() if k != 'metaclass'})
                break
        self.ext.class_created(self, c, kw)
        v = c
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            fr.node = s
            v = self.call(dv, [v], {}, s)
        self.store_name(s.name, v, fr)

    def linearise(self, c):
        seqs = []
        for b in c.bases:
            if isinstance(b, ClassObj):
                seqs.append(list(b.mro))
            else:
                seqs.append(self.ext.ext_mro(self, b))
        seqs.append([b for b in c.bases])
        r = [c]

        def same(x, y):
            return x is y or (isinstance(x, Ext) and isinstance(y, Ext)
                              and x.name == y.name)
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                break
            for q in seqs:
                h = q[0]
                if not any(any(same(h, y) for y in p[1:]) for p in seqs):
                    break
            else:
                self.raise_('TypeError', 'inconsistent MRO')
            r.append(h)
            for q in seqs:
                if same(q[0], h):
                    q.pop(0)
        return r

    def ex_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.import_module(top), fr)

    def ex_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            base = fr.mod.name.split('.')
            if not fr.mod.ispkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModObj):
                    for k in self.star_names(m):
                        if k in m.ns:
                            self.store_name(k, m.ns[k], fr)
                        elif m.name + '.' + k in self.modules:
                            self.store_name(k, self.modules[m.name + '.' + k],
                                            fr)
                        else:
                            self.raise_('AttributeError',
                                        'module %r has no attribute %r' % (
                                            m.name, k))
                continue
            self.store_name(a.asname or a.name,
                            self.import_from(m, a.name), fr)

    def import_from(self, m, name):
        if isinstance(m, ModObj):
            if name in m.ns:
                return m.ns[name]
            sub = m.name + '.' + name
            if self.find_module(sub) is not None:
                return self.import_module(sub)
            self.raise_('ImportError', 'cannot import name %r from %r' % (
                name, m.name))
        return self.ext.ext_attr(self, m.name, name)

    def star_names(self, m):
        al = m.ns.get('__all__')
        if al is not None:
            return [x.v for x in self.iterate(al) if isinstance(x, K)]
        return [k for k in m.ns if not k.startswith('_')]

    def ex_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        for case in s.cases:
            if self.match(case.pattern, subj, fr) and (
                    case.guard is None or
                    self.truth(self.ev(case.guard, fr))):
                self.exec_body(case.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, K(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            if not self.isinstance_(v, self.ev(p.cls, fr)):
                return False
            if len(p.patterns) == 1 and not p.kwd_patterns:
                return self.match(p.patterns[0], v, fr)
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, k), fr):
                    return False
            return not p.patterns
        if isinstance(p, ast.MatchSequence):
            v = self.norm(v)
            if isinstance(v, (K, Inst, NodeObj, DictObj)):
                return False
            if isinstance(v, Opq):
                if not (self.isinstance_(v, Ext('builtins.tuple')) or
                        self.isinstance_(v, Ext('builtins.list'))):
                    return False
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            ln = self.length(v)
            if star:
                if self.truth(self.less(ln, K(n - 1))):
                    return False
                items = self.iterate(v)
                i = star[0]
                after = n - i - 1
                parts = items[:i] + [self.new_list(
                    items[i:len(items) - after])] + \
                    items[len(items) - after:]
            else:
                if not self.truth(self.eq(ln, K(n))):
                    return False
                parts = self.iterate(v)
            for q, x in zip(p.patterns, parts):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        self.store_name(q.name, x, fr)
                elif not self.match(q, x, fr):
                    return False
            return True
        self.note_imprecise('match pattern')
        raise PathCut()

    ###### names

    def frame_for_store(self, name, fr):
        if fr.scope is not None:
            if name in fr.scope.globals:
                return self.module_frame(fr)
            if name in fr.scope.nonlocals:
                f = fr.parent
                while f is not None:
                    if not f.isclass and (name in f.vars or (
                            f.scope is not None and
                            name in f.scope.assigned)):
                        return f
                    f = f.parent
        return fr

    def module_frame(self, fr):
        while fr.parent is not None:
            fr = fr.parent
        return fr

    def store_name(self, name, v, fr):
        f = self.frame_for_store(name, fr)
        if f.parent is None and not self.base_phase:
            self.touch(f.mod, name)
            f.mod.ns[name] = v
            f.vars = f.mod.ns
            return
        if f is not fr and f.base and not self.base_phase:
            # a variable of a function which ran while importing
            self.touch_frame(f, name)
        f.vars[name] = v

    def lookup(self, node, fr):
        name = node.id
        f = fr
        first = True
        while f is not None:
            if (first or not f.isclass):
                vars_ = f.mod.ns if f.parent is None else f.vars
                if name in vars_ and not (
                        f.scope is not None and
                        name in f.scope.globals):
                    return vars_[name]
                if f.scope is not None and name in f.scope.assigned:
                    self.event('unbound', name)
                    if first:
                        self.raise_('UnboundLocalError', name)
                    self.raise_('NameError', name)
            first = False
            f = f.parent
        r = self.ext.builtin(self, name)
        if r is not None:
            return r
        if name in ('__file__', '__name__', '__doc__', '__path__'):
            return K({'__file__': fr.mod.path,
                      '__name__': fr.mod.name}.get(name))
        if name == '__class__' and fr.ccell:
            return fr.ccell[0]
        self.event('unbound', name)
        self.raise_('NameError', 'name %r is not defined' % name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            n = len(t.elts)
            v = self.norm(v)
            if isinstance(v, Opq) and not star and v.term not in self.mats:
                ts = self.typeset(v)
                if ts is not None and not ts & {'list', 'tuple', 'str',
                                                'dict', 'set'}:
                    self.raise_('TypeError', 'cannot unpack', cause=v.term)
                if ts is None:
                    self.may_raise('TypeError', v.term)
                self.may_raise('ValueError', v.term)
                if self.facts_len(v.term) is None:
                    self.mats[v.term] = [Opq(('elem', v.term, i))
                                         for i in range(n)]
            items = self.iterate(v)
            if star:
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value,
                            self.new_list(items[i:len(items) - after]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            if len(items) != n:
                self.raise_('ValueError', 'wrong number of values to unpack',
                            cause=term_of(v))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    ###### expressions

    def ev(self, e, fr):
        return getattr(self, 'ev_' + type(e).__name__)(e, fr)

    def ev_Constant(self, e, fr):
        return K(e.value)

    def ev_Name(self, e, fr):
        return self.lookup(e, fr)

    def ev_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        fr.node = fr.node if not hasattr(e, 'lineno') else fr.node
        return self.getattr(o, e.attr)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        return self.getitem(o, i)

    def ev_Slice(self, e, fr):
        parts = [self.ev(x, fr) if x is not None else NONE
                 for x in (e.lower, e.upper, e.step)]
        parts = [self.norm(p) for p in parts]
        if all(isinstance(p, K) for p in parts):
            return K(slice(*[p.v for p in parts]))
        return Opq(('slice',) + tuple(term_of(p) for p in parts), {'slice'})

    def ev_Tuple(self, e, fr):
        return Tup(self.ev_elts(e.elts, fr))

    def ev_List(self, e, fr):
        return self.new_list(self.ev_elts(e.elts, fr))

    def ev_Set(self, e, fr):
        s = self.new_set()
        for x in self.ev_elts(e.elts, fr):
            self.ext.set_add(self, s, x)
        return s

    def ev_elts(self, elts, fr):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                r.extend(self.iterate(self.ev(x.value, fr)))
            else:
                r.append(self.ev(x, fr))
        return r

    def ev_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ext.dict_update(self, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def ev_Lambda(self, e, fr):
        return self.make_fn(e, fr)

    def ev_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.scope is not None and f.fn is None:
            f = f.parent
        self.store_name(e.target.id, v, self.comp_target(fr))
        return v

    def comp_target(self, fr):
        while fr.scope is COMP:
            fr = fr.parent
        return fr

    def ev_UnaryOp(self, e, fr):
        v = self.norm(self.ev(e.operand, fr))
        op = type(e.op).__name__
        if op == 'Not':
            return self.not_(v)
        if isinstance(v, K):
            try:
                return K({'USub': lambda x: -x, 'UAdd': lambda x: +x,
                          'Invert': lambda x: ~x}[op](v.v))
            except TypeError:
                self.raise_('TypeError', 'bad operand')
        if isinstance(v, Inst):
            m = self.find_special(v, {'USub': '__neg__', 'UAdd': '__pos__',
                                      'Invert': '__invert__'}[op])
            if m is not None:
                return self.call(m, [], {})
            self.raise_('TypeError', 'bad operand')
        if op == 'UAdd':
            return v
        t = self.typeset(v) if isinstance(v, Opq) else None
        return Opq((op, term_of(v)), t & {'int', 'float'} if t else None)

    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.ext.binop(self, op, a, b)

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
           'GtE': '>='}

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        r = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            n = type(op).__name__
            if n in self.CMP:
                r = self.compare(self.CMP[n], left, right)
            elif n == 'Is':
                r = K(self.identical(left, right))
            elif n == 'IsNot':
                r = K(not self.identical(left, right))
            elif n == 'In':
                r = K(self.contains(right, left))
            else:
                r = K(not self.contains(right, left))
            if i < len(e.ops) - 1 and not self.truth(r):
                return r
            left = right
        return r

    def ev_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, fr)))
            else:
                args.append(self.ev(x, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.norm(self.ev(k.value, fr))
                if isinstance(d, DictObj):
                    for kk, vv in d.entries:
                        kk = self.norm(kk)
                        if isinstance(kk, K):
                            kwargs[kk.v] = vv
                        else:
                            self.note_imprecise('opaque keyword')
                            raise PathCut()
                elif isinstance(d, Opq):
                    self.note_imprecise('opaque **kwargs')
                else:
                    for kk in self.iterate(d):
                        kwargs[self.const(kk)] = self.getitem(d, kk)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Ext) and f.name == 'builtins.super' and not args:
            return self.zero_super(fr)
        if isinstance(f, Ext) and f.name in ('builtins.locals',
                                             'builtins.globals',
                                             'builtins.vars', 'builtins.dir'
                                             ) and not args:
            if f.name == 'builtins.globals':
                d = self.new_dict([(K(k), v) for k, v in fr.mod.ns.items()])
                d.kind = 'globals'
                return d
            return self.new_dict([(K(k), v) for k, v in fr.vars.items()])
        if fr.node is not e and hasattr(e, 'lineno') and \
                isinstance(fr.node, ast.stmt):
            pass
        return self.call(f, args, kwargs, e)

    def zero_super(self, fr):
        f = fr
        while f is not None and (f.fn is None or f.scope is COMP or
                                 f.ccell is None):
            f = f.parent
        cell = fr.ccell
        cls = cell[0] if cell else None
        if cls is None:
            self.raise_('RuntimeError', 'super(): no arguments')
        # the first argument of the method the super() call is in
        g = fr
        while g.parent is not None and g.parent.scope is not None and \
                not g.parent.isclass and g.parent.ccell is g.ccell and \
                g.parent.fn is not None:
            g = g.parent
        obj = None
        a = g.fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if names and names[0] in g.vars:
            obj = g.vars[names[0]]
        else:
            obj = g.selfav
        return SuperObj(cls, obj)

    def ev_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                parts.append(self.ev_FormattedValue(x, fr))
        return self.ext.cat(self, parts)

    def ev_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        if e.conversion == ord('r'):
            v = self.ext.repr_(self, v)
        elif e.conversion == ord('s'):
            v = self.ext.str_(self, v)
        spec = ''
        if e.format_spec is not None:
            s = self.ev(e.format_spec, fr)
            if not isinstance(s, K):
                return Opq(('fmt?', term_of(v), term_of(s)), {'str'})
            spec = s.v
        return self.ext.format_(self, v, spec)

    def ev_ListComp(self, e, fr):
        r = []
        self.comp(e.generators, fr, lambda f: r.append(self.ev(e.elt, f)))
        return self.new_list(r)

    def ev_SetComp(self, e, fr):
        s = self.new_set()
        self.comp(e.generators, fr, lambda f: self.ext.set_add(
            self, s, self.ev(e.elt, f)))
        return s

    def ev_DictComp(self, e, fr):
        d = self.new_dict()

        def add(f):
            k = self.ev(e.key, f)
            self.dict_set(d, k, self.ev(e.value, f))
        self.comp(e.generators, fr, add)
        return d

    def ev_GeneratorExp(self, e, fr):
        first = self.ev(e.generators[0].iter, fr)
        stack = list(self.stack)

        def runner(on_yield):
            self.comp(e.generators, fr,
                      lambda f: on_yield(self.ev(e.elt, f)), first)
        return self.new_gen(runner)

    def comp(self, gens, fr, emit, first=None):
        f = Frame(fr, fr.mod, fr.fn, COMP)
        f.node = fr.node
        f.ccell = fr.ccell
        f.selfav = fr.selfav

        def level(i, it=None):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            if it is None:
                it = self.ev(g.iter, fr if i == 0 else f)

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        return
                level(i + 1)
            self.foreach(it, body)
        level(0, first)

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        f = fr
        while f.on_yield is None and f.parent is not None:
            f = f.parent
        node = f.node
        # the consumer runs outside the generator's frame
        try:
            idx = len(self.stack) - 1 - self.stack[::-1].index(f)
        except ValueError:
            idx = len(self.stack)
        tail = self.stack[idx:]
        del self.stack[idx:]
        try:
            f.on_yield(v)
        finally:
            self.stack[idx:] = tail
        f.node = node
        return NONE

    def ev_YieldFrom(self, e, fr):
        it = self.ev(e.value, fr)
        f = fr
        while f.on_yield is None and f.parent is not None:
            f = f.parent
        self.foreach(it, lambda x: f.on_yield(x))
        return NONE

    def ev_Starred(self, e, fr):
        return Tup(self.iterate(self.ev(e.value, fr)))

    def ev_Await(self, e, fr):
        return Opq(('await', self.unique()))

    ###### modules

    def find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split('.')
        root = self.roots.get(parts[0])
        if root is None:
            return None
        p = os.path.join(root, *parts[1:])
        for path, pkg in ((os.path.join(p, '__init__.py'), True),
                          (p + '.py', False)):
            if os.path.isfile(path):
                m = self.new(ModObj, name=name, ns={}, path=path, tree=None,
                             state='new', ispkg=pkg)
                self.modules[name] = m
                return m
        return None

    def parse(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            t = self.trees[path] = ast.parse(src, path)
            self.read_files[path] = src
        return t

    def import_module(self, name):
        parts = name.split('.')
        if parts[0] not in self.roots:
            return Ext(self.ext.canon(name))
        m = None
        for i in range(1, len(parts) + 1):
            sub = '.'.join(parts[:i])
            m = self.find_module(sub)
            if m is None:
                self.raise_('ModuleNotFoundError', 'No module named %r' % sub)
            if m.state == 'new':
                self.load(m)
            if i > 1:
                parent = self.modules['.'.join(parts[:i - 1])]
                if parent.ns.get(parts[i - 1]) is not m:
                    if self.base_phase:
                        parent.ns[parts[i - 1]] = m
        return m

    def load(self, m):
        m.state = 'loading'
        fr = Frame(None, m)
        fr.vars = m.ns
        m.ns['__name__'] = K(m.name)
        self.stack.append(fr)
        try:
            tree = self.parse(m.path)
            body = tree.body
            self.exec_body(body, fr)
        except Exception:
            m.state = 'failed'
            raise
        finally:
            self.stack.pop()
        m.state = 'loaded'

    ###### the document

    def document_changed(self):
        return self.ext.document_changed(self)


COMP = Scope()
COMP.assigned, COMP.globals, COMP.nonlocals = set(), set(), set()
COMP.isgen = False
