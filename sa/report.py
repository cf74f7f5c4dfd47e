"""What a check found, and what it looked at."""
import time
import traceback

from .interp import *
from . import dom


class Report:

    def __init__(self, pid, W, tier):
        self.pid = pid
        self.W = W
        self.tier = tier
        self.units = {}            # name -> exploration result
        self.obligations = {}      # description -> count of times decided
        self.violations = {}       # key -> dict
        self.inconclusive = {}     # unit -> reason
        self.samples = []
        self.sites = set()
        self.unknown = {}          # obligations which we couldn't decide
        self.unit_name = None
        self.shard = (0, 1)        # which part of the work is ours
        self.count = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def explore(self, name, fn, max_paths=None):
        """Analyses one operation on every path."""
        I = self.W.I
        self.count += 1
        if self.count % self.shard[1] != self.shard[0]:
            return None
        if getattr(self, 'only', None) and self.only not in name:
            return None
        if max_paths is None:
            max_paths = 6000 if self.thorough else 1200
        self.unit_name = name
        escaped = []

        def run(I):
            try:
                fn(I)
            except PyRaise as e:
                if len(escaped) < 3:
                    escaped.append('%s' % e)
        t0 = time.time()
        del I.diverged[:]
        try:
            r = I.explore(run, max_paths)
        except AnalysisError as e:
            self.inconclusive[name] = str(e)
            I.cleanup()
            return
        except (RecursionError, MemoryError) as e:
            self.inconclusive[name] = type(e).__name__
            I.cleanup()
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if type(e).__name__ == 'AnchorGone':
                I.cleanup()
                raise
            self.inconclusive[name] = '%s: %s (%s:%d)' % (
                type(e).__name__, e, tb[-1].filename.split('/')[-1],
                tb[-1].lineno)
            I.cleanup()
            return
        finally:
            self.unit_name = None
        if I.diverged:
            self.unit_name = name
            self.violation('%s:diverges:%s' % (self.pid, fmt_loc(
                I.diverged[0])), '%s: this never ends' % name, I.diverged[0])
            self.unit_name = None
        r['escaped'] = escaped
        r['s'] = round(time.time() - t0, 2)
        if r['cut'] and r['cut'] == r['paths']:
            self.inconclusive[name] = 'no path could be followed to its end'
        self.units[name] = r
        return r

    def export(self):
        I = self.W.I
        return {'units': self.units, 'obligations': self.obligations,
                'violations': self.violations,
                'inconclusive': self.inconclusive, 'samples': self.samples,
                'sites': self.sites, 'unknown': self.unknown,
                'visited': I.visited_fns,
                'notes': {'%s at %s' % (k[0], k[1]): v
                          for k, v in I.imprecise_notes.items()}}

    @staticmethod
    def merge(parts):
        r = parts[0]
        for p in parts[1:]:
            r['units'].update(p['units'])
            for k, n in p['obligations'].items():
                r['obligations'][k] = r['obligations'].get(k, 0) + n
            for k, v in p['violations'].items():
                r['violations'].setdefault(k, v)
            r['inconclusive'].update(p['inconclusive'])
            r['samples'] += [x for x in p['samples']
                             if x not in r['samples']]
            r['sites'] |= p['sites']
            for k, n in p['unknown'].items():
                r['unknown'][k] = r['unknown'].get(k, 0) + n
            r['visited'] = set(r['visited']) | set(p['visited'])
            for k, n in p['notes'].items():
                r['notes'][k] = r['notes'].get(k, 0) + n
        r['samples'] = r['samples'][:12]
        return r

    def decided(self, what, n=1):
        self.obligations[what] = self.obligations.get(what, 0) + n

    def undecided(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def site(self, loc):
        self.sites.add(loc)

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def violation(self, key, msg, loc=None, extra=()):
        if key in self.violations:
            return
        I = self.W.I
        if loc is None:
            loc = I.loc() if I.stack else None
        self.violations[key] = {
            'key': key, 'message': msg, 'unit': self.unit_name,
            'where': fmt_loc(loc),
            'path': [show_decision(d) for d in I.decisions[-40:]],
            'extra': list(extra)}


def fmt_loc(loc):
    if not loc:
        return None
    if isinstance(loc, str):
        return loc
    return '%s:%s in %s' % (loc[0], loc[1], loc[2])


def show_decision(d):
    if len(d) == 3 and isinstance(d[0], tuple):
        return '%s is %s  (%s)' % (show(d[0]), d[1], fmt_loc(d[2]))
    return ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in d)


def last_mutation(I):
    """Where the document was last changed."""
    for e in reversed(I.log):
        if e[0] == 'mutate' and e[1].origin == 'doc':
            return e[-1]
    return None


def first_mutation(I, since=0):
    for e in I.log[since:]:
        if e[0] == 'mutate' and e[1].origin == 'doc':
            return e[-1]
    return None
