"""
Performs the operations of other rules, in order to look for something else
on the same paths.
"""
import importlib

from ..interp import PyRaise, PathCut


class Relay:
    """Passes operations on to a report, but none of the findings."""

    def __init__(self, R, prefix, inspect, skip=(), cap=None):
        self.R = R
        self.cap = cap
        self.W = R.W
        self.prefix = prefix
        self.inspect = inspect
        self.skip = skip
        self.unit_name = None

    @property
    def thorough(self):
        return self.R.thorough

    @property
    def tier(self):
        return self.R.tier

    def explore(self, name, fn, max_paths=None):
        if any(s in name for s in self.skip):
            return

        if self.cap:
            max_paths = min(max_paths or self.cap, self.cap)

        def run(I):
            try:
                fn(I)
            except PathCut:
                self.inspect(I, name)
                raise
            except PyRaise as e:
                self.inspect(I, name)
                raise
            self.inspect(I, name)
        self.R.explore('%s: %s' % (self.prefix, name), run, max_paths)

    def decided(self, what, n=1):
        pass

    def undecided(self, what):
        pass

    def site(self, loc):
        pass

    def sample(self, s):
        pass

    def violation(self, *a, **k):
        pass


def relay(R, names, inspect, skip=(), cap=None):
    for n in names:
        rule = importlib.import_module('sa.rules.' + n.lower())
        rule.check(R.W, Relay(R, n, inspect, skip, cap))
