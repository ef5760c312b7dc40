"""Helpers shared by the check modules whose obligations are all eq.Case objects."""
from . import eq, run


class Suite:
    """builders: list of (task name, weight, tiers, function() -> [Case])"""

    def __init__(self, pid):
        self.pid = pid
        self.items = []

    def add(self, name, build, quick=True, thorough=True, weight=1):
        self.items.append((name, build, quick, thorough, weight))

    def history(self, weight, quick=True, limit=90, pick=None, name='calls in any order', w=None):
        """the light cases once more, all in one process and in several orders"""
        items = [x for x in self.items if x[4] <= weight and (pick is None or pick(x[0]))]

        def cases():
            return [c for x in sorted(items, key=lambda x: x[4]) for c in x[1]()]
        self.hist = getattr(self, 'hist', {})
        self.hist[name] = (cases, quick, limit, 10 ** 6 if w is None else w)

    def tasks(self, tier):
        out = []
        for name, (cases, q, limit, w) in getattr(self, 'hist', {}).items():
            if q or tier == 'thorough':
                out.append(run.Task(name, lambda res, name=name, cases=cases, limit=limit:
                                    eq.prove_history(res, self.pid, name, cases(), limit * (1 if tier == 'quick' else 10)),
                                    weight=w))
        for name, build, q, t, w in self.items:
            if (tier == 'quick' and q) or (tier == 'thorough' and t):
                out.append(run.Task(name, self._run, build, weight=w))
        return out

    def _run(self, res, build):
        eq.prove_cases(res, self.pid, build())

    def replay(self, ce):
        h = run.named(getattr(self, 'hist', {}), ce['case'])
        if h and 'history' in ce:
            return eq.replay_history(h[0](), ce)
        for name, build, q, t, w in self.items:
            if run.belongs(ce['case'], name):
                for c in build():
                    if c.name == ce['case']:
                        return eq.replay_case(c, ce)
        raise KeyError(ce['case'])


COMMON = [
    'model parameters are mathematical reals (floating-point rounding is not modelled); positive '
    'rates/volatilities/interval, real drift and correlation',
    'e^{k h}, e^{k1 h}, e^{k2 h} are independent positive reals (stronger than needed: equality is shown for '
    'every positive value)',
    'reference values come from an independent moment-ODE solver for polynomial processes (symx/ref.py), '
    'generator of the documented SDE only',
    'z3 and the Laurent-polynomial term representation (symx/lp.py) are trusted',
]
EXPLAIN = ('The real functions are executed from /repo/src on symbolic real parameters; the resulting exact '
           'expression is compared with the reference expression by a z3 query (negated equality over all '
           'parameter values); every sat answer is replayed on the unmodified code with 60-digit arithmetic. '
           'Orders and dimensions are enumerated up to the stated bounds.')
