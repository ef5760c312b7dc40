"""C10: conditional moments given the initial variance and the recorded jumps, srjd"""
import itertools

from symx import shim, eq, std
from symx.models import GivenJumps

shim.load()
S = std.Suite('C10')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON + [
    'the order of the jump times is fixed per obligation (every order of the record is an obligation of its own); '
    'jump times strictly inside the interval'], S.replay
# (jumps, highest order)
QUICK = [(0, 12), (1, 10), (2, 8), (3, 6), (4, 6), (5, 4), (6, 3)]
THOROUGH = [(0, 16), (1, 12), (2, 10), (3, 8), (4, 7), (5, 6), (6, 4)]
BOUNDS = {'quick': '(number of jumps, order up to): %s; all parameter values, jump times and sizes; record orders: chronological, reverse, all permutations of 3' % QUICK,
          'thorough': '(number of jumps, order up to): %s; all parameter values, jump times and sizes; the same record orders' % THOROUGH}


def build(name, what, n, nj, order=None):
    def b():
        M = GivenJumps('srjd', nj, order)
        if what == 'raw':
            mod = shim.mod('mdl_srjd.cond2_mom')
            code, spec = (lambda P: mod.m(n, M.par(P))), (lambda P: M.raw(P, n))
        else:
            mod = shim.mod('mdl_srjd.cond2_cmom')
            code, spec = (lambda P: mod.cm(n, M.par(P))), (lambda P: M.central(P, n))
        return [eq.Case(name, M.pars, code, spec, M.exps, 'the conditional moment differs from that of the model')]
    return b


def orders(nj, n):
    """the orders of the record that get an obligation of their own besides the chronological one"""
    if nj < 2 or n < 2:
        return []
    if nj == 3 and n <= 3:
        return list(itertools.permutations(range(nj)))[1:]
    return [list(range(nj))[::-1]] + ([[1, 2, 0] + list(range(3, nj))] if nj > 2 and n <= 3 else [])


for nj in range(7):
    qn = max([o for j, o in QUICK if j == nj], default=-1)
    tn = max([o for j, o in THOROUGH if j == nj], default=-1)
    for n in range(max(qn, tn) + 1):
        for what in ('raw', 'central'):
            nm = 'srjd %s order %d, %d jumps' % (what, n, nj)
            S.add(nm, build(nm, what, n, nj), quick=n <= qn, thorough=n <= tn, weight=4 ** (n + nj))
            for order in orders(nj, n):
                nm = 'srjd %s order %d, %d jumps recorded as %s' % (what, n, nj, ''.join(map(str, order)))
                S.add(nm, build(nm, what, n, nj, order), quick=n <= qn and nj < 5, thorough=n <= tn,
                      weight=4 ** (n + nj))

S.history(16)
tasks = S.tasks
