"""C08: stationary moments of the square-root jump diffusion"""
from symx import shim, eq, std, ref
from symx.models import SRJD

shim.load()
S = std.Suite('C08')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN = 9, 12
BOUNDS = {'quick': 'order 0..%d; all parameter values' % QN, 'thorough': 'order 0..%d; all parameter values' % TN}


def decode(poly, P):
    """value of a poly by its documented variable names"""
    ev = P['theta'] + P['lmbd'] * P['mu_v'] / P['k']
    val = {'k^{-}': 1 / P['k'], 'E[v]': ev, 'theta': P['theta'], 'sigma': P['sigma'], 'lmbd': P['lmbd'],
           'mu_v': P['mu_v']}
    r = P['k'] * 0
    for key, c in poly.items():
        x = P.num(c.numerator, c.denominator)
        for nm, e in zip(poly.keyfor, key):
            if e:
                x = x * val[nm] ** e
        r = r + x
    return r


def build(name, what, n):
    def b():
        M = SRJD()

        def code(P):
            if what == 'c':
                return decode(shim.mod('mdl_srjd.cmom').cmoment_v(n), P)
            return decode(shim.mod('mdl_srjd.mom').moment_v(n, simplify=(what == 's')), P)

        def spec(P):
            st = M.stationary(P, max(n, 1))
            return ref.central_from_raw(st, n) if what == 'c' else st[n]
        return [eq.Case(name, M.base, code, spec, [], 'the stationary moment differs from that of the model')]
    return b


for n in range(TN + 1):
    for what, t in (('s', 'E[v^%d]'), ('u', 'E[v^%d] in E[v]'), ('c', 'E[(v-Ev)^%d]')):
        nm = 'srjd ' + t % n
        S.add(nm, build(nm, what, n), quick=n <= QN, weight=3 ** n)

S.history(27)
tasks = S.tasks
