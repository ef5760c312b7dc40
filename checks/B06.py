"""B06: moments of the stationary variance"""
from symx import shim, eq, std, ito, ref
from symx.models import SRJD

shim.load()
S = std.Suite('B06')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN = 8, 12
BOUNDS = {'quick': 'order 0..%d (0..7 with jumps); all parameter values' % QN,
          'thorough': 'order 0..%d (0..10 with jumps); all parameter values' % TN}
PV = {'k': 'pos', 'theta': 'pos', 'sigma': 'pos'}


def diff(name, n):
    def code(P):
        f = shim.mod('ito_mom').moment_v(n)
        return ito.evaluate(P, f, {'theta': P['theta'], 'sigma_v^2/k': P['sigma'] ** 2 / P['k']})
    return lambda: [eq.Case(name, PV, code, lambda P: ref.stationary_v(n, P['k'], P['theta'], P['sigma'])[n])]


def jd(name, n, what):
    def atoms(P):
        return {'k^{-}': 1 / P['k'], 'theta': P['theta'], 'E[v]': P['theta'] + P['lmbd'] * P['mu_v'] / P['k'],
                'sigma': P['sigma'], 'lmbd': P['lmbd'], 'mu_v': P['mu_v']}

    def code(P):
        if what == 'raw':
            f = shim.mod('mdl_srjd.mom').moment_v(n)
        elif what == 'mean form':
            f = shim.mod('mdl_srjd.mom').moment_v(n, simplify=False)
        else:
            f = shim.mod('mdl_srjd.cmom').cmoment_v(n)
        return ito.evaluate(P, f, atoms(P))

    def spec(P):
        r = SRJD().stationary(P, max(n, 1))
        return r[n] if what != 'central' else ref.central_from_raw(r, n)
    return lambda: [eq.Case(name, SRJD.base, code, spec)]


for n in range(TN + 1):
    nm = 'E[v^%d] without jumps' % n
    S.add(nm, diff(nm, n), quick=n <= QN, weight=n + 1)
    if n <= 10:
        for w in ('raw', 'mean form', 'central'):
            nm = 'srjd stationary variance, %s order %d' % (w, n)
            S.add(nm, jd(nm, n, w), quick=n <= 7, weight=3 ** n)
S.history(7, pick=lambda n: 'srjd' not in n)
S.history(27, pick=lambda n: 'srjd' in n, name='jump diffusion calls in any order')
tasks = S.tasks
