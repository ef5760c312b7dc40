"""E01: simulators of the one- and two-factor models"""
import math
from fractions import Fraction
from symx import core, path, sim, std, shim, induct as I
from symx.models import SV

sim.install()
shim.load()
S = path.PSuite('E01')
LEVEL, tasks, replay = 'other', S.tasks, S.replay
EXPLAIN = ('The simulators run with symbolic parameters, initial variances and random draws (numpy.random is replaced by a recorder '
           'that returns location + scale*Z with a fresh real Z, and a bounded symbolic integer for Poisson counts). Every sign of '
           'every pre-truncation variance is explored; on each feasible path the returned values are compared with the documented '
           'Euler scheme by an SMT query. Sat answers are replayed on the real code with the draws of the counterexample.')
BOUNDS = {'quick': 'up to 3 returns, at most 5 steps in total (two factors: 4), up to 3 price jumps per return (1 in the longest runs); default step '
                   'count and interval without truncation; all parameter values, initial variances and draws',
          'thorough': 'up to 4 returns, at most 8 steps in total (two factors: 6); all values'}
ASSUME = std.COMMON[:1] + [
    'floating-point rounding is not modelled; the order in which draws are consumed is irrelevant',
    'draws for which a variance is exactly zero before truncation are excluded (probability zero)',
    'z3 and the term representation of symx/lp.py are trusted']


def corr(E):
    r = E.atom('corr', 'real')
    E.assume(r > -1)
    E.assume(r < 1)
    return r


def inputs(E, model):
    E.arrange = lambda at: at.update(corr='3/5') if Fraction(at.get('corr', '0')) >= 1 else None
    f = (lambda x: x) if E.symbolic else float
    par = {}
    for n in SV(model).pars:
        if n == 'rho':
            par[n] = f(corr(E))
        elif n != 'h':
            par[n] = f(E.atom(n, 'real' if n in ('mu', 'mu_j') else 'pos'))
    v0 = [f(E.atom('v1_0')), f(E.atom('v2_0'))] if model[0] == '2' else [f(E.atom('v_0'))]
    return par, v0, f(E.atom('step'))


def scheme(E, model, par, v0, h, N, n, counts, iid):
    """documented scheme: v' = max(v + k(theta - v)d + sigma sqrt(v) dW, 0) from the left end point"""
    sq = math.sqrt
    two = model[0] == '2'

    def run(pool):
        d = h / n
        s = sq(d)
        v = list(v0)
        out = []
        for i in range(N):
            if iid:
                v = list(v0)
            y = par['mu'] * h
            for j in range(n):
                if two:
                    y = y - (v[0] + v[1]) * d / 2 + pool.z(sq(v[0] + v[1]) * s, i, j, 'price')
                    dw = [pool.z(sq(v[0]) * s, i, j, 'v1'), pool.z(sq(v[1]) * s, i, j, 'v2')]
                    ks = [(par['k%d' % q], par['theta%d' % q], par['sigma_v%d' % q]) for q in (1, 2)]
                else:
                    dw = [pool.z(sq(v[0]) * s, i, j, 'v')]
                    y = y - v[0] * d / 2 + par['rho'] * dw[0] + sq(1 - par['rho'] ** 2) * pool.z(sq(v[0]) * s, i, j, 'w')
                    ks = [(par['k'], par['theta'], par['sigma_v'])]
                for q, (k, th, sg) in enumerate(ks):
                    x = v[q] + k * (th - v[q]) * d + sg * dw[q]
                    v[q] = 0 if x < 0 else x
            if model[-1] == 'j':
                for l in range(counts[i]):
                    y = y + par['mu_j'] + pool.z(par['sigma_j'], i, l, 'jump')
            out.append(y)
        return out
    return run


FN = {'1fsv': 'r1FSV', '1fsvj': 'r1FSVJ', '2fsv': 'r2FSV', '2fsvj': 'r2FSVJ'}


def build(name, model, fn, N, n, jumps, default=False):
    def body(E):
        sim.prepare(E, keep=default)
        par, v0, h = inputs(E, model)
        if default:
            h = 1
        f = getattr(shim.mod('mdl_%s.euler' % model), fn)
        iid = fn == 'r1FSV_iid'

        def once(tweak=None):
            R = sim.Run(E, jumps)
            if tweak is not None:
                z = R.z
                R.z = lambda i: z(i) + (1e-3 if i == tweak else 0)
            kw = {} if default else {'n_segment': n, 'tau' if iid else 'h': h}
            x = R.call(f, v0 if len(v0) > 1 else v0[0], dict(par), N, **kw)
            return R, sim.values(E, x)
        R, got = once()
        if model[-1] == 'j':
            E.claim('one jump count per return', len(R.counts) == N)
            for c, lam in R.counts:
                sim.agree(E, 'jump count has mean lambda*h', lam, par['lambda'] * h)
        counts = [int(c) for c, _ in R.counts]
        sim.match(E, R, got, scheme(E, model, par, v0, h, N, 10 if default else n, counts, iid),
                  rerun=lambda i: once(i)[1] != got)
    return path.PCase(name, body, max_paths=60000, twin=not default)


for model in FN:
    two = model[0] == '2'
    for fn in (('r1FSV', 'r1FSV_iid') if model == '1fsv' else (FN[model],)):
        for N, n in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 4), (1, 5), (2, 3), (3, 2), (1, 6), (2, 4), (4, 2), (3, 3), (1, 8), (2, 5)):
            jumps = 0 if model[-1] != 'j' else 3 if N * n < 3 else 2 if N * n < 5 else 1
            nm = '%s: %d returns of %d steps' % (fn, N, n)
            big = N * n + (1 if two else 0) + (N - 1 if jumps else 0)
            S.add(nm, lambda nm=nm, a=(model, fn, N, n, jumps): [build(nm, *a)], quick=N * n < (5 if two else 6), thorough=N * n < (7 if two else 9),
                  weight=4 ** big)
        nm = '%s: default interval and step count' % fn
        S.add(nm, lambda nm=nm, a=(model, fn, 1, 10, 1 if model[-1] == 'j' else 0, True): [build(nm, *a)], weight=500)
S.history(16)
