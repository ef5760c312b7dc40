"""E02: simulators of the models with variance jumps"""
import math
from fractions import Fraction
from symx import core, path, sim, std, shim

sim.install()
shim.load()
S = path.PSuite('E02')
LEVEL, tasks, replay = 'other', S.tasks, S.replay
EXPLAIN = ('The simulators run with symbolic parameters, initial variance, jump sizes, jump times and random draws (numpy.random is '
           'replaced by a recorder: location + scale*Z, a bounded symbolic integer for Poisson counts, a positive X for noncentral '
           'chi-square draws whose two arguments are recorded). Every position of the jump times relative to the grid and every '
           'sign of a pre-truncation variance is explored; on each feasible path the returned values are compared with the '
           'documented scheme by an SMT query. Sat answers are replayed on the real code.')
BOUNDS = {'quick': '0..2 variance jumps at symbolic times (and at 0, on the grid, at the end, simultaneous), 1..3 steps, 1..2 samples, '
                   'up to 3 price jumps; all parameter values, sizes, times and draws',
          'thorough': 'up to 3 variance jumps, 4 steps, 3 samples'}
ASSUME = std.COMMON[:1] + [
    'floating-point rounding is not modelled; the order in which draws are consumed is irrelevant',
    'draws for which a variance is exactly zero before truncation are excluded (probability zero)',
    'jump times are sorted and lie in [0,T]; square-root diffusion: strictly positive and strictly increasing (T itself allowed)',
    'exponentials of k times distinct symbolic times are independent positive reals',
    'z3 and the term representation of symx/lp.py are trusted']


class In:
    """the inputs of one case; times: list of numbers (multiples of T) or None for a symbolic time"""

    def __init__(self, E, names, times, n):
        f = self.f = (lambda x: x) if E.symbolic else float
        for nm in names:
            setattr(self, nm, f(E.atom(nm, 'real' if nm in ('mu', 'mu_s', 'rho_J') else 'pos')))
        self.T = f(E.atom('T'))
        r = E.atom('corr', 'real')
        E.assume(r > -1)
        E.assume(r < 1)
        self.rho = f(r)
        self.sizes = [f(E.atom('J%d' % i)) for i in range(len(times))]
        self.times = []

        def arrange(at):
            T, last = Fraction(at['T']), Fraction(0)
            for i, t in enumerate(times):
                if t is None:
                    nxt = [j for j in range(i, len(times)) if times[j] is not None]
                    end, left = (T * Fraction(*times[nxt[0]]), nxt[0] - i) if nxt else (T, len(times) - i)
                    last = last + (end - last) * Fraction(7, 10 * left + 3)
                    at['s%d' % i] = str(last)
                else:
                    last = T * Fraction(*t)
            if Fraction(at['corr']) >= 1:
                at['corr'] = '3/5'
        E.arrange = arrange
        base = E.atom('T') * E.num(1, n or 1)
        if E.symbolic:
            E.exps(E.atom('k') * base)
        last = 0
        for i, t in enumerate(times):
            if t is None:
                x = E.atom('s%d' % i)
                E.assume(x > (last if i else 0))
                E.assume(x < E.atom('T'))
                if n is not None:
                    for q in range(1, n):       # times on the grid are separate cases
                        E.assume(x != E.atom('T') * E.num(q, n))
                if E.symbolic:
                    E.exps(E.atom('k') * x)
            else:
                x = E.atom('T') * E.num(*t)
            self.times.append(f(x))
            last = x


def sv(E, P, N, n, pool):
    """dv = k(theta-v)dt + sigma sqrt(v) dw + dz; the return is expressed through the integrals of
    sqrt(v)dw, e^{ks}sqrt(v)dw and the jumps (exact for the variance equation)"""
    sq, ex = math.sqrt, math.exp
    T, k, th = P.T, P.k, P.theta
    out = []
    for i in range(N):
        v = P.v0
        ie = iv = iy = 0
        now = 0
        jumps = list(zip(P.times, P.sizes))
        step = 0
        for q in range(1, n + 1):
            end = T * q / n
            while jumps and jumps[0][0] <= end or now != end:
                jump = jumps.pop(0) if jumps and jumps[0][0] <= end else None
                to = jump[0] if jump else end
                d = to - now
                if not sim.is_zero(d):
                    dw = pool.z(sq(v) * sq(d), i, step, 'v')
                    ie = ie + ex(k * now) * dw
                    iv = iv + dw
                    iy = iy + pool.z(sq(v) * sq(d), i, step, 'w')
                    x = v + k * (th - v) * d + P.sigma * dw
                    v = 0 if x < 0 else x
                    step += 1
                if jump:
                    v = v + jump[1]
                now = to
                if not jump:
                    break
        dec = ex(-k * T)
        # integral of v over [0,T]
        int_v = th * T + (P.v0 - th) * (1 - dec) / k + P.sigma / k * (iv - dec * ie)
        for t, s in zip(P.times, P.sizes):
            int_v = int_v + s / k * (1 - dec * ex(k * t))
        out.append(P.mu * T - int_v / 2 + P.rho * iv + sq(1 - P.rho ** 2) * iy)
    return out


SVN = ['v0', 'mu', 'k', 'theta', 'sigma']


def sv_case(name, model, times, N, n, jumps):
    extra = {'svvj': [], 'svij': ['lmbd_s', 'mu_s', 'sigma_s'], 'svcj': ['mu_s', 'sigma_s', 'rho_J']}[model]

    def body(E):
        sim.prepare(E)
        P = In(E, SVN + extra, times, n)
        f = getattr(shim.mod('mdl_%s.euler' % model), 'r' + model.upper())

        def once(tweak=None):
            R = sim.Run(E, jumps)
            if tweak is not None:
                z = R.z
                R.z = lambda i: z(i) + (1e-3 if i == tweak else 0)
            x = R.call(f, P.v0, P.mu, P.k, P.theta, P.sigma, P.rho, P.T, tuple(P.sizes), tuple(P.times),
                       *[getattr(P, e) for e in extra], N, n)
            return R, sim.values(E, x)
        R, got = once()
        if model == 'svij':
            E.claim('one jump count per sample', len(R.counts) == N)
            for c, lam in R.counts:
                sim.agree(E, 'jump count has mean lambda*T', lam, P.lmbd_s * P.T)
        counts = [int(c) for c, _ in R.counts]

        def scheme(pool):
            out = sv(E, P, N, n, pool)
            for i in range(N):
                if model == 'svij':
                    for l in range(counts[i]):
                        out[i] = out[i] + P.mu_s + pool.z(P.sigma_s, i, l, 'jump')
                if model == 'svcj':
                    for l, s in enumerate(P.sizes):
                        out[i] = out[i] + P.mu_s + P.rho_J * s + pool.z(P.sigma_s, i, l, 'jump')
            return out
        sim.match(E, R, got, scheme, rerun=lambda i: once(i)[1] != got)
    return path.PCase(name, body, max_paths=60000)


def srd_case(name, times, N, fn='rSRJD'):
    def body(E):
        sim.prepare(E)
        P = In(E, ['v0', 'k', 'theta', 'sigma'], times, None)
        mod = shim.mod('mdl_srjd.euler')
        if E.symbolic:
            for i, t in enumerate(P.times):
                E.exps(P.k * t)
        R = sim.Run(E)
        if fn == 'rSRD':
            got = [sim.num(R.call(mod.rSRD, P.v0, P.T, P.k, P.theta, P.sigma))]
        else:
            got = sim.values(E, R.call(mod.rSRJD, P.v0, P.k, P.theta, P.sigma, P.T, tuple(P.sizes), tuple(P.times), N))
        E.claim('as many values as requested', len(got) == N)
        ex = math.exp
        draws = iter(R.chis)
        used = 0
        for i in range(N):
            v, now = P.v0, 0
            events = list(zip(P.times, P.sizes))
            if not events or not sim.is_zero(P.T - P.times[-1]):
                events.append((P.T, 0))
            for t, s in events:
                c = P.sigma ** 2 * (1 - ex(-P.k * (t - now))) / (4 * P.k)
                x, df, nonc = next(draws, (0, 0, 0))
                used += 1
                sim.agree(E, 'degrees of freedom are 4 k theta / sigma^2', df, 4 * P.k * P.theta / P.sigma ** 2)
                sim.agree(E, 'noncentrality is v e^{-k t} / c', nonc * c, v * ex(-P.k * (t - now)))
                v = c * x + s
                now = t
            sim.agree(E, 'sample %d is the state at time T' % (i + 1), got[i], v)
        E.claim('no other draws', used == len(R.chis))
    return path.PCase(name, body, max_paths=20000)


SYM = None
TIMES = [[], [SYM], [SYM, SYM], [(0, 1)], [(1, 2)], [(1, 1)], [(1, 2), (1, 2)], [(1, 2), SYM], [SYM, (1, 1)], [SYM, SYM, SYM]]


def show(times):
    return 'no jumps' if not times else 'jumps at ' + ', '.join('s' if t is SYM else '%d/%d T' % t for t in times)


for times in TIMES:
    for N, n in ((1, 1), (1, 2), (2, 1), (1, 3), (1, 4), (2, 2), (3, 1), (1, 5), (2, 3), (3, 2)):
        if any(t is not None and n % t[1] for t in times):
            continue
        for model in ('svvj', 'svij', 'svcj'):
            if model != 'svvj' and (n > 2 or len(times) > 2):
                continue
            steps = N * (n + len(times))
            nm = 'r%s: %d samples, %d steps, %s' % (model.upper(), N, n, show(times))
            S.add(nm, lambda nm=nm, a=(model, times, N, n, 3 if N == 1 else 1): [sv_case(nm, *a)],
                  quick=steps <= (6 if model == 'svvj' else 5), thorough=steps <= (8 if model == 'svvj' else 6), weight=4 ** steps)
for times in ([], [SYM], [SYM, SYM], [(1, 1)], [SYM, (1, 1)], [SYM, SYM, SYM]):
    for N in (1, 2, 3):
        nm = 'rSRJD: %d samples, %s' % (N, show(times))
        S.add(nm, lambda nm=nm, a=(times, N): [srd_case(nm, *a)], quick=N < 3, weight=5 ** len(times))
S.add('rSRD: one transition', lambda: [srd_case('rSRD: one transition', [], 1, 'rSRD')], weight=1)
S.history(64, pick=lambda n: ' 1 steps' in n)
S.history(64, pick=lambda n: ' 2 steps' in n and len(n) < 45, name='two-step simulations in any order')
S.history(25, pick=lambda n: n.startswith('rSR'), name='square-root transitions in any order')
