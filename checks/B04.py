"""B04: joint moments of the Ito integrals given the variance and the recorded jumps"""
import itertools

from symx import shim, eq, std, ito, path, induct as I
from symx.polyx import poly as Poly

shim.load()
S = path.PSuite('B04')
LEVEL, replay = 'other', S.replay
EXPLAIN = std.EXPLAIN + (' The recursion step is in addition run with symbolic orders on generic table entries with symbolic '
                         'exponents: the step is shown to solve the moment equation between the jumps and to start from zero '
                         'at the latest jump of each summand, at every order (powers of time and jump depth bounded).')
ASSUME = std.COMMON + ['the jump functional of a formula is evaluated by the documented nested sum',
                       'inductive step: one generic term of one table entry at a time (the step is linear in the table; '
                       'additivity of the polynomial operations is A01)']
Q = {0: 6, 1: 5, 2: 4, 3: 3}
T = {0: 8, 1: 6, 2: 5, 3: 4, 4: 3}
BOUNDS = {'quick': 'total order up to 6/5/4/3 for 0/1/2/3 jumps; all parameter values, jump times and jump sizes; '
                   'recursion step: all orders, time powers 0..1, jump depth 0..2',
          'thorough': 'total order up to 8/6/5/4/3 for 0/1/2/3/4 jumps; all parameter values, jump times and jump sizes; '
                      'recursion step: all orders, time powers 0..3, jump depth 0..3'}


def pars(nj):
    d = {x: 'pos' for x in ('k', 'theta', 'sigma', 'v0')}
    for i in range(nj):
        d['J%d' % (i + 1)] = 'pos'
    for i in range(nj + 1):
        d['t%d' % (i + 1)] = 'pos'
    return d


def exps(nj):
    return [('k', 't%d' % (i + 1)) for i in range(nj + 1)]


def value(P, poly, nj):
    """documented layout: e^{kt}, t, k^{-}, v0-theta, theta, sigma, then the nested jump sum
    with vectors l, o, p, q (e^{k s}, s powers; e^{k max}, max powers)"""
    s, es, t, E = [], [], P.num(0), P.num(1)
    for i in range(nj + 1):
        t = P['t%d' % (i + 1)] + t
        E = E * P.exp(P['k'] * P['t%d' % (i + 1)])
        s.append(t)
        es.append(E)
    s, es, J = s[:-1], es[:-1], [P['J%d' % (i + 1)] for i in range(nj)]
    ik, d = 1 / P['k'], P['v0'] - P['theta']
    sums, r = {}, P.num(0)
    for key, c in poly.items():
        assert len(key) == 10, 'key %r' % (key,)
        l, o, p, q = key[6:]
        m = len(l)
        assert len(o) == m and len(p) == len(q) == max(m - 1, 0), 'key %r' % (key,)
        if key[6:] not in sums:
            f = P.num(0)
            for idx in itertools.product(range(nj), repeat=m):
                x = P.num(1)
                for a, b, j in zip(l, o, idx):
                    x = x * J[j] * es[j] ** a * s[j] ** b
                for a, b, i in zip(p, q, range(2, m + 1)):
                    j = max(idx[:i])          # the times are increasing
                    x = x * es[j] ** a * s[j] ** b
                f = f + x
            sums[key[6:]] = f
        x = P.num(c.numerator, c.denominator) * sums[key[6:]]
        for b, e in zip((E, t, ik, d, P['theta'], P['sigma']), key):
            if e:
                x = x * b ** e
        r = r + x
    return r


def build(name, n, nj):
    def b():
        out = []
        for a in range(n + 1):
            for c in range(n - a + 1):
                o = (a, c, n - a - c)
                out.append(eq.Case('%s|%d,%d,%d' % ((name,) + o), pars(nj),
                                   lambda P, o=o: value(P, shim.mod('ito_cond_mom').moment_IEII(*o), nj),
                                   lambda P, o=o: ito.given_jumps(P, o, nj), exps(nj),
                                   'the joint moment differs from that of the model'))
        return out
    return b


for nj in T:
    for n in range(T[nj] + 1):
        nm = 'E[IE^a I^b I*^c] of total order %d given %d jumps' % (n, nj)
        S.add(nm, build(nm, n, nj), quick=n <= Q.get(nj, -1), weight=(3 + nj) ** n)


# ---- inductive step: v = e^{-kt}(v0-theta) + theta + sigma e^{-kt} IE + e^{-kt} sum_{s_j <= t} e^{k s_j} J_j
OFFS = [(-2, 0, 0), (-1, 0, 0), (0, -2, 0), (1, -2, 0), (-1, -1, 0), (0, -1, 0), (0, 0, -2), (1, 0, -2)]


def step(name, off, b, L):
    def body(E):
        shim.reload(symbolic_keys=True, symbolic_fraction=True) if E.symbolic and not getattr(E, 'loaded', 0) else None
        E.loaded = 1
        o = tuple(E.int('n%d' % i, lo=0) for i in range(3))
        e = [E.int('e%d' % i) for i in range(6)]
        e[1] = b
        vecs = tuple(tuple(E.int('%s%d' % (x, i)) for i in range(max(0, L - d)))
                     for x, d in (('l', 0), ('o', 0), ('p', 1), ('q', 1)))
        Q, P0 = Poly()(), Poly()()
        for x in (Q, P0):
            x.set_keyfor(shim.mod('ito_cond_mom').moment_IEII(0, 0, 0).keyfor)
        Q[tuple(e) + vecs] = E.coef('c', nonzero=True)
        R = I.call('ito_cond_mom', 'recursive_IEII', *o, I.Table(o, off, Q, P0))
        X, T, k, d, th, sg = [E.atom(x) for x in ('X', 'T', 'k', 'd', 'theta', 'sigma')]

        def jump(l, oo, p, q, m):
            """e^{k s_i}, s_i and the same for the running maxima are independent variables"""
            assert len(l) == len(oo) == m and len(p) == len(q) == max(0, m - 1)
            f = E.num(1)
            for i in range(m):
                f = f * E.atom('Y%d' % i) ** l[i] * E.atom('S%d' % i) ** oo[i]
            for i in range(1, m):
                f = f * E.atom('Z%d' % i) ** p[i - 1] * E.atom('R%d' % i) ** q[i - 1]
            return f

        def front(key, c):
            return I.cval(E, c) * k ** -key[2] * d ** key[3] * th ** key[4] * sg ** key[5]
        D, low = [I.zero(E), I.zero(E)], [I.zero(E), I.zero(E)]
        for key, c in R.items():
            m = len(key[6])
            E.claim('as many jumps as in the entry, or one more', m in (L, L + 1))
            if m not in (L, L + 1):
                raise path.Stop()
            w = m - L
            p = int(key[1])
            t = front(key, c) * jump(*key[6:], m)
            D[w] = D[w] + t * X ** key[0] * T ** p * I.lin(E, (key[0], k))
            if p:
                D[w] = D[w] + t * X ** key[0] * p * T ** (p - 1)
            if m == 0:
                E.claim('no negative power of time', p >= 0)
                if p == 0:
                    low[w] = low[w] + t
            elif m == 1:
                low[w] = low[w] + t * E.atom('Y0') ** key[0] * E.atom('S0') ** p
            else:
                low[w] = low[w] + t * E.atom('Z%d' % (m - 1)) ** key[0] * E.atom('R%d' % (m - 1)) ** p
        (key, c), = Q.items()
        M = front(key, c) * jump(*key[6:], L) * X ** key[0] * T ** b
        w = {(-2, 0, 0): lambda: I.choose2(E, o[0]) * X ** 2, (-1, 0, 0): lambda: I.choose2(E, o[0]) * X ** 2,
             (0, -2, 0): lambda: I.choose2(E, o[1]), (1, -2, 0): lambda: I.choose2(E, o[1]),
             (-1, -1, 0): lambda: I.mul(E, o[0], o[1]) * X, (0, -1, 0): lambda: I.mul(E, o[0], o[1]) * X,
             (0, 0, -2): lambda: I.choose2(E, o[2]), (1, 0, -2): lambda: I.choose2(E, o[2])}[off]()
        if sum(off) == -2:
            want = w * M * (X ** -1 * d + th)
            wantj = w * M * X ** -1 * E.atom('Y%d' % L)
        else:
            want, wantj = w * M * sg * X ** -1, E.num(0)
        E.same('the derivative is that of the moment equation', D[0], want)
        E.same('the derivative of the part with one more jump', D[1], wantj)
        E.same('zero at the start', low[0], E.num(0))
        E.same('zero at the latest jump', low[1], E.num(0))
    return path.PCase(name, body)


for L in range(4):
    for b in range(4):
        for off in OFFS:
            nm = 'recursion step, entry %s, time power %d, depth %d' % (off, b, L)
            S.add(nm, lambda nm=nm, off=off, b=b, L=L: [step(nm, off, b, L)], quick=b <= 1 and L <= 2, weight=1000)
S.history(9)
tasks = S.tasks
