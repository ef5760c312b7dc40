"""B02: joint moments of the Ito integrals of the one-factor model given the variance"""
from symx import shim, eq, std, ito, path, induct as I
from symx.polyx import poly as Poly

shim.load()
S = path.PSuite('B02')
LEVEL, replay = 'other', S.replay
EXPLAIN = std.EXPLAIN + (' The recursion step is in addition run with symbolic orders on generic table entries with symbolic '
                         'exponents: the step is shown to solve the moment equation at every order (powers of time bounded).')
ASSUME = std.COMMON + ['inductive step: one generic term of one table entry at a time (the step is linear in the table; '
                       'additivity of the polynomial operations is A01)']
QN, TN = 8, 11
BOUNDS = {'quick': 'total order 0..%d; all parameter values, initial variances and times; recursion step: all orders, '
                   'time powers 0..2' % QN,
          'thorough': 'total order 0..%d; all parameter values, initial variances and times; recursion step: all orders, '
                      'time powers 0..5' % TN}
PARS = {'k': 'pos', 'theta': 'pos', 'sigma': 'pos', 'v0': 'pos', 't0': 'pos', 't': 'pos'}
EXPS = [('k', 't0'), ('k', 't')]


def value(P, poly):
    """the function the formula denotes (variables in the order of its keyfor)"""
    atoms = {'e^{k(n-1)h}': P.exp(P['k'] * P['t0']), 'e^{k[t-(n-1)h]}': P.exp(P['k'] * P['t']), '[t-(n-1)h]': P['t'],
             'v_{n-1}': P['v0'], 'k^{-}': 1 / P['k'], 'theta': P['theta'], 'sigma_v': P['sigma']}
    return ito.evaluate(P, poly, atoms)


def build(name, n):
    def b():
        out = []
        for a in range(n + 1):
            for c in range(n - a + 1):
                o = (a, c, n - a - c)
                out.append(eq.Case('%s|%d,%d,%d' % ((name,) + o), PARS,
                                   lambda P, o=o: value(P, shim.mod('ito_mom').moment_IEII(*o)),
                                   lambda P, o=o: ito.one(P, *o) * P.exp(P['k'] * P['t0']) ** o[0], EXPS,
                                   'the joint moment differs from that of the model'))
        return out
    return b


for n in range(TN + 1):
    nm = 'E[IE^a I^b I*^c] of total order %d' % n
    S.add(nm, build(nm, n), quick=n <= QN, weight=3 ** n)


# ---- inductive step: d/dt E[IE^a I^b I*^c] = Ito's formula, with v = e^{-kt}(v0-theta) + theta + sigma e^{-kt} IE
OFFS = [(-2, 0, 0), (-1, 0, 0), (0, -2, 0), (1, -2, 0), (-1, -1, 0), (0, -1, 0), (0, 0, -2), (1, 0, -2)]


def step(name, off, b):
    def body(E):
        shim.reload(symbolic_keys=True, symbolic_fraction=True) if E.symbolic and not getattr(E, 'loaded', 0) else None
        E.loaded = 1
        o = tuple(E.int('n%d' % i, lo=0) for i in range(3))
        e = [E.int('e%d' % i) for i in range(7)]
        e[2] = b
        Q, P0 = Poly()(), Poly()()
        for x in (Q, P0):
            x.set_keyfor(shim.mod('ito_mom').moment_IEII(0, 0, 0).keyfor)
        Q[tuple(e)] = E.coef('c', nonzero=True)
        R = I.call('ito_mom', 'recursive_IEII', *o, I.Table(o, off, Q, P0))
        E.claim('same variables', len(R.keyfor) == 7)
        A, X, T, v, k, th, sg = [E.atom(x) for x in ('A', 'X', 'T', 'v', 'k', 'theta', 'sigma')]

        def f(key, c, t=None):
            return I.cval(E, c) * A ** key[0] * X ** key[1] * v ** key[3] * k ** -key[4] * th ** key[5] * sg ** key[6]
        d, low = I.zero(E), I.zero(E)
        for key, c in R.items():
            p = int(key[2])
            E.claim('no negative power of time', p >= 0)
            d = d + f(key, c) * T ** p * I.lin(E, (key[1], k))
            if p:
                d = d + f(key, c) * p * T ** (p - 1)
            else:
                low = low + I.cval(E, c) * A ** key[0] * v ** key[3] * k ** -key[4] * th ** key[5] * sg ** key[6]
        M = I.zero(E)
        for key, c in Q.items():
            M = M + f(key, c) * T ** b
        w = {(-2, 0, 0): I.choose2(E, o[0]) * A ** 2 * X ** 2, (-1, 0, 0): I.choose2(E, o[0]) * A ** 2 * X ** 2,
             (0, -2, 0): I.choose2(E, o[1]), (1, -2, 0): I.choose2(E, o[1]),
             (-1, -1, 0): I.mul(E, o[0], o[1]) * A * X, (0, -1, 0): I.mul(E, o[0], o[1]) * A * X,
             (0, 0, -2): I.choose2(E, o[2]), (1, 0, -2): I.choose2(E, o[2])}[off]
        if sum(off) == -2:
            want = w * M * X ** -1 * v + w * M * th - w * M * X ** -1 * th
        else:
            want = w * M * sg * A ** -1 * X ** -1
        E.same('the derivative is that of the moment equation', d, want)
        E.same('zero at the start', low, E.num(0))
    return path.PCase(name, body)


for b in range(6):
    for off in OFFS:
        nm = 'recursion step, entry %s, time power %d' % (off, b)
        S.add(nm, lambda nm=nm, off=off, b=b: [step(nm, off, b)], quick=b <= 2, weight=1000)
S.history(27)
tasks = S.tasks
