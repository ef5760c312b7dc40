"""A06: moments of normal variables and compound Poisson sums"""
import itertools
import math

from symx import shim, eq, std, path, induct as I
from symx.polyx import poly as Poly

shim.load()
S = path.PSuite('A06')
LEVEL, replay = 'other', S.replay
EXPLAIN = std.EXPLAIN + (' The differentiation steps of the moment generating functions are in addition run with symbolic '
                         'exponents and coefficients.')
ASSUME = std.COMMON[:1] + ['reference: closed form of the normal moments, cumulant recursion of the compound Poisson sum',
                           'inductive step: one generic term at a time (the step is linear)', std.COMMON[3]]
QN, TN = 16, 30
BOUNDS = {'quick': 'order 0..%d; all parameter values; differentiation steps: all exponents, up to 3 factors' % QN,
          'thorough': 'order 0..%d; all parameter values; differentiation steps: all exponents, up to 3 factors' % TN}
N = {'mu': 'real', 'sigma': 'pos'}
C = {'lambda': 'pos', 'h': 'pos', 'mu': 'real', 'sigma': 'pos'}


def val(P, poly, names):
    r = P.num(0)
    for k, c in poly.items():
        assert len(k) == len(names)
        t = P.num(c.numerator, c.denominator) if hasattr(c, 'denominator') else c
        for x, e in zip(names, k):
            t = t * x ** e
        r = r + t
    return r


def dfact(n):
    r = 1
    while n > 1:
        r, n = r * n, n - 2
    return r


def normal(P, n):
    r = P.num(0)
    for j in range(n // 2 + 1):
        r = r + P['mu'] ** (n - 2 * j) * P['sigma'] ** (2 * j) * (math.comb(n, 2 * j) * dfact(2 * j - 1))
    return r


def compound(P, n, central):
    """raw (central) moments from the cumulants lambda h E[J^i]"""
    kap = [None] + [P['lambda'] * P['h'] * normal(P, i) for i in range(1, n + 1)]
    m = [P.num(1)]
    for i in range(1, n + 1):
        s = P.num(0)
        for j in range(2 if central else 1, i + 1):
            s = s + kap[j] * m[i - j] * math.comb(i - 1, j - 1)
        m.append(s)
    return m[n]


def b_norm(name, n):
    return lambda: [eq.Case(name, N, lambda P: val(P, shim.mod('cpp_mom').mnorm(n), (P['mu'], P['sigma'] ** 2)),
                            lambda P: normal(P, n), (), 'the moment differs from that of the normal distribution')]


def b_cpp(name, n, f):
    return lambda: [eq.Case(name, C, lambda P: val(P, getattr(shim.mod('cpp_mom'), f)(n), (P['lambda'] * P['h'], P['mu'], P['sigma'])),
                            lambda P: compound(P, n, f == 'cmcpp'), (), 'the moment differs from that of the compound Poisson sum')]


for n in range(TN + 1):
    nm = 'normal, order %d' % n
    S.add(nm, b_norm(nm, n), quick=n <= QN, weight=n)
    for f, t in (('mcpp', 'raw'), ('cmcpp', 'central')):
        nm = 'compound Poisson, %s moment of order %d' % (t, n)
        S.add(nm, b_cpp(nm, n, f), quick=n <= QN, weight=n ** 3)


# ---- inductive steps
def again(E):
    if E.symbolic and not getattr(E, 'loaded', 0):
        shim.reload(symbolic_keys=True, symbolic_fraction=True)
        E.loaded = 1


def step_norm(name):
    def body(E):
        again(E)
        x, s2 = E.atom('x'), E.atom('s2')          # x = mu + sigma^2 s, dx/ds = sigma^2
        a, b = E.int('a', lo=0), E.int('b')
        c = E.coef('c', nonzero=True)
        Q = Poly()()
        Q[(a, b)] = c
        Q.set_keyfor(['mu', 'sigma^2'])
        got = I.zero(E)
        for k, v in I.call('cpp_mom', 'dmgf', Q).items():
            got = got + I.cval(E, v) * x ** k[0] * s2 ** k[1]
        q = I.cval(E, c) * x ** a * s2 ** b
        E.same('derivative of the moment generating function', got, q * x + I.mul(E, a) * q * x ** -1 * s2)
    return path.PCase(name, body)


def step_cpp(name, ns):
    def body(E):
        again(E)
        L = E.atom('L')
        M = {n: E.atom('M%d' % n) for n in range(1, max(ns, default=0) + 2)}
        i = E.int('i', lo=0)
        ms = [E.int('m%d' % n, lo=1) for n in ns]
        c = E.coef('c', nonzero=True)
        q = I.cval(E, c) * L ** i
        for n, m in zip(ns, ms):
            q = q * M[n] ** m
        Q = Poly()()
        Q[(i,) + tuple((n, m) for n, m in zip(ns, ms))] = c
        got = I.zero(E)
        for k, v in I.call('cpp_mom', 'dmgf_cpp', Q).items():
            t = I.cval(E, v) * L ** k[0]
            for n, m in k[1:]:
                t = t * M[int(n)] ** m
            got = got + t
        want = q * L * M[1]
        for n, m in zip(ns, ms):
            want = want + I.mul(E, m) * q * M[n] ** -1 * M[n + 1]
        E.same('derivative of the moment generating function', got, want)
    return path.PCase(name, body)


nm = 'differentiation step, normal'
S.add(nm, lambda nm=nm: [step_norm(nm)])
for r in (1, 2, 3):
    for ns in itertools.combinations(range(1, 7), r):
        if r == 3 and ns[2] > 5:
            continue
        nm = 'differentiation step, compound Poisson %s' % (ns,)
        S.add(nm, lambda nm=nm, ns=ns: [step_cpp(nm, ns)])
S.history(4)
tasks = S.tasks
