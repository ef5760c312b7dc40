"""A04: combinatorial helpers against their defining identities with symbolic weights"""
from symx import shim, eq
from symx.core import SInt
from symx.lp import GP, to_lp
from symx.path import PCase, PSuite
from symx.polyx import one, D

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('A04')
LEVEL = 'other'
EXPLAIN = ('The real enumerations and weights are summed against symbolic real weights; z3 decides that the sum equals the '
           'power (or product) of sums it must equal for all weights, so a missing, repeated or mis-weighted index is a '
           'counterexample. Double factorial and normal moments are executed on a symbolic order and compared through '
           'their defining recurrences.')
BOUNDS = {'quick': 'all real weights; order 0..6 with 1..4 parts (0..3 with 5); products of up to 3 sums of up to 4 weights; '
                   'symbolic order 0..24 for double factorial and normal moments',
          'thorough': 'order 0..9 with 1..4 parts, 0..6 with 5, 0..4 with 6; up to 5 nested sums; symbolic order 0..60'}
ASSUME = ['orders are enumerated (they drive the enumeration loops)', 'z3 and the term representation are trusted']
U = lambda: shim.mod('utils')


def multinomial(name, n, m):
    pars = {'x%d' % i: 'real' for i in range(n)}

    def code(P):
        r = P.num(0)
        for idx in U().multilevel_comb(n, m):
            t = P.num(1) * U().comb(m, list(idx))
            for i, e in enumerate(idx):
                t = t * P['x%d' % i] ** e
            r = r + t
        return r

    def spec(P):
        s = sum((P['x%d' % i] for i in range(n)), P.num(0))
        r = P.num(1)
        for _ in range(m):
            r = r * s
        return r
    return eq.Case(name, pars, code, spec, [], 'the weighted compositions do not sum to the power of the sum')


def plain(name, n, m):
    """unweighted: every composition exactly once and of the right shape"""
    pars = {'x%d' % i: 'real' for i in range(n)}

    def code(P):
        r = P.num(0)
        for idx in U().multilevel_comb(n, m):
            assert len(idx) == n, 'a composition has %d parts instead of %d' % (len(idx), n)
            t = P.num(1)
            for i, e in enumerate(idx):
                t = t * P['x%d' % i] ** e
            r = r + t
        return r

    def spec(P):
        # complete homogeneous symmetric polynomial, by its recurrence in the number of variables
        h = [P.num(1)] + [P.num(0)] * m
        for i in range(n):
            for d in range(1, m + 1):
                h[d] = h[d] + P['x%d' % i] * h[d - 1]
        return h[m]
    return eq.Case(name, pars, code, spec, [], 'the compositions are not each enumerated exactly once')


def index(name, n, m):
    pars = {'x%d_%d' % (i, j): 'real' for i in range(n) for j in range(m)}

    def code(P):
        r = P.num(0)
        for idx in U().multilevel_index(n, m):
            assert len(idx) == n, 'an index has %d levels instead of %d' % (len(idx), n)
            t = P.num(1)
            for i, j in enumerate(idx):
                t = t * P['x%d_%d' % (i, j)]
            r = r + t
        return r

    def spec(P):
        r = P.num(1)
        for i in range(n):
            r = r * sum((P['x%d_%d' % (i, j)] for j in range(m)), P.num(0))
        return r
    return eq.Case(name, pars, code, spec, [], 'the enumerated indexes do not expand the product of the sums')


def dbf(name, lo, hi):
    def body(E):
        n = E.int('n', lo, hi)
        f = U().dbfactorial
        if n >= 2:
            a, b = f(n), f(n - 2)
            E.claim('n!! = n (n-2)!!', a == n * b if int_like(a) else a == b * n)
        else:
            E.claim('0!! = 1!! = 1', f(n) == 1)
    return PCase(name, body)


def int_like(x):
    return isinstance(x, (int, SInt))


def normal(name, lo, hi):
    def body(E):
        n = E.int('n', lo, hi)
        f = U().cmnorm
        d = D(E, f(n))
        s = E.atom('sigma')
        E.claim('variable name', tuple(f(n).keyfor) == ('sigma',))
        if n == 0:
            E.same('0th moment', d, E.num(1))
        elif n == 1:
            E.same('1st moment', d, E.num(0))
        else:
            E.same('mu_n = (n-1) sigma^2 mu_{n-2}', d, D(E, f(n - 2)) * s * s * (to_lp(n - 1) if E.symbolic else n - 1))
    return PCase(name, body)


for n in range(1, 7):
    for m in range(0, 10):
        t = m <= {1: 9, 2: 9, 3: 9, 4: 9, 5: 6, 6: 4}[n]
        q = m <= {1: 6, 2: 6, 3: 6, 4: 6, 5: 3, 6: -1}[n]
        if t:
            nm = 'order %d in %d parts' % (m, n)
            S.add(nm, one(multinomial, nm, n, m), quick=q, weight=n ** m)
            nm = 'compositions of %d in %d parts' % (m, n)
            S.add(nm, one(plain, nm, n, m), quick=q, weight=n ** m)
for n in range(1, 6):
    for m in range(1, 5):
        nm = '%d nested sums over %d' % (n, m)
        if m ** n <= 300:
            S.add(nm, one(index, nm, n, m), quick=n <= 3, weight=m ** n)
for lo, hi, q in ((0, 24, True), (25, 60, False)):
    nm = 'double factorial %d..%d' % (lo, hi)
    S.add(nm, one(dbf, nm, lo, hi), quick=q, weight=hi)
    nm = 'normal moments %d..%d' % (lo, hi)
    S.add(nm, one(normal, nm, lo, hi), quick=q, weight=hi)
S.history(8)
tasks, replay = S.tasks, S.replay
