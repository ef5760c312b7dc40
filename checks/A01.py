"""A01: sparse polynomials obey the ring laws (symbolic exponents and coefficients)"""
from symx import shim
from symx.lp import GP, to_lp
from symx.path import PCase, PSuite
from symx.polyx import mk, D, NAMES, one, poly

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('A01')
LEVEL = 'other'
EXPLAIN = ('Poly operations are executed on operands whose exponents are symbolic integers and whose coefficients are '
           'symbolic reals; every feasible path (coinciding keys, cancellations) is explored and z3 decides that the '
           'result denotes the right function (all monomial coefficients agree for every exponent vector).')
BOUNDS = {'quick': 'all integer exponents, all real coefficients; sums/differences/merges of up to 3+3 terms in 3 variables, '
                   'products up to 3x2 terms in 2 variables, mul_poly 2x2 terms with 3+2 variables; powers 1..4 of 2 terms',
          'thorough': 'as quick, plus products 3x3 terms, powers 1..6 of 2 terms and 1..3 of 3 terms, 4-term sums'}
ASSUME = ['coefficients are exact rationals (no floating point)', 'operands have pairwise distinct keys (dictionary invariant)',
          'z3 and the term representation (symx/lp.py) are trusted']
def binop(name, op, na, nb, nv):
    def body(E):
        p, q = mk(E, 'a', na, nv), mk(E, 'b', nb, nv)
        dp, dq = D(E, p), D(E, q)
        r = {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q}[op]()
        E.same('denotes p %s q' % op, D(E, r), {'+': lambda: dp + dq, '-': lambda: dp - dq, '*': lambda: dp * dq}[op]())
        E.claim('keeps the variable names', tuple(r.keyfor) == tuple(p.keyfor))
    return PCase(name, body)


def merge(name, na, nb, nv):
    def body(E):
        p, q = mk(E, 'a', na, nv), mk(E, 'b', nb, nv)
        dp, dq = D(E, p), D(E, q)
        p.merge(q)
        E.same('merge makes p denote p + q', D(E, p), dp + dq)
        E.same('merge leaves q alone', D(E, q), dq)
    return PCase(name, body)


def self_ops(name, nt, nv):
    def body(E):
        p = mk(E, 'a', nt, nv)
        dp = D(E, p)
        E.same('p + p', D(E, p + p), dp + dp)
        E.same('p - p', D(E, p - p), dp - dp)
        E.same('p * p', D(E, p * p), dp * dp)
    return PCase(name, body)


def power(name, nt, nv, n):
    def body(E):
        p = mk(E, 'a', nt, nv)
        want = dp = D(E, p)
        for _ in range(n - 1):
            want = want * dp
        E.same('p ** %d' % n, D(E, p ** n), want)
    return PCase(name, body)


def scalar(name, nt, nv):
    def body(E):
        p = mk(E, 'a', nt, nv)
        c = E.coef('s')
        dp = D(E, p)
        cs = c if E.symbolic else E.mp.mpf(c.numerator) / c.denominator
        E.same('c * p', D(E, c * p), dp * cs)
        E.same('(-2) * p', D(E, -2 * p), dp * -2)
        E.same('0 * p', D(E, 0 * p), dp * 0)
    return PCase(name, body)


def addkey(name, nt, nv):
    def body(E):
        p = mk(E, 'a', nt, nv)
        dp = D(E, p)
        k = tuple(E.int('n%d' % j) for j in range(nv))
        c = E.coef('s')
        one = poly()()
        one.set_keyfor(p.keyfor)
        one[k] = c
        dm = D(E, one)
        p.add_keyval(k, c)
        E.same('adding one monomial', D(E, p), dp + dm)
        p.remove_zero()
        E.same('removing zero terms', D(E, p), dp + dm)
    return PCase(name, body)


def mulpoly(name, na, va, nb, vb, idx, names):
    def body(E):
        p = mk(E, 'a', na, va, NAMES[:va])
        q = mk(E, 'b', nb, vb, ['w%d' % j for j in range(vb)])
        # key component i of the product is key[idx[0][i]] of p plus key[idx[1][i]] of q (-1: none)
        kn = names
        where = lambda j, side: [kn[i] for i, x in enumerate(idx[side]) if x == j]
        dp = D2(E, p, [where(j, 0) for j in range(va)])
        dq = D2(E, q, [where(j, 1) for j in range(vb)])
        r = p.mul_poly(q, ([*idx[0]], [*idx[1]]), list(kn))
        E.same('mul_poly', D(E, r), dp * dq)
        E.claim('mul_poly sets the variable names', tuple(r.keyfor) == tuple(kn))
    return PCase(name, body)


def D2(E, P, names):
    """denotation when key component j feeds the (possibly several) variables names[j]"""
    r = GP([]) if E.symbolic else E.num(0)
    for k, c in P.items():
        t = GP.of(to_lp(c)) if E.symbolic else E.mp.mpf(c.numerator) / c.denominator
        for ns, e in zip(names, k):
            for nm in ns:
                t = t * (GP.of(E.atom(nm) ** e) if E.symbolic else E.atom(nm) ** e)
        r = r + t
    return r


def assoc(name):
    def body(E):
        p, q, r = mk(E, 'a', 2, 2), mk(E, 'b', 1, 2), mk(E, 'd', 1, 2)
        dp, dq, dr = D(E, p), D(E, q), D(E, r)
        E.same('(p + q) * r', D(E, (p + q) * r), (dp + dq) * dr)
        E.same('p * q - r', D(E, p * q - r), dp * dq - dr)
    return PCase(name, body)


for op, w in (('+', 'sum'), ('-', 'difference')):
    for na, nb, nv in ((0, 2, 2), (2, 0, 2), (1, 1, 3), (2, 2, 3), (3, 3, 3), (3, 2, 2), (4, 3, 2)):
        n = '%s of %d and %d terms in %d variables' % (w, na, nb, nv)
        S.add(n, one(binop, n, op, na, nb, nv), quick=na < 4, weight=na * nb)
for na, nb, nv in ((0, 2, 1), (2, 0, 1), (1, 1, 3), (2, 2, 2), (3, 1, 2), (1, 3, 2), (3, 2, 2), (3, 3, 1)):
    n = 'product of %d and %d terms in %d variables' % (na, nb, nv)
    S.add(n, one(binop, n, '*', na, nb, nv), quick=na * nb < 9, weight=3 * na * nb)
for na, nb, nv in ((0, 1, 1), (2, 2, 2), (3, 3, 2)):
    n = 'merge of %d and %d terms' % (na, nb)
    S.add(n, one(merge, n, na, nb, nv), weight=na * nb)
for nt in (1, 2, 3):
    n = 'a polynomial of %d terms with itself' % nt
    S.add(n, one(self_ops, n, nt, 2), quick=nt < 3, weight=nt ** 3)
for nt, nv, k in ((1, 3, 1), (1, 2, 4), (2, 2, 1), (2, 2, 2), (2, 1, 3), (2, 1, 4), (3, 1, 2), (2, 1, 5), (3, 1, 3), (2, 1, 6)):
    n = 'power %d of %d terms' % (k, nt)
    S.add(n, one(power, n, nt, nv, k), quick=nt ** k <= 16, weight=nt ** k)
for nt in (0, 1, 3):
    n = 'scalar multiples of %d terms' % nt
    S.add(n, one(scalar, n, nt, 2), weight=nt)
    n = 'one monomial added to %d terms' % nt
    S.add(n, one(addkey, n, nt, 2), weight=nt)
for i, (na, va, nb, vb, idx) in enumerate(((2, 3, 2, 2, ((0, 1, 2, -1), (-1, 0, 0, 1))),
                                           (2, 2, 2, 2, ((1, -1, 0), (0, 1, -1))),
                                           (1, 2, 2, 3, ((-1, 0, 1, -1, -1), (0, 1, -1, 2, -1))))):
    n = 'mul_poly layout %d' % i
    S.add(n, one(mulpoly, n, na, va, nb, vb, idx, ['r%d' % j for j in range(len(idx[0]))]), weight=6)
n = 'composed expressions'
S.add(n, one(assoc, n), weight=8)

S.history(1)
tasks, replay = S.tasks, S.replay
