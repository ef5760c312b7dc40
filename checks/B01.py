"""B01: closed-form integrals of exponential monomials are exact"""
from symx import shim, lp
from symx.lp import GP
from symx.path import PCase, PSuite
from symx.polyx import one

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('B01')
LEVEL = 'other'
EXPLAIN = ('int_et (one factor, two factors) and int_et_fZ run with symbolic rate multiples; the returned formula is differentiated '
           'formally in its upper limit and evaluated at its lower limit, and z3 decides that the derivative is the integrand and '
           'the value at the lower limit is zero for every integer multiple (zero and negative ones included).')
BOUNDS = {'quick': 'all integers n (n1, n2), all rates and endpoints; power m = 0..6',
          'thorough': 'the same with m = 0..10'}
ASSUME = ['e^{kT} and T are independent variables of the formula (true for the function identity)',
          'two factors: n1*k1+n2*k2 is not zero unless n1=n2=0', 'z3 and the term representation are trusted']
mod = shim.mod


def start(E):
    return (GP([]) if E.symbolic else E.num(0))


def lin(E, *terms):
    """sum of integer * value"""
    r = None
    for n, v in terms:
        t = v * n if E.symbolic else E.mp.mpf(n) * (E.mp.mpf(v.numerator) / v.denominator if hasattr(v, 'denominator') else v)
        r = t if r is None else r + t
    return r


def at_power(E, x, n):
    return x ** n


def cval(E, c):
    if E.symbolic:
        return GP.of(lp.to_lp(c))
    return E.mp.mpf(c.numerator) / c.denominator


def check(E, label, poly, parts, m, n, rate, X, T, low):
    """poly: the formula; parts(key) -> (prefactor, exponent multiple pairs -> exponential factor and its rate,
    power of T, factor at the jump); low: value of the antiderivative's lower limit must vanish"""
    d, v0 = start(E), start(E)
    for key, c in poly.items():
        pre, ex, a_rate, b, jump = parts(key)
        c = cval(E, c) * pre
        b = int(b)
        d = d + c * jump * ex * a_rate * T ** b
        if b:
            d = d + c * jump * ex * b * T ** (b - 1)
        lo = low(key, b)
        if lo is not None:
            v0 = v0 + c * lo
    return d, v0


def neg(E, f, *n):
    m = E.int('m', hi=-1)
    E.raises('a negative power is refused', ValueError, lambda: f(*n, m))


def one_factor(name, m):
    def body(E):
        k, T, X = E.atom('k'), E.atom('T'), E.atom('X')
        n = E.int('n')
        P = mod('ito_mom').int_et(n, m)
        E.claim('three components', len(P.keyfor) == 3)
        d, v = start(E), start(E)
        for (a, b, j), c in P.items():
            b = int(b)
            c = cval(E, c) * k ** -j
            E.claim('no negative power of time', b >= 0)
            d = d + c * X ** a * T ** b * lin(E, (a, k))
            if b:
                d = d + c * X ** a * T ** (b - 1) * b
            else:
                v = v + c
        E.same('derivative is the integrand', d, X ** n * T ** m)
        E.same('zero at the lower limit', v, E.num(0))
    return PCase(name, body)


def with_jumps(name, m, N):
    def body(E):
        k, T, X = E.atom('k'), E.atom('T'), E.atom('X')
        s, Y = E.atom('s'), E.atom('Y')
        n = E.int('n')
        P = mod('ito_cond_mom').int_et_fZ(n, m, N)
        E.claim('five components', len(P.keyfor) == 5)
        d, v = start(E), start(E)
        for (a, b, j, l, o), c in P.items():
            b = int(b)
            c = cval(E, c) * k ** -j
            d = d + c * Y ** l * s ** o * X ** a * T ** b * lin(E, (a, k))
            if b:
                d = d + c * Y ** l * s ** o * X ** a * T ** (b - 1) * b
            if N:
                v = v + c * Y ** (a + l) * s ** (b + o)
            else:
                E.claim('no jump time without jumps', l == 0)
                E.claim('no jump time power without jumps', o == 0)
                E.claim('no negative power of time', b >= 0)
                if b == 0:
                    v = v + c
        E.same('derivative is the integrand', d, X ** n * T ** m)
        E.same('zero at the lower limit', v, E.num(0))
    return PCase(name, body)


def two_factor(name, m):
    def body(E):
        k1, k2 = E.coef('k1', nonzero=True), E.coef('k2', nonzero=True)
        T, X1, X2 = E.atom('T'), E.atom('X1'), E.atom('X2')
        n1, n2 = E.int('n1'), E.int('n2')
        if bool(n1 == 0) and bool(n2 == 0):
            pass
        elif E.symbolic:
            E.assume(~(lin(E, (n1, k1), (n2, k2)) == 0))
        else:
            E.assume(lin(E, (n1, k1), (n2, k2)) != 0)
        P = mod('itos_mom').int_et(n1, n2, m)
        d, v = start(E), start(E)
        for ((p, q, i), (a, b), j), c in P.items():
            j = int(j)
            c = cval(E, c)
            if bool(i != 0):
                c = c * lin(E, (p, k1), (q, k2)) ** -int(i)
            E.claim('no negative power of time', j >= 0)
            f = c * X1 ** a * X2 ** b
            d = d + f * T ** j * lin(E, (a, k1), (b, k2))
            if j:
                d = d + f * T ** (j - 1) * j
            else:
                v = v + c
        E.same('derivative is the integrand', d, X1 ** n1 * X2 ** n2 * T ** m)
        E.same('zero at the lower limit', v, E.num(0))
    return PCase(name, body)


def negs(name):
    def body(E):
        m, a, b = E.int('m', hi=-1), E.int('a'), E.int('b')
        E.raises('int_et refuses a negative power', ValueError, lambda: mod('ito_mom').int_et(a, m))
        E.raises('two-factor int_et refuses a negative power', ValueError, lambda: mod('itos_mom').int_et(a, b, m))
        for N in (0, 1, 2):
            E.raises('int_et_fZ refuses a negative power (%d jumps)' % N, ValueError,
                     lambda: mod('ito_cond_mom').int_et_fZ(a, m, N))
    return PCase(name, body)


for m in range(11):
    for nm, f, a in (('one factor, power %d' % m, one_factor, (m,)), ('two factors, power %d' % m, two_factor, (m,))) + tuple(
            ('split at jumps, power %d, %d jumps' % (m, N), with_jumps, (m, N)) for N in range(4)):
        S.add(nm, one(f, nm, *a), quick=m <= 6, weight=m + 1)
S.add('negative powers', one(negs, 'negative powers'))
S.history(5)
tasks, replay = S.tasks, S.replay
