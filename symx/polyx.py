"""Symbolic Poly operands and their denotation (shared by the polynomial-layer checks)."""
from . import shim
from .lp import GP, to_lp

NAMES = ('x', 'y', 'z', 'u')


def poly():
    return shim.mod('poly').Poly


def mk(E, tag, nt, nv, names=None, nonzero=False):
    P = poly()()
    P.set_keyfor(list(names or NAMES[:nv]))
    keys = [tuple(E.int('%s%d%d' % (tag, i, j)) for j in range(nv)) for i in range(nt)]
    E.distinct(keys)
    for i, k in enumerate(keys):
        P[k] = E.coef('c%s%d' % (tag, i), nonzero=nonzero)
    return P


def D(E, P, names=None):
    """the function a poly denotes: sum of coefficient * prod variable ** exponent"""
    if not E.symbolic:
        r = E.num(0)
        for k, c in P.items():
            t = E.mp.mpf(c.numerator) / c.denominator
            for nm, e in zip(names or P.keyfor, k):
                t = t * E.atom(nm) ** e
            r = r + t
        return r
    r = GP([])
    for k, c in P.items():
        t = GP.of(to_lp(c))
        for nm, e in zip(names or P.keyfor, k):
            t = t * GP.of(E.atom(nm) ** e)
        r = r + t
    return r


def one(f, *a):
    return lambda: [f(*a)]
