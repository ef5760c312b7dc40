"""Inductive steps: the real recursion is run once, with symbolic orders, on a table whose
entries are generic one-term formulas with symbolic exponents and coefficients.

The recursion is linear in the table entries (additivity of the polynomial operations is
property A01), so a step verified for a generic term of each entry is verified for all."""
from . import core, lp, shim
from .lp import GP


class Table:
    """looks like the dict of lower-order formulas; every entry is empty but the one at `off`"""

    def __init__(self, order, off, entry, empty):
        self.order, self.off, self.entry, self.empty = order, tuple(off), entry, empty

    def __getitem__(self, key):
        assert len(key) == len(self.order)
        d = tuple(a - b for a, b in zip(key, self.order))
        return (self.entry if d == self.off else self.empty).copy()

    def get(self, key, default=None):
        return self[key]

    def __contains__(self, key):
        return True


def zero(E):
    return GP([]) if E.symbolic else E.num(0)


def lin(E, *terms):
    """sum of integer * value"""
    r = None
    for n, v in terms:
        if E.symbolic:
            t = v * n
        else:
            t = E.mp.mpf(n) * (E.mp.mpf(v.numerator) / v.denominator if hasattr(v, 'denominator') else v)
        r = t if r is None else r + t
    return r


def cval(E, c):
    if E.symbolic:
        return GP.of(lp.to_lp(c))
    if hasattr(c, 'numerator'):
        return E.mp.mpf(c.numerator) / c.denominator
    return E.mp.mpf(c)


def choose2(E, n):
    if E.symbolic:
        return GP.of(lp.to_lp(n) * lp.to_lp(n - 1) / 2)
    return E.mp.mpf(n * (n - 1)) / 2


def mul(E, *ns):
    if E.symbolic:
        r = lp.to_lp(1)
        for n in ns:
            r = r * lp.to_lp(n)
        return GP.of(r)
    r = E.mp.mpf(1)
    for n in ns:
        r = r * n
    return r


def call(module, name, *args):
    """an internal helper of the library: if it is not there (or takes other arguments) there is
    nothing to verify about it"""
    import inspect
    f = getattr(shim.mod(module), name, None)
    if f is None:
        raise core.Unsupported('%s.%s does not exist' % (module, name))
    try:
        inspect.signature(f).bind(*args)
    except TypeError:
        raise core.Unsupported('%s.%s takes other arguments' % (module, name))
    try:
        return f(*args)
    except (core.Unsupported, core.Inconclusive):
        raise
    except Exception as e:
        # the helper has another contract than the one assumed here; errors of the public
        # functions themselves are found by the obligations on them
        raise core.Unsupported('%s.%s: %s: %s' % (module, name, type(e).__name__, e))
