"""Values of the variables named in the titles of formulas, and formulas with symbolic exponents."""
import itertools

from . import lp, induct as I
from .lp import GP
from .polyx import poly as Poly


class Vars:
    def __init__(self, E, par, jumps=0, two=False):
        self.E, self.cache = E, {}
        a = self.a
        self.par = {}
        for n in par:
            real = n in ('mu', 'rho', 'mu_s', 'rhoJ', 'rho_J', 'mu_j')
            v = self.cache[n] = E.atom(n, 'real') if real else E.atom(n)
            self.par[n] = v
        if 'rho' in par and E.symbolic:
            E.assume(a('rho') < 1)
            E.assume(a('rho') > -1)
        for t in ('h', 'lb', 'ub'):
            for k in ('k', 'k1', 'k2'):
                if t in par and k in par:
                    E.exps(a(k) * a(t))
        self.s = [E.atom('s%d' % i) for i in range(jumps)]
        self.J = [E.atom('J%d' % i) for i in range(jumps)]
        self.par['jumptime'], self.par['jumpsize'] = tuple(self.s), tuple(self.J)
        if jumps:
            E.exps(*[a('k') * x for x in self.s])
            for i in range(jumps):
                for j in range(i):
                    E.assume(self.s[i] != self.s[j])

    def but(self, x):
        """the same values with that of x replaced by an unrelated one"""
        E = self.E
        W = Vars.__new__(Vars)
        W.E, W.cache, W.par, W.s, W.J = E, dict(self.cache), dict(self.par), list(self.s), list(self.J)
        real = x in ('mu', 'rho', 'mu_s', 'rhoJ', 'rho_J', 'mu_j')
        y = E.atom(x + '_alt', 'real') if real else E.atom(x + '_alt')
        if x in self.par:
            W.cache[x] = W.par[x] = y
        elif x[0] == 's':
            W.s[int(x[1:])] = y
        else:
            W.J[int(x[1:])] = y
        if x == 'rho' and E.symbolic:
            E.assume(y < 1)
            E.assume(y > -1)
        for t in ('h', 'lb', 'ub'):
            for k in ('k', 'k1', 'k2'):
                if x in (t, k) and t in W.par and k in W.par:
                    E.exps(W.a(k) * W.a(t))
        if W.s and x in ['k'] + ['s%d' % i for i in range(len(W.s))]:
            E.exps(*[W.a('k') * z for z in W.s if x == 'k' or z is y])
            for i in range(len(W.s)):
                for j in range(i):
                    E.assume(W.s[i] != W.s[j])
        W.par['jumptime'], W.par['jumpsize'] = tuple(W.s), tuple(W.J)
        return W

    def a(self, n):
        return self.cache[n]

    def sq(self, x):
        return lp.lp_sqrt(x) if self.E.symbolic else self.E.mp.sqrt(x)

    def power(self, name, n):
        """the variable called name, to the power n"""
        a, E = self.a, self.E
        if name in ('e^{-kh}', 'e^{-kt}'):
            return E.exp(-n * (a('k') * a('h')))
        if name == 'e^{kt}':
            return E.exp(n * (a('k') * a('ub' if 'ub' in self.par else 'h')))
        if name == 'e^{ks}':
            # the interval starts at s = lb, or at zero
            return E.exp(n * (a('k') * a('lb'))) if 'lb' in self.par else E.num(1)
        if name == 'k^{-}':
            return a('k') ** -n
        if name == 'sqrt(1-rho^2)':
            return self.sq(1 - a('rho') ** 2) ** n
        if name.startswith('e^{-(n1'):
            return E.exp(-(n[0] * (a('k1') * a('h')) + n[1] * (a('k2') * a('h'))))
        if name.startswith('(n_1m'):
            r = E.num(1)
            for p, q, i in n:
                r = r * (p * a('k1') + q * a('k2')) ** -i
            return r
        if name == 'J_{1:n}':
            r = E.num(1)
            for x, i in zip(self.J, n):
                r = r * x ** i
            return r
        f = {'t': lambda: a('h'), 'h': lambda: a('h'), 't-s': lambda: a('h'), 'v0-theta': lambda: a('v0') - a('theta'),
             'v_0-theta': lambda: a('v0') - a('theta'), 'v_0': lambda: a('v0'),
             'E[v]': lambda: a('theta') + a('lmbd') * a('mu_v') / a('k'),
             'v0-E[v]': lambda: a('v0') - (a('theta') + a('lmbd') * a('mu_v') / a('k')),
             'beta_t': lambda: (1 - E.exp(-(a('k') * a('h')))) / (2 * a('k')), 'mu-theta/2': lambda: a('mu') - a('theta') / 2,
             'sigma/2k': lambda: a('sigma') / (2 * a('k')), 'rho-sigma/2k': lambda: a('rho') - a('sigma') / (2 * a('k')),
             }.get(name, lambda: a({'sigma': 'sigma' if 'sigma' in self.cache else 'sigma_v'}.get(name, name)))
        return f() ** n

    def knows(self, name):
        try:
            self.power(name, ((1, 1, 1),) if name.startswith('(n_1m') else ((1, 1) if name.startswith('e^{-(n1') else
                       () if name == 'J_{1:n}' else 1))
            return True
        except KeyError:
            return name[1:] in ('_{1:n}', '_{2:n}')

    def fz(self, l, o, p, q):
        """nested sum over the jumps; without times: o = q = None"""
        E, k, s, J = self.E, self.a('k'), self.s, self.J
        if len(l) == 0:
            return E.num(1)
        tot = I.zero(E)
        for idx in itertools.product(range(len(s)), repeat=len(l)):
            f = GP.of(1) if E.symbolic else E.num(1)
            for i, j in enumerate(idx):
                f = f * E.exp(l[i] * (k * s[j])) * J[j]
                if o is not None:
                    f = f * s[j] ** o[i]
            for i in range(1, len(idx)):
                big = s[idx[0]]
                for j in idx[1:i + 1]:
                    if s[j] is not big and bool(s[j] > big):
                        big = s[j]
                f = f * E.exp(p[i - 1] * (k * big))
                if q is not None:
                    f = f * big ** q[i - 1]
            tot = tot + f
        return tot


def formula(E, names, terms, depths, rates, nj, natural=False):
    """natural: only exponents that occur in moment formulas (non-negative, even for the square root)"""
    lo = 0 if natural else None
    P = Poly()()
    P.set_keyfor(list(names))
    keys = []
    for i in range(terms):
        key = []
        for j, nm in enumerate(names):
            t = 'e%d_%d' % (i, j)
            d = depths[i % len(depths)]
            if nm.startswith('(n_1m'):
                key.append(tuple(tuple(E.int('%s_%d%s' % (t, x, y), lo=lo if y == 'i' else None) for y in 'pqi') for x in range(rates[i % len(rates)])))
            elif nm.startswith('e^{-(n1'):
                key.append((E.int(t + 'p', lo=lo), E.int(t + 'q', lo=lo)))
            elif nm == 'J_{1:n}':
                key.append(tuple(E.int('%s_%d' % (t, x)) for x in range(nj)))
            elif nm[1:] == '_{1:n}':
                key.append(tuple(E.int('%s_%d' % (t, x)) for x in range(d)))
            elif nm[1:] == '_{2:n}':
                key.append(tuple(E.int('%s_%d' % (t, x)) for x in range(max(d - 1, 0))))
            else:
                key.append(E.int(t, lo=lo))
                if natural and nm == 'sqrt(1-rho^2)':
                    E.assume(key[-1] % 2 == 0)
        keys.append(tuple(key))
    E.distinct(keys)
    for i, key in enumerate(keys):
        P[key] = E.coef('c%d' % i, nonzero=True)
    if rates != (0,):
        # the rates of the two-factor models do not cancel
        for key in keys:
            for tr in key[0]:
                x = tr[0] * E.atom('k1') + tr[1] * E.atom('k2')
                E.assume(~(x == 0) if E.symbolic else x != 0)
    return P
