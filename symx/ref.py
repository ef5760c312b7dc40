"""Independent reference: moments of polynomial (affine jump-diffusion) processes.

Nothing here follows the library's Ito recursions.  A model is given only by its
generator acting on monomials v1^a1 v2^a2 y^c; conditional moments solve the linear
moment ODE  m' = G m  (exactly, as exponential polynomials), stationary moments solve
the annihilation equations  E[A f] = 0.

All arithmetic is generic: LP proxies (all parameter values at once) or mpmath
numbers (replay).
"""
from fractions import Fraction
from math import comb

from .lp import LP, SP, W, unpack, to_lp


class Sum(LP):
    """a sum under construction, private to the dictionary it is accumulated in"""
    __slots__ = ('owner',)


def add(d, k, v):
    if k not in d:
        d[k] = v
        return
    s = d[k]
    if not isinstance(s, LP) or not isinstance(v, LP):
        d[k] = s + v
        return
    if type(s) is not Sum or s.owner is not d:
        s = Sum(dict(s.d))
        s.owner = d
        d[k] = s
    t = s.d
    for m, c in v.d.items():
        x = t.get(m, 0) + c
        if x == 0:
            del t[m]
        else:
            t[m] = x


def total(terms):
    d = {}
    for v in terms:
        add(d, 0, v)
    return d.get(0, 0)


def iszero(x):
    return (not x.d) if isinstance(x, LP) else x == 0


class Proc:
    """v-factors i = 0..q-1 with mean reversion rates ks[i]; state exponents
    alpha = (a_0, .., a_{q-1}, c)."""

    def __init__(self, ks, gen, one=1, rates=None):
        """rates[i] = tuple of multiples of the ks: decay rate of state component i
        (default: component i decays at ks[i])."""
        self.ks = list(ks)
        self.q = len(rates) if rates is not None else len(ks)
        self.rates = rates
        self.gen = gen            # alpha -> {beta: coefficient}, diagonal excluded
        self.one = one
        self.cache = {}
        self.invc = {}

    def lam(self, alpha):
        if self.rates is None:
            return tuple(alpha[:self.q])
        return tuple(sum(a * r[j] for a, r in zip(alpha, self.rates)) for j in range(len(self.ks)))

    def inv(self, delta):
        if delta not in self.invc:
            s = 0
            for n, k in zip(delta, self.ks):
                if n:
                    s = s + n * k
            self.invc[delta] = 1 / s
        return self.invc[delta]

    def moment(self, alpha):
        """E[x_t^alpha | v_0, y_0 = 0] as {(n, j, w): coef} ~ coef e^{-(n.k) t} t^j v_0^w."""
        alpha = tuple(alpha)
        if alpha in self.cache:
            return self.cache[alpha]
        la = self.lam(alpha)
        out = {}
        if alpha[-1] == 0 or len(alpha) == self.q:
            add(out, (la, 0, tuple(alpha[:self.q])), self.one)
        for beta, g in self.gen(alpha).items():
            if iszero(g):
                continue
            for (n, j, w), c in self.moment(beta).items():
                gc = g * c
                d = tuple(x - y for x, y in zip(la, n))
                if not any(d):
                    add(out, (la, j + 1, w), gc * Fraction(1, j + 1) if isinstance(gc, LP) else gc / (j + 1))
                    continue
                # int_0^t e^{d s} s^j ds
                iv = self.inv(d)
                f = gc * iv
                for i in range(j + 1):
                    # e^{-la t} * e^{d t} t^{j-i} = e^{-n t} t^{j-i}
                    add(out, (n, j - i, w), f)
                    if i == j:
                        add(out, (la, 0, w), -f)
                    f = f * iv * (-(j - i))
        out = {k: v for k, v in out.items() if not iszero(v)}
        self.cache[alpha] = out
        return out

    def poly_v(self, alpha, t, es):
        """{w: value} with E[x_t^alpha | v_0] = sum_w value v_0^w, es[i] = e^{k_i t}."""
        out = {}
        for (n, j, w), c in self.moment(alpha).items():
            v = c
            for x, e in zip(n, es):
                if x:
                    v = v * e ** (-x)
            if j:
                v = v * t ** j
            add(out, w, v)
        return out

    def given(self, alpha, t, es, v0):
        """value of E[x_t^alpha | v_0 = v0]"""
        r = 0
        for w, c in self.poly_v(alpha, t, es).items():
            for a, v in zip(w, v0):
                if a:
                    c = c * v ** a
            r = r + c
        return r

    def mean(self, alpha, t, es, stat):
        """value averaged over the stationary law; stat[i][a] = E[v_i^a]"""
        r = 0
        for w, c in self.poly_v(alpha, t, es).items():
            for a, m in zip(w, stat):
                if a:
                    c = c * m[a]
            r = r + c
        return r

    def mean_yy(self, l1, l2, t, es, stat):
        """E[y_1^l1 y_2^l2] of consecutive increments, stationary start."""
        r = 0
        for w, c in self.poly_v((0,) * self.q + (l2,), t, es).items():
            r = r + c * self.mean(tuple(w) + (l1,), t, es, stat)
        return r

    def ode_residual(self, alpha):
        """d/dt m_alpha and G m as {(n, j, w): coef}; they agree iff m solves the ODE.
        Also returns m at t = 0."""
        alpha = tuple(alpha)
        d, r, z = {}, {}, {}
        for (n, j, w), c in self.moment(alpha).items():
            s = 0
            for x, k in zip(n, self.ks):
                if x:
                    s = s - x * k
            if not (isinstance(s, int) and s == 0):
                add(d, (n, j, w), c * s)
            if j:
                add(d, (n, j - 1, w), c * j)
            else:
                add(z, w, c)
        la = 0
        for a, k in zip(self.lam(alpha), self.ks):
            if a:
                la = la - a * k
        if not (isinstance(la, int) and la == 0):
            for key, c in self.moment(alpha).items():
                add(r, key, c * la)
        for beta, g in self.gen(alpha).items():
            for key, c in self.moment(beta).items():
                add(r, key, g * c)
        return d, r, z


def coeffs(p, atom_name):
    """LP -> {power of atom: LP}"""
    a = SP.by_name.get(atom_name)
    if a is None:
        return {0: p}
    out = {}
    for k, v in to_lp(p).d.items():
        e = 0
        for i, x in unpack(k):
            if i == a.i:
                e = x
        out.setdefault(e, {})[k - (e << (W * a.i))] = v
    return {e: LP(d) for e, d in out.items()}


# ------------------------------------------------------------------ generators
def heston_gen(k, theta, sigma, mu, rho, jump=None):
    """y' = mu - v/2, d<y>=v, d<v>=sigma^2 v, d<v,y>=rho sigma v; state (v, y).
    jump(i, j): lambda*E[J^i Jy^j] for a compound Poisson jump (J, Jy)."""
    def gen(al):
        a, c = al
        o = {}
        if a:
            add(o, (a - 1, c), a * k * theta)
            if a > 1:
                add(o, (a - 1, c), Fraction(a * (a - 1), 2) * 1 * sigma ** 2 if isinstance(sigma, LP)
                    else sigma ** 2 * a * (a - 1) / 2)
        if c:
            add(o, (a, c - 1), c * mu)
            add(o, (a + 1, c - 1), half(-c, mu))
            if c > 1:
                add(o, (a + 1, c - 2), half(c * (c - 1), mu))
            if a:
                add(o, (a, c - 1), a * c * rho * sigma)
        if jump is not None:
            for i in range(a + 1):
                for j in range(c + 1):
                    if i + j:
                        w = jump(i, j)
                        if not iszero(w):
                            add(o, (a - i, c - j), comb(a, i) * comb(c, j) * w)
        return o
    return gen


def half(n, like):
    return Fraction(n, 2) if isinstance(like, LP) else like * 0 + n * (like * 0 + 1) / 2


def heston2_gen(k1, th1, s1, k2, th2, s2, mu, r1, r2, jump=None):
    """two independent variance factors, v = v1 + v2."""
    def gen(al):
        a, b, c = al
        o = {}
        if a:
            add(o, (a - 1, b, c), a * k1 * th1)
            if a > 1:
                add(o, (a - 1, b, c), half(a * (a - 1), mu) * s1 ** 2)
        if b:
            add(o, (a, b - 1, c), b * k2 * th2)
            if b > 1:
                add(o, (a, b - 1, c), half(b * (b - 1), mu) * s2 ** 2)
        if c:
            add(o, (a, b, c - 1), c * mu)
            for da, db in ((1, 0), (0, 1)):
                add(o, (a + da, b + db, c - 1), half(-c, mu))
                if c > 1:
                    add(o, (a + da, b + db, c - 2), half(c * (c - 1), mu))
            if a:
                add(o, (a, b, c - 1), a * c * r1 * s1)
            if b:
                add(o, (a, b, c - 1), b * c * r2 * s2)
        if jump is not None:
            for j in range(1, c + 1):
                add(o, (a, b, c - j), comb(c, j) * jump(0, j))
        return o
    return gen


def normal_moment(n, mu, s):
    """E[X^n], X ~ N(mu, s^2), by Stein's recursion."""
    m0, m1 = mu * 0 + 1, mu
    if n == 0:
        return m0
    for i in range(1, n):
        m0, m1 = m1, mu * m1 + i * s ** 2 * m0
    return m1


def cpp_jump_normal(lmbd, mu, s):
    """jump(i, j) of a price jump N(mu, s^2) with intensity lmbd (no v jump)."""
    c = {}

    def jump(i, j):
        if i:
            return mu * 0
        if j not in c:
            c[j] = lmbd * normal_moment(j, mu, s)
        return c[j]
    return jump


def svcj_jump(lmbd, mu_v, rho_j, mu_s, sigma_s):
    """J ~ Exp(mean mu_v) in v, Jy | J ~ N(mu_s + rho_j J, sigma_s^2) in y."""
    c = {}

    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)

    def jump(i, j):
        if (i, j) not in c:
            # E[J^i (rho J + X)^j] = sum C(j,l) rho^l E[J^{i+l}] E[X^{j-l}]
            s = mu_v * 0
            for l in range(j + 1):
                s = s + comb(j, l) * rho_j ** l * (fact(i + l) * mu_v ** (i + l)) \
                    * normal_moment(j - l, mu_s, sigma_s)
            c[i, j] = lmbd * s
        return c[i, j]
    return jump


def srjd_jump(lmbd, mu_v):
    def jump(i, j):
        f = 1
        for x in range(2, i + 1):
            f *= x
        return lmbd * f * mu_v ** i
    return jump


def stationary_v(n, k, theta, sigma, jump=None):
    """[E v^0 .. E v^n] of the stationary square-root (jump) process."""
    ms = [k * 0 + 1]
    for m in range(1, n + 1):
        s = m * k * theta * ms[m - 1]
        if m > 1:
            s = s + half(m * (m - 1), k) * sigma ** 2 * ms[m - 1]
        if jump is not None:
            for i in range(1, m + 1):
                s = s + comb(m, i) * jump(i, 0) * ms[m - i]
        ms.append(s / (m * k))
    return ms


def central_from_raw(raw, n):
    """sum C(n,i) raw_i (-mean)^(n-i)"""
    r = raw[0] * 0
    for i in range(n + 1):
        r = r + comb(n, i) * raw[i] * (-raw[1]) ** (n - i)
    return r


def through_jumps(proc, f, ts, ess, jump):
    """E[f(v_h, y_h) | v_0, y_0 = 0, jumps] as {(w.., c): value}; f maps exponents to
    coefficients, ts/ess are the segment lengths and their e^{k t}; jump(i) gives the
    pair (J_i, [E Jy^0, E Jy^1, ...]) applied between segment i and i+1."""
    q = proc.q
    for seg in range(len(ts) - 1, -1, -1):
        g = {}
        for al, c in f.items():
            n = al[q]
            for i in range(n + 1):
                for w, v in proc.poly_v(tuple(al[:q]) + (i,), ts[seg], ess[seg]).items():
                    add(g, tuple(w) + (n - i,), comb(n, i) * (c * v))
        if seg == 0:
            return g
        J, my = jump(seg - 1)
        f = {}
        for al, c in g.items():
            a, n = al[0], al[q]
            for i in range(a + 1):
                for j in range(n + 1):
                    if not iszero(my[j]):
                        add(f, (a - i,) + tuple(al[1:q]) + (n - j,),
                            comb(a, i) * comb(n, j) * (c * J ** i * my[j]))
    return f


def at(g, v0):
    """evaluate {(w, c): value} at v = v0, y = 0"""
    r = 0
    for al, c in g.items():
        if al[-1] == 0:
            for a, v in zip(al[:-1], v0):
                if a:
                    c = c * v ** a
            r = r + c
    return r
