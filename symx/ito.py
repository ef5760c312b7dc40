"""Reference joint moments of the stochastic integrals (each from the SDE only)."""
from . import ref, lp
from .lp import LP
from .ref import Proc, add, half, comb


def evaluate(P, poly, atoms):
    """sum of coefficient * prod atom ** exponent, the atoms in the order of keyfor"""
    base = [atoms[n] for n in poly.keyfor]
    r = P.num(0)
    for k, c in poly.items():
        assert len(k) == len(base), 'key %r does not fit the variables %r' % (k, poly.keyfor)
        t = P.num(c.numerator, c.denominator) if hasattr(c, 'numerator') and not isinstance(c, LP) else c
        for b, e in zip(base, k):
            if e:
                t = t * b ** e
        r = r + t
    return r


def gen_ie(k, theta, sigma, jump=None):
    """state (v, X, I, I*, Z, IZ, IS): dv = k(theta-v)dt + sigma sqrt(v) dw + dz,
    dX = -kX dt + sqrt(v) dw, dI = sqrt(v) dw, dI* = sqrt(v) dw*, dZ = -kZ dt + dz,
    dIZ = dz, dIS = price jumps; jump(i, j) = intensity * E[J^i S^j].  The Z parts may be absent."""
    def gen(al):
        al = tuple(al)
        a, x, y, s = al[:4]
        rest = al[4:]
        o = {}

        def put(da, dx, dy, ds, c):
            add(o, (a + da, x + dx, y + dy, s + ds) + rest, c)
        if a:
            put(-1, 0, 0, 0, a * k * theta)
            if a > 1:
                put(-1, 0, 0, 0, half(a * (a - 1), k) * sigma ** 2)
            if x:
                put(0, -1, 0, 0, a * x * sigma)
            if y:
                put(0, 0, -1, 0, a * y * sigma)
        if x > 1:
            put(1, -2, 0, 0, half(x * (x - 1), k))
        if y > 1:
            put(1, 0, -2, 0, half(y * (y - 1), k))
        if x and y:
            put(1, -1, -1, 0, half(2 * x * y, k))
        if s > 1:
            put(1, 0, 0, -2, half(s * (s - 1), k))
        if jump is not None:
            zs = rest + (0,) * (3 - len(rest))
            for i in range(a + 1):
                for j in range(zs[0] + 1):
                    for l in range(zs[1] + 1):
                        for m in range(zs[2] + 1):
                            if i + j + l + m:
                                c = comb(a, i) * comb(zs[0], j) * comb(zs[1], l) * comb(zs[2], m)
                                w = jump(i + j + l, m)
                                if not ref.iszero(w):
                                    key = (a - i, x, y, s, zs[0] - j, zs[1] - l, zs[2] - m)
                                    add(o, key[:4 + len(rest)], c * w)
        return o
    return gen


RATES = [(1,), (1,), (0,), (0,), (1,), (0,), (0,)]


def one(P, a, b, c):
    """E[IE^a I^b I*^c | v0] over (0, t]"""
    pr = Proc([P['k']], gen_ie(P['k'], P['theta'], P['sigma']), P['k'] * 0 + 1, rates=RATES[:4])
    z = P['k'] * 0
    E = P.exp(P['k'] * P['t'])
    return pr.given((0, a, b, c), P['t'], [E], [P['v0'], z, z, z]) * E ** a


def svcj(P, o):
    """E[IE^a I^b I*^c IEZ^d IZ^e IZ*^f | v0]; price part of the jumps N(mu_s, sigma_s^2), independent"""
    lm, mv, ms, ss = P['lmbd'], P['mu_v'], P['mu_s'], P['sigma_s']
    c = {}

    def jump(i, j):
        if (i, j) not in c:
            f = 1
            for x in range(2, i + 1):
                f *= x
            c[i, j] = lm * f * mv ** i * ref.normal_moment(j, ms, ss)
        return c[i, j]
    pr = Proc([P['k']], gen_ie(P['k'], P['theta'], P['sigma'], jump), P['k'] * 0 + 1, rates=RATES)
    z = P['k'] * 0
    E = P.exp(P['k'] * P['h'])
    return pr.given((0,) + tuple(o), P['h'], [E], [P['v0']] + [z] * 6) * E ** (o[0] + o[3])


def given_jumps(P, o, nj):
    """E[IE^a I^b I*^c | v0, variance jumps J1.. after t1, t1+t2, ..]"""
    onev = P['k'] * 0 + 1
    z = onev * 0
    pr = Proc([P['k']], gen_ie(P['k'], P['theta'], P['sigma']), onev, rates=RATES[:4])
    f = {(0,) + tuple(o): onev}
    T = P.num(0)
    for seg in range(nj, -1, -1):
        t = P['t%d' % (seg + 1)]
        T = t + T
        g = {}
        for al, c in f.items():
            for w, v in pr.poly_v(al, t, [P.exp(P['k'] * t)]).items():
                add(g, w, c * v)
        if seg:
            J = P['J%d' % seg]
            f = {}
            for al, c in g.items():
                for i in range(al[0] + 1):
                    add(f, (al[0] - i,) + al[1:], comb(al[0], i) * (c * J ** i))
        else:
            f = g
    r = z
    for al, c in f.items():
        if not any(al[1:]):
            r = r + c * P['v0'] ** al[0]
    E = onev
    for i in range(nj + 1):
        E = E * P.exp(P['k'] * P['t%d' % (i + 1)])
    return r * E ** o[0]


def two(P, o):
    """E[IE1^a I1^b IE2^c I2^d I*^e | v1, v2]"""
    k = [P['k1'], P['k2']]
    th, sg = [P['theta1'], P['theta2']], [P['sigma1'], P['sigma2']]
    cache = {}

    def gen(al):
        # v1 v2 X1 I1 X2 I2 I*
        out = {}

        def put(d, c):
            add(out, tuple(x + d.get(i, 0) for i, x in enumerate(al)), c)
        s = al[6]
        for f in (0, 1):
            a, X, I = al[f], 2 + 2 * f, 3 + 2 * f
            x, y = al[X], al[I]
            if a:
                put({f: -1}, a * k[f] * th[f])
                if a > 1:
                    put({f: -1}, half(a * (a - 1), k[0]) * sg[f] ** 2)
                if x:
                    put({X: -1}, a * x * sg[f])
                if y:
                    put({I: -1}, a * y * sg[f])
            if x > 1:
                put({f: 1, X: -2}, half(x * (x - 1), k[0]))
            if y > 1:
                put({f: 1, I: -2}, half(y * (y - 1), k[0]))
            if x and y:
                put({f: 1, X: -1, I: -1}, half(2 * x * y, k[0]))
            if s > 1:
                put({f: 1, 6: -2}, half(s * (s - 1), k[0]))
        return out
    rates = [(1, 0), (0, 1), (1, 0), (0, 0), (0, 1), (0, 0), (0, 0)]
    pr = Proc(k, gen, k[0] * 0 + 1, rates=rates)
    z = k[0] * 0
    E = [P.exp(k[i] * P['t']) for i in (0, 1)]
    return pr.given((0, 0) + tuple(o), P['t'], E, [P['v1'], P['v2']] + [z] * 5) * E[0] ** o[0] * E[1] ** o[2]
