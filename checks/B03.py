"""B03: joint moments of the Ito integrals of the two-factor model given both variances"""
from symx import shim, eq, std, ito, path, induct as I
from symx.polyx import poly as Poly

shim.load()
S = path.PSuite('B03')
LEVEL, replay = 'other', S.replay
EXPLAIN = std.EXPLAIN + (' The recursion step is in addition run with symbolic orders on generic table entries with symbolic '
                         'exponents: the step is shown to solve the moment equation at every order (powers of time bounded).')
ASSUME = std.COMMON + ['n1*k1 + n2*k2 is nonzero for the denominators that occur (documented assumption of the library)',
                       'inductive step: one generic term of one table entry at a time (the step is linear in the table; '
                       'additivity of the polynomial operations is A01)']
QN, TN = 5, 7
BOUNDS = {'quick': 'total order 0..%d; all parameter values, initial variances and times; recursion step: all orders, '
                   'time powers 0..1' % QN,
          'thorough': 'total order 0..%d; all parameter values, initial variances and times; recursion step: all orders, '
                      'time powers 0..3' % TN}
PARS = {x: 'pos' for x in ('k1', 'k2', 'theta1', 'theta2', 'sigma1', 'sigma2', 'v1', 'v2', 't0', 't')}
EXPS = [('k1', 't0'), ('k2', 't0'), ('k1', 't'), ('k2', 't')]


def value(P, poly):
    """the function the formula denotes, per the documented layout"""
    e0 = [P.exp(P['k1'] * P['t0']), P.exp(P['k2'] * P['t0'])]
    e1 = [P.exp(P['k1'] * P['t']), P.exp(P['k2'] * P['t'])]
    base = [P[x] for x in ('t', 'v1', 'theta1', 'sigma1', 'v2', 'theta2', 'sigma2')]
    r = P.num(0)
    invs = {}
    for key, c in poly.items():
        assert len(key) == 10 and len(key[1]) == 2 and len(key[2]) == 2, 'key %r' % (key,)
        t = P.num(c.numerator, c.denominator) * e0[0] ** key[1][0] * e0[1] ** key[1][1]
        t = t * e1[0] ** key[2][0] * e1[1] ** key[2][1]
        for n1, n2, i in key[0]:
            if i:
                if (n1, n2) not in invs:
                    invs[n1, n2] = 1 / (n1 * P['k1'] + n2 * P['k2'])
                t = t * invs[n1, n2] ** i
        for b, e in zip(base, key[3:]):
            if e:
                t = t * b ** e
        r = r + t
    return r


def orders(n):
    for a in range(n + 1):
        for b in range(n - a + 1):
            for c in range(n - a - b + 1):
                for d in range(n - a - b - c + 1):
                    yield a, b, c, d, n - a - b - c - d


def build(name, os_):
    def b():
        out = []
        for o in os_:
            def code(P, o=o):
                return value(P, shim.mod('itos_mom').moment_IEI_IEII(*o))

            def spec(P, o=o):
                s = P.exp(P['k1'] * P['t0']) ** o[0] * P.exp(P['k2'] * P['t0']) ** o[2]
                return ito.two(P, o) * s
            out.append(eq.Case('%s|%s' % (name, ','.join(map(str, o))), PARS, code, spec, EXPS,
                               'the joint moment differs from that of the model'))
        return out
    return b


def all_returned(name, o):
    """return_all gives every lower moment as well"""
    def b():
        def code(P):
            r = shim.mod('itos_mom').moment_IEI_IEII(*o, return_all=True)
            return [value(P, r[x]) for x in [o] + [y for n in range(sum(o)) for y in orders(n)]]

        def spec(P):
            return [ito.two(P, x) * P.exp(P['k1'] * P['t0']) ** x[0] * P.exp(P['k2'] * P['t0']) ** x[2]
                    for x in [o] + [y for n in range(sum(o)) for y in orders(n)]]
        return [eq.Case(name, PARS, code, spec, EXPS, 'a joint moment differs from that of the model')]
    return b


for n in range(TN + 1):
    os_ = list(orders(n))
    step = max(1, len(os_) // 24)
    for i in range(0, len(os_), step):
        nm = 'E[IE1^a I1^b IE2^c I2^d I*^e] of total order %d (part %d)' % (n, i // step)
        S.add(nm, build(nm, os_[i:i + step]), quick=n <= QN, weight=5 ** n)
for o in ((0, 0, 0, 0, 0), (0, 0, 0, 0, 2), (0, 1, 0, 0, 2), (1, 1, 0, 1, 1), (0, 0, 0, 0, 4)):
    nm = 'all moments up to %s' % (o,)
    S.add(nm, all_returned(nm, o), weight=5 ** sum(o))


# ---- inductive step: v_i = e^{-k_i t}(v_i0 - theta_i) + theta_i + sigma_i e^{-k_i t} IE_i
def entries():
    """(offset, factor, which v, whether through IE)"""
    out = []
    for f in (0, 1):
        a, b = 2 * f, 2 * f + 1

        def off(**kw):
            o = [0] * 5
            for k, v in kw.items():
                o[int(k[1:])] = v
            return tuple(o)
        out += [(off(**{'x%d' % a: -2}), f), (off(**{'x%d' % a: -1}), f), (off(**{'x%d' % b: -2}), f),
                (off(**{'x%d' % a: 1, 'x%d' % b: -2}), f), (off(**{'x%d' % a: -1, 'x%d' % b: -1}), f),
                (off(**{'x%d' % b: -1}), f)]
    return out + [((0, 0, 0, 0, -2), 2), ((1, 0, 0, 0, -2), 0), ((0, 0, 1, 0, -2), 1)]


def step(name, off, f, b, every):
    def body(E):
        shim.reload(symbolic_keys=True, symbolic_fraction=True) if E.symbolic and not getattr(E, 'loaded', 0) else None
        E.loaded = 1
        o = tuple(E.int('n%d' % i, lo=0 if every or off[i] or (off[2 * (i // 2)] or off[2 * (i // 2) + 1] if i < 4 else 0) else 2)
                  for i in range(5))
        k = [E.coef('k1', nonzero=True), E.coef('k2', nonzero=True)]
        A = [E.atom('A1'), E.atom('A2')]
        X = [E.atom('X1'), E.atom('X2')]
        T = E.atom('T')
        rest = [E.atom(x) for x in ('v1', 'theta1', 'sigma1', 'v2', 'theta2', 'sigma2')]
        e = [E.int('e%d' % i) for i in range(10)]
        Q, P0 = Poly()(), Poly()()
        for x in (Q, P0):
            x.set_keyfor(shim.mod('itos_mom').moment_IEI_IEII(0, 0, 0, 0, 0).keyfor)
        den = ((0, 0, 0),)
        Q[(den, (e[0], e[1]), (e[2], e[3]), b) + tuple(e[4:])] = E.coef('c', nonzero=True)

        def rate(n1, n2):
            x = I.lin(E, (n1, k[0]), (n2, k[1]))
            E.assume(~(x == 0) if E.symbolic and not isinstance(x == 0, bool) else not bool(x == 0))
            return x

        def term(key, c, start):
            assert len(key) == 10
            t = I.cval(E, c)
            for n1, n2, i in key[0]:
                if not (isinstance(i, int) and i == 0) and bool(i != 0):
                    t = t * rate(n1, n2) ** -int(i)
            t = t * A[0] ** key[1][0] * A[1] ** key[1][1]
            if not start:
                t = t * X[0] ** key[2][0] * X[1] ** key[2][1]
            for x, n in zip(rest, key[4:]):
                t = t * x ** n
            return t
        R = I.call('itos_mom', 'recursive_IEI_IEII', *o, I.Table(o, off, Q, P0))
        d, low = I.zero(E), I.zero(E)
        for key, c in R.items():
            p = int(key[3])
            E.claim('no negative power of time', p >= 0)
            t = term(key, c, False)
            d = d + t * T ** p * I.lin(E, (key[2][0], k[0]), (key[2][1], k[1]))
            if p:
                d = d + t * p * T ** (p - 1)
            else:
                low = low + term(key, c, True)
        M = I.zero(E)
        for key, c in Q.items():
            M = M + term(key, c, False) * T ** b

        def var(g):
            v, th = rest[3 * g], rest[3 * g + 1]
            return M * X[g] ** -1 * v + M * th - M * X[g] ** -1 * th

        def thr(g):
            return M * rest[3 * g + 2] * A[g] ** -1 * X[g] ** -1
        if f == 2:
            want = I.choose2(E, o[4]) * (var(0) + var(1))
        elif off[4] == -2:
            want = I.choose2(E, o[4]) * thr(f)
        else:
            u, z = off[2 * f], off[2 * f + 1]
            ne, ni = o[2 * f], o[2 * f + 1]
            if (u, z) in ((-2, 0), (-1, 0)):
                w = I.choose2(E, ne) * A[f] ** 2 * X[f] ** 2
            elif (u, z) in ((0, -2), (1, -2)):
                w = I.choose2(E, ni)
            else:
                w = I.mul(E, ne, ni) * A[f] * X[f]
            want = w * (var(f) if u + z == -2 else thr(f))
        E.same('the derivative is that of the moment equation', d, want)
        E.same('zero at the start', low, E.num(0))
    return path.PCase(name, body)


def merge_dens(name, n):
    """multiplying a product of denominators by one more"""
    def body(E):
        shim.reload(symbolic_keys=True, symbolic_fraction=True) if E.symbolic and not getattr(E, 'loaded', 0) else None
        E.loaded = 1
        t = tuple(E.int('t%d' % i, lo=0 if i == 2 else None) for i in range(3))
        t0 = tuple(tuple(E.int('d%d%d' % (i, j), lo=1 if j == 2 and n > 1 else (0 if j == 2 else None)) for j in range(3))
                   for i in range(n))
        E.distinct([x[:2] for x in t0])
        r = I.call('itos_mom', 't_mul_t0', t, t0)
        for i, (p, q, _) in enumerate((t,) + t0):
            def total(xs):
                s = 0
                for a, b, c in xs:
                    if bool(a == p) and bool(b == q):
                        s = s + c
                return s
            E.claim('power of denominator %d' % i, total(r) == total((t,) + t0))
        for a, b, c in r:
            known = False
            for p, q, _ in (t,) + t0:
                known = known or (bool(a == p) and bool(b == q))
            if not known:
                E.claim('no other denominator', c == 0)
    return path.PCase(name, body)


for n in (1, 2, 3):
    nm = 'product of %d denominators and one more' % n
    S.add(nm, lambda nm=nm, n=n: [merge_dens(nm, n)], weight=1000)
for b in range(4):
    for off, f in entries():
        for every in (False, True):
            nm = 'recursion step, entry %s, time power %d%s' % (off, b, ' (all small orders)' if every else '')
            S.add(nm, lambda nm=nm, off=off, f=f, b=b, every=every: [step(nm, off, f, b, every)],
                  quick=b <= 1 and not every, weight=1000 * (b + 1))
S.history(25)
tasks = S.tasks
