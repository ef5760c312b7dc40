"""B05: joint moments of the stochastic and jump integrals of the contemporaneous-jump model"""
from symx import shim, eq, std, ito, ref

shim.load()
S = std.Suite('B05')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN, QZ, TZ = 4, 5, 6, 8
BOUNDS = {'quick': 'total order 0..%d with stochastic integrals, 0..%d for the jump integrals alone' % (QN, QZ),
          'thorough': 'total order 0..%d with stochastic integrals, 0..%d for the jump integrals alone' % (TN, TZ)}
JP = {'k': 'pos', 's': 'pos', 'd': 'pos', 'lmbd': 'pos', 'mu_v': 'pos', 'mu_s': 'real', 'sigma_s': 'pos'}
IP = {'k': 'pos', 'h': 'pos', 'v0': 'pos', 'theta': 'pos', 'sigma': 'pos', 'lmbd': 'pos', 'mu_v': 'pos', 'mu_s': 'real',
      'sigma_s': 'pos'}


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def jumps_ref(P, o, a, b, span):
    """E[IEZ^n1 IZ^n2 IZ*^n3] over (s, t], e^{ks} = a, e^{kt} = b, from the joint cumulants"""
    cum, mom = {}, {(0, 0, 0): P.num(1)}

    def kappa(n):
        if n not in cum:
            i = span if n[0] == 0 else (b ** n[0] - a ** n[0]) / (n[0] * P['k'])
            cum[n] = P['lmbd'] * i * fact(n[0] + n[1]) * P['mu_v'] ** (n[0] + n[1]) * \
                ref.normal_moment(n[2], P['mu_s'], P['sigma_s'])
        return cum[n]

    def m(n):
        if n not in mom:
            i = next(x for x in range(3) if n[x])
            r = [list(range(x + 1)) for x in n]
            tot = P.num(0)
            for x in r[0]:
                for y in r[1]:
                    for z in r[2]:
                        c = (x, y, z)
                        if c[i] == 0:
                            continue
                        w = 1
                        for q in range(3):
                            w *= ref.comb(n[q] - (q == i), c[q] - (q == i))
                        tot = tot + w * kappa(c) * m(tuple(u - v for u, v in zip(n, c)))
            mom[n] = tot
        return mom[n]
    return m(tuple(o))


def jv(P, poly):
    a = P.exp(P['k'] * P['s'])
    b = a * P.exp(P['k'] * P['d'])
    return ito.evaluate(P, poly, {'e^{kt}': b, 'e^{ks}': a, 't-s': P['d'], 'k^{-}': 1 / P['k'], 'lmbd': P['lmbd'],
                                  'mu_v': P['mu_v'], 'mu_s': P['mu_s'], 'sigma_s': P['sigma_s']})


def iv(P, poly):
    return ito.evaluate(P, poly, {'e^{kt}': P.exp(P['k'] * P['h']), 't': P['h'], 'k^{-}': 1 / P['k'],
                                  'v0-theta': P['v0'] - P['theta'], 'theta': P['theta'], 'sigma': P['sigma'],
                                  'lmbd': P['lmbd'], 'mu_v': P['mu_v'], 'mu_s': P['mu_s'], 'sigma_s': P['sigma_s']})


def comps(n, m):
    if m == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in comps(n - i, m - 1):
            yield (i,) + r


def build(name, what, os_):
    def b():
        out = []
        for o in os_:
            if what == 'poly z':
                c = eq.Case('', JP, lambda P, o=o: jv(P, shim.mod('mdl_svcj.ieziziz_mom').moment_ieziziz(*o)),
                            lambda P, o=o: jumps_ref(P, o, P.exp(P['k'] * P['s']),
                                                     P.exp(P['k'] * P['s']) * P.exp(P['k'] * P['d']), P['d']),
                            [('k', 's'), ('k', 'd')])
            elif what == 'z':
                c = eq.Case('', IP, lambda P, o=o: shim.mod('mdl_svcj.ieziziz_mom').m_ieziziz(o, dict(P)),
                            lambda P, o=o: jumps_ref(P, o, P.num(1), P.exp(P['k'] * P['h']), P['h']), [('k', 'h')])
            elif what == 'poly':
                c = eq.Case('', IP, lambda P, o=o: iv(P, shim.mod('mdl_svcj.cond_ieii_ieziziz_mom')
                                                      .moment_ieii_ieziziz(*o)),
                            lambda P, o=o: ito.svcj(P, o), [('k', 'h')])
            else:
                c = eq.Case('', IP, lambda P, o=o: shim.mod('mdl_svcj.cond_ieii_ieziziz_mom').m_ieii_ieziziz(o, dict(P)),
                            lambda P, o=o: ito.svcj(P, o), [('k', 'h')])
            c.name = '%s|%s' % (name, ','.join(map(str, o)))
            c.what = 'the joint moment differs from that of the model'
            out.append(c)
        return out
    return b


for n in range(TZ + 1):
    for w in ('poly z', 'z'):
        if w == 'z' and n > 3:
            continue
        nm = '%s of jump integrals, order %d' % ('formula' if w == 'poly z' else 'value', n)
        S.add(nm, build(nm, w, list(comps(n, 3))), quick=n <= QZ, weight=3 ** n)
for n in range(TN + 1):
    os_ = list(comps(n, 6))
    step = max(1, len(os_) // 16)
    for w in ('poly', 'value'):
        if w == 'value' and n > 2:
            continue
        for i in range(0, len(os_), step):
            nm = '%s of all integrals, order %d (part %d)' % ('formula' if w == 'poly' else 'value', n, i // step)
            S.add(nm, build(nm, w, os_[i:i + step]), quick=n <= QN, weight=6 ** n)
S.history(6)
tasks = S.tasks
