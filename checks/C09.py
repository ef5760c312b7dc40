"""C09: moments of the square-root jump diffusion given the initial value"""
from symx import shim, eq, std, ref
from symx.models import SRJD

shim.load()
S = std.Suite('C09')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN = 8, 10
BOUNDS = {'quick': 'order (total order of joint moments) 0..%d; all parameter values and initial values' % QN,
          'thorough': 'order (total order of joint moments) 0..%d; all parameter values and initial values' % TN}
IEZ = {'k': 'pos', 'lb': 'pos', 'd': 'pos', 'lmbd': 'pos', 'mu_v': 'pos'}


def iez_par(P):
    return {'k': P['k'], 'lmbd': P['lmbd'], 'mu_v': P['mu_v'], 'lb': P['lb'], 'ub': P['lb'] + P['d']}


def iez_raws(P, n):
    """moments of the compound sum int_lb^ub e^{ks} dz from its cumulants"""
    k = P['k']
    a, b = P.exp(k * P['lb']), P.exp(k * P['lb']) * P.exp(k * P['d'])
    cum = [None]
    f = 1
    for j in range(1, n + 1):
        f *= j
        cum.append(P['lmbd'] * f * P['mu_v'] ** j * (b ** j - a ** j) / (j * k))
    m = [k * 0 + 1]
    for i in range(1, n + 1):
        s = k * 0
        for j in range(1, i + 1):
            s = s + ref.comb(i - 1, j - 1) * cum[j] * m[i - j]
        m.append(s)
    return m


def build(name, what, *a):
    def b():
        M = SRJD()
        pars, exps = M.given, M.exps
        mod = shim.mod
        n = a[0]
        if what == 'v':
            code, spec = (lambda P: mod('mdl_srjd.cond_mom').m(n, dict(P))), (lambda P: M.v_raws(P, n)[n])
        elif what == 'vc':
            code = lambda P: mod('mdl_srjd.cond_cmom').cm(n, dict(P))
            spec = lambda P: ref.central_from_raw(M.v_raws(P, max(n, 1)), n)
        elif what in ('x', 'xc'):
            # x = e^{kt}(v_t - theta) - (v_0 - theta)
            def raws(P):
                v = M.v_raws(P, max(n, 1))
                E = P.exp(P['k'] * P['h'])
                c = -(E * P['theta']) - (P['v0'] - P['theta'])
                return [sum((ref.comb(i, j) * E ** j * v[j] * c ** (i - j) for j in range(i + 1)), P['h'] * 0)
                        for i in range(max(n, 1) + 1)]
            if what == 'x':
                code, spec = (lambda P: mod('mdl_srjd.cond_mom').m_x(n, dict(P))), (lambda P: raws(P)[n])
            else:
                code = lambda P: mod('mdl_srjd.cond_cmom').cm_x(n, dict(P))
                spec = lambda P: ref.central_from_raw(raws(P), n)
        elif what == 'ie':
            code, spec = (lambda P: mod('mdl_srjd.cond_ie_iez_mom').m_ie(n, dict(P))), (lambda P: M.xz(P, n, 0))
        elif what == 'iec':
            code, spec = (lambda P: mod('mdl_srjd.cond_ie_iez_cmom').m_ie(n, dict(P))), (lambda P: M.xz(P, n, 0))
        elif what == 'ieiez':
            code = lambda P: mod('mdl_srjd.cond_ie_iez_mom').m_ie_iez(a[0], a[1], dict(P))
            spec = lambda P: M.xz(P, a[0], a[1])
        elif what == 'ieiezc':
            code = lambda P: mod('mdl_srjd.cond_ie_iez_cmom').cm_ie_iez(a[0], a[1], dict(P))

            def spec(P):
                mean = P['lmbd'] * P['mu_v'] * (P.exp(P['k'] * P['h']) - 1) / P['k']
                return sum((ref.comb(a[1], j) * M.xz(P, a[0], j) * (-mean) ** (a[1] - j) for j in range(a[1] + 1)),
                           P['h'] * 0)
        else:
            pars, exps = IEZ, [('k', 'lb'), ('k', 'd')]
            if what == 'iez':
                code, spec = (lambda P: mod('mdl_srjd.iez_mom').m(n, iez_par(P))), (lambda P: iez_raws(P, n)[n])
            else:
                code = lambda P: mod('mdl_srjd.iez_cmom').cm(n, iez_par(P))
                spec = lambda P: ref.central_from_raw(iez_raws(P, max(n, 1)), n)
        return [eq.Case(name, pars, code, spec, exps, 'the moment differs from that of the model')]
    return b


for n in range(TN + 1):
    for w, t in (('v', 'E[v^%d|v0]'), ('vc', 'E[(v-Ev)^%d|v0]'), ('x', 'E[x^%d|v0]'), ('xc', 'E[(x-Ex)^%d|v0]'),
                 ('ie', 'E[IE^%d|v0]'), ('iec', 'E[IE^%d|v0] (mean form)'), ('iez', 'E[IEZ^%d]'),
                 ('iezc', 'E[(IEZ-E)^%d]')):
        nm = 'srjd ' + t % n
        S.add(nm, build(nm, w, n), quick=n <= QN, weight=3 ** n)
    for i in range(n + 1):
        for w, t in (('ieiez', 'E[IE^%d IEZ^%d|v0]'), ('ieiezc', 'E[IE^%d (IEZ-E)^%d|v0]')):
            nm = 'srjd ' + t % (i, n - i)
            S.add(nm, build(nm, w, i, n - i), quick=n <= QN, weight=3 ** n)

S.history(9)
tasks = S.tasks
