"""D01: parameter derivatives of moments, central moments and covariances"""
from symx import shim, core, eq, lp, path, std, induct as I
from symx.layout import Vars, formula
from symx.models import SV

shim.load()
S = path.PSuite('D01')
LEVEL, replay = 'other', S.replay
EXPLAIN = ('(a) dpoly runs on formulas with symbolic exponents and coefficients; z3 decides that the returned formula denotes the '
           'partial derivative, for every exponent. (b) dm, dcm and dcov run on symbolic parameters and are compared with the '
           'exact symbolic derivative of the value of m, cm and cov. Unsupported parameter names must be refused.')
BOUNDS = {'quick': '(a) all exponents that can occur in a moment (non-negative; even for the square root), any rate multiples; formulas of 1..2 terms, up to 2 rate factors; (b) order 0..5 and l1+l2<=4 (one factor), '
                   '0..3 and l1+l2<=3 (two factors); all parameter values',
          'thorough': '(a) the same with 3 terms and up to 3+1 rate factors; (b) order 0..6 and l1+l2<=5 (one factor), 0..4 and l1+l2<=4 '
                      '(two factors); all parameter values'}
ASSUME = std.COMMON[:2] + ['|rho| < 1; the rates n1*k1+n2*k2 that occur are not zero', std.COMMON[3]]
T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'
F1 = ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)']
F2 = [T0, 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
JJ = ['lambda', 'mu_j', 'sigma_j']
WRT1 = ['k', 'mu', 'theta', 'sigma_v', 'rho']
WRT2 = ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
mod = shim.mod


def layout(model, kind):
    names = list(F2 if model[0] == '2' else F1) + (JJ if model[-1] == 'j' else [])
    return [x for x in names if x != 'mu'] if kind == 'cmom' else names


def wrts(model):
    return list(WRT2 if model[0] == '2' else WRT1) + (JJ if model[-1] == 'j' else [])


# ---- (a) formulas with symbolic exponents
def derivative(E, V, P, names, wrt):
    """sum rule and product rule, one summand per variable that depends on wrt"""
    a = V.a
    r = I.zero(E)
    for key, c in P.items():
        c = I.cval(E, c)

        def term(shift=None, rate=None):
            t = c
            for nm, n in zip(names, key):
                if nm == T0:
                    for j, (p, q, i) in enumerate(n):
                        t = t * (p * a('k1') + q * a('k2')) ** (-i - (1 if j == rate else 0))
                else:
                    t = t * V.power(nm, n + (shift or {}).get(nm, 0) if nm[:6] != 'e^{-(n' else n)
            return t
        ex = dict(zip(names, key))
        for nm in names:
            n = ex[nm]
            if nm == wrt:
                r = r + term({nm: -1}) * I.mul(E, n)
            elif nm == 'e^{-kh}' and wrt == 'k':
                r = r - term() * I.mul(E, n) * a('h')
            elif nm == 'k^{-}' and wrt == 'k':
                r = r - term({nm: 1}) * I.mul(E, n)
            elif nm == 'sqrt(1-rho^2)' and wrt == 'rho':
                r = r - term({nm: -2}) * I.mul(E, n) * a('rho')
            elif nm == T0 and wrt in ('k1', 'k2'):
                for j, (p, q, i) in enumerate(n):
                    r = r - term(rate=j) * I.mul(E, i, p if wrt == 'k1' else q)
            elif nm[:6] == 'e^{-(n' and wrt in ('k1', 'k2'):
                r = r - term() * I.mul(E, n[0] if wrt == 'k1' else n[1]) * a('h')
    return r


def value(E, V, P, names):
    r = I.zero(E)
    for key, c in P.items():
        t = I.cval(E, c)
        for nm, n in zip(names, key):
            t = t * V.power(nm, n)
        r = r + t
    return r


def formal(name, model, kind, wrt, rates):
    def body(E):
        if E.symbolic and not getattr(E, 'loaded', 0):
            shim.reload(symbolic_keys=True, symbolic_fraction=True)
            E.loaded = 1
        where = 'mdl_%s.%s' % (model, kind)
        names = layout(model, kind)
        V = Vars(E, list(SV(model).pars))
        P = formula(E, names, len(rates), (0,), rates if model[0] == '2' else (0,), 0, natural=True)
        want = derivative(E, V, P, names, wrt)
        R = I.call(where, 'dpoly', P, wrt)
        E.claim('same variables', len(R.keyfor) == len(names))
        E.same('the formula is the derivative', value(E, V, R, names), want)
    return path.PCase(name, body, max_paths=20000)


def refuse(name, model, kind):
    def body(E):
        where = 'mdl_%s.%s' % (model, kind)
        f = {'mom': 'dm', 'cmom': 'dcm', 'cov': 'dcov'}[kind]
        l = (2, 1) if kind == 'cov' else (2,)
        par = {n: E.atom(n) for n in SV(model).pars}
        for w in ['h', 'x', '', 'v0', 'K', 'sigma', 'theta3', 'k3', 'sqrt(1-rho^2)'] + [w for w in WRT1 + WRT2 + JJ + ['rho'] if w not in wrts(model)]:
            E.raises('%s(.., %r) is refused' % (f, w), ValueError, lambda: getattr(mod(where), f)(*l, par, w))
    return path.PCase(name, body)


# ---- (b) end to end
def build(name, model, kind, l):
    def b():
        M = SV(model)
        where = 'mdl_%s.%s' % (model, kind)
        f, g = {'mom': ('dm', 'm'), 'cmom': ('dcm', 'cm'), 'cov': ('dcov', 'cov')}[kind]
        out = []
        for w in wrts(model):
            def code(P, w=w):
                return getattr(mod(where), f)(*l, dict(P), w)

            def spec(P, w=w):
                F = getattr(mod(where), g)
                if P.kind == 'sym':
                    return lp.derive(F(*l, dict(P)), w + eq.ALT if getattr(P, 'x', None) == w else w)
                return P.mp.diff(lambda x: F(*l, dict(P, **{w: x})), P[w])
            out.append(eq.Case('%s|%s' % (name, w), M.pars, code, spec, M.exps,
                               'the derivative with respect to %s differs from that of the function' % w))
        return out
    return b


for model in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
    two = model[0] == '2'
    for kind in ('mom', 'cmom'):
        for w in wrts(model):
            for rates in (((0,), (1,), (2,), (3,), (1, 2), (0, 1), (3, 1)) if two and w in ('k1', 'k2') else
                          ((1,), (1, 1), (0, 1), (2, 0, 1)) if two else ((0,), (0, 0), (0, 0, 0))):
                nm = 'dpoly of %s.%s, %s, %s' % (model, kind, w, 'rate factors %s' % (rates,) if two else '%d terms' % len(rates))
                S.add(nm, lambda nm=nm, a=(model, kind, w, rates): [formal(nm, *a)],
                      quick=len(rates) < 3 and max(rates) < 3 and sum(rates) < 5, weight=30 + 4 ** (sum(rates) + len(rates)))
    for kind in ('mom', 'cmom', 'cov'):
        nm = 'unsupported parameters of %s.%s' % (model, kind)
        S.add(nm, lambda nm=nm, a=(model, kind): [refuse(nm, *a)], weight=100)
    for n in range(5 if two else 7):
        for kind in ('mom', 'cmom'):
            nm = 'order %d of %s.%s' % (n, model, kind)
            S.add(nm, build(nm, model, kind, (n,)), quick=n <= (3 if two else 5), weight=5 ** (n + (2 if two else 0)))
    for t in range(2, 5 if two else 6):
        for a in range(1, t):
            nm = 'order %d,%d of %s.cov' % (a, t - a, model)
            S.add(nm, build(nm, model, 'cov', (a, t - a)), quick=t <= (3 if two else 4), weight=5 ** (t + (2 if two else 0)))
S.history(25)
tasks = S.tasks
