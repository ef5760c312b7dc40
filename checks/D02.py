"""D02: evaluating a formula uses every exponent with its own variable"""
from symx import shim, core, path, induct as I
from symx.layout import Vars, formula

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = path.PSuite('D02')
LEVEL, replay = 'other', S.replay
EXPLAIN = ('Every poly2num of the library runs on a formula whose exponents and coefficients are symbolic (the variables are those '
           'named in the title of a formula the model returns); z3 decides that the number equals the sum of coefficient times '
           'variable to its own power, for all integer exponents and all parameter values.')
BOUNDS = {'quick': 'formulas of 0..2 terms; all integer exponents; jump index depth 0..2 with 0..2 jumps; up to 2 rate factors (two-factor models)',
          'thorough': 'formulas of 0..3 terms; all integer exponents; jump index depth 0..3 with 0..3 jumps; up to 3 rate factors'}
ASSUME = ['parameters are real, variables raised to a power are not zero, |rho| < 1', 'e^{kh}, e^{k s_i} are independent positive reals '
          '(stronger than needed)', 'z3 and the term representation are trusted']
mod = shim.mod


def value(E, V, P, names):
    r = I.zero(E)
    for key, c in P.items():
        t = I.cval(E, c)
        ex = {nm: n for nm, n in zip(names, key)}
        for nm, n in ex.items():
            if nm[1:] not in ('_{1:n}', '_{2:n}') or nm[0] == 'J':
                t = t * V.power(nm, n)
        if 'l_{1:n}' in ex:
            if 'p_{2:n}' in ex:
                t = t * V.fz(ex['l_{1:n}'], ex['o_{1:n}'], ex['p_{2:n}'], ex['q_{2:n}'])
            else:
                t = t * V.fz(ex['l_{1:n}'], None, ex['o_{2:n}'], None)
        r = r + t
    return r


def case(name, where, src, par, default, terms, depths=(0,), rates=(0,), nj=0):
    def body(E):
        V = Vars(E, par, nj)
        names = list(default)
        if src:
            f = mod(src[0])
            kf = getattr(f, src[1])(*src[2]).keyfor
            if len(kf) != len(names):
                raise core.Unsupported('formulas have another layout')
            names = [t if V.knows(t) else d for t, d in zip(kf, names)]
        P = formula(E, names, terms, depths, rates, nj)
        got = I.call(where, 'poly2num', P, V.par)
        E.same('value of the formula', got, value(E, V, P, names))
    return path.PCase(name, body, max_paths=20000)


def again(name, where, src, par, default, depths=(0,), rates=(0,), nj=0):
    """several evaluations in one process: only the arguments of a call may decide its value"""
    def body(E):
        V = Vars(E, par, nj)
        names = list(default)
        if src:
            kf = getattr(mod(src[0]), src[1])(*src[2]).keyfor
            if len(kf) != len(names):
                raise core.Unsupported('formulas have another layout')
            names = [t if V.knows(t) else d for t, d in zip(kf, names)]
        P = formula(E, names, len(depths) if nj else len(rates), depths, rates, nj)
        keys = [(k, c) for k, c in P.items()]
        given = dict(V.par)
        want = value(E, V, P, names)
        E.same('value of the formula', I.call(where, 'poly2num', P, V.par), want)
        for x in list(par) + ['s%d' % i for i in range(nj)] + ['J%d' % i for i in range(nj)]:
            W = V.but(x)
            E.same('value with another %s' % x, I.call(where, 'poly2num', P, W.par), value(E, W, P, names))
            E.same('value with the first %s again' % x, I.call(where, 'poly2num', P, V.par), want)
        # another formula (same exponents, other coefficients) and the same object with one more term
        Q = P.copy()
        Q.set_keyfor(P.keyfor)
        for k in list(Q.keys()):
            Q[k] = Q[k] + 1
        E.same('value of another formula', I.call(where, 'poly2num', Q, V.par), value(E, V, Q, names))
        E.same('value of the formula again', I.call(where, 'poly2num', P, V.par), want)
        E.claim('the formula is unchanged', len(P) == len(keys))
        E.same('the terms are unchanged', value(E, V, P, names), want)
        E.claim('the parameters are unchanged', sorted(V.par) == sorted(given) and all(V.par[n] is given[n] for n in given))
        for k in list(P.keys()):
            P[k] = P[k] + 2
        E.same('value of the changed formula', I.call(where, 'poly2num', P, V.par), value(E, V, P, names))
    return path.PCase(name, body, max_paths=20000)


F1 = ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)']
JJ = ['lambda', 'mu_j', 'sigma_j']
P1 = ['k', 'h', 'mu', 'theta', 'sigma_v', 'rho']
T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'
F2 = [T0, 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
P2 = ['k1', 'k2', 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
Z = ['l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}']
RT = ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)']
VM = ['e^{kt}', 't', 'k^{-}', 'beta_t', 'mu-theta/2', 'v0-theta', 'theta', 'sigma'] + Z + RT
VC = ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma'] + Z + RT
PV = ['v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'h']
S3 = ['lmbd_s', 'mu_s', 'sigma_s']
CJ = ['lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s']
PC = ['k', 'h', 'mu', 'v0', 'theta', 'sigma', 'rho'] + CJ
SR = ['e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v']
PS = ['v0', 'k', 'theta', 'sigma', 'lmbd', 'mu_v', 'h']
WITHOUT = lambda xs, *y: [x for x in xs if x not in y]
PLAIN = [
    ('mdl_1fsv.mom', ('moment_y', (1,)), P1, F1), ('mdl_1fsv.cmom', ('cmoment_y', (2,)), P1, WITHOUT(F1, 'mu')),
    ('mdl_1fsv.cond_cmom', None, WITHOUT(P1, 'mu') + ['v0'], ['e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma_v', 'rho']),
    ('mdl_1fsvj.mom', ('moment_y', (1,)), P1 + JJ, F1 + JJ), ('mdl_1fsvj.cmom', ('cmoment_y', (2,)), P1 + JJ, WITHOUT(F1, 'mu') + JJ),
    ('mdl_svcj.cond_mom', ('moment_y', (1,)), PC, ['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho'] + CJ),
    ('mdl_svcj.mom', ('moment_y', (1,)), WITHOUT(PC, 'v0'), ['e^{kt}', 't', 'k^{-}', 'mu', 'E[v]', 'theta', 'sigma', 'rho'] + CJ),
    ('mdl_svcj.cond_ieii_ieziziz_mom', ('moment_ieii_ieziziz', (0, 0, 0, 1, 0, 0)), WITHOUT(PC, 'mu', 'rho', 'rhoJ'),
     ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s']),
    ('mdl_svcj.ieziziz_mom', ('moment_ieziziz', (1, 0, 0)), ['k', 'h', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'],
     ['e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s']),
    ('mdl_srjd.cond_mom', ('moment_v', (1,)), PS, SR), ('mdl_srjd.cond_ie_iez_mom', ('moment_ie_iez', (0, 1)), PS, SR),
    ('mdl_srjd.cond_ie_iez_cmom', ('cmoment_ie_iez', (0, 2)), PS, ['e^{kt}', 'k^{-}', 'v0-E[v]', 'E[v]', 'sigma', 'lmbd', 'mu_v']),
    ('mdl_srjd.iez_mom', ('moment_IEZ', (1,)), ['k', 'lmbd', 'mu_v', 'lb', 'ub'], ['e^{kt}', 'e^{ks}', 'k^{-}', 'lmbd', 'mu_v']),
]
TWO = [('mdl_2fsv.mom', ('moment_y', (1,)), P2, F2), ('mdl_2fsv.cmom', ('cmoment_y', (2,)), P2, WITHOUT(F2, 'mu')),
       ('mdl_2fsvj.mom', ('moment_y', (1,)), P2 + JJ, F2 + JJ), ('mdl_2fsvj.cmom', ('cmoment_y', (2,)), P2 + JJ, WITHOUT(F2, 'mu') + JJ)]
NEST = [('mdl_svvj.cond2_mom', ('moment_y', (1,)), PV, VM), ('mdl_svvj.cond2_cmom', ('cmoment_y', (1,)), PV, VC),
        ('mdl_svij.cond2_mom', ('moment_y', (1,)), PV + S3, VM + S3), ('mdl_svij.cond2_cmom', ('cmoment_y', (1,)), PV + S3, VC + S3),
        ('mdl_svcj.cond2_mom', None, PV + ['mu_s', 'rho_J', 'sigma_s'], VM + ['mu_s', 'rho_J', 'sigma_s', 'J_{1:n}']),
        ('mdl_svcj.cond2_cmom', None, PV + ['sigma_s'], VC + ['sigma_s']),
        ('mdl_srjd.cond2_mom', ('moment_v', (1,)), ['v0', 'k', 'theta', 'sigma', 'h'],
         ['v_0', 'k^{-}', 'theta', 'sigma', 'e^{kt}', 'l_{1:n}', 'o_{2:n}'])]


def add(nm, *a, **kw):
    rest = kw.pop('opt', {})
    S.add(nm, lambda: [case(nm, *a, **rest)], **kw)


for where, src, par, names in PLAIN:
    s = src and (where,) + src
    for t in range(4):
        add('%s, %d terms' % (where, t), where, s, par, names, t, quick=t < 3, weight=3 + t)
for where, src, par, names in TWO:
    s = (where,) + src
    for rates in ((0,), (1,), (2,), (3,), (0, 1), (1, 2), (2, 2), (1, 1), (3, 2)):
        add('%s, rate factors %s' % (where, rates), where, s, par, names, len(rates), opt=dict(rates=rates),
            quick=max(rates) < 3 and sum(rates) < 4, weight=3 + sum(rates))
for where, src, par, names in NEST:
    s = src and (where,) + src
    add('%s, empty formula' % where, where, s, par, names, 0, opt=dict(nj=1))
    for nj in range(4):
        for d in ((0,), (1,), (2,), (3,), (0, 1), (1, 1), (1, 2)):
            if max(d) ** 2 * nj > 12:
                continue
            add('%s, depth %s, %d jumps' % (where, d, nj), where, s, par, names, len(d), opt=dict(depths=d, nj=nj),
                quick=max(d) < 3 and nj < 3, weight=3 + nj * sum(d) ** 2)
for where, src, par, names in PLAIN:
    nm = '%s, repeated evaluation' % where
    S.add(nm, lambda nm=nm, where=where, src=src, par=par, names=names: [again(nm, where, src and (where,) + src, par, names)], weight=50)
for where, src, par, names in TWO:
    for rates in ((1,), (2, 1)):
        nm = '%s, repeated evaluation, rate factors %s' % (where, rates)
        S.add(nm, lambda nm=nm, where=where, src=src, par=par, names=names, rates=rates:
              [again(nm, where, (where,) + src, par, names, rates=rates)], weight=50, quick=len(rates) < 2)
for where, src, par, names in NEST:
    for d, nj in (((1,), 1), ((2,), 2)):
        nm = '%s, repeated evaluation, depth %s, %d jumps' % (where, d, nj)
        S.add(nm, lambda nm=nm, where=where, src=src, par=par, names=names, d=d, nj=nj:
              [again(nm, where, src and (where,) + src, par, names, depths=d, nj=nj)], weight=50, quick=nj < 2)
tasks = S.tasks
