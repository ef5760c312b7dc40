"""D03: negative orders are refused"""
from symx import path, shim, std

shim.load()
S = path.PSuite('D03')
LEVEL, tasks, replay = 'other', S.tasks, S.replay
EXPLAIN = ('Every function is called with symbolic integer orders that are constrained to be invalid (a negative order, a negative '
           'component, a negative total); z3 enumerates the feasible paths and on each of them the call must end in ValueError.')
BOUNDS = {'quick': 'all integers', 'thorough': 'all integers'}
ASSUME = ['z3 and the symbolic integers of symx/core.py are trusted', 'orders are integers']
PAR = ['mu', 'k', 'theta', 'sigma_v', 'rho', 'lambda', 'lmbd', 'mu_v', 'mu_s', 'sigma_s', 'rho_J', 'h', 'v0']

# (module, function, number of orders, parameters too?, rule)
ONE = [('cpp_mom', 'mnorm', 0), ('cpp_mom', 'mcpp', 0), ('cpp_mom', 'mcpp_original', 0), ('cpp_mom', 'cmcpp', 0),
       ('mdl_svcj.mom', 'moment_y', 0), ('mdl_svcj.mom', 'unm_y', 1), ('mdl_svcj.cmom', 'cmoment_y', 0), ('mdl_svcj.cmom', 'cm_y', 1),
       ('mdl_svcj.cond_mom', 'moment_y', 0), ('mdl_svcj.cond_mom', 'm_y', 1),
       ('mdl_svcj.cond_cmom', 'cmoment_y', 0), ('mdl_svcj.cond_cmom', 'cm_y', 1),
       ('mdl_srjd.mom', 'moment_v', 0), ('mdl_srjd.cmom', 'cmoment_v', 0),
       ('mdl_srjd.iez_mom', 'moment_EJ', 0), ('mdl_srjd.iez_mom', 'moment_IEZ', 0), ('mdl_srjd.iez_cmom', 'cmoment_IEZ', 0),
       ('mdl_srjd.iez_mom', 'm', 1), ('mdl_srjd.iez_cmom', 'cm', 1),
       ('mdl_srjd.cond_ie_iez_mom', 'moment_ie', 0), ('mdl_srjd.cond_ie_iez_cmom', 'moment_ie', 0),
       ('mdl_srjd.cond_ie_iez_mom', 'm_ie', 1), ('mdl_srjd.cond_ie_iez_cmom', 'm_ie', 1)]
JOINT = [('mdl_svcj.ieziziz_mom', 'moment_ejjj', 3), ('mdl_svcj.ieziziz_mom', 'moment_ieziziz', 3),
         ('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz', 6),
         ('mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez', 2), ('mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez', 2)]
TOTAL = [('ito_mom', 'moment_IEII', 3), ('itos_mom', 'moment_IEI_IEII', 5), ('ito_cond_mom', 'moment_IEII', 3)]


def one(name, where, fn, par):
    def body(E):
        n = E.int('n', hi=-1)
        P = {x: E.atom(x) for x in PAR} if par else None
        f = getattr(shim.mod(where), fn)
        E.raises('%s(%s%s) is refused' % (fn, 'n', ', par' if par else ''), ValueError, lambda: f(n, P) if par else f(n))
    return path.PCase(name, body)


def joint(name, where, fn, n, j):
    def body(E):
        o = [E.int('n%d' % i, hi=-1) if i == j else E.int('n%d' % i, lo=-3) for i in range(n)]
        f = getattr(shim.mod(where), fn)
        E.raises('a negative order %d is refused' % (j + 1), ValueError, lambda: f(*o))
    return path.PCase(name, body)


def total(name, where, fn, n):
    def body(E):
        o = [E.int('n%d' % i) for i in range(n)]
        s = o[0]
        for x in o[1:]:
            s = s + x
        E.assume(s < 0)
        f = getattr(shim.mod(where), fn)
        E.raises('a negative total order is refused', ValueError, lambda: f(*o))
    return path.PCase(name, body)


for w, f, p in ONE:
    nm = '%s.%s' % (w, f)
    S.add(nm, lambda nm=nm, a=(w, f, p): [one(nm, *a)])
for w, f, n in JOINT:
    nm = '%s.%s' % (w, f)
    S.add(nm, lambda nm=nm, a=(w, f, n): [joint('%s|%d' % (nm, j), *a, j) for j in range(a[2])])
for w, f, n in TOTAL:
    nm = '%s.%s' % (w, f)
    S.add(nm, lambda nm=nm, a=(w, f, n): [total(nm, *a)])
S.history(1)
