"""A07: rewriting a moment formula never changes its value"""
from symx import shim, lp, path, induct as I
from symx.polyx import poly as Poly

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = path.PSuite('A07')
LEVEL, replay = 'other', S.replay
EXPLAIN = ('Each rewriting function of the library runs on a formula with symbolic exponents and coefficients; z3 decides that '
           'the function denoted by the result equals the one denoted by the input, variable by variable as named in the title '
           'of the result, and that exponents which cannot be rewritten are refused.')
BOUNDS = {'quick': 'formulas of 1 term (2 terms in the pair cases); exponents of plain variables: all integers; exponents that '
                   'are expanded binomially: 0..12 (square root), 0..3 otherwise; pairs 0..2',
          'thorough': 'the same with expanded exponents 0..20 (square root), 0..6 otherwise; pairs 0..4'}
ASSUME = ['the variables of a formula are independent reals; sqrt(1-rho^2)^2 = 1-rho^2', 'z3 and the term representation are trusted']
mod = shim.mod


class Env:
    """values of the variables that appear in titles"""

    def __init__(self, E):
        self.E = E
        E.exps(E.atom('k') * E.atom('t'))

    def __call__(self, name):
        E = self.E
        k = E.atom('k')
        return {'e^{kt}': lambda: E.exp(k * E.atom('t')), 'e^{-kt}': lambda: E.exp(-(k * E.atom('t'))), 't': lambda: E.atom('t'),
                'k^{-}': lambda: 1 / k, 'sigma/2k': lambda: E.atom('sigma') / (2 * k),
                'v0-theta': lambda: E.atom('w0', 'real'), 'v_0-theta': lambda: E.atom('w0', 'real'),
                'E[v]': lambda: E.atom('Ev'), 'mu': lambda: E.atom('mu', 'real'), 'mu_s': lambda: E.atom('mu_s', 'real'),
                'rhoJ': lambda: E.atom('rhoJ', 'real'), 'rho': lambda: E.atom('rho', 'real')}.get(name, lambda: E.atom(name))()

    def power(self, name, n):
        E = self.E
        if name == 'sqrt(1-rho^2)':
            rho = self('rho')
            n = int(n)
            if n % 2:
                return lp.lp_sqrt(1 - rho * rho) ** n if E.symbolic else E.mp.sqrt(1 - rho * rho) ** n
            return (1 - rho * rho) ** (n // 2)
        if name == 'rho-sigma/2k':
            return (self('rho') - self('sigma/2k')) ** int(n)
        if name == 'sigma/2k':
            return self(name) ** int(n)
        if name == 'v_0-theta' and self.split_v0:
            return (E.atom('v_0') - self('theta')) ** int(n)
        if name == 'E[v]' and self.split_ev:
            return (self('theta') + E.atom('lmbd') * E.atom('mu_v') / E.atom('k')) ** int(n)
        return self(name) ** n
    split_v0 = split_ev = False


def value(E, env, poly, names, plain=None):
    r = I.zero(E)
    for key, c in poly.items():
        E.claim('one exponent per variable', len(key) == len(names))
        t = I.cval(E, c)
        for nm, n in zip(names, key):
            if nm == 'fz':
                # l, o, p, q: carried along unchanged, encoded as exponents of their own
                for i, x in enumerate(n):
                    t = t * E.atom('%s%d' % (plain, i)) ** x
                continue
            t = t * env.power(nm, n)
        r = r + t
    return r


def build(E, names, ranges, terms, kf=None):
    """formula with symbolic exponents; ranges: name -> (lo, hi)"""
    P = Poly()()
    P.set_keyfor(list(kf or names))
    keys = []
    for i in range(terms):
        keys.append(tuple(E.int('e%d_%d' % (i, j), *ranges.get(nm, (None, None))) for j, nm in enumerate(names)))
    E.distinct(keys)
    for i, key in enumerate(keys):
        P[key] = E.coef('c%d' % i, nonzero=True)
    return P


def outnames(E, got, want):
    E.claim('title of the result', tuple(got.keyfor) == tuple(want))


def refused(E, f, *a):
    """the result, or None if the function refuses"""
    try:
        return f(*a)
    except (path.core.Unsupported, path.core.Inconclusive):
        raise
    except Exception:
        E.claim('refused or same value', True)
        return None


def rho_case(name, before, after, hi, terms, par):
    names = ['a%d' % i for i in range(before)] + ['rho', 'sqrt(1-rho^2)'] + ['b%d' % i for i in range(after)]
    n = before + 1

    def body(E):
        env = Env(E)
        P = build(E, names, {'sqrt(1-rho^2)': (0, hi)}, terms)
        odd = False
        for key in list(P):
            odd = odd or bool(key[n] % 2 != 0)
        if odd:
            R = refused(E, mod('utils').simplify_rho, P, n)
            if R is None:
                return
        else:
            R = I.call('utils', 'simplify_rho', P, n)
        out = names[:n] + names[n + 1:]
        outnames(E, R, out)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, out), value(E, env, P, names))
    return path.PCase(name, body, max_paths=30000)


F1 = ['e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)']


def fsv_case(name, tp, hi, hs, terms, wrong=False):
    def body(E):
        env = Env(E)
        env.split_v0 = tp == 3
        rg = {'sigma/2k': (0, hi), 'rho-sigma/2k': (0, hi), 'sqrt(1-rho^2)': (0, hs)} if tp != 1 else {}
        rg['v_0-theta'] = (0, hi) if tp == 3 else (None, None)
        if tp == 1:
            rg['sigma/2k'] = rg['rho-sigma/2k'] = rg['sqrt(1-rho^2)'] = (0, 1)
        P = build(E, F1, rg, terms)
        f = mod('mdl_1fsv.cond_cmom').simplify
        if wrong:
            E.raises('an unknown mode is refused', Exception, lambda: f(P, E.int('tp', hi=0)))
            E.raises('an unknown mode is refused', Exception, lambda: f(P, E.int('tq', lo=4)))
            return
        odd = False
        if tp > 1:
            for key in list(P):
                odd = odd or bool(key[8] % 2 != 0)
        if odd:
            R = refused(E, f, P, tp)
            if R is None:
                return
        else:
            R = I.call('mdl_1fsv.cond_cmom', 'simplify', P, tp)
        out = {1: ['e^{-kt}'] + F1[1:], 2: ['e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho'],
               3: ['e^{-kt}', 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho']}[tp]
        outnames(E, R, out)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, out), value(E, env, P, F1))
    return path.PCase(name, body, max_paths=30000)


SV = ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'sigma/2k',
      'rho-sigma/2k', 'sqrt(1-rho^2)']


def svvj_case(name, tp, depth, hi, hs, terms):
    def body(E):
        env = Env(E)
        kf = list(mod('mdl_svvj.cond2_cmom').cmoment_y(0).keyfor)
        if len(kf) != 13:
            raise path.core.Unsupported('other layout')
        P = Poly()()
        P.set_keyfor(kf)
        keys = []
        for i in range(terms):
            key = []
            for j, nm in enumerate(SV):
                if 6 <= j <= 9:
                    n = depth if j < 8 else max(depth - 1, 0)
                    key.append(tuple(E.int('e%d_%d_%d' % (i, j, x)) for x in range(n)))
                else:
                    rg = {10: (0, hi), 11: (0, hi), 12: (0, hs)}.get(j, (None, None)) if tp else (
                        (0, 1) if j in (10, 11, 12) else (None, None))
                    key.append(E.int('e%d_%d' % (i, j), *rg))
            keys.append(tuple(key))
        E.distinct(keys)
        for i, key in enumerate(keys):
            P[key] = E.coef('c%d' % i, nonzero=True)
        odd = False
        if tp:
            for key in keys:
                odd = odd or bool(key[12] % 2 != 0)
        if odd:
            R = refused(E, mod('mdl_svvj.cond2_cmom').simplify, P, tp)
            if R is None:
                return
        else:
            R = I.call('mdl_svvj.cond2_cmom', 'simplify', P, tp)

        def val(Q, names):
            r = I.zero(E)
            for key, c in Q.items():
                E.claim('one exponent per variable', len(key) == len(names))
                t = I.cval(E, c)
                for nm, n in zip(names, key):
                    if nm[1:] in ('_{1:n}', '_{2:n}'):
                        E.claim('number of jump indices', len(n) == (depth if nm[2:5] == '{1:' else max(depth - 1, 0)))
                        for x, y in enumerate(n):
                            t = t * E.atom('%s%d' % (nm[0], x)) ** y
                    else:
                        t = t * env.power(nm, n)
                r = r + t
            return r
        if tp:
            out = ['e^{-kt}'] + SV[1:10] + ['rho']
        else:
            out = ['e^{-kt}'] + SV[1:]
        E.claim('number of variables', len(R.keyfor) == len(out))
        E.same('refused or same value' if odd else 'same value', val(R, out), val(P, SV))
    return path.PCase(name, body, max_paths=30000)


CM = ['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s']


def svcj_sqrt(name, hs, terms):
    def body(E):
        env = Env(E)
        P = build(E, CM, {'sqrt(1-rho^2)': (0, hs)}, terms)
        odd = False
        for key in list(P):
            odd = odd or bool(key[8] % 2 != 0)
        if odd:
            R = refused(E, mod('mdl_svcj.cond_mom').expand_sqrt, P)
            if R is None:
                return
        else:
            R = I.call('mdl_svcj.cond_mom', 'expand_sqrt', P)
        out = CM[:8] + CM[9:]
        outnames(E, R, out)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, out), value(E, env, P, CM))
    return path.PCase(name, body, max_paths=30000)


UM = ['e^{kt}', 't', 'k^{-}', 'mu', 'E[v]', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s']


def svcj_mu(name, terms):
    def body(E):
        env = Env(E)
        P = build(E, UM, {}, terms)
        has = False
        for key in list(P):
            has = has or bool(key[3] != 0)
        if has:
            E.raises('a formula that contains mu is refused', Exception, lambda: mod('mdl_svcj.cmom').remove_mu_column(P))
            return
        odd = False
        want = value(E, env, P, UM)
        R = I.call('mdl_svcj.cmom', 'remove_mu_column', P)
        out = ['e^{-kt}'] + UM[1:3] + UM[4:]
        outnames(E, R, out)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, out), want)
    return path.PCase(name, body, max_paths=30000)


EV = ['k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v']


def srjd_expand(name, hi, terms):
    def body(E):
        env = Env(E)
        env.split_ev, odd = True, False
        P = build(E, EV, {'E[v]': (0, hi)}, terms)
        R = I.call('mdl_srjd.mom', 'expand', P)
        out = ['k^{-}', 'theta', 'sigma', 'lmbd', 'mu_v']
        outnames(E, R, out)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, out), value(E, env, P, EV))
    return path.PCase(name, body, max_paths=30000)


def svcj_enlarge(name, small, big):
    def body(E):
        env = Env(E)
        P, odd = build(E, small, {}, 2), False
        R = I.call('mdl_svcj.cond_mom', 'enlarge', P, list(big))
        outnames(E, R, big)
        E.same('refused or same value' if odd else 'same value', value(E, env, R, [x.replace('sqrt(1-rho^2)', 'root') for x in big]), value(E, env, P, small))
    return path.PCase(name, body, max_paths=30000)


def add(name, f, *a, **kw):
    S.add(name, lambda: [f(name, *a)], **kw)


for b in range(3):
    for a in range(3):
        add('simplify_rho, columns %d+%d' % (b, a), rho_case, b, a, 12, 1, None)
        add('simplify_rho, columns %d+%d, higher powers' % (b, a), rho_case, b, a, 20, 1, None, quick=False)
add('simplify_rho, two terms', rho_case, 1, 1, 4, 2, None, weight=3)
add('simplify_rho, two terms, higher powers', rho_case, 1, 1, 8, 2, None, quick=False, weight=5)
for tp in (1, 2, 3):
    add('mdl_1fsv simplify %d' % tp, fsv_case, tp, 3, 5, 1, weight=2)
    add('mdl_1fsv simplify %d, higher powers' % tp, fsv_case, tp, 5, 8, 1, quick=False, weight=9)
    add('mdl_1fsv simplify %d, two terms' % tp, fsv_case, tp, 1, 2, 2, weight=7)
    add('mdl_1fsv simplify %d, two terms, higher powers' % tp, fsv_case, tp, 2, 2, 2, quick=False, weight=9)
add('mdl_1fsv simplify, unknown mode', fsv_case, 1, 1, 1, 1, True)
for d in range(4):
    for tp in (0, 1):
        add('mdl_svvj simplify %d, depth %d' % (tp, d), svvj_case, tp, d, 3, 4, 1, weight=3)
        add('mdl_svvj simplify %d, depth %d, higher powers' % (tp, d), svvj_case, tp, d, 5, 8, 1, quick=False, weight=3)
        if d < 3:
            add('mdl_svvj simplify %d, depth %d, two terms' % (tp, d), svvj_case, tp, d, 1, 2, 2, weight=7, quick=d < 2)
add('mdl_svcj expand_sqrt', svcj_sqrt, 12, 1)
add('mdl_svcj expand_sqrt, higher powers', svcj_sqrt, 20, 1, quick=False)
add('mdl_svcj expand_sqrt, two terms', svcj_sqrt, 4, 2, weight=3)
for t in (1, 2):
    add('mdl_svcj remove_mu_column, %d terms' % t, svcj_mu, t)
add('mdl_srjd expand', srjd_expand, 6, 1)
add('mdl_srjd expand, two terms', srjd_expand, 2, 2, weight=3)
add('mdl_srjd expand, two terms, higher powers', srjd_expand, 5, 2, quick=False, weight=3)
add('mdl_svcj enlarge', svcj_enlarge, ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'], CM)
add('mdl_svcj enlarge, reordered', svcj_enlarge, ['t', 'e^{kt}', 'sigma'], ['sigma', 'k^{-}', 'e^{kt}', 'rho', 't'])
S.history(2)
tasks = S.tasks
