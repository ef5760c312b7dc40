"""F01: derivations and evaluations are pure"""
import os
import pickle

import z3
from symx import core, lp, path, shim, std
from symx.models import SV, SVCJ, SRJD, Heston, GivenJumps

shim.load()
S = path.PSuite('F01')
LEVEL, tasks, replay = 'other', S.tasks, S.replay
EXPLAIN = ('Noninterference on the real code: the functions are called, every polynomial they returned is overwritten with symbolic '
           'coefficients (changed, added and removed terms, another keyfor), and they are called again in another order; an SMT '
           'query per function asks whether any later coefficient can differ from the first answer for some value of what was '
           'written.  Evaluations run on symbolic parameters: the same dictionary is reused with one symbolic value changed at a '
           'time and each result is compared by an SMT query with the first answer in which that symbol is renamed; arguments are '
           'compared with their state before the call.')
BOUNDS = {'quick': 'the listed functions at orders up to 3; all values written into earlier results; all parameter values',
          'thorough': 'the same at orders up to 5'}
ASSUME = [std.COMMON[0], std.COMMON[1], 'z3 and the term representation of symx/lp.py are trusted',
          'first answers are those of the functions called in the listed order in a fresh process']


def conj(E, conds):
    if E.symbolic:
        return core.SBool(z3.And([path.val_terms(c) for c in conds]))
    return all(bool(c) for c in conds)


def polys(x):
    """every polynomial inside a result"""
    if hasattr(x, 'keyfor'):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from polys(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from polys(v)


def freeze(x):
    return [(dict(p.items()), tuple(p.keyfor)) for p in polys(x)]


def plain(k):
    return type(k) is tuple


def agree(E, a, b):
    """conditions under which two frozen results are the same polynomials"""
    if len(a) != len(b):
        return [False]
    out = []
    for (d, kf), (e, kg) in zip(a, b):
        out.append(kf == kg)
        for k in set(d) | set(e):
            if k not in d or k not in e:
                # a missing term is a zero term
                out.append((d[k] if k in d else e[k]) == 0)
            else:
                out.append(d[k] == e[k])
    return out


def spoil(E, x, n):
    """overwrite everything the caller can reach in a result"""
    for p in polys(x):
        keys = list(p.keys())
        for i, k in enumerate(keys):
            if i == len(keys) - 1 and i:
                del p[k]
            else:
                p[k] = E.coef('u%d' % (n % 7))
        if keys:
            k = keys[0]
            p[tuple(j if isinstance(j, tuple) else j + 1 for j in k)] = E.coef('w%d' % (n % 5))
        p.set_keyfor(['x%d' % i for i in range(len(p.keyfor))])
    if isinstance(x, list):
        x.pop()
    if isinstance(x, dict) and not hasattr(x, 'keyfor'):
        x.clear()


def deriving(name, calls):
    def body(E):
        def call(c):
            return getattr(shim.mod(c[0]), c[1])(*c[2:])
        first = []
        for c in calls:
            r = call(c)
            first.append(freeze(r))
            spoil(E, r, len(first))
        for rnd, seq in enumerate((list(reversed(range(len(calls)))), list(range(len(calls))))):
            for i in seq:
                r = call(calls[i])
                E.claim('%s.%s%s gives the same polynomial again (%d)' % (calls[i][:2] + (calls[i][2:], rnd + 1)),
                        conj(E, agree(E, freeze(r), first[i])))
                spoil(E, r, i + rnd)
    return path.PCase(name, body)


def grid(w, f, *args):
    return [(w, f) + (a if isinstance(a, tuple) else (a,)) for a in args]


def base(h):
    """(group, calls) with orders up to h"""
    N = list(range(1, h + 1))
    two = [(a, b) for a in N for b in N if a + b <= h]
    yield 'normal and compound Poisson', (
        grid('cpp_mom', 'mnorm', *N) + grid('cpp_mom', 'mcpp', *N) + grid('cpp_mom', 'mcpp_original', *N[:3]) +
        grid('cpp_mom', 'cmcpp', *N) + grid('utils', 'cmnorm', *N))
    yield 'stochastic integrals', (
        grid('ito_mom', 'int_et', (1, 2), (0, 2), (-1, 1), (2, 0)) + grid('ito_mom', 'moment_v', *N) +
        grid('ito_mom', 'moment_IEII', (2, 0, 0), (1, 1, 0), (0, 1, 2), (2, 1, 0)[:3], (0, 0, 2)) +
        grid('itos_mom', 'int_et', (1, 0, 1), (0, 1, 2), (1, 1, 0)) +
        grid('itos_mom', 'moment_IEI_IEII', (1, 1, 0, 0, 0), (0, 0, 1, 1, 0), (2, 0, 0, 0, 0), (0, 0, 0, 0, 2), (1, 0, 0, 1, 2)) +
        grid('ito_cond_mom', 'int_et_fZ', (1, 2, 0), (1, 2, 1), (0, 1, 1), (-1, 1, 2)) +
        grid('ito_cond_mom', 'moment_IEII', (2, 0, 0), (1, 1, 0), (0, 0, 2), (0, 1, 2), (2, 1, 0)))
    for m in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
        n = N if m[0] == '1' else N[:3]
        w = 'mdl_%s.' % m
        yield m, (grid(w + 'mom', 'moment_y', *n) + grid(w + 'cmom', 'cmoment_y', *n) +
                  grid(w + 'cov', 'moment_yy', *[x for x in two if sum(x) <= len(n)]) +
                  grid(w + 'cov', 'cov_yy', *[x for x in two if sum(x) <= len(n)]) +
                  (grid(w + 'mom', 'b_n', (1, 0, 1, 0, 0), (0, 1, 1, 1, 0)) + grid(w + 'cov', 'exp_vn', *n) +
                   grid(w + 'cmom', 've_IEII', (1, 1, 0, 1), (0, 2, 0, 0)) +
                   grid(w + 'cond_cmom', 'cmoments_y_to', *n) if m == '1fsv' else []))
    yield 'srjd', (grid('mdl_srjd.mom', 'moment_v', *N) + grid('mdl_srjd.cmom', 'cmoment_v', *N) +
                   grid('mdl_srjd.cond_mom', 'moment_v', *N) + grid('mdl_srjd.cond_cmom', 'cmoment_v', *N) +
                   grid('mdl_srjd.cond_mom', 'moment_x', *N) + grid('mdl_srjd.cond_cmom', 'cmoment_x', *N) +
                   grid('mdl_srjd.iez_mom', 'moment_EJ', *N) + grid('mdl_srjd.iez_mom', 'moment_IEZ', *N) +
                   grid('mdl_srjd.iez_cmom', 'cmoment_IEZ', *N) + grid('mdl_srjd.cond_ie_iez_mom', 'moment_ie', *N) +
                   grid('mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez', *two) +
                   grid('mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez', *two) +
                   grid('mdl_srjd.cond2_mom', 'moment_IE', *N) + grid('mdl_srjd.cond2_mom', 'moment_v', *N) +
                   grid('mdl_srjd.cond2_cmom', 'cmoment_v', *N))
    J = ((0.5,), (0.5, 0.25), (0.5, 0.25, 0.75))
    yield 'svvj and svij', [c for m in ('svvj', 'svij') for w, f in (('cond2_mom', 'moment'), ('cond2_cmom', 'cmoment'))
                            for c in grid('mdl_%s.%s' % (m, w), f + 's_y_to', *N) + grid('mdl_%s.%s' % (m, w), f + '_y', *N)]
    yield 'svcj given the jumps', (
        grid('mdl_svcj.cond2_mom', 'mnorm_cond', *N) +
        [c for w, f in (('cond2_mom', 'moment'), ('cond2_cmom', 'cmoment'))
         for c in grid('mdl_svcj.' + w, f + '_IZs', *[(n, j) for j in J for n in N]) +
         grid('mdl_svcj.' + w, f + 's_y_to', *[(n, j) for j in J[:2] for n in N[:3]]) +
         grid('mdl_svcj.' + w, f + '_y', *[(n, j) for j in J[:2] for n in N[:3]])])
    yield 'svcj', (grid('mdl_svcj.ieziziz_mom', 'moment_ejjj', (1, 1, 0), (2, 0, 0), (0, 1, 1)) +
                   grid('mdl_svcj.ieziziz_mom', 'moment_ieziziz', (1, 1, 0), (2, 0, 0), (0, 1, 1)) +
                   grid('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz', (1, 1, 0, 0, 1, 0), (2, 0, 0, 1, 0, 0)) +
                   grid('mdl_svcj.cond_mom', 'moment_y', *N[:3]) + grid('mdl_svcj.cond_cmom', 'cmoment_y', *N[:3]) +
                   grid('mdl_svcj.mom', 'moment_y', *N[:3]) + grid('mdl_svcj.cmom', 'cmoment_y', *N[:3]) +
                   grid('mdl_svcj.mom', 'moment_v_theta', *N))


def evaluators():
    """(name, parameters, exponentials, extra derived parameters, calls with par)"""
    for m in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
        M = SV(m)
        w = 'mdl_%s.' % m
        x = 'theta' if m[0] == '1' else 'theta1'
        yield m, M.pars, M.exps, None, [
            (w + 'mom', 'm', (2,), ()), (w + 'cmom', 'cm', (2,), ()), (w + 'cov', 'cov', (1, 1), ()),
            (w + 'mom', 'dm', (2,), (x,)), (w + 'cmom', 'dcm', (2,), (x,)), (w + 'cov', 'dcov', (1, 1), (x,))]
    yield '1fsv given v0', Heston.pars, Heston.exps, None, [('mdl_1fsv.cond_cmom', 'cond_cm', (2,), ())]
    yield 'svcj', SVCJ(True).pars, SVCJ(True).exps, None, [
        ('mdl_svcj.cond_mom', 'm_y', (2,), ()), ('mdl_svcj.cond_cmom', 'cm_y', (2,), ()),
        ('mdl_svcj.mom', 'unm_y', (2,), ()), ('mdl_svcj.cmom', 'cm_y', (2,), ())]
    yield 'srjd', SRJD.given, SRJD.exps, None, [
        ('mdl_srjd.cond_mom', 'm', (2,), ()), ('mdl_srjd.cond_cmom', 'cm', (2,), ()), ('mdl_srjd.cond_mom', 'm_x', (2,), ()),
        ('mdl_srjd.cond_cmom', 'cm_x', (2,), ()), ('mdl_srjd.cond_ie_iez_mom', 'm_ie', (2,), ()),
        ('mdl_srjd.cond_ie_iez_mom', 'm_ie_iez', (1, 1), ()), ('mdl_srjd.cond_ie_iez_cmom', 'cm_ie_iez', (1, 1), ())]
    for kind in ('srjd', 'svvj', 'svij', 'svcj'):
        M = GivenJumps(kind, 2)
        yield kind + ' given the jumps', M.pars, M.exps, M, [
            ('mdl_%s.cond2_mom' % kind, 'm', (2,), ()), ('mdl_%s.cond2_cmom' % kind, 'cm', (2,), ())]


ALT = '_alt'


def aside(f):
    """the value of f() in a copy of this process (nothing it does is seen here)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps(f())
        except BaseException as e:
            out = pickle.dumps(str(e))
        os.write(w, out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        out = pickle.loads(h.read())
    os.waitpid(pid, 0)
    return out


def evaluating(name, pars, exps, M, calls):
    def body(E):
        def par(x=None):
            P = {}
            for n, s in pars.items():
                P[n] = E.atom(n, s)
            if x:
                P[x] = E.atom(x + ALT, pars[x])
            return P if M is None else M.par(P)
        if E.symbolic:
            for x, y in exps:
                a, b = E.atom(x, pars[x]), E.atom(y, pars[y])
                E.exps(a * b)
                E.exps(E.atom(x + ALT, pars[x]) * b, a * E.atom(y + ALT, pars[y]))

        def call(c, P):
            return getattr(shim.mod(c[0]), c[1])(*c[2], P, *c[3])
        todo = [None] + sorted(pars)
        if E.symbolic:
            Q = par()
            first = [call(c, Q) for c in calls]

            def want(i, x):
                return lp.rename(first[i], {x: x + ALT} if x else {})
        else:
            values = {(i, x): aside(lambda: call(c, par(x))) for i, c in enumerate(calls) for x in todo}

            def want(i, x):
                return E.num(0) + values[i, x]
        P = par()
        for x in todo + [None]:
            for k, v in par(x).items():                      # the caller's own dictionary, changed in place
                P[k] = v
            before = dict(P)
            for i, c in enumerate(calls):
                E.same('%s.%s follows its dictionary%s' % (c[0], c[1], ' (%s changed)' % x if x else ''), call(c, P), want(i, x))
                E.claim('%s.%s leaves its dictionary alone' % (c[0], c[1]),
                        list(P) == list(before) and all(P[k] is before[k] for k in P))
        for i, c in reversed(list(enumerate(calls))):
            E.same('%s.%s gives the same value again' % (c[0], c[1]), call(c, P), want(i, None))
    return path.PCase(name, body)


QUICK = list(base(3))
for g, calls in QUICK:
    nm = 'derive: ' + g
    S.add(nm, lambda nm=nm, c=calls: [deriving(nm, c)], thorough=False, weight=50)
    nm = 'derive in reverse: ' + g
    S.add(nm, lambda nm=nm, c=calls: [deriving(nm, c[::-1])], thorough=False, weight=50)
for g, calls in base(5):
    for rev in (False, True):
        nm = 'derive up to 5%s: %s' % (', reverse' if rev else '', g)
        S.add(nm, lambda nm=nm, c=calls[::-1] if rev else calls: [deriving(nm, c)], quick=False, weight=500)
nm = 'derive: every module'
S.add(nm, lambda: [deriving('derive: every module', [c for g, cs in base(2) for c in cs])], weight=99)
for a in evaluators():
    nm = 'evaluate: ' + a[0]
    S.add(nm, lambda nm=nm, a=a: [evaluating(nm, *a[1:])], weight=60)
