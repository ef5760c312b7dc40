"""Symbolic random draws for the simulators.

While a simulator runs, every source of randomness of numpy is replaced by a recorder that hands
out symbolic draws: normal(m, s) is m + s*Z with a fresh real atom Z, poisson(lam) a fresh bounded
integer, noncentral_chisquare(d, l) a fresh positive atom.  The arguments are recorded, so that the
check can compare them with the documented law.  The order in which a simulator consumes its draws
carries no meaning; `match` looks for an assignment of the recorded draws to the roles of the
documented scheme.
"""
import itertools
import sys
import numpy as np

from . import core, lp, shim
from .core import Unsupported
from .lp import SP

REAL = {n: getattr(np, n) for n in ('empty', 'zeros', 'ones', 'full', 'array', 'asarray', 'empty_like', 'zeros_like',
                                    'ones_like', 'full_like', 'maximum', 'minimum', 'abs', 'absolute', 'clip', 'fmax')}
GEN = np.random.Generator
CUR = None
ROUND = 'a simulator argument was used in an unsupported way'


class NoMatch(Exception):
    pass


def num(x):
    return x.item() if isinstance(x, np.generic) else x


class Draws:
    """stands for numpy.random and for every Generator"""

    def _many(self, f, args, size):
        if size is None:
            shape = [np.shape(a) for a in args if isinstance(a, (np.ndarray, list, tuple))]
            if not shape:
                return f(*[num(a) for a in args])
            size = shape[0]
        if isinstance(size, (tuple, list)):
            shape = tuple(int(x) for x in size)
        else:
            shape = (int(size),)
        out = REAL['empty'](shape, dtype=object if CUR.E.symbolic else float)
        bc = [np.broadcast_to(np.asarray(a, dtype=object), shape) for a in args]
        for ix in np.ndindex(*shape):
            out[ix] = f(*[num(b[ix]) for b in bc])
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(CUR.normal, (loc, scale), size)

    def standard_normal(self, size=None, *a, **k):
        return self._many(CUR.normal, (0, 1), size)

    def randn(self, *shape):
        return self._many(CUR.normal, (0, 1), shape or None)

    def poisson(self, lam=1.0, size=None):
        return self._many(CUR.poisson, (lam,), size)

    def noncentral_chisquare(self, df, nonc, size=None):
        return self._many(CUR.chi2, (df, nonc), size)

    def chisquare(self, df, size=None):
        return self._many(CUR.chi2, (df, 0), size)

    def seed(self, *a, **k):
        return None

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('draws from %s are not modelled' % n)
        return f


DRAWS = Draws()


def obj(dtype):
    return object if dtype in (None, float, np.float64, 'float', 'float64', 'd') else dtype


def wrap(name):
    real = REAL[name]

    def f(*a, **k):
        if CUR is None or not CUR.E.symbolic:
            return real(*a, **k)
        if name in ('empty', 'zeros', 'ones'):
            if len(a) > 1:
                a = (a[0], obj(a[1])) + a[2:]
            else:
                k['dtype'] = obj(k.get('dtype'))
        elif name in ('empty_like', 'zeros_like', 'ones_like', 'full_like', 'full'):
            k['dtype'] = obj(k.get('dtype'))
        elif k.get('dtype') is not None:
            k['dtype'] = obj(k['dtype'])
        elif len(a) > 1:
            a = (a[0], obj(a[1])) + a[2:]
        if name in ('maximum', 'minimum', 'fmax', 'clip', 'abs', 'absolute'):
            k.pop('dtype', None)
        return real(*a, **k)
    return f


def install():
    """before the package is imported"""
    for n in ('empty', 'zeros', 'ones', 'full', 'array', 'asarray', 'empty_like', 'zeros_like', 'ones_like', 'full_like'):
        setattr(np, n, wrap(n))
    for n in dir(np.random):
        if n[0] != '_' and n[0].islower() and callable(getattr(np.random, n)) and n != 'default_rng':
            setattr(np.random, n, getattr(DRAWS, n))
    np.random.default_rng = lambda *a, **k: DRAWS
    np.random.RandomState = lambda *a, **k: DRAWS


class Run:
    """the draws of one path"""

    def __init__(self, E, rates=2):
        self.E, self.rates = E, rates
        self.normals, self.counts, self.chis = [], [], []
        self.pos = None

    # ---- used by the code under test
    def z(self, i):
        nm = 'Z%d' % i
        z = self.E.atom(nm, 'real')
        if self.E.symbolic:
            SP.draws.add(SP.by_name[nm].i)
            return z
        return float(z)

    def normal(self, loc, scale):
        z = self.z(len(self.normals))
        self.normals.append([z, is_zero(loc)])
        if not self.E.symbolic and scale < 0:
            raise ValueError('scale < 0')
        return loc + scale * z

    def poisson(self, lam):
        nm = 'N%d' % len(self.counts)
        if self.E.symbolic:
            n, en = 0, self.E.en
            while n < self.rates:
                more = core.z3.Bool('%s>%d' % (nm, n))
                en.names.setdefault('free', set()).add(more.get_id())
                if not en.branch(more):
                    break
                n += 1
            self.E.ints[nm] = core.SInt(core.z3.IntVal(n))
        else:
            n = self.E.int(nm, 0, self.rates)
        self.counts.append((n, lam))
        return n

    def chi2(self, df, nonc):
        nm = 'X%d' % len(self.chis)
        x = self.E.atom(nm)
        if self.E.symbolic:
            SP.draws.add(SP.by_name[nm].i)
        else:
            x = float(x)
        self.chis.append((x, df, nonc))
        return x

    def call(self, fn, *a, **k):
        global CUR
        CUR = self
        try:
            for m in list(sys.modules.values()):
                if getattr(m, '__name__', '').startswith('ajdmom'):
                    for n, v in list(vars(m).items()):
                        if isinstance(v, GEN):
                            setattr(m, n, DRAWS)
            return fn(*a, **k)
        finally:
            CUR = None


def is_zero(x):
    if isinstance(x, lp.LP):
        return not x.d
    return x == 0


def atoms_of(ps):
    return {a.i for a in lp.poly_atoms([lp.normal(lp.to_lp(p)) for p in ps])}


class Pool:
    """hands the recorded draws to the documented scheme, in some order"""

    def __init__(self, order, skip):
        self.order, self.skip, self.n, self.keys = order, skip, 0, []

    def z(self, coef, *key):
        """coef * draw; key = (return number, step number, role)"""
        if self.skip and is_zero(coef):
            return 0
        self.keys.append(key)
        self.n += 1
        if self.n > len(self.order):
            return 0
        return coef * self.order[self.n - 1]


def layouts(keys):
    """permutations of the consumption order: (return, step, role) sorted in other ways"""
    roles = sorted({k[2] for k in keys if k[2] != 'jump'})
    seen = set()
    for perm in itertools.permutations(roles):
        rank = {r: i for i, r in enumerate(perm)}
        for how in ('steps', 'roles', 'all'):
            for jump in ('after each', 'before each', 'after all', 'before all'):
                def key(k):
                    i, j, r = k
                    if r == 'jump':
                        return {'after each': (0, i, 1, j, 0), 'before each': (0, i, -1, j, 0),
                                'after all': (1, i, 0, j, 0), 'before all': (-1, i, 0, j, 0)}[jump]
                    return {'steps': (0, i, 0, j, rank[r]), 'roles': (0, i, 0, rank[r], j),
                            'all': (0, 0, rank[r], i, j)}[how]
                o = tuple(sorted(range(len(keys)), key=lambda i: key(keys[i])))
                if o not in seen:
                    seen.add(o)
                    yield o


def match(E, R, got, scheme, rerun=None):
    """state the obligation that `got` (list of numbers) is what the scheme gives for some assignment
    of the recorded draws.  scheme(pool) -> list of numbers"""
    all_z = [z for z, _ in R.normals]
    if E.symbolic:
        used = atoms_of(got)
        some = [z for z in all_z if atoms_of([z]) & used]
    else:
        some = [z for i, z in enumerate(all_z) if rerun is None or rerun(i)]
    want = None
    for skip, zs in ((False, all_z), (True, all_z), (True, some)):
        want = attempt(E, got, scheme, zs, skip)
        if want is not None:
            break
    else:
        if not E.symbolic or E.hopeless < 4:
            want = search(E, got, scheme, ((False, all_z), (True, some)))
        if want is None:
            if E.symbolic:
                E.hopeless += 1
            want = scheme(Pool(all_z, False))
    E.claim('as many values as requested', len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        agree(E, 'value %d follows the documented scheme' % (i + 1), g, w)


def attempt(E, got, scheme, zs, skip):
    try:
        w = quiet(E, lambda: scheme(Pool(zs, skip)))
    except NoMatch:
        return None
    return w if equal(E, got, w) else None


def search(E, got, scheme, pools):
    for skip, zs in pools:
        p = Pool(zs, skip)
        scheme(p)
        if len(p.keys) != len(zs):
            continue
        os = list(layouts(p.keys))
        if E.symbolic and E.layout in os:
            os.insert(0, E.layout)
        for o in os:
            inv = [None] * len(o)
            for r, i in enumerate(o):
                inv[i] = zs[r]
            w = attempt(E, got, scheme, inv, skip)
            if w is not None:
                if E.symbolic:
                    E.layout = o
                return w
    return None


def agree(E, label, g, w):
    if E.symbolic:
        (d,) = lp.clear_inv([lp.normal(lp.to_lp(g) - lp.to_lp(w))])
        E.same(label, lp.normal(d), lp.LP({}))
    else:
        E.same(label, g, w, tol='1e-8')


def equal(E, got, want):
    if E.symbolic:
        for g, w in zip(got, want):
            (d,) = lp.clear_inv([lp.normal(lp.to_lp(g) - lp.to_lp(w))])
            if lp.normal(d).d:
                return False
        return True
    return all(abs(g - w) <= 1e-8 * (1 + abs(g)) for g, w in zip(got, want))


def quiet(E, f):
    """run f without exploring new cases"""
    if not E.symbolic:
        return f()
    en = E.en
    old = en.branch

    def branch(cond):
        hit = en.memo.get(cond.get_id())
        if hit is not None and hit[0].eq(cond):
            return hit[1]
        if cond.get_id() not in en.names.get('lin', {}):
            return old(cond)
        raise NoMatch()        # this assignment does not even take the same decisions
    en.branch = branch
    try:
        return f()
    finally:
        en.branch = old


def linear(q, mono):
    ts = []
    for k, v in q.d.items():
        if k not in mono:
            z = core.z3.Real('mono!%d' % len(mono))
            known = all(SP.atoms[i].sign in ('pos', 'nonneg') or e % 2 == 0 for i, e in lp.unpack(k))
            mono[k] = core.z3.If(z < 0, -z, z) if known and k else z if k else core.z3.RealVal(1)
        ts.append(core.z3.RatVal(lp.Fraction(v).numerator, lp.Fraction(v).denominator) * mono[k])
    return core.z3.Sum(ts)


def prepare(E, keep=False):
    """call first in every body"""
    if E.symbolic:
        if not hasattr(E, 'hopeless'):
            E.hopeless, E.layout = 0, None
        SP.keep = keep
        SP.draws.clear()
        en = E.en
        en.timeout_ms = 4000
        en.solver.set('timeout', 4000)

        light = core.z3.Solver()           # everything but the conditions on draws
        light.set('timeout', 4000)

        def assume(cond):
            light.add(cond)
            en.solver.add(cond)
            if core.timed_check(light) == core.z3.unsat:
                raise core._Abort()
        en.assume = assume

        def feasible(cond):
            # over-approximation (it can only add paths, never a verdict): conditions on draws are
            # decided with every monomial as a variable of its own
            neg = core.z3.is_not(cond)
            base = cond.children()[0] if neg else cond
            if not keep and base.get_id() in en.names.get('free', ()):
                return True
            lin = en.names.get('lin', {})
            me = lin.get(base.get_id())
            if me is None:
                light.push()
                for t, v in en.memo.values():
                    if t.get_id() not in lin:
                        light.add(t if v else core.z3.Not(t))
                light.add(cond)
                r = core.timed_check(light)
                light.pop()
                return r != core.z3.unsat
            s = core.z3.Solver()
            mono = {}
            for t, q, flip in lin.values():
                hit = en.memo.get(t.get_id())
                if t is me[0]:
                    s.add(linear(q, mono) > 0 if neg else linear(q, mono) < 0)
                    if keep:
                        s.add(linear(q, mono) > 0 if not flip else linear(q, mono) < 0)
                elif hit is not None and hit[0].eq(t):
                    s.add(linear(q, mono) < 0 if hit[1] else linear(q, mono) > 0)
            return core.timed_check(s) != core.z3.unsat
        en.feasible, en.lazy = feasible, True


def values(E, x):
    """the returned sample as a list"""
    return [num(v) for v in list(x)]
