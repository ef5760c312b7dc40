"""A03: exported formulas decode back to the same polynomial; splitting loses nothing"""
import ast
import csv
import io
import os
import shutil
import tempfile

from symx import shim, core
from symx.lp import GP, LP, LPTag, to_lp
from symx.path import PCase, PSuite
from symx.polyx import one, poly

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('A03')
LEVEL = 'other'
EXPLAIN = ('The writers are executed on polynomials with symbolic exponents and coefficients; every symbolic field is '
           'printed as a unique number, the written text is parsed back by an independent reader that only uses the '
           'title line, and z3 decides that the decoded formula is the original one for all exponents and coefficients.')
BOUNDS = ('all integer exponents and coefficients; 0..3 terms; flat keys of 1..4 components and tuple-valued keys (srjd and '
          'svvj/svij/svcj layouts) of level 0..3; splitting of 3 terms over levels 0..2')
ASSUME = ['exponents and coefficients print as decimal integers', 'z3 and the term representation (symx/lp.py) are trusted']

SR = ['e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{2:n}']
SV = ['e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}']


def length(nm, lev):
    return {'l': lev, 'o': lev if 'o_{1:n}' == nm else max(lev - 1, 0), 'p': max(lev - 1, 0), 'q': max(lev - 1, 0)}[nm[0]]


def vector(nm):
    return nm in ('l_{1:n}', 'o_{1:n}', 'o_{2:n}', 'p_{2:n}', 'q_{2:n}')


def scalar_names(kf, lev):
    """(name of every scalar exponent, in key order)"""
    out = []
    for nm in kf:
        if vector(nm):
            lo = 1 if '{1:' in nm else 2
            out += ['%s%d' % (nm[0], lo + j) for j in range(length(nm, lev))]
        else:
            out.append(nm)
    return out


def mk(E, kf, levels):
    P = poly()()
    P.set_keyfor(kf)
    keys = []
    for t, lev in enumerate(levels):
        k = []
        for i, nm in enumerate(kf):
            if vector(nm):
                k.append(tuple(E.int('k%d_%d_%d' % (t, i, j)) for j in range(length(nm, lev))))
            else:
                k.append(E.int('k%d_%d' % (t, i)))
        keys.append(tuple(k))
    E.distinct(keys)
    for t, k in enumerate(keys):
        P[k] = E.coef('c%d' % t)
    return P


def term(E, names, exps, c):
    if E.symbolic:
        t = GP.of(to_lp(c))
        for n, e in zip(names, exps):
            t = t * GP.of(E.atom(n) ** e)
        return t
    t = E.mp.mpf(c.numerator) / c.denominator
    for n, e in zip(names, exps):
        t = t * E.atom(n) ** e
    return t


def flat(k):
    return [y for x in k for y in (x if isinstance(x, tuple) else (x,))]


def den(E, kf, items):
    r = GP([]) if E.symbolic else E.num(0)
    for k, c in items:
        lev = max([len(x) for x in k if isinstance(x, tuple)] + [0])
        r = r + term(E, scalar_names(kf, lev), flat(k), c)
    return r


def look(E, x):
    x = int(x)
    return core.TOKENS[x] if E.symbolic and x in core.TOKENS else x


def coef(E, a, b):
    """the number whose printed numerator and denominator are a and b"""
    from fractions import Fraction
    a, b = look(E, a), look(E, b)
    if isinstance(a, LPTag) or isinstance(b, LPTag):
        E.claim('numerator and denominator belong to one coefficient',
                isinstance(a, LPTag) and isinstance(b, LPTag) and a.tag == 'num' and b.tag == 'den' and a.lp.d == b.lp.d)
        return a.lp if isinstance(a, LPTag) else LP({})
    return Fraction(a, b)


def in_scratch(fn, name):
    d = tempfile.mkdtemp(prefix='symx')
    try:
        with shim.Quiet():
            fn(os.path.join(d, name))
        out = {}
        for f in sorted(os.listdir(d)):
            out[f] = open(os.path.join(d, f), encoding='utf-8', newline='').read()
        return out
    finally:
        shutil.rmtree(d)


def csvcase(name, kf, levels, ext):
    def body(E):
        P = mk(E, kf, levels)
        want = den(E, kf, P.items())
        files = in_scratch(P.write_to_csv, 'f' + ext)
        E.claim('one csv file of the given name', list(files) == ['f.csv'])
        rows = list(csv.reader(io.StringIO(files.get('f.csv', ''))))
        lev = levels[0] if levels else 0
        E.claim('title names every component', rows[:1] == [scalar_names(kf, lev) + ['num', 'den']])
        title = rows[0]
        E.claim('one row per term', len(rows) == 1 + len(P))
        got = GP([]) if E.symbolic else E.num(0)
        for r in rows[1:]:
            if len(r) != len(title):
                E.claim('every row has one field per title entry', False)
                return
            f = dict(zip(title, r))
            names = title[:-2]
            got = got + term(E, names, [look(E, f[n]) for n in names], coef(E, f['num'], f['den']))
        E.same('decoded formula', got, want)
        E.same('the polynomial is unchanged', den(E, kf, P.items()), want)
    return PCase(name, body)


def mixedcase(name, kf, levels):
    """terms with different numbers of summed jumps do not fit one title: refused, or still decodable"""
    def body(E):
        P = mk(E, kf, levels)
        want = den(E, kf, P.items())
        try:
            files = in_scratch(P.write_to_csv, 'f.csv')
        except (core.Unsupported, core.Inconclusive):
            raise
        except Exception:
            E.claim('refused', True)
            E.same('the polynomial is unchanged', den(E, kf, P.items()), want)
            return
        rows = list(csv.reader(io.StringIO(files.get('f.csv', ''))))
        title = rows[0] if rows else []
        E.claim('one row per term', len(rows) == 1 + len(P))
        E.claim('every row has one field per title entry', all(len(r) == len(title) for r in rows))
        if any(len(r) != len(title) for r in rows):
            return
        got = GP([]) if E.symbolic else E.num(0)
        for r in rows[1:]:
            f = dict(zip(title, r))
            got = got + term(E, title[:-2], [look(E, f[n] or 0) for n in title[:-2]], coef(E, f['num'], f['den']))
        E.same('decoded formula', got, want)
    return PCase(name, body)


def txtcase(name, kf, levels, ext):
    def body(E):
        P = mk(E, kf, levels)
        want = den(E, kf, P.items())
        files = in_scratch(P.write_to_txt, 'f' + ext)
        E.claim('one txt file of the given name', list(files) == ['f.txt'])
        lines = files.get('f.txt', '').splitlines()
        head, _, _ = lines[0].rpartition(': ')
        names = ast.literal_eval(head)
        E.claim('title names every component', tuple(names) == tuple(kf))
        E.claim('one row per term', len(lines) == 1 + len(P))
        items = []
        for ln in lines[1:]:
            k, _, v = ln.rpartition(': ')
            k, v = ast.literal_eval(k), ast.literal_eval(v)
            if len(k) != len(names):
                E.claim('every row has one field per title entry', False)
                return
            k = tuple(tuple(look(E, y) for y in x) if isinstance(x, tuple) else look(E, x) for x in k)
            items.append((k, coef(E, *v)))
        E.same('decoded formula', den(E, names, items), want)
    return PCase(name, body)


def split(name, levels, extra):
    kf = SV + extra

    def body(E):
        P = mk(E, kf, levels)
        want = den(E, kf, P.items())
        parts = shim.mod('mdl_svvj.cond2_cmom').classify(P)
        got = GP([]) if E.symbolic else E.num(0)
        n = 0
        for Q in parts:
            got = got + den(E, Q.keyfor, Q.items())
            n += len(Q)
            E.claim('one summation level per part', len({len(k[6]) for k in Q if isinstance(k[6], tuple)}) <= 1)
            E.claim('keys fit the variable names', all(len(k) == len(Q.keyfor) for k in Q))
        E.same('the parts add up to the formula', got, want)
        E.claim('no term is duplicated or lost', n == len(P))
        E.same('the formula is unchanged', den(E, kf, P.items()), want)
    return PCase(name, body)


def subfiles(name, levels, extra):
    """the formula, split by the number of summed jumps, exported to one text file per part"""
    kf = ['e^{kt}'] + SV[1:] + extra

    def body(E):
        P = mk(E, kf, levels)
        want = den(E, kf, P.items())
        cwd = os.getcwd()
        d = tempfile.mkdtemp(prefix='symx')
        try:
            os.chdir(d)
            with shim.Quiet():
                shim.mod('mdl_svvj.cond2_cmom').write_to_subpolys(P, 4)
            files = {f: open(os.path.join(d, f), encoding='utf-8', newline='').read() for f in sorted(os.listdir(d))}
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        E.claim('one file per number of summed jumps', len(files) == len(set(levels)))
        got = GP([]) if E.symbolic else E.num(0)
        rows = 0
        for f in files:
            lines = files[f].splitlines()
            names = ast.literal_eval(lines[0].rpartition(': ')[0])
            # the exponent of e^{kt} is exported negated, under the name e^{-kt}
            E.claim('title names the components', names[0] == 'e^{-kt}' and names[1:6] == tuple(kf[1:6])
                    and names[6:] in (tuple(kf[6:]), tuple(kf[10:])))
            names = ('e^{kt}',) + names[1:]
            items = []
            lev = set()
            for ln in lines[1:]:
                k, _, v = ln.rpartition(': ')
                k, v = ast.literal_eval(k), ast.literal_eval(v)
                if len(k) != len(names):
                    E.claim('every row has one field per title entry', False)
                    return
                k = tuple(tuple(look(E, y) for y in x) if isinstance(x, tuple) else look(E, x) for x in k)
                lev.add(len(k[6]) if len(names) == len(kf) else 0)
                items.append(((-k[0],) + k[1:], coef(E, *v)))
            rows += len(items)
            E.claim('one number of summed jumps per file', len(lev) == 1)
            got = got + den(E, names, items)
        E.claim('every term in exactly one file', rows == len(P))
        E.same('the files add up to the formula', got, want)
        E.same('the formula is unchanged', den(E, kf, P.items()), want)
    return PCase(name, body)


for kf in (['x'], ['x', 'y'], ['e^{kh}', 'h', 'k^{-}', 'sqrt(1-rho^2)'], ['a,b', 'c']):
    for nt in (0, 1, 3):
        for ext in ('', '.csv'):
            n = 'csv of %d terms in (%s)%s' % (nt, ' '.join(kf), ext)
            S.add(n, one(csvcase, n, kf, [0] * nt, ext))
        for ext in ('', '.txt'):
            n = 'txt of %d terms in (%s)%s' % (nt, ' '.join(kf), ext)
            S.add(n, one(txtcase, n, kf, [0] * nt, ext))
for tag, kf in (('srjd', SR), ('svvj', SV), ('svvj+', SV + ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)'])):
    for levels in ([], [0, 0], [1], [2, 2], [3, 3, 3]):
        n = 'csv of a %s formula with levels %s' % (tag, levels)
        S.add(n, one(csvcase, n, kf, levels, '.csv'))
    for levels in ([], [0, 1], [1, 2, 3]):
        n = 'txt of a %s formula with levels %s' % (tag, levels)
        S.add(n, one(txtcase, n, kf, levels, '.txt'))
for tag, kf in (('srjd', SR), ('svvj', SV), ('svvj+', SV + ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)'])):
    for levels in ([0, 1], [1, 0], [2, 1], [1, 2], [2, 0, 3], [3, 1, 2]):
        n = 'csv of a %s formula with mixed levels %s' % (tag, levels)
        S.add(n, one(mixedcase, n, kf, levels))
for levels in ([], [1], [2], [2, 1], [0, 2], [0], [0, 1], [1, 0], [0, 0, 1], [1, 0, 2], [2, 1, 0, 1], [0, 1, 1, 2]):
    n = 'splitting levels %s' % levels
    S.add(n, one(split, n, levels, ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)']))
    S.add(n + ' (rho)', one(split, n + ' (rho)', levels, ['rho']))
    n = 'files of levels %s' % levels
    S.add(n, one(subfiles, n, levels, ['sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)']))
S.history(1)
tasks, replay = S.tasks, S.replay
