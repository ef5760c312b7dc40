"""Equality obligations: the value computed by the real code on symbolic real
parameters against a reference value, decided by z3 for all parameter values."""
from fractions import Fraction
import sys
import z3

from . import core, lp
from .lp import LP, GP, SP, W, unpack, to_lp, var, register_exp

QTIMEOUT = 300000
MAXPATHS = 256


# ------------------------------------------------------------------ coverage
class Trace:
    """Records which ajdmom functions were executed (sys.monitoring, one event each)."""
    TOOL = 3

    def __init__(self, res):
        self.res = res

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            self.on = False
            return self
        self.on = True

        def start(code, off):
            f = code.co_filename
            if '/ajdmom/' in f and not code.co_name.startswith('<'):
                self.res.functions.add(f.split('/ajdmom/')[-1] + ':' + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)


# ------------------------------------------------------------------ environments
class SymEnv(dict):
    """parameter name -> LP atom; E(name) = e^{product} atoms."""
    kind = 'sym'

    def __init__(self, pars, exps=()):
        super().__init__()
        self.pars = dict(pars)
        for n, s in self.pars.items():
            self[n] = var(n, s)
        for x, y in exps:
            register_exp(self[x] * self[y], 'E_%s_%s' % (x, y))

    def exp(self, x):
        return lp.sym_exp(x)

    def sqrt(self, x):
        return lp.lp_sqrt(x)

    def num(self, a, b=1):
        return to_lp(Fraction(a, b))


class NumEnv(dict):
    """the same interface over 60-digit mpmath numbers (replay)."""
    kind = 'mp'

    def __init__(self, vals):
        import mpmath
        super().__init__()
        mpmath.mp.dps = 60
        self.mp = mpmath
        for n, v in vals.items():
            f = Fraction(v)
            self[n] = mpmath.mpf(f.numerator) / f.denominator

    def exp(self, x):
        return self.mp.exp(x)

    def sqrt(self, x):
        return self.mp.sqrt(x)

    def num(self, a, b=1):
        return self.mp.mpf(a) / b


# ------------------------------------------------------------------ queries
def group_by_free(p, hold):
    """split p into {monomial over atoms not in hold: LP over hold}"""
    g = {}
    for k, v in p.d.items():
        rest = 0
        kept = k
        for i, e in unpack(k):
            if i not in hold:
                rest += e << (W * i)
        kept = k - rest
        g.setdefault(rest, {})[kept] = v
    return g


def inv_support():
    s = set()
    for a in SP.inv_of.values():
        s.add(a.i)
        for k in a.base.d:
            for i, _ in unpack(k):
                s.add(i)
    return s


def differ(a, b):
    """z3 constraints satisfiable iff a and b differ somewhere on the domain."""
    a, b = lp.normal(to_lp(a)), lp.normal(to_lp(b))
    used_inv = False
    if SP.inv_of:
        ids = {x.i for x in SP.inv_of.values()}
        used_inv = any(i in ids for p in (a, b) for k in p.d for i, _ in unpack(k))
    if not used_inv:
        (qa, qb), _ = lp.clear_monomial([a, b])
        return lp.domain(lp.poly_atoms([qa, qb])), lp.emit(qa) != lp.emit(qb)
    hold = inv_support()
    ga, gb = group_by_free(a, hold), group_by_free(b, hold)
    dis = []
    ats = set()
    for m in set(ga) | set(gb):
        pa, pb = lp.clear_inv([LP(ga.get(m, {})), LP(gb.get(m, {}))])
        (pa, pb), _ = lp.clear_monomial([pa, pb])
        ats.update(x.i for x in lp.poly_atoms([pa, pb]))
        dis.append(lp.emit(pa) != lp.emit(pb))
    return lp.domain([SP.atoms[i] for i in sorted(ats)]), z3.Or(dis) if dis else z3.BoolVal(False)


NICE = [
    [Fraction(x) for x in ('0.7', '1.3', '0.4', '0.9', '1.1', '0.3', '0.6', '1.7', '0.8', '1.9', '0.2',
                           '1.4', '0.35', '0.55', '1.25', '0.65', '0.15', '0.45', '1.15', '0.95')],
    [Fraction(x) for x in ('1.6', '0.5', '1.2', '0.25', '0.75', '1.1', '2', '0.3', '1.35', '0.85', '0.6',
                           '0.45', '1.8', '0.95', '0.4', '1.45', '0.7', '1.05', '0.9', '0.1')],
]
FIX = {'rho': (Fraction('-0.6'), Fraction('0.35')), 'rho_1': (Fraction('-0.6'), Fraction('0.35')),
       'rho_2': (Fraction('0.45'), Fraction('-0.7')), 'rho_J': (Fraction('-0.5'), Fraction('0.8')),
       'rhoJ': (Fraction('-0.5'), Fraction('0.8'))}


def nice(pars, which):
    out = {}
    for n, name in enumerate(sorted(pars)):
        out[name] = FIX[name][which] if name in FIX else NICE[which][n % 20] + (n // 20)
    return out


def approx_exp(x):
    import mpmath
    mpmath.mp.dps = 40
    return Fraction(int(mpmath.floor(mpmath.exp(mpmath.mpf(x.numerator) / x.denominator) * 10 ** 15)), 10 ** 15)


def counterexample(solver, atoms_pars):
    """concrete parameter values from a satisfiable query (pretty ones preferred)."""
    cands = []
    for w in (0, 1):
        vals = nice(atoms_pars, w)
        solver.push()
        for n, v in vals.items():
            if n in SP.by_name:
                solver.add(SP.by_name[n].zv == z3.RatVal(v.numerator, v.denominator))
        for (key, (a, unit)) in SP.exps.items():
            p = unit
            ok = True
            for i, e in unpack(key):
                nm = SP.atoms[i].name
                if nm not in vals:
                    ok = False
                    break
                p = p * vals[nm] ** e
            if ok:
                f = approx_exp(Fraction(p))
                solver.add(a.zv == z3.RatVal(f.numerator, f.denominator))
        r = core.timed_check(solver)
        solver.pop()
        if r == z3.sat:
            cands.append({n: str(v) for n, v in vals.items()})
    if not cands:
        m = solver.model() if core.timed_check(solver) == z3.sat else None
        vals = {}
        for n in atoms_pars:
            v = m.eval(SP.by_name[n].zv, model_completion=True) if m is not None and n in SP.by_name else None
            try:
                vals[n] = str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            except Exception:
                try:
                    ap = v.approx(20)
                    vals[n] = str(Fraction(ap.numerator_as_long(), ap.denominator_as_long()))
                except Exception:
                    vals[n] = '1'
        cands.append(vals)
        cands.append({n: str(v) for n, v in nice(atoms_pars, 0).items()})
    return cands


def decide_equal(a, b, pars, cons=()):
    """('proved', None) | ('violated', candidates) | raises Inconclusive"""
    dom, ne = differ(a, b)
    s = z3.Solver()
    s.set('timeout', QTIMEOUT)
    s.add(dom)
    if cons:
        s.add(list(cons))
    s.add(ne)
    r = core.timed_check(s)
    if r == z3.unsat:
        return 'proved', None
    if r == z3.unknown:
        raise core.Inconclusive('solver returned unknown on an equality query')
    return 'violated', counterexample(s, pars)


# ------------------------------------------------------------------ cases
class Case:
    """code(P) is the value produced by the real code at parameters P; spec(P) the
    reference.  Both run unchanged on symbolic and on numeric parameters.  Either may
    return a list of values (compared componentwise) or a dict."""

    def __init__(self, name, pars, code, spec, exps=(), what=None, raises=None):
        """raises: the exception type(s) that code must raise at every parameter point."""
        self.name, self.pars, self.code, self.spec, self.exps = name, pars, code, spec, exps
        self.raises = raises
        self.what = what or 'the computed value differs from the reference'


def flat(x):
    if isinstance(x, dict):
        return [y for k in sorted(x, key=str) for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if hasattr(x, 'shape') and hasattr(x, 'tolist'):
        return flat(x.tolist())
    return [x]


def fallback(res, case, why, base):
    """The code left the fragment the encoder understands.  That is never a pass; but a
    concrete disagreement at a few parameter points is still a violation."""
    ce = dict(base, cands=[{n: str(v) for n, v in nice(case.pars, w).items()} for w in (0, 1)], loose=True)
    try:
        ok, txt = replay_case(case, ce)
    except Exception as e:
        ok, txt = True, '%s: %s' % (type(e).__name__, e)
    if ok:
        res.unk(case.name, 'not encodable (%s) and no concrete disagreement found' % why)
    else:
        res.bad(case.name, '%s (not encodable: %s; found by concrete replay)' % (case.what, why), ce)


def path_candidates(cons, case):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(cons)
    return counterexample(s, case.pars)


def prove_case(res, pid, case, twin=False):
    """Discharge one case: explore every feasible path of the code, one equality query
    per path and component."""
    env = SymEnv(case.pars, case.exps)
    base = dict(case=case.name)
    en = core.Engine(max_paths=MAXPATHS)
    dom0 = lp.domain([a for a in SP.atoms if a.kind in ('var', 'exp')])
    en.base = list(dom0)

    def harness():
        try:
            with Trace(res):
                return flat(case.code(env)), None
        except (core.Unsupported, core.Inconclusive):
            raise
        except Exception as e:
            return None, e
    bad, done, want = {}, {}, None
    try:
        for got, exc in en.explore(harness):
            cons = list(en.solver.assertions()) if en.trace else []
            res.paths += 1
            if exc is not None:
                if case.raises is not None and isinstance(exc, case.raises):
                    done.setdefault(case.name, 0)
                    continue
                bad.setdefault(case.name, ('the library raised %s: %s' % (type(exc).__name__, str(exc)[:200]),
                                           dict(base, cands=path_candidates(cons + dom0, case))))
                continue
            if case.raises is not None:
                bad.setdefault(case.name, ('no error was raised', dict(base, cands=path_candidates(cons + dom0, case))))
                continue
            if want is None:
                want = flat(case.spec(env))
            if len(got) != len(want):
                bad.setdefault(case.name, ('result has %d components, expected %d' % (len(got), len(want)),
                                           dict(base, cands=path_candidates(cons + dom0, case))))
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                nm = case.name if len(got) == 1 else '%s[%d]' % (case.name, i)
                done.setdefault(nm, 0)
                if nm in bad:
                    continue
                if to_lp(g) is None:
                    bad[nm] = ('returned a %s, not a number' % type(g).__name__,
                               dict(base, comp=i, cands=path_candidates(cons + dom0, case)))
                    continue
                try:
                    st, ce = decide_equal(g, w, case.pars, cons)
                except (core.Unsupported, core.Inconclusive) as e:
                    done[nm] = str(e)
                    continue
                if st != 'proved':
                    bad[nm] = (case.what, dict(base, comp=i, cands=ce))
            if len(res.samples) < 2:
                l0 = to_lp(got[0]) if got else None
                res.samples.append(dict(case=case.name, terms=len(l0.d) if l0 is not None else 0,
                                        components=len(got)))
            if twin and got and to_lp(got[0]) is not None:
                # reachability witness: the same query with the reference perturbed must be sat
                twin = False
                big = len(to_lp(got[0]).d) > 3000       # then only the unperturbed side of it
                st, _ = decide_equal(to_lp(0) if big else got[0], to_lp(1) if big else to_lp(want[0]) + 1, case.pars, cons)
                if st != 'violated':
                    res.unk(case.name + ' (twin)', 'reachability twin was not refuted')
    except (core.Unsupported, core.Inconclusive) as e:
        if not bad:
            return fallback(res, case, str(e), base)
    for nm, (what, ce) in bad.items():
        res.bad(nm, what, ce)
    for nm, st in done.items():
        if nm not in bad:
            if st:
                res.unk(nm, st)
            else:
                res.ok(nm)


def prove_cases(res, pid, cases):
    for i, c in enumerate(cases):
        prove_case(res, pid, c, twin=(i == 0))


class FloatEnv(dict):
    """the same interface over ordinary floats."""
    kind = 'float'

    def __init__(self, vals):
        super().__init__({n: float(v) for n, v in vals.items()})

    def exp(self, x):
        import math
        return math.exp(x)

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def num(self, a, b=1):
        return a / b


def to_mpf(x):
    import mpmath
    if isinstance(x, Fraction):
        return mpmath.mpf(x.numerator) / x.denominator
    return mpmath.mpf(x)


def replay_case(case, ce, tol='1e-11'):
    """Re-run the case on concrete numbers through the unmodified code."""
    import mpmath
    txt = []
    for vals in ce['cands']:
        vals = {n: Fraction(v) for n, v in vals.items()}
        for n in case.pars:
            vals.setdefault(n, Fraction(1))
        env = NumEnv(vals)
        show = {n: float(v) for n, v in vals.items()}
        if case.raises is not None:
            try:
                got = case.code(FloatEnv(vals))
            except case.raises:
                continue
            except Exception as e:
                return False, '%s: raised %s: %s at %s' % (case.name, type(e).__name__, e, show)
            return False, '%s: no error, returned %s at %s' % (case.name, str(got)[:200], show)
        want = flat(case.spec(env))
        limit = mpmath.mpf(tol)
        try:
            got = flat(case.code(env))
        except Exception:
            # what does the code do on ordinary floats?
            try:
                got = flat(case.code(FloatEnv(vals)))
            except Exception as e:
                return False, '%s: raised %s: %s at %s' % (case.name, type(e).__name__, e, show)
            limit = mpmath.mpf('1e-6')
        if len(got) != len(want):
            return False, '%s: %d components, expected %d' % (case.name, len(got), len(want))
        idx = [ce['comp']] if 'comp' in ce else range(len(got))
        for i in idx:
            try:
                g = to_mpf(got[i])
            except (TypeError, ValueError):
                return False, '%s: returned %r' % (case.name, type(got[i]))
            w = to_mpf(want[i])
            d = abs(g - w)
            if d > limit * max(abs(g), abs(w)):
                return False, '%s: library value %s, reference %s at %s' % (
                    case.name, mpmath.nstr(g, 15), mpmath.nstr(w, 15), show)
            txt.append('%s: library %s reference %s' % (case.name, mpmath.nstr(g, 15), mpmath.nstr(w, 15)))
    return True, '\n'.join(txt)


# ------------------------------------------------------------------ histories
ALT = '_alt'


def alter(pars, x):
    """the same parameters with x replaced by another, unrelated value"""
    return {n: s for n, s in pars.items()} | {x + ALT: pars[x]}


class AltEnv:
    """parameter environment in which x has the value of the extra parameter x_alt"""

    def __init__(self, env, x):
        self.env, self.x = env, x

    def __getitem__(self, n):
        return self.env[self.x + ALT] if n == self.x else self.env[n]

    def keys(self):
        return [n for n in self.env.keys() if not n.endswith(ALT)]

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, n):
        return n in self.keys()

    def __len__(self):
        return len(self.keys())

    def get(self, n, d=None):
        return self[n] if n in self else d

    def items(self):
        return [(n, self[n]) for n in self.keys()]

    def __getattr__(self, n):
        return getattr(self.env, n)


class PinEnv(AltEnv):
    """parameter environment in which some parameters are fixed rationals"""

    def __init__(self, env, pins):
        self.env, self.pins = env, {n: Fraction(v) for n, v in pins.items()}

    def __getitem__(self, n):
        if n in self.pins:
            return self.env.num(self.pins[n].numerator, self.pins[n].denominator)
        return self.env[n]

    def keys(self):
        return list(self.pins) + [n for n in self.env.keys() if n not in self.pins]


def pinned(case, pins):
    """the case with some parameters fixed (cheaper: used above the orders decided for all parameter values)"""
    pins = {n: v for n, v in pins.items() if n in case.pars}
    return Case(case.name, {n: s for n, s in case.pars.items() if n not in pins}, lambda P: case.code(PinEnv(P, pins)),
                lambda P: case.spec(PinEnv(P, pins)), case.exps, case.what, case.raises)


def history_steps(cases):
    """[(case index, parameter varied or None)]: every case with every other case before it, every case twice in a
    row, and every case after a call with exactly one parameter changed (and the other way round)"""
    n = len(cases)
    seq = [(i, None) for i in range(n)] + [(i, None) for i in reversed(range(n))]
    for i in range(n):
        for x in sorted(cases[i].pars):
            seq.append((i, x))
        seq.append((i, None))
    return seq


def step_case(case, x):
    if x is None:
        return case
    exps = list(case.exps)
    for a, b in case.exps:
        if x in (a, b):
            exps.append((x + ALT, b) if x == a else (a, x + ALT))
    return Case('%s with another %s' % (case.name, x), alter(case.pars, x), lambda P: case.code(AltEnv(P, x)),
                lambda P: case.spec(AltEnv(P, x)), exps, case.what, case.raises)


def prove_history(res, pid, name, cases, limit=120):
    """the cases one after another in one process, in several orders: no earlier call may influence a later one"""
    import time
    t0 = time.time()
    seen = {}
    seq = history_steps(cases)
    for pos, (i, x) in enumerate(seq):
        if time.time() - t0 > limit and pos >= 2 * len(cases):
            res.unk('%s|%d' % (name, pos), 'time limit: calls from position %d on were not made' % pos)
            break
        c = step_case(cases[i], x)
        want = {}

        def spec(P, c=c, k=(i, x)):
            if k not in seen:
                seen[k] = flat(c.spec(P))
            return seen[k]
        c2 = Case('%s|%d' % (name, pos), c.pars, c.code, spec, c.exps,
                  'the result depends on the calls made before (%s)' % c.name, c.raises)
        before = len(res.obligations)
        prove_case(res, pid, c2)
        for o in res.obligations[before:]:
            if o['status'] == 'violated':
                o['ce'] = dict(case='%s|' % name, history=pos, cands=o['ce']['cands'])
        if any(o['status'] == 'violated' for o in res.obligations[before:]):
            return


def replay_history(cases, ce):
    """the same calls on numbers, each compared with its reference"""
    txt = ''
    for cand in ce['cands']:
        for pos, (i, x) in enumerate(history_steps(cases)[:ce['history'] + 1]):
            c = step_case(cases[i], x)
            vals = {n: v for n, v in cand.items() if n in c.pars}
            for n in c.pars:
                if n not in vals:
                    b = nice(cases[i].pars, 0 if not n.endswith(ALT) else 1)
                    vals[n] = str(b[n[:-len(ALT)] if n.endswith(ALT) else n])
            ok, txt = replay_case(c, dict(cands=[vals]))
            if not ok:
                return False, 'call %d of the history: %s' % (pos + 1, txt)
    return True, txt
