"""Obligations over symbolic integers / coefficients, decided path by path.

A case is an ordinary Python function body(E) that builds its inputs from E, calls the
real code and states obligations.  The same body runs with E symbolic (the solver then
decides every obligation on every feasible path) and with E concrete (replay).
"""
import time
from fractions import Fraction
import z3

from . import core, eq, lp, run
from .core import SInt, SBool
from .lp import GP, SP, to_lp


class Stop(Exception):
    """this path is finished (an obligation already failed on it)"""


class Violated(Exception):
    pass


class PCase:
    def __init__(self, name, body, max_paths=4000, what=None, twin=True):
        self.name, self.body, self.max_paths, self.what, self.twin = name, body, max_paths, what, twin


def val_terms(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


class SymE:
    symbolic = True

    def __init__(self, res, case, en):
        self.res, self.case, self.en = res, case, en
        self.ints, self.coefs, self.atoms, self.choices = {}, {}, {}, {}
        self.label = None
        self.arrange = None     # makes pretty inputs satisfy the assumptions of the case
        self.bad, self.done, self.unk, self.tried, self.nunk = {}, {}, {}, {}, {}
        self.twin, self.twins = False, 0

    def start(self):
        self.ints, self.coefs, self.atoms = {}, {}, {}

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        v = SInt(name)
        self.ints[name] = v
        if lo is not None:
            self.en.assume(v.t >= lo)
        if hi is not None:
            self.en.assume(v.t <= hi)
        return v

    def coef(self, name, nonzero=False):
        a = SP.by_name.get(name)
        if a is None:
            a = SP.new(name, 'coef', 'real')
        self.coefs[name] = a
        if nonzero:
            self.en.assume(a.zv != 0)
        return lp.LP({1 << (lp.W * a.i): 1})

    def atom(self, name, sign='pos'):
        r = lp.var(name, sign)
        self.atoms[name] = r
        if sign == 'pos':
            self.en.assume(SP.by_name[name].zv > 0)
        return r

    def exps(self, *args):
        """declare e^{product} atoms for products of two inputs"""
        for x in args:
            lp.register_exp(x, 'E%d' % len(SP.exps) if self.key(x) not in SP.exps else 'dup')

    @staticmethod
    def key(x):
        (k, _), = x.d.items()
        return k

    def exp(self, x):
        return lp.sym_exp(x)

    def num(self, a, b=1):
        return to_lp(Fraction(a, b))

    def assume(self, cond):
        self.en.assume(val_terms(cond))

    def distinct(self, keys):
        for i in range(len(keys)):
            for j in range(i):
                c = core.sym_eq(keys[i], keys[j])
                if c is True:
                    raise core._Abort()
                if c is not False:
                    self.en.assume(z3.Not(c))

    # ---- obligations
    def _ask(self, label, neg):
        nm = '%s: %s' % (self.case.name, label)
        self.done[nm] = self.done.get(nm, 0) + 1
        if nm in self.bad or self.nunk.get(nm, 0) > 2:
            return
        s = self.en.solver
        s.push()
        s.add(neg)
        r = core.timed_check(s)
        if r == z3.sat:
            self.bad[nm] = (label, self.model(s))
        elif r == z3.unknown:
            self.unk[nm] = 'solver returned unknown'
            if SP.draws:
                self.nunk[nm] = self.nunk.get(nm, 0) + 1      # hopeless: stop asking
            if SP.draws and nm not in self.tried:
                # not a verdict: reported only if one of these inputs fails on the real code
                self.tried[nm] = (label, self.patterns())
        s.pop()

    def patterns(self):
        """inputs with many sign patterns of the random draws"""
        out = []
        ints = {n: v.t.as_long() if z3.is_int_value(v.t) else 1 for n, v in self.ints.items() if isinstance(v, SInt)}
        nice = sorted(eq.nice(self.atoms, 0).items())
        draws = [n for n, _ in nice if n in SP.by_name and SP.by_name[n].i in SP.draws and n[0] == 'Z']
        for bits in range(64):
            at = {}
            for n, v in nice:
                if n in draws:
                    i = draws.index(n) % 6
                    v = -4 * v - 1 if bits >> i & 1 else v
                at[n] = str(v)
            if self.arrange:
                self.arrange(at)
            out.append(dict(ints=ints, coefs={}, atoms=at))
        return out

    def model(self, s):
        """concrete inputs; pretty coefficients are preferred if they are feasible"""
        out = []
        s.push()
        for n, (name, a) in enumerate(sorted(self.coefs.items())):
            v = eq.NICE[0][n % 20] * (-1) ** n
            s.push()
            s.add(a.zv == z3.RatVal(v.numerator, v.denominator))
            if core.timed_check(s) == z3.sat:
                s.pop()
                s.add(a.zv == z3.RatVal(v.numerator, v.denominator))
            else:
                s.pop()
        ok = core.timed_check(s) == z3.sat
        m = s.model() if ok else None
        s.pop()
        if m is None and core.timed_check(s) == z3.sat:
            m = s.model()
        ints = {n: (m.eval(v.t, model_completion=True).as_long() if m is not None else 0)
                for n, v in self.ints.items() if isinstance(v, SInt)}
        coefs = {n: rv(m, a.zv) for n, a in self.coefs.items()}
        if SP.draws:
            # values of the draws matter for the path: take them from the model
            out.append(dict(ints=ints, coefs=coefs, atoms={n: rv(m, SP.by_name[n].zv) for n in self.atoms}))
            return out + self.patterns()
        out.append(dict(ints=ints, coefs=coefs, atoms={n: str(v) for n, v in eq.nice(self.atoms, 0).items()}))
        return out

    def same(self, label, got, want, tol=None):
        """got and want are the same function of the atoms"""
        if GP.of(got) is None:
            nm = '%s: %s' % (self.case.name, label)
            self.done.setdefault(nm, 1)
            self.bad.setdefault(nm, ('%s (not a number: %s)' % (label, type(got).__name__), self.model(self.en.solver)))
            return
        neg, _ = lp.gp_differ(got, want)
        self._ask(label, neg)
        if self.twin and self.twins < 6:
            # the path is reachable: a wrong value must be refuted
            self.twins += 1
            s = self.en.solver
            s.push()
            s.add(lp.gp_differ(got, GP.of(want) + GP.of(1))[0])
            if core.timed_check(s) == z3.sat:
                self.twin = False
                self.unk.pop('twin', None)
            else:
                self.unk['twin'] = 'reachability twin was not refuted'
            s.pop()

    def claim(self, label, cond):
        self._ask(label, z3.Not(val_terms(cond)))

    def raises(self, label, exc, fn):
        try:
            fn()
        except (core.Unsupported, core.Inconclusive):
            raise
        except exc:
            self._ask(label, z3.BoolVal(False))
            return
        except Exception as e:
            self._ask(label + ' (raised %s: %s)' % (type(e).__name__, str(e)[:100]), z3.BoolVal(True))
            return
        self._ask(label, z3.BoolVal(True))


def rv(m, zv):
    if m is None:
        return '1'
    v = m.eval(zv, model_completion=True)
    try:
        return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        a = v.approx(30)
        return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))


class NumE:
    """replay: the same interface over exact rationals / 60-digit numbers"""
    symbolic = False

    def __init__(self, vals):
        import mpmath
        mpmath.mp.dps = 60
        self.mp = mpmath
        self.vals = vals
        self.failed = []
        self.ints = {}

    def int(self, name, lo=None, hi=None):
        v = self.vals['ints'].get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 2)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Stop()
        return v

    def coef(self, name, nonzero=False):
        v = Fraction(self.vals['coefs'].get(name, '3/2'))
        if nonzero and v == 0:
            raise Stop()
        return v

    def atom(self, name, sign='pos'):
        v = self.vals['atoms'].get(name, '0.7')
        f = Fraction(v)
        if name.startswith('rho') and f > 0:
            f = f / (1 + f)
        return self.mp.mpf(f.numerator) / f.denominator

    def exps(self, *a):
        pass

    def exp(self, x):
        return self.mp.exp(x)

    def num(self, a, b=1):
        return self.mp.mpf(a) / b

    def assume(self, cond):
        if not bool(cond):
            raise Stop()

    def distinct(self, keys):
        if len(set(keys)) != len(keys):
            raise Stop()

    def same(self, label, got, want, tol='1e-25'):
        g, w = eq.to_mpf(got), eq.to_mpf(want)
        if abs(g - w) > self.mp.mpf(tol) * (1 + max(abs(g), abs(w))):
            self.failed.append('%s: got %s, expected %s' % (label, self.mp.nstr(g, 15), self.mp.nstr(w, 15)))

    def claim(self, label, cond):
        if not bool(cond):
            self.failed.append('%s: does not hold' % label)

    def raises(self, label, exc, fn):
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.failed.append('%s: raised %s: %s' % (label, type(e).__name__, e))
            return
        self.failed.append('%s: no error, returned %s' % (label, str(r)[:200]))


def prove(res, pid, case, twin=False):
    en = core.Engine(timeout_ms=60000, max_paths=case.max_paths)
    E = SymE(res, case, en)
    E.twin = twin

    def harness():
        E.start()
        try:
            with eq.Trace(res):
                case.body(E)
        except (core.Unsupported, core.Inconclusive, Stop):
            raise
        except Exception as e:
            nm = '%s: no unexpected error' % case.name
            E.done.setdefault(nm, 1)
            E.bad.setdefault(nm, ('%s: %s' % (type(e).__name__, str(e)[:200]), E.model(en.solver)))
        return True
    err = None
    stopped = False
    n = 0
    try:
        t0 = time.time()
        for _ in en.explore(harness):
            n += 1
            if (E.bad and time.time() - t0 > 15) or (E.tried and time.time() - t0 > 60):
                stopped = True       # a counterexample is at hand: the other paths are not needed
                break
    except (core.Unsupported, core.Inconclusive) as e:
        err = '%s: %s' % (type(e).__name__, e)
    res.paths += n
    if len(res.samples) < 2:
        res.samples.append(dict(case=case.name, paths=n, obligations=len(E.done)))
    for nm, (what, cands) in E.bad.items():
        res.bad(nm, what, dict(case=case.name, cands=cands))
    for nm, (what, cands) in E.tried.items():
        if nm not in E.bad and not replay_case(case, dict(case=case.name, cands=cands))[0]:
            E.bad[nm] = (what, cands)
            res.bad(nm, what, dict(case=case.name, cands=cands))
    if err and not E.bad:
        # never a verdict: but a concrete disagreement is still a violation
        cands = [dict(ints={}, coefs={}, atoms={})]
        for k in range(24):
            cands.append(dict(ints={x: (7 * k + 3 * i * k + i) % 9 - 3 for i, x in enumerate(sorted(E.ints))},
                              coefs={x: str(eq.NICE[k % 2][(i + k) % 20]) for i, x in enumerate(sorted(E.coefs))},
                              atoms={x: str(v) for x, v in eq.nice(E.atoms, k % 2).items()}))
        ce = dict(case=case.name, cands=cands)
        ok, txt = replay_case(case, ce)
        if ok:
            res.unk(case.name, 'not encodable (%s); no concrete disagreement found' % err)
        else:
            res.bad(case.name, 'not encodable (%s); found by concrete replay' % err, ce)
        return
    for nm in E.done:
        if nm not in E.bad:
            if stopped:
                res.unk(nm, 'not finished: another obligation of the case failed')
            elif nm in E.unk:
                res.unk(nm, E.unk[nm])
            else:
                res.ok(nm, queries=E.done[nm])
    if 'twin' in E.unk:
        res.unk(case.name, E.unk['twin'])
    if not E.done and not err:
        res.unk(case.name, 'no obligation was reached')


def replay_case(case, ce):
    txt = []
    for c in ce['cands']:
        E = NumE(c)
        try:
            case.body(E)
        except Stop:
            continue
        except core.Unsupported as e:
            txt.append(str(e))
            continue
        except Exception as e:
            return False, '%s: raised %s: %s at %s' % (case.name, type(e).__name__, e, c)
        if E.failed:
            return False, '%s at %s' % ('; '.join(E.failed), c)
        txt.append('holds at %s' % c)
    return True, '\n'.join(txt)


class PSuite:
    def __init__(self, pid):
        self.pid = pid
        self.items = []

    def add(self, name, build, quick=True, thorough=True, weight=1):
        """build() -> [PCase]; case names must start with name + '|' or equal name"""
        self.items.append((name, build, quick, thorough, weight))

    def history(self, weight, quick=True, limit=90, pick=None, name='calls in any order', w=None):
        """the light cases once more, all in one process and in several orders"""
        items = [x for x in self.items if x[4] <= weight and (pick is None or pick(x[0]))]

        def cases():
            return [c for x in sorted(items, key=lambda x: x[4]) for c in x[1]()]
        self.hist = getattr(self, 'hist', {})
        self.hist[name] = (cases, quick, limit, 10 ** 6 if w is None else w)

    def tasks(self, tier):
        hs = [run.Task(name, self._hist, name, cases, limit * (1 if tier == 'quick' else 10), weight=w)
              for name, (cases, q, limit, w) in getattr(self, 'hist', {}).items() if q or tier == 'thorough']
        return hs + [run.Task(n, self._run, b, weight=w) for n, b, q, t, w in self.items
                     if (q if tier == 'quick' else t)]

    def _hist(self, res, name, cases, limit):
        cases = cases()
        ec = [c for c in cases if isinstance(c, eq.Case)]
        pc = [c for c in cases if not isinstance(c, eq.Case)]
        if ec:
            eq.prove_history(res, self.pid, name, ec, limit)
        t0 = time.time()
        seq = list(range(len(pc))) + list(reversed(range(len(pc))))
        for pos, i in enumerate(seq):
            if time.time() - t0 > limit and pos >= len(pc):
                res.unk('%s|%d' % (name, pos), 'time limit: calls from position %d on were not made' % pos)
                break
            before = len(res.obligations)
            prove(res, self.pid, pc[i])
            for o in res.obligations[before:]:
                o['name'] = '%s|%d %s' % (name, pos, o['name'])
                if o['status'] == 'violated':
                    o['ce'] = dict(case='%s|' % name, history=pos, bodies=True, cands=o['ce']['cands'])
            if any(o['status'] == 'violated' for o in res.obligations[before:]):
                return

    def _run(self, res, build):
        cs = build()
        if cs and all(isinstance(c, eq.Case) for c in cs):
            eq.prove_cases(res, self.pid, cs)
            return
        for i, c in enumerate(cs):
            if isinstance(c, eq.Case):
                eq.prove_case(res, self.pid, c, twin=(i == 0))
            else:
                prove(res, self.pid, c, twin=(i == 0 and c.twin))

    def replay(self, ce):
        h = run.named(getattr(self, 'hist', {}), ce['case'])
        if h and 'history' in ce:
            cs = h[0]()
            if not ce.get('bodies'):
                return eq.replay_history([c for c in cs if isinstance(c, eq.Case)], ce)
            pc = [c for c in cs if not isinstance(c, eq.Case)]
            txt = ''
            for cand in ce['cands']:
                for pos, i in enumerate((list(range(len(pc))) + list(reversed(range(len(pc)))))[:ce['history'] + 1]):
                    ok, txt = replay_case(pc[i], dict(cands=[cand]))
                    if not ok:
                        return False, 'call %d of the history: %s' % (pos + 1, txt)
            return True, txt
        for n, build, q, t, w in self.items:
            if run.belongs(ce['case'], n):
                for c in build():
                    if c.name == ce['case']:
                        return (eq if isinstance(c, eq.Case) else __import__('symx.path', fromlist=['x'])).replay_case(c, ce)
        raise KeyError(ce['case'])
