"""Exact real-valued proxies.

LP   Laurent polynomial with rational coefficients over named real atoms
     (exponents are concrete integers).  This is what the code under test sees in
     place of a float model parameter.
GP   sum of LP * prod(base_i ** n_i) with *symbolic* integer exponents n_i; used
     when the exponents inside a formula are themselves symbolic.

Atoms: plain reals (with a declared sign), exponentials e^{(registered product)},
square roots r (r*r = base, r >= 0) and reciprocals of non-monomial denominators.
Both proxies are only a term representation: every verdict about them is asked of
z3 after denominators have been cleared.
"""
from fractions import Fraction
import math
import numbers
import z3

from . import core
from .core import SInt, SBool, Unsupported, eng

W = 20
HALF = 1 << (W - 1)
MASK = (1 << W) - 1


class Atom:
    __slots__ = ('i', 'name', 'kind', 'sign', 'base', 'zv', 'zpow')

    def __init__(self, i, name, kind, sign, base=None, zv=None):
        self.i, self.name, self.kind, self.sign, self.base = i, name, kind, sign, base
        self.zv = z3.Real(name) if zv is None else zv
        self.zpow = {0: None, 1: self.zv}

    def power(self, n):
        p = self.zpow.get(n)
        if p is None:
            h = n // 2
            a, b = self.power(h) if h else None, self.power(n - h)
            p = b if a is None else a * b
            self.zpow[n] = p
        return p


class Space:
    def __init__(self):
        self.atoms = []
        self.by_name = {}
        self.exps = {}         # monomial key -> (atom, Fraction unit)
        self.sqrt_of = {}
        self.inv_of = {}
        self.gp_base = {}
        self.cmp_cache = {}
        self.draws = set()     # atoms that stand for random draws
        self.keep = 0          # sign outcomes are assumed, not forked (see symx/sim.py)

    def new(self, name, kind, sign, base=None, zv=None):
        if name in self.by_name:
            raise ValueError(name)
        a = Atom(len(self.atoms), name, kind, sign, base, zv)
        self.atoms.append(a)
        self.by_name[name] = a
        return a


SP = Space()


def reset_space():
    """Forget all atoms (keeps the module-level object identity)."""
    SP.__init__()


def unpack(key):
    out = []
    i = 0
    while key:
        low = key & MASK
        if low >= HALF:
            low -= 1 << W
        if low:
            out.append((i, low))
        key = (key - low) >> W
        i += 1
    return out


def pack(pairs):
    k = 0
    for i, e in pairs:
        k += e << (W * i)
    return k


def rat(x):
    if isinstance(x, Fraction) or isinstance(x, int):
        return x
    if isinstance(x, numbers.Rational):
        return Fraction(x.numerator, x.denominator)
    if isinstance(x, float):
        f = Fraction(x)
        g = f.limit_denominator(10 ** 9)      # 1/3 written as a float means 1/3
        return g if float(g) == x else f
    return None


def to_lp(x):
    if isinstance(x, LP):
        return x
    if isinstance(x, SInt):
        return lp_of_int(x.t)
    r = rat(x)
    if r is not None:
        return LP({0: r} if r != 0 else {})
    if hasattr(x, 'dtype'):
        return to_lp(x.item())
    return None


def lp_of_int(t):
    """z3 Int term -> LP over (real views of) its integer variables."""
    if z3.is_int_value(t):
        return to_lp(t.as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = LP({})
        for c in t.children():
            r = r + lp_of_int(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        r = lp_of_int(cs[0])
        for c in cs[1:]:
            r = r - lp_of_int(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -lp_of_int(t.children()[0])
    if k == z3.Z3_OP_MUL:
        r = to_lp(1)
        for c in t.children():
            r = r * lp_of_int(c)
        return r
    if k == z3.Z3_OP_POWER and z3.is_int_value(t.children()[1]):
        return lp_of_int(t.children()[0]) ** t.children()[1].as_long()
    name = 'int:' + t.sexpr()
    a = SP.by_name.get(name)
    if a is None:
        a = SP.new(name, 'int', 'real', zv=z3.ToReal(t))
    return LP({1 << (W * a.i): 1})


class LP:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, GP):
            return NotImplemented
        o = to_lp(o)
        if o is None:
            return NotImplemented
        if len(o.d) > len(self.d):
            big, small = o.d, self.d
        else:
            big, small = self.d, o.d
        d = dict(big)
        for k, v in small.items():
            s = d.get(k, 0) + v
            if s == 0:
                del d[k]
            else:
                d[k] = s
        return LP(d)

    __radd__ = __add__

    def __neg__(self):
        return LP({k: -v for k, v in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, GP):
            return NotImplemented
        o = to_lp(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = to_lp(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, GP):
            return NotImplemented
        o = to_lp(o)
        if o is None:
            return NotImplemented
        a, b = self.d, o.d
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            (ka, va), = a.items()
            if va == 1:
                return LP({k + ka: v for k, v in b.items()})
            return LP({k + ka: v * va for k, v in b.items()})
        d = {}
        for ka, va in a.items():
            for kb, vb in b.items():
                k = ka + kb
                s = d.get(k)
                d[k] = va * vb if s is None else s + va * vb
        return LP({k: v for k, v in d.items() if v != 0})

    __rmul__ = __mul__

    def inverse(self):
        if not self.d:
            raise ZeroDivisionError('division by symbolic zero')
        if len(self.d) == 1:
            (k, v), = self.d.items()
            for i, e in unpack(k):
                a = SP.atoms[i]
                if a.sign == 'real' and a.kind == 'int':
                    if e > 0 and bool(SBool(a.zv == 0)):
                        raise ZeroDivisionError('division by zero')
            return LP({-k: Fraction(1) / v})
        # content * primitive
        mono, c, prim = primitive(self)
        key = frozenset(prim.d.items())
        a = SP.inv_of.get(key)
        if a is None:
            a = SP.new('inv%d' % len(SP.inv_of), 'inv', 'real', base=prim)
            SP.inv_of[key] = a
        return LP({(1 << (W * a.i)) - mono: Fraction(1) / c})

    def __truediv__(self, o):
        if isinstance(o, GP):
            return NotImplemented
        o = to_lp(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = to_lp(o)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __pow__(self, n):
        if isinstance(n, HalfInt):
            return gp_pow(lp_sqrt(self), n.twice)
        if isinstance(n, SInt):
            return gp_pow(self, n)
        f = rat(n)
        if f is None and hasattr(n, 'dtype'):
            f = rat(n.item())
        if f is None:
            return NotImplemented
        if f == int(f):
            n = int(f)
            if n < 0:
                if len(self.d) == 1:
                    (k, v), = self.d.items()
                    self.inverse()        # zero-division check
                    return LP({k * n: Fraction(1) / Fraction(v) ** (-n)})
                return self.inverse() ** (-n)
            if len(self.d) == 1:
                (k, v), = self.d.items()
                return LP({k * n: v ** n})
            r = LP({0: 1})
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if f.denominator == 2:
            return lp_sqrt(self) ** int(2 * f)
        raise Unsupported('power %r' % (n,))

    def __rpow__(self, base):
        raise Unsupported('symbolic real exponent')

    # ---- comparisons
    def _cmp(self, o, op):
        o = to_lp(o)
        if o is None:
            return NotImplemented
        return lp_cmp(self - o, op)

    def __eq__(self, o): return self._cmp(o, '==')

    def __ne__(self, o):
        r = self._cmp(o, '==')
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __hash__(self):
        return 0x1a2b

    def __bool__(self):
        r = lp_cmp(self, '==')
        return not bool(r)

    def __abs__(self):
        return -self if self < 0 else self

    def __float__(self):
        if all(k == 0 for k in self.d):
            return float(self.d.get(0, 0))
        raise Unsupported('float() of a symbolic real')

    def __index__(self):
        if all(k == 0 for k in self.d) and Fraction(self.d.get(0, 0)).denominator == 1:
            return int(self.d.get(0, 0))
        raise TypeError('symbolic real used as an index')

    def __int__(self):
        if all(k == 0 for k in self.d):
            return int(self.d.get(0, 0))
        raise Unsupported('int() of a symbolic real')

    # numpy scalar protocol helpers
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def expm1(self):
        return sym_exp(self) - 1

    @property
    def real(self):
        return self

    # Fraction-like protocol (coefficients may be symbolic)
    @property
    def numerator(self):
        return LPTag(self, 'num')

    @property
    def denominator(self):
        return LPTag(self, 'den')

    def __repr__(self):
        if not self.d:
            return 'LP(0)'
        out = []
        for k, v in list(self.d.items())[:8]:
            out.append(str(v) + ''.join('*%s^%d' % (SP.atoms[i].name, e) for i, e in unpack(k)))
        return 'LP(' + ' + '.join(out) + (' ...' if len(self.d) > 8 else '') + ')'


class LPTag:
    """Uninterpreted numerator / denominator of a symbolic coefficient (for str())."""
    __slots__ = ('lp', 'tag')

    def __init__(self, lp, tag):
        self.lp, self.tag = lp, tag

    def __repr__(self):
        return core.token(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec not in ('', 'd', 's'):
            raise Unsupported('format spec %r on a symbolic fraction' % spec)
        return core.token(self)


class HalfInt:
    """n/2 for a symbolic integer n."""
    __slots__ = ('twice',)

    def __init__(self, twice):
        self.twice = twice

    def __neg__(self):
        return HalfInt(-self.twice)

    def __rpow__(self, base):
        return to_lp(base) ** self


def half_of(n, o):
    if isinstance(o, (int, float)) and o == 2:
        return HalfInt(n)
    if isinstance(o, (SInt, int, LP, Fraction)):
        return to_lp(n) / to_lp(o)
    return NotImplemented


def primitive(p):
    """p = mono * c * prim with prim having no monomial content, leading coeff 1."""
    mins = None
    for k in p.d:
        e = dict(unpack(k))
        if mins is None:
            mins = e
        else:
            mins = {i: min(v, e.get(i, 0)) for i, v in
                    list(mins.items()) + [(i, min(0, v)) for i, v in e.items() if i not in mins]}
    mono = pack(mins.items())
    d = {k - mono: v for k, v in p.d.items()}
    lead = d[max(d)]
    return mono, lead, LP({k: Fraction(v) / lead for k, v in d.items()})


# --------------------------------------------------------------- atoms / functions
def var(name, sign='real'):
    a = SP.by_name.get(name)
    if a is None:
        a = SP.new(name, 'var', sign)
    return LP({1 << (W * a.i): 1})


def const(x):
    return to_lp(x)


def register_exp(arg, name):
    """Declare e^{arg} (arg a monomial LP, e.g. k*h) as a positive atom."""
    (k, v), = arg.d.items()
    if k in SP.exps:
        return LP({1 << (W * SP.exps[k][0].i): 1})
    a = SP.new(name, 'exp', 'pos', base=arg)
    SP.exps[k] = (a, Fraction(v))
    return LP({1 << (W * a.i): 1})


def sym_exp(x):
    if isinstance(x, GP):
        return gp_exp(x)
    x = to_lp(x)
    if x is None:
        raise Unsupported('exp')
    key = 0
    for k, v in x.d.items():
        hit = SP.exps.get(k)
        if hit is None:
            return gp_exp(GP([(LP({k: v}), {}) for k, v in x.d.items()]))
        a, unit = hit
        n = Fraction(v) / unit
        if n.denominator != 1:
            raise Unsupported('fractional exponent e^{%s}' % x)
        key += int(n) << (W * a.i)
    return LP({key: 1})


def lp_sqrt(x):
    x = to_lp(x)
    if not x.d:
        return x
    if len(x.d) == 1:
        (k, v), = x.d.items()
        ps = unpack(k)
        v = Fraction(v)
        rn, rd = math.isqrt(v.numerator) if v > 0 else 0, math.isqrt(v.denominator)
        if v > 0 and rn * rn == v.numerator and rd * rd == v.denominator and \
                all(e % 2 == 0 and SP.atoms[i].sign in ('pos', 'nonneg') for i, e in ps):
            return LP({pack((i, e // 2) for i, e in ps): Fraction(rn, rd)})
        if all(SP.atoms[i].sign in ('pos', 'nonneg') for i, e in ps) and len(ps) and (
                len(ps) > 1 or abs(ps[0][1]) > 1 or v != 1) and v > 0:
            # split over non-negative factors so that sqrt(a*b) = sqrt(a)*sqrt(b)
            r = to_lp(1)
            for i, e in ps:
                q, m = divmod(e, 2)
                r = r * LP({q << (W * i): 1})
                if m:
                    r = r * lp_sqrt(LP({1 << (W * i): 1}))
            if not (rn * rn == v.numerator and rd * rd == v.denominator):
                r = r * lp_sqrt_atom(to_lp(v))
            else:
                r = r * Fraction(rn, rd)
            return r
    return lp_sqrt_atom(x)


def lp_sqrt_atom(x):
    key = frozenset(x.d.items())
    a = SP.sqrt_of.get(key)
    if a is None:
        a = SP.new('sqrt%d' % len(SP.sqrt_of), 'sqrt', 'nonneg', base=x)
        SP.sqrt_of[key] = a
    return LP({1 << (W * a.i): 1})


def sym_sqrt(x):
    """math.sqrt on a symbolic argument: negative arguments raise, as in Python."""
    x = to_lp(x)
    if x is None:
        raise Unsupported('sqrt')
    if core.CUR is not None and not known_nonneg(x):
        if bool(x < 0):
            raise ValueError('math domain error')
    return lp_sqrt(x)


def known_nonneg(x):
    if not x.d:
        return True
    return all(v > 0 and all(SP.atoms[i].sign in ('pos', 'nonneg') or e % 2 == 0
                             for i, e in unpack(k)) for k, v in x.d.items())


def derive(p, name):
    """partial derivative with respect to the plain atom `name` (exponentials, square roots and
    reciprocals are differentiated through)"""
    x = SP.by_name[name].i
    p = normal(to_lp(p))
    ids = {i for k in p.d for i, _ in unpack(k)}
    da = {}
    for i in ids:
        a = SP.atoms[i]
        if i == x:
            da[i] = to_lp(1)
        elif a.kind == 'exp':
            d = derive(a.base, name)
            if d.d:
                da[i] = d * LP({1 << (W * i): 1})
        elif a.kind == 'sqrt':
            d = derive(a.base, name)
            if d.d:
                da[i] = d * LP({-(1 << (W * i)): Fraction(1, 2)})
        elif a.kind == 'inv':
            d = derive(a.base, name)
            if d.d:
                da[i] = -d * LP({2 << (W * i): 1})
    r = {}
    for i, d in da.items():
        q = {}
        for k, v in p.d.items():
            for j, e in unpack(k):
                if j == i:
                    q[k - (1 << (W * i))] = v * e
        for k, v in (LP(q) * d).d.items():
            r[k] = r.get(k, 0) + v
    return LP({k: v for k, v in r.items() if v != 0})


def rename(p, names):
    """p with plain atoms replaced (names: old -> new), inside exponentials, roots and reciprocals too"""
    p = to_lp(p)
    memo = {}

    def image(i):
        if i not in memo:
            a = SP.atoms[i]
            if a.name in names:
                r = LP({1 << (W * SP.by_name[names[a.name]].i): 1})
            elif a.kind == 'exp':
                r = sym_exp(rename(a.base, names))
            elif a.kind == 'sqrt':
                r = lp_sqrt(rename(a.base, names))
            elif a.kind == 'inv':
                r = rename(a.base, names).inverse()
            else:
                r = LP({1 << (W * i): 1})
            memo[i] = r
        return memo[i]
    out = LP({})
    for k, v in p.d.items():
        t = LP({0: v})
        for i, e in unpack(k):
            t = t * image(i) ** e
        out = out + t
    return out


# --------------------------------------------------------------- solver emission
def normal(p):
    """Reduce squares of sqrt atoms (r*r -> base)."""
    if not SP.sqrt_of:
        return p
    idx = {a.i: a for a in SP.sqrt_of.values()}
    out = LP({})
    plain = {}
    todo = False
    for k, v in p.d.items():
        ps = unpack(k)
        if any(i in idx and not (0 <= e <= 1) for i, e in ps):
            todo = True
            base = LP({0: v})
            rest = []
            for i, e in ps:
                if i in idx and not (0 <= e <= 1):
                    q, m = divmod(e, 2)
                    base = base * (idx[i].base ** q)
                    if m:
                        rest.append((i, 1))
                else:
                    rest.append((i, e))
            out = out + base * LP({pack(rest): 1})
        else:
            plain[k] = v
    if not todo:
        return p
    return normal(out + LP(plain))


def clear_inv(ps):
    """Common clearing of 'inv' atoms for a list of LPs: multiplies all of them by
    the same product of bases and the same positive integer."""
    invs = {a.i: a for a in SP.inv_of.values()}
    if not invs:
        return ps
    mx = {}
    for p in ps:
        for k in p.d:
            for i, e in unpack(k):
                if i in invs:
                    mx[i] = max(mx.get(i, 0), e)
    if not mx:
        return ps
    powc = {}

    def bp(i, n):
        r = powc.get((i, n))
        if r is None:
            b, m = invs[i].base, scale(i)
            r = powc[(i, n)] = LP({k: int(v * m) for k, v in b.d.items()}) ** n
        return r

    def scale(i):
        r = powc.get(i)
        if r is None:
            r = powc[i] = math.lcm(*{v.denominator for v in invs[i].base.d.values()})
        return r
    # a common positive factor makes every coefficient an integer
    den = 1
    for p in ps:
        den = math.lcm(den, *{v.denominator for v in p.d.values()})
    out = []
    for p in ps:
        groups = {}
        for k, v in p.d.items():
            v = v.numerator * (den // v.denominator)
            e = {i: 0 for i in mx}
            rest = k
            for i, x in unpack(k):
                if i in invs:
                    e[i] = x
                    rest -= x << (W * i)
            g = groups.setdefault(tuple(sorted(e.items())), {})
            g[rest] = g.get(rest, 0) + v
        acc = LP({})
        for e, d in groups.items():
            f = LP(d)
            for i, x in e:
                if x and scale(i) != 1:
                    f = f * scale(i) ** x
                if mx[i] - x:
                    f = f * bp(i, mx[i] - x)
            acc = acc + f
        out.append(acc)
    return out


def clear_monomial(ps):
    mins = {}
    for p in ps:
        for k in p.d:
            for i, e in unpack(k):
                if e < mins.get(i, 0):
                    mins[i] = e
    shift = pack((i, -e) for i, e in mins.items())
    return [LP({k + shift: v for k, v in p.d.items()}) for p in ps], \
        [(SP.atoms[i], -e) for i, e in mins.items()]


def emit(p):
    """z3 Real expression for an LP without negative exponents."""
    ts = []
    for k, v in p.d.items():
        fs = [SP.atoms[i].power(e) for i, e in unpack(k)]
        v = Fraction(v)
        c = z3.RatVal(v.numerator, v.denominator)
        if not fs:
            ts.append(c)
        elif v == 1:
            ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        else:
            ts.append(z3.Product([c] + fs))
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def poly_atoms(ps):
    s = set()
    for p in ps:
        for k in p.d:
            s.update(i for i, _ in unpack(k))
    todo = list(s)
    while todo:
        a = SP.atoms[todo.pop()]
        if a.kind in ('sqrt',) and a.base is not None:
            for k in a.base.d:
                for i, _ in unpack(k):
                    if i not in s:
                        s.add(i)
                        todo.append(i)
    return [SP.atoms[i] for i in sorted(s)]


def domain(atoms):
    out = []
    for a in atoms:
        if a.sign == 'pos':
            out.append(a.zv > 0)
        elif a.sign == 'nonneg':
            out.append(a.zv >= 0)
        elif a.sign == 'corr':
            out += [a.zv >= -1, a.zv <= 1]
        if a.kind == 'sqrt':
            (q,), dens = clear_monomial([a.base])
            lhs = a.zv * a.zv
            for at, e in dens:
                lhs = lhs * at.power(e)
            out.append(lhs == emit(q))
    return out


def lp_cmp(p, op):
    """Truth of  p op 0  (bool if trivially decided, else SBool)."""
    p = normal(p)
    if not p.d:
        return op in ('==', '<=', '>=')
    if len(p.d) == 1 and 0 in p.d:
        v = p.d[0]
        return {'==': v == 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
    if SP.draws and core.CUR is not None and any(a.i in SP.draws for a in poly_atoms([p])):
        return generic(p, op, core.CUR)
    ck = (frozenset(p.d.items()), op)
    hit = SP.cmp_cache.get(ck)
    if hit is None:
        (q,), dens = clear_monomial(clear_inv([p]))
        for a, e in dens:
            if a.sign != 'pos' and e % 2 and op != '==':
                raise Unsupported('sign of denominator %s unknown' % a.name)
        if op != '==':
            for k in p.d:
                for i, e in unpack(k):
                    if SP.atoms[i].kind == 'inv':
                        raise Unsupported('inequality with a reciprocal')
        t = emit(q)
        z = {'==': t == 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op]
        hit = SP.cmp_cache[ck] = (SBool(z3.simplify(z)), [(a.i, domain([a])) for a in poly_atoms([q])])
    e = core.CUR
    if e is not None:
        seen = e.names.setdefault('dom', set())
        for i, cs in hit[1]:
            if i not in seen:
                seen.add(i)
                for c in cs:
                    e.solver.add(c)
    return hit[0]


def generic(p, op, e):
    """p op 0 for a quantity that depends on continuous random draws: p = 0 has probability zero, so
    one strict comparison (with a fixed orientation) stands for all six operators"""
    if op == '==':
        return False
    (q,), dens = clear_monomial([p])
    flip = q.d[max(q.d)] < 0
    if any(a.sign not in ('pos', 'nonneg') and x % 2 for a, x in dens):
        raise Unsupported('sign of a denominator is unknown')
    if flip:
        q = -q
    key = (frozenset(q.d.items()), 'draw')
    hit = SP.cmp_cache.get(key)
    if hit is None:
        t = emit(q)
        hit = SP.cmp_cache[key] = (t < 0, t != 0, [(a.i, domain([a])) for a in poly_atoms([q])])
    seen = e.names.setdefault('dom', set())
    e.names.setdefault('old draws', set())
    for i, cs in hit[2]:
        if i not in seen:
            seen.add(i)
            for c in cs:
                e.solver.add(c)
    if key not in seen:
        seen.add(key)
        e.solver.add(hit[1])
        ids = {i for i, _ in hit[2]}
        for i in ids & SP.draws:
            if i not in e.names.setdefault('old draws', set()) and all(dict(unpack(k)).get(i, 0) <= 1 for k in q.d):
                # linear in a draw that no earlier condition mentions: both signs are possible
                e.names.setdefault('free', set()).add(hit[0].get_id())
        e.names['old draws'] |= ids & SP.draws
        if SP.keep:
            e.solver.add(z3.Not(hit[0]) if not flip else hit[0])
    e.names.setdefault('lin', {})[hit[0].get_id()] = (hit[0], q, flip)
    neg = hit[0]                                      # q < 0; never negated twice: `sim` looks the condition up
    return SBool(neg if (op in ('<', '<=')) != flip else z3.Not(neg))


# --------------------------------------------------------------- symbolic exponents
class GP:
    """sum of coef(LP) * prod(base_atom ** exponent) with symbolic exponents."""
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = ts

    @staticmethod
    def of(x):
        if isinstance(x, GP):
            return x
        l = to_lp(x)
        if l is None:
            return None
        return GP([(l, {})]) if l.d else GP([])

    def __add__(self, o):
        o = GP.of(o)
        return NotImplemented if o is None else GP(self.ts + o.ts)

    __radd__ = __add__

    def __neg__(self):
        return GP([(-c, e) for c, e in self.ts])

    def __sub__(self, o):
        o = GP.of(o)
        return NotImplemented if o is None else GP(self.ts + (-o).ts)

    def __rsub__(self, o):
        o = GP.of(o)
        return NotImplemented if o is None else GP(o.ts + (-self).ts)

    def __mul__(self, o):
        o = GP.of(o)
        if o is None:
            return NotImplemented
        out = []
        for c1, e1 in self.ts:
            for c2, e2 in o.ts:
                e = dict(e1)
                for b, n in e2.items():
                    e[b] = e[b] + n if b in e else n
                out.append((c1 * c2, e))
        return GP(out)

    __rmul__ = __mul__

    def inverse(self):
        if len(self.ts) != 1:
            raise Unsupported('division by a symbolic-exponent sum')
        c, e = self.ts[0]
        return GP([(c.inverse(), {b: -n for b, n in e.items()})])

    def __truediv__(self, o):
        o = GP.of(o)
        return NotImplemented if o is None else self * o.inverse()

    def __rtruediv__(self, o):
        o = GP.of(o)
        return NotImplemented if o is None else o * self.inverse()

    def __pow__(self, n):
        if len(self.ts) == 1:
            c, e = self.ts[0]
            r = GP.of(c ** n)
            return r * GP([(to_lp(1), {b: x * n for b, x in e.items()})])
        if isinstance(n, int) and n >= 0:
            r = GP.of(1)
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported('power of a symbolic-exponent sum')

    def __hash__(self):
        return 0x77

    def __eq__(self, o):
        raise Unsupported('equality test on a symbolic-exponent value inside the code')

    def __lt__(self, o):
        raise Unsupported('comparison of a symbolic-exponent value inside the code')

    __gt__ = __le__ = __ge__ = __lt__

    def __repr__(self):
        return 'GP(%r)' % (self.ts,)


def prime_powers(v):
    out = []
    for val, sg in ((v.numerator, 1), (v.denominator, -1)):
        q = 2
        while val > 1:
            n = 0
            while val % q == 0:
                val //= q
                n += 1
            if n:
                out.append((q, sg * n))
            q += 1
    return out


def gp_base(p):
    """canonical base for p ** n with symbolic n: single atoms stay atoms."""
    if len(p.d) == 1:
        return None
    key = frozenset(p.d.items())
    b = SP.gp_base.get(key)
    if b is None:
        b = SP.gp_base[key] = ('base', len(SP.gp_base), p)
    return b


def gp_pow(p, n):
    """p ** n, n a symbolic integer."""
    if len(p.d) == 0:
        raise Unsupported('0 ** n')
    if len(p.d) == 1:
        (k, v), = p.d.items()
        e = {}
        v = Fraction(v)
        if v < 0:
            e[('rat', -1)] = n
            v = -v
        for q, x in prime_powers(v):
            e[('rat', q)] = n * x
        for i, x in unpack(k):
            e[('atom', i)] = n * x
        return GP([(to_lp(1), e)])
    mono, c, prim = primitive(p)
    b = gp_base(prim)
    r = GP([(to_lp(1), {('base', b[1]): n})])
    if mono or c != 1:
        r = r * gp_pow(LP({mono: c}), n)
    return r


def gp_exp(x):
    """e^{sum}, each summand an integer (possibly symbolic) multiple of a registered
    exponent product."""
    e = {}
    for c, ex in x.ts:
        if ex:
            raise Unsupported('exp of a power')
        for k, v in c.d.items():
            # split k = (registered product) * (integer atoms)
            hit = None
            ints = [(i, n) for i, n in unpack(k) if SP.atoms[i].kind == 'int']
            rest = pack((i, n) for i, n in unpack(k) if SP.atoms[i].kind != 'int')
            if rest not in SP.exps:
                raise Unsupported('exp of unregistered product %r' % (c,))
            a, unit = SP.exps[rest]
            f = Fraction(v) / unit
            if f.denominator != 1:
                raise Unsupported('fractional exponent')
            m = z3.IntVal(int(f))
            for i, n in ints:
                if n < 0:
                    raise Unsupported('exp')
                for _ in range(n):
                    m = m * SP.atoms[i].zv.children()[0]
            m = core.mk_int(m)
            b = ('atom', a.i)
            e[b] = e[b] + m if b in e else m
    return GP([(to_lp(1), {b: n for b, n in e.items()})])


def gp_terms(x):
    """[(coefficient LP, {base: int|SInt})]; concrete exponents of model atoms are
    merged into the exponent map, integer and coefficient atoms stay in the
    coefficient."""
    out = []
    for c, ex in GP.of(x).ts:
        for k, v in normal(c).d.items():
            e = dict(ex)
            ck = 0
            for i, n in unpack(k):
                a = SP.atoms[i]
                if a.kind in ('int', 'coef', 'inv'):
                    ck += n << (W * i)
                else:
                    b = ('atom', i)
                    e[b] = e[b] + n if b in e else n
            out.append((LP({ck: v}), e))
    return out


def gp_differ(a, b, tag=''):
    """z3 condition: the coefficient of some monomial differs between a and b.

    Bases are algebraically independent (the sign (-1)^n is a factor of the coefficient), so this is exactly 'a and b are different
    functions'.  Returns (condition, exponent variables)."""
    ta, tb = gp_terms(a), gp_terms(b)
    bases = sorted({x for t in ta + tb for x in t[1] if x != ('rat', -1)}, key=str)
    xs = {x: z3.Int('x!%s!%d' % (tag, n)) for n, x in enumerate(bases)}
    cs = [c for c, _ in ta] + [c for c, _ in tb]
    cs, _ = clear_monomial(clear_inv(cs)) if cs else ([], None)
    zs = []
    for (c, (_, e)) in zip(cs, ta + tb):
        cond = [xs[x] == core.zi(e.get(x, 0)) for x in bases]
        v = emit(c)
        if ('rat', -1) in e:
            v = z3.If(core.zi(e[('rat', -1)]) % 2 == 0, v, -v)
        zs.append(z3.If(z3.And(cond) if cond else z3.BoolVal(True), v, z3.RealVal(0)))
    sa = z3.Sum(zs[:len(ta)]) if ta else z3.RealVal(0)
    sb = z3.Sum(zs[len(ta):]) if tb else z3.RealVal(0)
    return sa != sb, xs
