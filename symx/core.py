"""Path-exploring symbolic execution of ordinary Python code.

The code under test is run natively; the values fed to it are proxies over z3
terms.  Whenever the code needs a truth value of a symbolic condition the engine
asks z3 which outcomes are feasible under the current path condition, follows one
and schedules the other.  When all scheduled paths are exhausted every input
inside the declared bounds has been covered.
"""
import collections.abc
import time
import z3


class Unsupported(Exception):
    """The code left the fragment the encoder understands (never a verdict)."""


class Inconclusive(Exception):
    """The solver answered 'unknown' or a resource bound was hit."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0

    def merge(self, o):
        self.queries += o['queries']
        self.time += o['time']
        self.sat += o['sat']
        self.unsat += o['unsat']
        self.unknown += o['unknown']

    def as_dict(self):
        return dict(queries=self.queries, time=self.time, sat=self.sat,
                    unsat=self.unsat, unknown=self.unknown)


STATS = Stats()


def timed_check(solver, *extra):
    t = time.time()
    r = solver.check(*extra)
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r


class _Abort(BaseException):
    """Internal: the current path is infeasible / abandoned."""


class Engine:
    """Depth-first exploration by replaying decision prefixes."""

    def __init__(self, timeout_ms=20000, max_paths=200000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.solver = None
        self.lazy = False        # one side refuted: the other one is taken without asking
        self.base = []
        self.reset_path([])

    # -- assumptions that hold on every path -------------------------------
    def assume_global(self, cond):
        self.base.append(cond)
        self._fresh_solver()

    def _fresh_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        for b in self.base:
            self.solver.add(b)

    def reset_path(self, prefix):
        self._fresh_solver()
        self.prefix = list(prefix)
        self.trace = []          # list of (chosen, alternative_possible)
        self.pending = []
        self.memo = {}
        self.names = {}

    # -- path condition ----------------------------------------------------
    def assume(self, cond):
        """Restrict the current path (harness precondition)."""
        self.solver.add(cond)
        if timed_check(self.solver) == z3.unsat:
            raise _Abort()

    def feasible(self, cond):
        r = timed_check(self.solver, cond)
        if r == z3.unknown:
            raise Inconclusive('solver returned unknown on a branch condition')
        return r == z3.sat

    def branch(self, cond):
        """Return a concrete truth value for z3 Bool `cond`, forking if needed."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond):                  # one decision, however the code phrases it
            return not self.branch(cond.children()[0])
        cid = cond.get_id()
        hit = self.memo.get(cid)
        if hit is not None and hit[0].eq(cond):
            return hit[1]
        n = len(self.trace)
        if n < len(self.prefix):
            choice = self.prefix[n]
            if choice in (0, 1):            # forked decision
                val = bool(choice)
                self.trace.append(choice)
                self.solver.add(cond if val else z3.Not(cond))
            else:                            # forced decision ('t'/'f')
                val = choice == 't'
                self.trace.append(choice)
        else:
            can_t = self.feasible(cond)
            can_f = (not can_t and self.lazy) or self.feasible(z3.Not(cond))
            if can_t and can_f:
                val = True
                self.pending.append(self.trace + [0])
                self.trace.append(1)
                self.solver.add(cond)
            elif can_t:
                val = True
                self.trace.append('t')
            elif can_f:
                val = False
                self.trace.append('f')
            else:
                raise _Abort()
        self.memo[cid] = (cond, val)
        return val

    def concretise(self, term):
        """Pick a concrete value for an Int term, forking over all feasible ones."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        lo_guard = 0
        while True:
            n = len(self.trace)
            if n < len(self.prefix) and isinstance(self.prefix[n], tuple):
                tag, v = self.prefix[n]
                self.trace.append(self.prefix[n])
                if tag == 'eq':
                    self.solver.add(term == v)
                    self.memo.clear()
                    return v
                self.solver.add(term != v)
                continue
            if timed_check(self.solver) != z3.sat:
                raise _Abort()
            v = self.solver.model().eval(term, model_completion=True).as_long()
            if self.feasible(term != v):
                self.pending.append(self.trace + [('ne', v)])
            self.trace.append(('eq', v))
            self.solver.add(term == v)
            self.memo.clear()
            return v

    # -- exploration -------------------------------------------------------
    def explore(self, harness):
        """Run harness() over every feasible path; yields (result, exception)."""
        global CUR
        work = [[]]
        paths = 0
        prev = CUR
        CUR = self
        try:
            while work:
                prefix = work.pop()
                self.reset_path(prefix)
                paths += 1
                if paths > self.max_paths:
                    raise Inconclusive('path bound %d exceeded' % self.max_paths)
                try:
                    res = harness()
                    exc = None
                except _Abort:
                    work.extend(self.pending)
                    continue
                work.extend(self.pending)
                yield res
        finally:
            CUR = prev
            self.paths = paths

    def model(self):
        if timed_check(self.solver) != z3.sat:
            raise Inconclusive('no model for a path condition')
        return self.solver.model()


CUR = None


def eng():
    if CUR is None:
        raise Unsupported('symbolic branch outside an exploration')
    return CUR


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        if isinstance(o, bool):
            return SBool(self.t if o else z3.Not(self.t))
        return NotImplemented

    def __and__(self, o):
        return SBool(z3.And(self.t, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, zbool(o)))

    __ror__ = __or__

    __hash__ = None


def zbool(x):
    if isinstance(x, SBool):
        return x.t
    return z3.BoolVal(bool(x))


def mk_int(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def zi(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported('not an integer: %r' % (x,))


TOKENS = {}
TOKEN0 = 9000000000


def token(x):
    """Printed form of a proxy: a unique 10-digit number that can be looked up again."""
    n = TOKEN0 + len(TOKENS)
    TOKENS[n] = x
    return str(n)


class SInt:
    """Symbolic integer."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = z3.Int(t) if isinstance(t, str) else t

    def _bin(self, o, f):
        if isinstance(o, (SInt, int)):
            return mk_int(f(self.t, zi(o)))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return mk_int(-self.t)
    def __pos__(self): return self

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mk_int(self.t / o)
        return int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk_int(self.t % o)
        return int(self) % o

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        from .lp import half_of
        return half_of(self, o)

    def __and__(self, o):
        if o == 1:
            return self % 2
        return int(self) & o

    def __pow__(self, n):
        n = int(n)
        r = 1
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, base):
        if isinstance(base, int) and base == -1:
            return 1 if self % 2 == 0 else -1
        return base ** int(self)

    def _cmp(self, o, f):
        if isinstance(o, (SInt, int)):
            t = z3.simplify(f(self.t, zi(o)))
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            return SBool(t)
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return eng().concretise(self.t)

    def __int__(self):
        return eng().concretise(self.t)

    def __hash__(self):
        # an ordinary hash table needs a value: split on it (sound, finite domain)
        return hash(eng().concretise(self.t))

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec not in ('', 'd', 's'):
            raise Unsupported('format spec %r on a symbolic integer' % spec)
        return token(self)


def sym_eq(a, b):
    """z3 Bool / python bool for structural equality of (nested tuples of) values."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            c = sym_eq(x, y)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        if not out:
            return True
        return z3.And(out) if len(out) > 1 else out[0]
    if isinstance(a, SInt) or isinstance(b, SInt):
        r = a == b
        if r is NotImplemented:
            return False
        if isinstance(r, SBool):
            return r.t
        return bool(r)
    return a == b


def has_sym(k):
    if isinstance(k, tuple):
        return any(has_sym(x) for x in k)
    return isinstance(k, SInt)


class SymDict:
    """Insertion-ordered mapping whose keys may contain symbolic integers.

    Equality of keys is decided by the solver (forking when both outcomes are
    possible), so 'key in d' means what it means for the concrete values.
    """

    def __init__(self, src=None):
        self.ks = []
        self.vs = []
        if src is not None:
            for k in src:
                self[k] = src[k]

    def _find(self, key):
        for i, k in enumerate(self.ks):
            if k is key:
                return i
        for i, k in enumerate(self.ks):
            c = sym_eq(k, key)
            if c is False:
                continue
            if c is True or eng().branch(c):
                return i
        return -1

    def __contains__(self, key):
        return self._find(key) >= 0

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        return self.vs[i]

    def __setitem__(self, key, val):
        i = self._find(key)
        if i < 0:
            self.ks.append(key)
            self.vs.append(val)
        else:
            self.vs[i] = val

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self.ks[i]
        del self.vs[i]

    def __iter__(self):
        return iter(list(self.ks))

    def __len__(self):
        return len(self.ks)

    def keys(self):
        return list(self.ks)

    def values(self):
        return list(self.vs)

    def items(self):
        return list(zip(self.ks, self.vs))

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self.vs[i]

    def pop(self, key, *default):
        i = self._find(key)
        if i < 0:
            if default:
                return default[0]
            raise KeyError(key)
        self.ks.pop(i)
        return self.vs.pop(i)

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i < 0:
            self.ks.append(key)
            self.vs.append(default)
            return default
        return self.vs[i]

    def copy(self):
        n = SymDict()
        n.ks = list(self.ks)
        n.vs = list(self.vs)
        return n

    def update(self, other=(), **kw):
        if hasattr(other, 'keys'):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v

    def clear(self):
        self.ks.clear()
        self.vs.clear()

    def __eq__(self, other):
        try:
            if len(self) != len(other):
                return False
            for k in self.ks:
                if k not in other:
                    return False
                if not (self[k] == other[k]):
                    return False
            return True
        except TypeError:
            return NotImplemented

    def __or__(self, other):
        n = self.copy()
        n.update(other)
        return n

    def __ror__(self, other):
        n = SymDict(other)
        n.update(self)
        return n

    def __ior__(self, other):
        self.update(other)
        return self

    __hash__ = None

    def __repr__(self):
        return 'SymDict(%r)' % (self.items(),)


collections.abc.MutableMapping.register(SymDict)


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, src=None, **kw):
        self.factory = factory
        super().__init__()
        if src is not None:
            self.update(src)
        self.update(kw)

    def __getitem__(self, key):
        i = self._find(key)
        if i >= 0:
            return self.vs[i]
        if self.factory is None:
            raise KeyError(key)
        v = self.factory()
        self.ks.append(key)
        self.vs.append(v)
        return v

    def copy(self):
        n = SymDefaultDict(self.factory)
        n.ks, n.vs = list(self.ks), list(self.vs)
        return n


def mk_symdict_pairs(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


def mk_symdict(src=(), **kw):
    d = SymDict()
    d.update(src)
    d.update(kw)
    return d


def mk_counter(src=()):
    d = SymDefaultDict(int)
    if hasattr(src, 'keys'):
        d.update(src)
    else:
        for k in src:
            d[k] = d[k] + 1
    return d


class SymSet:
    def __init__(self, src=()):
        self.d = SymDict()
        for x in src:
            self.d[x] = None

    def add(self, x):
        self.d[x] = None

    def update(self, *xss):
        for xs in xss:
            for x in xs:
                self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        del self.d[x]

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    union, intersection, difference = __or__, __and__, __sub__

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self)

    __hash__ = None


collections.abc.MutableSet.register(SymSet)
