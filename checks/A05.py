"""A05: f_Z equals its documented nested sum over the jumps"""
import itertools

from symx import shim
from symx.lp import GP
from symx.path import PCase, PSuite
from symx.polyx import one

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('A05')
LEVEL = 'other'
EXPLAIN = ('f_Z is executed with symbolic exponent vectors, symbolic jump sizes and symbolic jump times (every order of the '
           'times is a path); z3 decides that the value equals the documented nested sum for all exponents.')
BOUNDS = {'quick': 'all integer exponents, jump sizes and distinct (or tied) jump times; depth 0..3 with 0..3 jumps, depth 4 with 2',
          'thorough': 'depth up to 4 with up to 4 jumps (5 jumps at depth 2)'}
ASSUME = ['e^{k s_i} are independent positive reals (stronger than needed)', 'z3 and the term representation are trusted']
U = lambda: shim.mod('utils')


def setup(E, n, ties):
    k = E.atom('k')
    names = ['s%d' % (0 if ties and i < 2 else i) for i in range(n)]
    s = [E.atom(x) for x in names]
    J = [E.atom('J%d' % i) for i in range(n)]
    E.exps(*[k * E.atom(x) for x in sorted(set(names))])
    d = sorted(set(names))
    for a in range(len(d)):
        for b in range(a):
            E.assume(E.atom(d[a]) != E.atom(d[b]))
    return k, s, J


def exps(E, m):
    l = tuple(E.int('l%d' % i) for i in range(m))
    o = tuple(E.int('o%d' % i) for i in range(m))
    p = tuple(E.int('p%d' % i) for i in range(m - 1))
    q = tuple(E.int('q%d' % i) for i in range(m - 1))
    return l, o, p, q


def summand(E, l, o, p, q, k, s, J, idx):
    f = GP.of(1) if E.symbolic else E.num(1)
    for i, j in enumerate(idx):
        f = f * E.exp(l[i] * (k * s[j])) * J[j] * s[j] ** o[i]
    for i in range(1, len(idx)):
        big = s[idx[0]]
        for j in idx[1:i + 1]:
            if s[j] is not big and bool(s[j] > big):
                big = s[j]
        f = f * E.exp(p[i - 1] * (k * big)) * big ** q[i - 1]
    return f


def fz(name, m, n, ties):
    def body(E):
        k, s, J = setup(E, n, ties)
        l, o, p, q = exps(E, m)
        got = U().fZ(l, o, p, q, k, tuple(s), tuple(J))
        if m == 0:
            want = E.num(1)
        else:
            want = GP([]) if E.symbolic else E.num(0)
            for idx in itertools.product(range(n), repeat=m):
                want = want + summand(E, l, o, p, q, k, s, J, idx)
        E.same('f_Z is the nested sum', got, want)
    return PCase(name, body, max_paths=20000)


def each(name, m, n):
    def body(E):
        k, s, J = setup(E, n, False)
        l, o, p, q = exps(E, m)
        for idx in itertools.product(range(n), repeat=m):
            E.same('summand %s' % (idx,), U().fZ_each_index(l, o, p, q, k, tuple(s), tuple(J), list(idx)),
                   summand(E, l, o, p, q, k, s, J, idx))
    return PCase(name, body)


for m in range(0, 5):
    for n in range(0, 6):
        t = n <= {0: 4, 1: 5, 2: 5, 3: 4, 4: 3}[m]
        qk = n <= {0: 3, 1: 4, 2: 3, 3: 3, 4: 2}[m]
        if t:
            nm = 'depth %d over %d jumps' % (m, n)
            S.add(nm, one(fz, nm, m, n, False), quick=qk, weight=(n + 1) ** (m + 2))
            if n >= 2 and m >= 1 and n <= 3:
                S.add(nm + ' (tied times)', one(fz, nm + ' (tied times)', m, n, True), quick=qk, weight=(n + 1) ** (m + 1))
for m, n in ((1, 2), (2, 2), (3, 2), (2, 3)):
    nm = 'summands of depth %d over %d jumps' % (m, n)
    S.add(nm, one(each, nm, m, n), weight=n ** m)
S.history(9)
tasks, replay = S.tasks, S.replay
