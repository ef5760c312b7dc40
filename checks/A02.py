"""A02: arithmetic isolates its operands, rejects mismatched variables, drops cancelled terms"""
from symx import shim
from symx.path import PCase, PSuite
from symx.polyx import mk, D, one, poly

shim.load(symbolic_keys=True, symbolic_fraction=True)
S = PSuite('A02')
LEVEL = 'other'
EXPLAIN = ('Poly operations are executed on operands with symbolic integer exponents and symbolic coefficients; on every '
           'feasible path z3 decides that both operands still denote what they denoted, that writing into the result '
           'does not reach them, that no surviving coefficient is zero, and that mismatched variable lists raise.')
BOUNDS = {'quick': 'all integer exponents and real coefficients; operands of up to 3 terms and 3 variables',
          'thorough': 'as quick with products of 3x3 terms'}
ASSUME = ['operands have pairwise distinct keys and, for the no-zero-term claim, non-zero coefficients',
          'z3 and the term representation (symx/lp.py) are trusted']

OPS = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q,
       'scalar *': lambda p, q: 3 * p, '** 1': lambda p, q: p ** 1, '** 2': lambda p, q: p ** 2,
       'mul_poly': lambda p, q: p.mul_poly(q, ([0, 1, -1], [-1, 0, 1]), ['f', 'g', 'h']),
       'copy': lambda p, q: p.copy()}


def isolate(name, op, na, nb, same=False):
    def body(E):
        p = mk(E, 'a', na, 2, nonzero=True)
        q = p if same else mk(E, 'b', nb, 2, nonzero=True)
        dp, dq, kf = D(E, p), D(E, q), tuple(p.keyfor)
        r = OPS[op](p, q)
        E.claim('the result is a new object', r is not p and r is not q)
        dr = D(E, r)
        E.same('left operand unchanged', D(E, p), dp)
        E.same('right operand unchanged', D(E, q), dq)
        E.claim('operands keep their size', len(p) == na and len(q) == (na if same else nb))
        E.claim('operands keep their variables', tuple(p.keyfor) == kf and tuple(q.keyfor) == kf)
        if op != 'copy':
            for c in list(r.values()):
                E.claim('no zero term survives', c != 0)
        # writing into the result must not reach the operands, and the other way round
        z = tuple(E.int('z%d' % j) for j in range(len(r.keyfor)))
        r.add_keyval(z, E.coef('w', nonzero=True))
        dr2 = D(E, r)
        E.same('left operand isolated from the result', D(E, p), dp)
        E.same('right operand isolated from the result', D(E, q), dq)
        p.add_keyval(z[:2], E.coef('w2', nonzero=True))
        E.same('result isolated from the left operand', D(E, r), dr2)
    return PCase(name, body)


def mismatch(name, kf1, kf2, op):
    def body(E):
        p, q = mk(E, 'a', 2, len(kf1), kf1), mk(E, 'b', 1, len(kf2), kf2)
        dp, dq = D(E, p), D(E, q)
        f = {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q, 'merge': lambda: p.merge(q)}[op]
        E.raises('refused', (NotImplementedError, TypeError, ValueError), f)
        E.same('left operand unchanged', D(E, p), dp)
        E.same('right operand unchanged', D(E, q), dq)
        E.claim('types are told apart', p.is_exact_type(q) is False or not p.is_exact_type(q))
    return PCase(name, body)


def nonpoly(name, op):
    def body(E):
        p = mk(E, 'a', 2, 2)
        dp = D(E, p)
        for x in (3, {}, None, 'x'):
            f = {'+': lambda: p + x, '-': lambda: p - x, 'merge': lambda: p.merge(x)}[op]
            E.raises('refused', (NotImplementedError, TypeError, ValueError, AttributeError), f)
        E.same('operand unchanged', D(E, p), dp)
        E.claim('types are told apart', not p.is_exact_type({}))
    return PCase(name, body)


def empty_keyfor(name):
    def body(E):
        p = mk(E, 'a', 1, 1)
        q = poly()()
        q[(E.int('n'),)] = E.coef('c')
        for f in (lambda: p + q, lambda: q + p, lambda: p * q, lambda: p - q, lambda: p.merge(q)):
            E.raises('a poly without variable names is refused', (NotImplementedError, TypeError, ValueError), f)
    return PCase(name, body)


def badpow(name):
    def body(E):
        p = mk(E, 'a', 2, 2)
        n = E.int('n', hi=0)
        E.raises('power <= 0 is refused', (NotImplementedError, TypeError, ValueError), lambda: p ** n)
    return PCase(name, body)


for op in OPS:
    for na, nb in ((1, 1), (2, 2), (3, 2), (3, 3)):
        if op in ('scalar *', '** 1', '** 2', 'copy') and nb != min(na, 2):
            continue
        n = 'operands of %s with %d and %d terms' % (op, na, nb)
        S.add(n, one(isolate, n, op, na, nb), quick=not ((na, nb) == (3, 3) and op in ('*', 'mul_poly'))
              and not ((na, nb) == (3, 2) and op in ('mul_poly', '*', '** 2')),
              weight=na * nb * (9 if op in ('*', 'mul_poly', '** 2') else 2))
for op in ('+', '-', '*'):
    n = 'one object as both operands of %s' % op
    S.add(n, one(isolate, n, op, 2, 2, True), weight=4)
for op in ('+', '-', '*', 'merge'):
    for i, (a, b) in enumerate(((('x', 'y'), ('x', 'z')), (('x', 'y'), ('x',)), (('x', 'y'), ('y', 'x')),
                                (('x', 'y'), ('x', 'y', 'z')), (('x', 'y', 'z'), ('x', 'y', 'w')))):
        n = 'mismatched variables %d %s' % (i, op)
        S.add(n, one(mismatch, n, a, b, op))
    if op != '*':
        n = 'non-polynomial operand %s' % op
        S.add(n, one(nonpoly, n, op))
n = 'poly without variable names'
S.add(n, one(empty_keyfor, n))
n = 'non-positive power'
S.add(n, one(badpow, n))
S.history(1)
tasks, replay = S.tasks, S.replay
