"""C01: unconditional moments of the increment, one-factor models"""
from symx import shim, eq, std
from symx.models import SV

shim.load()
S = std.Suite('C01')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON + [], S.replay
BOUNDS = {'quick': 'order n: 0..8 (1fsv), 0..7 (1fsvj); all parameter values', 'thorough': 'order n: 0..10 (1fsv), 0..9 (1fsvj); all parameter values'}


def build(name, model, arg):
    def b():
        M = SV(model)
        mod = shim.mod('mdl_%s.mom' % model)
        return [eq.Case(name, M.pars, lambda P: mod.m(arg, dict(P)), lambda P: M.raw(P, arg), M.exps,
                        'the moment differs from that of the model')]
    return b


for model, lo, q, t in [('1fsv', 0, 8, 10), ('1fsvj', 0, 7, 9)]:
    for n in range(lo, t + 1):
        nm = '%s E[y^%d]' % (model, n)
        S.add(nm, build(nm, model, n), quick=n <= q, weight=4 ** n * (9 if model[0] == '2' else 1))

S.history(256)
tasks = S.tasks
