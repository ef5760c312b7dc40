"""C05: central moments of the increment, two-factor models"""
from symx import shim, eq, std
from symx.models import SV

shim.load()
S = std.Suite('C05')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON + ['two-factor models: the positions where n1*k1+n2*k2 = 0 for some divided combination (the documented assumption) are excluded'], S.replay
BOUNDS = {'quick': 'order n: 0..5; all parameter values', 'thorough': 'order n: 0..6; all parameter values'}


def build(name, model, arg):
    def b():
        M = SV(model)
        mod = shim.mod('mdl_%s.cmom' % model)
        return [eq.Case(name, M.pars, lambda P: mod.cm(arg, dict(P)), lambda P: M.central(P, arg), M.exps,
                        'the central moment differs from that of the model')]
    return b


for model, lo, q, t in [('2fsv', 0, 5, 6), ('2fsvj', 0, 5, 6)]:
    for n in range(lo, t + 1):
        nm = '%s cm_%d' % (model, n)
        S.add(nm, build(nm, model, n), quick=n <= q, weight=4 ** n * (9 if model[0] == '2' else 1))

S.history(144)
tasks = S.tasks
