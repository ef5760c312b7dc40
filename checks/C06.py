"""C06: covariances of powers of consecutive increments, two-factor models"""
from symx import shim, eq, std
from symx.models import SV

shim.load()
S = std.Suite('C06')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON + ['two-factor models: the positions where n1*k1+n2*k2 = 0 for some divided combination (the documented assumption) are excluded'], S.replay
BOUNDS = {'quick': 'l1,l2>=1, l1+l2<=5; all parameter values', 'thorough': 'l1,l2>=1, l1+l2<=6; all parameter values'}


def build(name, model, arg):
    def b():
        M = SV(model)
        mod = shim.mod('mdl_%s.cov' % model)
        return [eq.Case(name, M.pars, lambda P: mod.cov(arg[0], arg[1], dict(P)), lambda P: M.cov(P, *arg), M.exps,
                        'the covariance differs from that of the model')]
    return b


for model, q, t in [('2fsv', 5, 6), ('2fsvj', 5, 6)]:
    for a in range(1, t):
        for b in range(1, t + 1 - a):
            nm = '%s cov(y1^%d,y2^%d)' % (model, a, b)
            S.add(nm, build(nm, model, (a, b)), quick=a + b <= q, weight=4 ** (a + b) * (9 if model[0] == '2' else 1))

S.history(144)
tasks = S.tasks
