"""C03: covariances of powers of consecutive increments, one-factor models"""
from symx import shim, eq, std
from symx.models import SV

shim.load()
S = std.Suite('C03')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON + [], S.replay
BOUNDS = {'quick': 'l1,l2>=1, l1+l2<=6; all parameter values', 'thorough': 'l1,l2>=1, l1+l2<=8 (1fsv), <=7 (1fsvj); all parameter values'}


def build(name, model, arg):
    def b():
        M = SV(model)
        mod = shim.mod('mdl_%s.cov' % model)
        return [eq.Case(name, M.pars, lambda P: mod.cov(arg[0], arg[1], dict(P)), lambda P: M.cov(P, *arg), M.exps,
                        'the covariance differs from that of the model')]
    return b


for model, q, t in [('1fsv', 6, 8), ('1fsvj', 6, 7)]:
    for a in range(1, t):
        for b in range(1, t + 1 - a):
            nm = '%s cov(y1^%d,y2^%d)' % (model, a, b)
            S.add(nm, build(nm, model, (a, b)), quick=a + b <= q, weight=4 ** (a + b) * (9 if model[0] == '2' else 1))

S.history(64)
tasks = S.tasks
