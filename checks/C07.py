"""C07: conditional central moments of the increment given v0, one-factor model"""
from symx import shim, eq, std
from symx.models import Heston

shim.load()
S = std.Suite('C07')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN = 8, 10
BOUNDS = {'quick': 'order 0..%d; all parameter values and initial variances' % QN,
          'thorough': 'order 0..%d; all parameter values and initial variances' % TN}


def build(name, n):
    def b():
        M = Heston()
        mod = shim.mod('mdl_1fsv.cond_cmom')
        return [eq.Case(name, M.pars, lambda P: mod.cond_cm(n, dict(P)), lambda P: M.central(P, n), M.exps,
                        'the conditional central moment differs from that of the model')]
    return b


for n in range(TN + 1):
    nm = '1fsv E[(y-Ey)^%d|v0]' % n
    S.add(nm, build(nm, n), quick=n <= QN, weight=4 ** n)

S.history(256)
tasks = S.tasks
