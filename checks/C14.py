"""C14: moments of the increment of the contemporaneous-jump model, given v0: True"""
from symx import shim, eq, std
from symx.models import SVCJ

shim.load()
S = std.Suite('C14')
LEVEL, EXPLAIN, ASSUME, replay = 'other', std.EXPLAIN, std.COMMON, S.replay
QN, TN = 5, 6
BOUNDS = {'quick': 'order 0..%d; all parameter values' % QN, 'thorough': 'order 0..%d; all parameter values' % TN}


def build(name, what, n):
    def b():
        M = SVCJ(True)
        mod, fn = ('cond_mom.m_y' if what == 'raw' else 'cond_cmom.cm_y').split('.')
        return [eq.Case(name, M.pars, lambda P: getattr(shim.mod('mdl_svcj.' + mod), fn)(n, dict(P)),
                        lambda P: getattr(M, what)(P, n), M.exps, 'the moment differs from that of the model')]
    return b


for n in range(TN + 1):
    for what in ('raw', 'central'):
        nm = 'svcj %s order %d' % (what, n)
        S.add(nm, build(nm, what, n), quick=n <= QN, weight=6 ** n)

S.history(36)
tasks = S.tasks
