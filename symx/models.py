"""Reference values for the models the package supports, each from its SDE only."""
from . import ref
from .ref import Proc

P1 = {'k': 'pos', 'h': 'pos', 'mu': 'real', 'theta': 'pos', 'sigma_v': 'pos', 'rho': 'corr'}
PJ = {'lambda': 'pos', 'mu_j': 'real', 'sigma_j': 'pos'}
P2 = {'k1': 'pos', 'k2': 'pos', 'h': 'pos', 'mu': 'real', 'theta1': 'pos', 'theta2': 'pos',
      'sigma_v1': 'pos', 'sigma_v2': 'pos'}


class SV:
    """stationary stochastic-volatility models 1fsv, 1fsvj, 2fsv, 2fsvj"""

    def __init__(self, name):
        self.name = name
        self.two = name.startswith('2')
        self.jump = name.endswith('j')
        self.pars = dict(P2 if self.two else P1)
        if self.jump:
            self.pars.update(PJ)
        self.exps = [('k1', 'h'), ('k2', 'h')] if self.two else [('k', 'h')]

    def proc(self, P, drift=None):
        j = ref.cpp_jump_normal(P['lambda'], P['mu_j'], P['sigma_j']) if self.jump else None
        mu = P['mu'] if drift is None else drift
        one = P['h'] * 0 + 1
        if self.two:
            z = P['h'] * 0
            return Proc([P['k1'], P['k2']],
                        ref.heston2_gen(P['k1'], P['theta1'], P['sigma_v1'], P['k2'], P['theta2'],
                                        P['sigma_v2'], mu, z, z, j), one)
        return Proc([P['k']], ref.heston_gen(P['k'], P['theta'], P['sigma_v'], mu, P['rho'], j), one)

    def ctx(self, P, n, drift=None):
        pr = self.proc(P, drift)
        if self.two:
            es = [P.exp(P['k1'] * P['h']), P.exp(P['k2'] * P['h'])]
            st = [ref.stationary_v(n, P['k1'], P['theta1'], P['sigma_v1']),
                  ref.stationary_v(n, P['k2'], P['theta2'], P['sigma_v2'])]
        else:
            es = [P.exp(P['k'] * P['h'])]
            st = [ref.stationary_v(n, P['k'], P['theta'], P['sigma_v'])]
        return pr, es, st

    def zero(self):
        return (0, 0) if self.two else (0,)

    def raw(self, P, n, drift=None):
        pr, es, st = self.ctx(P, n, drift)
        return pr.mean(self.zero() + (n,), P['h'], es, st)

    def centring(self, P):
        """drift that makes the increment's mean zero (same law up to translation)."""
        d = (P['theta1'] + P['theta2']) if self.two else P['theta']
        d = ref.half(1, P['h']) * d
        if self.jump:
            d = d - P['lambda'] * P['mu_j']
        return d

    def central(self, P, n):
        return self.raw(P, n, drift=self.centring(P))

    def yy(self, P, l1, l2):
        pr, es, st = self.ctx(P, l1 + l2)
        return pr.mean_yy(l1, l2, P['h'], es, st)

    def cov(self, P, l1, l2):
        return self.yy(P, l1, l2) - self.raw(P, l1) * self.raw(P, l2)


def moments_at(proc, n, t, es, v0):
    return [proc.given((0,) * proc.q + (i,), t, es, v0) for i in range(n + 1)]


class Heston:
    """one-factor model given the initial variance (no jumps)"""
    pars = dict(P1, v0='pos')
    exps = [('k', 'h')]

    def central(self, P, n):
        pr = Proc([P['k']], ref.heston_gen(P['k'], P['theta'], P['sigma_v'], P['mu'], P['rho']), P['h'] * 0 + 1)
        return ref.central_from_raw(moments_at(pr, n, P['h'], [P.exp(P['k'] * P['h'])], [P['v0']]), n) \
            if n else P['h'] * 0 + 1


class SVCJ:
    """contemporaneous jumps, jumps averaged out; given v0 or stationary"""
    base = {'k': 'pos', 'h': 'pos', 'mu': 'real', 'theta': 'pos', 'sigma': 'pos', 'rho': 'corr', 'lmbd': 'pos',
            'mu_v': 'pos', 'rhoJ': 'real', 'mu_s': 'real', 'sigma_s': 'pos'}
    exps = [('k', 'h')]

    def __init__(self, given):
        self.given = given
        self.pars = dict(self.base, v0='pos') if given else dict(self.base)

    def proc(self, P, mu):
        j = ref.svcj_jump(P['lmbd'], P['mu_v'], P['rhoJ'], P['mu_s'], P['sigma_s'])
        return Proc([P['k']], ref.heston_gen(P['k'], P['theta'], P['sigma'], mu, P['rho'], j), P['h'] * 0 + 1)

    def raws(self, P, n, mu):
        pr = self.proc(P, mu)
        es = [P.exp(P['k'] * P['h'])]
        if self.given:
            return [pr.given((0, i), P['h'], es, [P['v0']]) for i in range(n + 1)]
        st = ref.stationary_v(n, P['k'], P['theta'], P['sigma'], ref.srjd_jump(P['lmbd'], P['mu_v']))
        return [pr.mean((0, i), P['h'], es, [st]) for i in range(n + 1)]

    def raw(self, P, n):
        return self.raws(P, n, P['mu'])[n]

    def central(self, P, n):
        if n == 0:
            return P['h'] * 0 + 1
        if self.given:
            return ref.central_from_raw(self.raws(P, n, P['mu']), n)
        # stationary: the increment has constant mean drift
        ev = P['theta'] + P['lmbd'] * P['mu_v'] / P['k']
        mu0 = ref.half(1, P['h']) * ev - P['lmbd'] * (P['mu_s'] + P['rhoJ'] * P['mu_v'])
        return self.raws(P, n, mu0)[n]


class SRJD:
    """square-root jump diffusion, jumps averaged out"""
    base = {'k': 'pos', 'theta': 'pos', 'sigma': 'pos', 'lmbd': 'pos', 'mu_v': 'pos'}
    given = dict(base, v0='pos', h='pos')
    exps = [('k', 'h')]

    def stationary(self, P, n):
        return ref.stationary_v(n, P['k'], P['theta'], P['sigma'], ref.srjd_jump(P['lmbd'], P['mu_v']))

    def v_raws(self, P, n):
        z = P['h'] * 0
        pr = Proc([P['k']], ref.heston_gen(P['k'], P['theta'], P['sigma'], z, z,
                                           ref.srjd_jump(P['lmbd'], P['mu_v'])), z + 1)
        es = [P.exp(P['k'] * P['h'])]
        return [pr.given((i, 0), P['h'], es, [P['v0']]) for i in range(n + 1)]

    def xz(self, P, n1, n2):
        """E[IE^n1 IEZ^n2 | v0], IE = int e^{ks} sqrt(v) dw, IEZ = int e^{ks} dz"""
        k, th, sg, lm, mv = (P[x] for x in ('k', 'theta', 'sigma', 'lmbd', 'mu_v'))
        one = P['h'] * 0 + 1
        jm = ref.srjd_jump(lm, mv)

        def gen(al):
            a, x, z = al[0], al[1], al[2]
            o = {}
            if a:
                ref.add(o, (a - 1, x, z, 0), a * k * th)
                if a > 1:
                    ref.add(o, (a - 1, x, z, 0), ref.half(a * (a - 1), k) * sg ** 2)
                if x:
                    ref.add(o, (a, x - 1, z, 0), a * x * sg)
            if x > 1:
                ref.add(o, (a + 1, x - 2, z, 0), ref.half(x * (x - 1), k))
            for i in range(a + 1):
                for j in range(z + 1):
                    if i + j:
                        ref.add(o, (a - i, x, z - j, 0), ref.comb(a, i) * ref.comb(z, j) * jm(i + j, 0))
            return o
        pr = Proc([k], gen, one, rates=[(1,), (1,), (1,)])
        E = P.exp(k * P['h'])
        z = one * 0
        val = pr.given((0, n1, n2, 0), P['h'], [E], [P['v0'], z, z])
        return val * E ** (n1 + n2)


class GivenJumps:
    """models given v0 and the recorded variance jumps; kind in srjd, svvj, svij, svcj"""

    def __init__(self, kind, nj, order=None):
        self.kind, self.nj = kind, nj
        self.order = list(range(nj)) if order is None else list(order)
        self.pars = {'v0': 'pos', 'k': 'pos', 'theta': 'pos', 'sigma': 'pos'}
        if kind != 'srjd':
            self.pars.update(mu='real', rho='corr')
        if kind == 'svij':
            self.pars.update(lmbd_s='pos', mu_s='real', sigma_s='pos')
        if kind == 'svcj':
            self.pars.update(mu_s='real', rho_J='real', sigma_s='pos')
        for i in range(nj):
            self.pars['J%d' % (i + 1)] = 'pos'
        for i in range(nj + 1):
            self.pars['t%d' % (i + 1)] = 'pos'
        self.exps = [('k', 't%d' % (i + 1)) for i in range(nj + 1)]

    def par(self, P):
        """the parameter dictionary the library expects"""
        d = {n: P[n] for n in self.pars if not (n[0] in 'Jt' and n[1:].isdigit())}
        s, c = [], 0
        for i in range(self.nj):
            c = c + P['t%d' % (i + 1)]
            s.append(c)
        d['h'] = c + P['t%d' % (self.nj + 1)]
        d['jumptime'] = tuple(s[i] for i in self.order)
        d['jumpsize'] = tuple(P['J%d' % (i + 1)] for i in self.order)
        return d

    def raws(self, P, n):
        one = P['k'] * 0 + 1
        z = one * 0
        jump = None
        if self.kind == 'svij':
            jump = ref.cpp_jump_normal(P['lmbd_s'], P['mu_s'], P['sigma_s'])
        mu, rho = (z, z) if self.kind == 'srjd' else (P['mu'], P['rho'])
        pr = Proc([P['k']], ref.heston_gen(P['k'], P['theta'], P['sigma'], mu, rho, jump), one)
        ts = [P['t%d' % (i + 1)] for i in range(self.nj + 1)]
        ess = [[P.exp(P['k'] * t)] for t in ts]

        def jmp(i):
            J = P['J%d' % (i + 1)]
            if self.kind == 'svcj':
                return J, [ref.normal_moment(j, P['mu_s'] + P['rho_J'] * J, P['sigma_s']) for j in range(n + 1)]
            return J, [one] + [z] * n
        out = []
        for i in range(n + 1):
            f = {(i, 0): one} if self.kind == 'srjd' else {(0, i): one}
            out.append(ref.at(ref.through_jumps(pr, f, ts, ess, jmp), [P['v0']]))
        return out

    def raw(self, P, n):
        return self.raws(P, n)[n]

    def central(self, P, n):
        if n == 0:
            return P['k'] * 0 + 1
        return ref.central_from_raw(self.raws(P, n), n)
