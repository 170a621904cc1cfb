"""C19: the interacting multiple model estimator computes the exact mixing recursion"""
import sys
import math
import numpy as np
from .. import gen
from ..drive import lay
from ..refs import RefKF, sym

ANCHORS = ['filterpy/kalman/IMM.py']
RULE = ('Random banks of 2-5 linear models (different transitions, noises, measurement models; linear, fading, extended and '
        'unscented filters), random mode-transition matrices including zeros, runs of up to 60 steps with outliers; an independent mixing '
        'recursion is run alongside.')


def _rowstoch(rng, N):
    r = rng.random()
    if r < .5:
        p = rng.uniform(.6, .99)
        M = np.full((N, N), (1 - p) / (N - 1))
        np.fill_diagonal(M, p)
        return M
    M = rng.dirichlet(np.ones(N) * rng.choice([.3, 1., 5.]), size=N)
    if r > .85:
        M[rng.random((N, N)) < .3] = 0.
        M += np.eye(N) * .05
        M /= M.sum(1, keepdims=True)
    # every mode stays reachable
    return (M + 1e-6) / (M + 1e-6).sum(1, keepdims=True)


class RefIMM(object):
    def __init__(self, xs, Ps, mu, M):
        self.f = [RefKF(x, P) for x, P in zip(xs, Ps)]
        self.mu, self.M = mu / mu.sum(), M
        self.N = len(xs)
        self.pre()

    def pre(self):
        self.c = self.mu @ self.M
        self.omega = self.M * self.mu[:, None] / self.c[None, :]
        self.combine()

    def combine(self):
        self.x = sum(m * f.x for m, f in zip(self.mu, self.f))
        self.P = sum(m * (f.P + np.outer(f.x - self.x, f.x - self.x)) for m, f in zip(self.mu, self.f))

    def predict(self, F, Q, Bu):
        xs = [sum(self.omega[i, j] * self.f[i].x for i in range(self.N)) for j in range(self.N)]
        Ps = [sum(self.omega[i, j] * (self.f[i].P + np.outer(self.f[i].x - xs[j], self.f[i].x - xs[j]))
                  for i in range(self.N)) for j in range(self.N)]
        for j, f in enumerate(self.f):
            f.x, f.P = xs[j], sym(Ps[j])
            f.predict(F[j], Q[j], Bu[j])
        self.combine()

    def update(self, H, R, z):
        L = []
        for f, h, r in zip(self.f, H, R):
            L.append(f.update(h, r, z)['ll'])
        self.ll = L
        self.lik = np.array([math.exp(v) or sys.float_info.min for v in L])
        w = self.c * self.lik
        self.mu = w / w.sum()
        self.pre()


def _bank(rng, n, m, du, N, ndim, het):
    """N filters and their models"""
    from filterpy.kalman import (KalmanFilter, ExtendedKalmanFilter, FadingKalmanFilter,
                                 UnscentedKalmanFilter, MerweScaledSigmaPoints)
    import warnings
    s = gen.LinSys(rng, n=n, m=m, du=du, scale=1. if rng.random() < .7 else float(rng.choice([1e-6, 1e-3, 1e3, 1e6])))
    fs, F, Q, H, R, B = [], [], [], [], [], []
    H0 = s.newH()
    for i in range(N):
        F.append(gen.trans_inv(rng, n))
        Q.append(gen.spd(rng, n, .01, 2.) * s.s ** 2 * float(rng.choice([1., 1., 30.])))
        H.append(H0 if rng.random() < .6 else s.newH())
        R.append(s.newR())
        B.append(rng.standard_normal((n, du)) * s.s if du else None)
        kind = str(rng.choice(['kf', 'fading', 'ukf'])) if het else 'kf'
        if kind == 'kf':
            k = KalmanFilter(n, m, du)
        elif kind == 'fading':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                k = FadingKalmanFilter(1., n, m, du)
        else:
            k = UnscentedKalmanFilter(n, m, 1., lambda x, h=H[i]: h @ x, lambda x, dt, f=F[i]: f @ x,
                                      MerweScaledSigmaPoints(n, .7, 2., 1.))
        k.P = gen.spd(rng, n) * s.s ** 2
        k.x = lay(s.x0 + rng.standard_normal(n) * float(rng.choice([0, 2.])) * s.s, ndim)
        k.Q, k.R = Q[i].copy(), R[i].copy()
        if kind != 'ukf':
            k.F, k.H = F[i].copy(), H[i].copy()
            if du:
                k.B = B[i].copy()
        fs.append(k)
    return s, fs, F, Q, H, R, B


def recursion(ctx, rng):
    """the whole run against an independent mixing recursion"""
    from filterpy.kalman import IMMEstimator
    n, m, N = gen.dim(rng, 4), gen.mdim(rng, 3), int(rng.integers(2, 6))
    het = bool(rng.random() < .3)
    ndim = 1 if het else int(rng.choice([1, 2]))
    du = 0 if het else int(rng.integers(0, 3))
    s, fs, F, Q, H, R, B = _bank(rng, n, m, du, N, ndim, het)
    mu = rng.dirichlet(np.ones(N)) * (1. if rng.random() < .6 else rng.uniform(.2, 5.))
    if rng.random() < .15:
        mu[rng.integers(N)] = 0.
    M = _rowstoch(rng, N)
    ref = RefIMM([np.array(f.x).reshape(-1) for f in fs], [np.array(f.P) for f in fs], mu, M)
    keep = M.copy(), mu.copy()
    b = IMMEstimator(fs, mu if rng.random() < .7 else tuple(mu), M)
    steps = gen.length(rng, 1, 12, 60)
    ctx.describe(n=n, m=m, N=N, ndim=ndim, du=du, s=s.s, steps=steps, het=het)
    sc, ps = s.s, s.s ** 2

    def look(when, tol=1e-7):
        nonlocal sc, ps
        for f in ref.f:
            sc = max(sc, float(np.max(np.abs(f.x))))
            ps = max(ps, float(np.max(np.abs(f.P))))
        ctx.close('probabilities ' + when, b.mu, ref.mu, tol * 10, 1.)
        ctx.close('probabilities sum to one ' + when, np.sum(b.mu), 1., 1e-12)
        ctx.true('probabilities are not negative', np.all(np.asarray(b.mu) >= 0))
        ctx.close('mixing probabilities ' + when, b.omega, ref.omega, tol * 100, 1.)
        ctx.close('mixing columns sum to one', np.sum(b.omega, 0), np.ones(N), 1e-9)
        for f, r in zip(b.filters, ref.f):
            ctx.close('model state ' + when, f.x, r.x, tol, sc, flat=True)
            ctx.close('model covariance ' + when, f.P, r.P, tol, ps)
        ctx.close('combined state ' + when, b.x, ref.x, tol * 10, sc, flat=True)
        ctx.close('combined covariance ' + when, b.P, ref.P, tol * 10, ps + sc * sc)
        # moment match of what is reported, tightly
        mu_ = np.asarray(b.mu, float)
        xs = [np.asarray(f.x).reshape(-1) for f in b.filters]
        xm = sum(a * x for a, x in zip(mu_, xs))
        Pm = sum(a * (np.asarray(f.P) + np.outer(x - xm, x - xm)) for a, x, f in zip(mu_, xs, b.filters))
        ctx.close('combined state is the mixture mean', b.x, xm, 1e-12, sc, flat=True)
        ctx.close('combined covariance is the mixture covariance', b.P, Pm, 1e-11, float(np.max(np.abs(Pm))) + 1e-12 * sc * sc)
        ctx.shape('combined state layout', b.x, np.shape(fs[0].x))
    look('at the start')
    for k in range(steps):
        u = s.newu() if du and rng.random() < .5 else None
        Bu = [np.zeros(n) if u is None else B[i] @ u for i in range(N)]
        if u is None:
            b.predict()
        else:
            b.predict(lay(u, ndim))
        ref.predict(F, Q, Bu)
        ctx.event('predict', u=u is not None)
        look('after predict')
        ctx.close('prior copies', b.x_prior, b.x, 0., 1.)
        ctx.close('prior copies', b.P_prior, b.P, 0., 1.)
        i = int(rng.integers(N))
        z = H[i] @ ref.f[i].x + rng.standard_normal(m) * float(rng.choice([.5, 3.])) * s.s
        r = rng.random()
        if r < .04:
            z = z + rng.standard_normal(m) * 300. * s.s
        if rng.random() < .2:
            z = H[i] @ ref.f[i].x
        z = gen.whole(rng, z, .12 * (s.s >= 1))
        b.update(gen.zarg(rng, z, ndim))
        ref.update(H, R, z)
        ctx.event('update', outlier=r < .04)
        ll = max(1., max(abs(v) for v in ref.ll))
        if ll > 600:                                 # likelihoods under- or overflow: only the invariants are decided
            ctx.true('probabilities stay a distribution', np.all(np.isfinite(b.mu)) and np.all(np.asarray(b.mu) >= 0) and
                     abs(np.sum(b.mu) - 1) < 1e-9, lambda: repr(b.mu))
            ref.mu = np.array(b.mu, float)
            ref.pre()
        ctx.close('reported likelihoods', np.log(b.likelihood), np.log(ref.lik), 1e-6 * ll, max(1., 0)) if ll < 600 else None
        look('after update', 1e-7 * ll)
        ctx.close('posterior copies', b.x_post, b.x, 0., 1.)
        ctx.close('posterior copies', b.P_post, b.P, 0., 1.)
        ctx.true('arguments untouched', np.array_equal(M, keep[0]) and np.array_equal(mu, keep[1]))
        if ps > 1e6 * s.s ** 2 or sc > 1e6 * s.s:
            break
        # rounding of the probabilities is amplified by later mixing: restart from what is reported
        ref.mu = np.array(b.mu, float)
        for f, r in zip(b.filters, ref.f):
            r.x, r.P = np.array(f.x).reshape(-1), sym(np.array(f.P))
        ref.pre()


def identical(ctx, rng):
    """identical models: the plain filter, and the probabilities follow the chain alone"""
    from filterpy.kalman import IMMEstimator
    from ..drive import make_kf
    s = gen.LinSys(rng, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)), du=0, scale=1.)
    N, ndim = int(rng.integers(2, 5)), int(rng.choice([1, 2]))
    fs = [make_kf(s, ndim) for _ in range(N)]
    mu, M = rng.dirichlet(np.ones(N)), _rowstoch(rng, N)
    b = IMMEstimator(fs, mu, M)
    ref = RefKF(s.x0, s.P0)
    steps = gen.length(rng, 1, 12, 40)
    ctx.describe(n=s.n, m=s.m, N=N, ndim=ndim, steps=steps)
    sc, ps = 1., 1.
    for k in range(steps):
        b.predict()
        ref.predict(s.F, s.Q)
        s.step()
        z = s.z(outlier=False)
        b.update(lay(z, ndim))
        ll = ref.update(s.H, s.R, z)['ll']
        mu = mu @ M
        ctx.event('step')
        sc, ps = max(sc, float(np.max(np.abs(ref.x)))), max(ps, float(np.max(np.abs(ref.P))))
        ctx.close('identical models: state of the plain filter', b.x, ref.x, 1e-7, sc, flat=True)
        ctx.close('identical models: covariance of the plain filter', b.P, ref.P, 1e-7, ps)
        if ll > -600:
            ctx.close('identical models: probabilities follow the chain', b.mu, mu, 1e-7, 1.)
        else:                                        # the likelihoods underflow and lose their digits
            mu = np.array(b.mu, float)


def uninformative(ctx, rng):
    """a perfectly sticky chain never mixes: every model runs as if alone"""
    from filterpy.kalman import IMMEstimator
    n, m, N, ndim = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(2, 4)), int(rng.choice([1, 2]))
    s, fs, F, Q, H, R, B = _bank(rng, n, m, 0, N, ndim, False)
    mu = rng.dirichlet(np.ones(N) * 3) * .9 + .1 / N
    refs = [RefKF(np.array(f.x).reshape(-1), f.P) for f in fs]
    b = IMMEstimator(fs, mu, np.eye(N))
    lw = np.log(mu)
    steps = int(rng.integers(1, 8))
    ctx.describe(n=n, m=m, N=N, ndim=ndim, steps=steps)
    for k in range(steps):
        b.predict()
        z = H[0] @ refs[0].x + rng.standard_normal(m)
        for i, r in enumerate(refs):
            r.predict(F[i], Q[i])
            lw[i] += r.update(H[i], R[i], z)['ll']
        b.update(lay(z, ndim))
        ctx.event('step')
        w = np.exp(lw - lw.max())
        w /= w.sum()
        if w.min() < 1e-12:
            break
        ctx.close('sticky chain: Bayes weights of the models', b.mu, w, 1e-7, 1.)
        for f, r in zip(b.filters, refs):
            sc = max(1., float(np.max(np.abs(r.x))))
            ctx.close('sticky chain: model runs alone', f.x, r.x, 1e-7, sc, flat=True)


SCENARIOS = [(recursion, 1500, 50000), (identical, 600, 20000), (uninformative, 600, 20000)]
