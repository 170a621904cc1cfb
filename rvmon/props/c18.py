"""C18: the ensemble filter is the perturbed-observation ensemble update"""
import numpy as np
import scipy.linalg as sla
from scipy import stats as sst
from .. import gen
from ..refs import condition, sym

ANCHORS = ['filterpy/kalman/ensemble_kalman_filter.py']
RULE = ('Random linear and nonlinear models, ensemble sizes 2-2000, noise changes and overrides; the random perturbation '
        'of every member is recovered from its movement and tested against the specified covariance.')
TECHNIQUE = 'monitors on every ensemble member; recovered noise tested at p=1e-12 (deterministic by seed)'
P0 = 1e-12


def white(ctx, what, E, C, dof_extra=0):
    """rows of E are draws from N(0, C): size, mean, and every second moment"""
    N, d = E.shape
    L = np.linalg.cholesky(sym(C))
    W = sla.solve_triangular(L, E.T, lower=True)          # d x N, unit white
    q = float(np.sum(W * W))
    lo, hi = sst.chi2.ppf(P0, N * d), sst.chi2.isf(P0, N * d)
    ctx.true(what + ' has the specified size', lo <= q <= hi, lambda: 'sum %.4g outside [%.4g, %.4g]' % (q, lo, hi))
    mq = float(N * np.sum(W.mean(1) ** 2))
    ctx.true(what + ' has zero mean', mq <= sst.chi2.isf(P0, d), lambda: '%.4g' % mq)
    for i in range(d):
        v = float(np.sum(W[i] ** 2))
        ctx.true(what + ' has the specified variances', sst.chi2.ppf(P0, N) <= v <= sst.chi2.isf(P0, N), lambda: '%d: %.4g of %d' % (i, v, N))
    if N >= 200:
        for i in range(d):
            for j in range(i):
                c = float(W[i] @ W[j]) / np.sqrt(N)
                ctx.true(what + ' has the specified correlations', abs(c) <= 8.5, lambda: '%d,%d: %.3g' % (i, j, c))
        for i in range(d):
            c = float(W[i, 1:] @ W[i, :-1]) / np.sqrt(N)
            ctx.true(what + ' is independent between members', abs(c) <= 8.5, lambda: 'lag 1: %.3g' % c)


class Model(object):
    def __init__(self, rng, n, m, linear, units=False):
        self.sx = self.sz = 1.                               # units of state and measurement
        if units:
            self.sx, self.sz = (float(v) for v in rng.choice([1., 1e-5, 1e-3, 1e3, 1e5], 2))
        self.A, self.C = gen.trans(rng, n), rng.standard_normal((m, n))
        self.a = 0. if linear else float(rng.uniform(.1, .6))
        self.fc, self.hc = [], []

    def fv(self, x, dt):
        return self.A @ x + self.sx * self.a * np.sin(x / self.sx) * dt

    def hv(self, x):
        w = self.C @ (x / self.sx)
        return (w + self.a * np.cos(w)) * self.sz

    def f(self, x, dt):
        self.fc.append((np.array(x), dt))
        return self.fv(x, dt)

    def h(self, x):
        self.hc.append(np.array(x))
        return self.hv(x)


def _members(rng, n):
    r = rng.random()
    if r < .3:
        return int(rng.integers(2, 12))
    if r < .9:
        return int(rng.integers(20, 120))
    return int(rng.integers(300, 1200))


def members(ctx, rng):
    """every member's movement through a history"""
    from filterpy.kalman import EnsembleKalmanFilter
    n, m = gen.dim(rng, 5), gen.mdim(rng)
    N = _members(rng, n)
    mod = Model(rng, n, m, rng.random() < .3, rng.random() < .3)
    sx, sz = mod.sx, mod.sz
    dt = float(rng.uniform(.1, 1.))
    x0, P0_ = rng.standard_normal(n) * 2 * sx, gen.spd(rng, n, .1, 4.) * sx ** 2
    f = EnsembleKalmanFilter(x0.copy(), P0_.copy(), m, dt, N, mod.h, mod.f)
    ctx.shape('one row per member', f.sigmas, (N, n))
    ctx.close('initial state', f.x, x0, 0., 1.)
    ctx.close('initial covariance', f.P, P0_, 0., 1.)
    white(ctx, 'initial ensemble', np.array(f.sigmas) - x0, P0_)
    f.Q, f.R = gen.spd(rng, n, .01, 1.) * sx ** 2, gen.spd(rng, m, .1, 2.) * sz ** 2
    ops = gen.length(rng, 1, 8, 20) if N > 11 or rng.random() < .9 else int(rng.integers(100, 300))
    ctx.describe(n=n, m=m, N=N, ops=ops, a=mod.a > 0, sx=sx, sz=sz)
    fresh = False
    for i in range(ops):
        if rng.random() < .15:
            f.Q, f.R = gen.spd(rng, n, .01, 1.) * sx ** 2, gen.spd(rng, m, .1, 2.) * sz ** 2
        if rng.random() < .1:
            x0, P0_ = rng.standard_normal(n) * 2 * sx, gen.spd(rng, n, .1, 4.) * sx ** 2
            f.initialize(x0.copy(), P0_.copy())
            ctx.event('initialize')
            white(ctx, 'ensemble drawn again', np.array(f.sigmas) - x0, P0_)
            ctx.close('state after initialize', f.x, x0, 0., 1.)
            ctx.close('covariance after initialize', f.P, P0_, 0., 1.)
            fresh = False
        S0 = np.array(f.sigmas)
        if not fresh or rng.random() < .2:
            zero = rng.random() < .15
            Q = f.Q
            if zero:
                f.Q = np.zeros((n, n))
            mod.fc = []
            f.predict()
            ctx.event('predict', zeroQ=zero)
            ctx.true('transition called once per member', len(mod.fc) == N and all(d == dt for _, d in mod.fc))
            ctx.true('transition called with the members', np.array_equal(np.sort(np.array([s for s, _ in mod.fc]), 0), np.sort(S0, 0)))
            F = np.array([mod.fv(s, dt) for s in S0])
            S1 = np.array(f.sigmas)
            if zero:
                ctx.close('members moved by the transition', S1, F, 1e-12, float(np.max(np.abs(F))) + sx)
                f.Q = Q
            else:
                white(ctx, 'process noise', S1 - F, Q)
            sc = float(np.max(np.abs(S1))) + 1e-9 * sx
            ctx.close('state is the ensemble mean', f.x, S1.mean(0), 1e-12, sc)
            ctx.close('covariance is the ensemble covariance', f.P, np.cov(S1.T, ddof=1).reshape(n, n), 1e-11, sc * sc)
            fresh = True
            continue
        R, kw = np.array(f.R), {}
        r = rng.random()
        if r < .2:
            R = kw['R'] = gen.spd(rng, m, .1, 2.) * sz ** 2
        elif r < .35:
            q = gen.logu(rng, .1, 2.) * sz ** 2
            kw['R'], R = q, np.eye(m) * q
        if rng.random() < .1:
            f.update(None)
            ctx.event('missing')
            ctx.true('missing measurement moves no member', np.array_equal(f.sigmas, S0))
            continue
        Pb, xb = np.array(f.P), np.array(f.x)
        h = np.array([mod.hv(s) for s in S0])
        z = gen.whole(rng, mod.hv(S0[0]) + rng.standard_normal(m) * sz, .12 * (sz >= 1))
        mod.hc = []
        gen.call(rng, f.update, ['R'], kw, (gen.zarg(rng, z, 1, scalar=False),))
        ctx.event('update', kw=sorted(kw))
        ctx.true('measurement function called with the members', len(mod.hc) == N and
                 np.array_equal(np.sort(np.array(mod.hc), 0), np.sort(S0, 0)))
        dh, dx = h - h.mean(0), S0 - S0.mean(0)
        S = dh.T @ dh / (N - 1) + R
        K = np.linalg.solve(S, dh.T @ dx / (N - 1)).T
        S1 = np.array(f.sigmas)
        cs = np.linalg.cond(S)
        ks = max(1e-3 * sx / sz, float(np.max(np.abs(K))))
        ctx.close('innovation covariance', f.S, S, 1e-10)
        ctx.close('inverse innovation covariance', f.SI @ S, np.eye(m), 1e-11 * cs, 10.)
        ctx.close('gain from the sample covariances', f.K, K, 1e-11 * cs, ks)
        ctx.close('covariance after the update', f.P, Pb - K @ S @ K.T, 1e-10 * cs, float(np.max(np.abs(Pb))))
        ctx.close('state is the ensemble mean', f.x, S1.mean(0), 1e-12, float(np.max(np.abs(S1))) + 1e-9 * sx)
        # recover each member's own perturbation from its movement
        D = S1 - S0
        U, sv, Vt = np.linalg.svd(K, full_matrices=False)
        msc = float(np.max(np.abs(S1))) + float(np.max(np.abs(S0))) + ks * (float(np.max(np.abs(h))) + np.max(np.abs(z)))
        k = int(np.sum(sv > 1e-3 * sv[0]))
        if k < len(sv) and sv[k] > 1e-10 * sv[0]:
            continue
        out = D - D @ U[:, :k] @ U[:, :k].T
        ctx.close('members move along the gain only', out, np.zeros_like(out), 1e-9 * cs, msc)
        if k == m:
            E = D @ U @ np.diag(1 / sv) @ Vt - (z - h)
            white(ctx, 'measurement perturbation', E, R)
        else:
            # K E seen through the k directions that K can express
            E = (D - (z - h) @ K.T) @ U[:, :k]
            white(ctx, 'measurement perturbation', E, U[:, :k].T @ K @ R @ K.T @ U[:, :k])


def convergence(ctx, rng):
    """large ensembles on linear problems follow the Kalman filter"""
    from filterpy.kalman import EnsembleKalmanFilter
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    N = int(rng.choice([800, 1500, 3000]))
    mod = Model(rng, n, m, True)
    x, P = rng.standard_normal(n) * 2, gen.spd(rng, n, .2, 3.)
    f = EnsembleKalmanFilter(x.copy(), P.copy(), m, 1., N, mod.h, mod.f)
    Q, R = gen.spd(rng, n, .05, 1.), gen.spd(rng, m, .2, 2.)
    f.Q, f.R = Q.copy(), R.copy()
    truth = x + np.linalg.cholesky(P) @ rng.standard_normal(n)
    ctx.describe(n=n, m=m, N=N)
    for i in range(int(rng.integers(1, 6))):
        truth = mod.A @ truth + np.linalg.cholesky(Q) @ rng.standard_normal(n)
        f.predict()
        x, P = mod.A @ x, sym(mod.A @ P @ mod.A.T + Q)
        lim = 14 * np.sqrt(np.max(np.diag(P)) / N) * (i + 2)
        ctx.event('predict')
        ctx.close('mean follows the Kalman filter', f.x, x, lim, 1. + np.sqrt(np.max(np.diag(P))))
        ctx.close('covariance follows the Kalman filter', f.P, P, 14 * (i + 2) / np.sqrt(N), float(np.max(np.diag(P))))
        z = mod.C @ truth + np.linalg.cholesky(R) @ rng.standard_normal(m)
        f.update(z)
        ctx.event('update')
        r = condition(x, P, mod.C, R, z)
        x, P = r['x'], r['P']
        ctx.close('mean follows the Kalman filter', f.x, x, lim, 1. + float(np.max(np.abs(r['y']))))
        ctx.close('covariance follows the Kalman filter', f.P, P, 14 * (i + 2) / np.sqrt(N), float(np.max(np.diag(P))) + lim)


SCENARIOS = [(members, 1500, 40000), (convergence, 200, 6000)]
