"""C01: the linear Kalman filter is the exact Gaussian posterior for any history"""
import numpy as np
from .. import gen
from ..drive import Hist, make_kf, lay
from ..refs import joint_posterior, RefKF

ANCHORS = ['filterpy/kalman/kalman_filter.py']
RULE = ('Random linear-Gaussian systems (1-12 states, 1-4 measurements, controls, singular Q, '
        'physical scales 1e-3..1e3, row- or column-state) and random histories of predict/update '
        'calls with per-call overrides, missing measurements, attribute changes and fading.')


def step_by_step(ctx, rng):
    """every operation against the textbook posterior"""
    s = gen.LinSys(rng)
    ndim = int(rng.choice([1, 2]))
    a = float(rng.choice([1., 1., 1., 1.02, 1.3]))
    kf = make_kf(s, ndim, alpha=a)
    n = gen.length(rng, 2, 24, 160)
    ctx.describe(n=s.n, m=s.m, du=s.du, ndim=ndim, alpha=a, ops=n, scale=round(np.log10(s.s)))
    h = Hist(ctx, rng, s, kf, ndim, alpha=a, adjust=.06)

    def mon(op):
        ctx.close('state after ' + op['op'], kf.x, h.ref.x, 1e-7, h.xscale, flat=True)
        ctx.close('covariance after ' + op['op'], kf.P, h.ref.P, 1e-7, h.Pscale)
    h.run(n, mon)


def whole_history(ctx, rng):
    """the final belief against one dense conditioning on all measurements"""
    s = gen.LinSys(rng, n=int(rng.integers(1, 5)))
    ndim = int(rng.choice([1, 2]))
    kf = make_kf(s, ndim)
    n = int(rng.integers(2, 26))
    ctx.describe(n=s.n, m=s.m, du=s.du, ndim=ndim, ops=n)
    h = Hist(ctx, rng, s, kf, ndim, retune=False)
    h.run(n, lambda op: None)
    m, C = joint_posterior(h.steps, s.x0, s.P0)[-1]
    ctx.close('final state vs joint conditioning', kf.x, m, 1e-6, h.xscale, flat=True)
    ctx.close('final covariance vs joint conditioning', kf.P, C, 1e-6, h.Pscale)


def extreme(ctx, rng):
    """nearly uninformative priors and very precise sensors: the filter still
    lands on the posterior to the accuracy the data allow"""
    s = gen.LinSys(rng, scale=1.)
    s.P0 = s.P0 * gen.logu(rng, 1e2, 1e5)
    s.R = s.R * gen.logu(rng, 1e-2, 1.)
    ndim = int(rng.choice([1, 2]))
    kf = make_kf(s, ndim)
    n = int(rng.integers(3, 16))
    ctx.describe(n=s.n, m=s.m, ndim=ndim, ops=n, p=round(np.log10(s.P0.max())))
    h = Hist(ctx, rng, s, kf, ndim, retune=False, sets=False)

    def mon(op):
        ctx.close('state (extreme) after ' + op['op'], kf.x, h.ref.x, 1e-5, h.xscale, flat=True)
        ctx.close('covariance (extreme) after ' + op['op'], kf.P, h.ref.P, 1e-6, h.Pscale)
    h.run(n, mon)


def perfect(ctx, rng):
    """noise-free and redundant sensors; the latter with the user's pseudo inverse"""
    n = int(rng.integers(1, 6))
    m = int(rng.integers(1, n + 1))
    s = gen.LinSys(rng, n=n, m=m, scale=1., qsing=False)
    nd = int(rng.choice([1, 2]))
    red = rng.random() < .6
    ref = RefKF(s.x0, s.P0)
    T = np.eye(m)
    if red:
        # the same quantities reported again, in other units
        T = np.vstack([T, np.zeros((int(rng.integers(1, 4)), m))])
        for i in range(m, len(T)):
            T[i, rng.integers(0, m)] = rng.choice([1., 1., 2., -.5])
        T = T[rng.permutation(len(T))]
    H0, R0 = s.H, s.R
    s.m, s.H, s.R = len(T), T @ H0, np.zeros((len(T), len(T)))
    kf = make_kf(s, nd)
    calls = []
    if red:
        def inv(S):
            calls.append(S.shape)
            return np.linalg.pinv(S, rcond=1e-8)
        kf.inv = inv
    ctx.describe(n=n, m=m, rows=len(T), nd=nd, redundant=red)
    for i in range(int(rng.integers(1, 10))):
        F, Q = s.newF(), gen.spd(rng, n, .1, 2.)
        kf.predict(F=F, Q=Q)
        ref.predict(F, Q, np.zeros(n))
        s.step(F)
        H0 = gen.meas(rng, m, n)
        while np.linalg.cond(H0) > 20.:
            H0 = gen.meas(rng, m, n)
        some = rng.random() < .4
        R0 = gen.psd(rng, m) if some else np.zeros((m, m))
        z0 = H0 @ s.truth
        ref.update(H0, R0, z0)
        z = lay(T @ z0, nd)
        c0 = len(calls)
        if rng.random() < .5:
            kf.H, kf.R = T @ H0, T @ R0 @ T.T
            x, P = kf.get_update(z.copy())
            ctx.close('query (perfect sensor): state', x, ref.x, 1e-6, 1. + np.max(np.abs(ref.x)) + np.max(np.abs(z)), flat=True)
            (kf.update_correlated if rng.random() < .3 else kf.update)(z)
        else:
            kf.update(z, H=T @ H0, R=T @ R0 @ T.T)
        ctx.event('update', rows=len(T))
        ctx.true('the inverse function of the user is used', not red or len(calls) > c0)
        ctx.close('state (perfect sensor)', kf.x, ref.x, 1e-6, 1. + np.max(np.abs(ref.x)) + np.max(np.abs(z)), flat=True)
        ctx.close('covariance (perfect sensor)', kf.P, ref.P, 1e-6, np.max(np.abs(ref.P)) + np.max(np.abs(Q)))
        ref.P = (ref.P + ref.P.T) / 2


def marathon(ctx, rng):
    """long runs"""
    s = gen.LinSys(rng, n=int(rng.integers(1, 4)), m=int(rng.integers(1, 3)))
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    n = int(rng.integers(300, 1500))
    ctx.describe(n=s.n, m=s.m, nd=nd, ops=n)
    h = Hist(ctx, rng, s, kf, nd, adjust=.002)

    def mon(op):
        ctx.close('state (long run) after ' + op['op'], kf.x, h.ref.x, 1e-7, h.xscale, flat=True)
        ctx.close('covariance (long run) after ' + op['op'], kf.P, h.ref.P, 1e-7, h.Pscale)
    h.run(n, mon)


SCENARIOS = [(step_by_step, 6000, 300000), (whole_history, 3000, 150000), (extreme, 1500, 60000), (perfect, 2000, 60000),
             (marathon, 48, 1600)]
