"""C02: covariances stay symmetric PSD, updates never inflate them"""
import warnings
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'information_filter', 'fading_memory', 'EKF', 'UKF',
    'CubatureKalmanFilter', 'ensemble_kalman_filter', 'IMM', 'mmae')]
RULE = ('Random histories of every filter class, including badly scaled priors and sensors, nonlinear models and '
        'mixtures of models; the covariance is inspected after every single operation.')


def valid(ctx, what, P, tol, scale=None):
    """symmetric and PSD to rounding, relative to scale (default: largest entry)"""
    P = np.asarray(P, float)
    s = float(np.max(np.abs(P))) if scale is None else scale
    ctx.true(what + ' finite', np.all(np.isfinite(P)), repr(P))
    a = float(np.max(np.abs(P - P.T)))
    ctx.true(what + ' symmetric', a <= tol * s, lambda: 'asymmetry %.3g of %.3g: %r' % (a, s, P))
    e = float(np.linalg.eigvalsh((P + P.T) / 2)[0])
    ctx.true(what + ' positive', e >= -tol * s, lambda: 'eigenvalue %.3g of %.3g: %r' % (e, s, P))


def shrink(ctx, what, prior, post, tol, scale=None):
    s = float(np.max(np.abs(prior))) if scale is None else scale
    D = prior - post
    e = float(np.linalg.eigvalsh((D + D.T) / 2)[0])
    ctx.true(what, e >= -tol * s, lambda: 'grows by %.3g of %.3g' % (-e, s))


def histories(ctx, rng):
    """every exact formulation through random histories"""
    s = gen.WellSys(rng, n=gen.dim(rng, 5))
    cls = zoo.EXACT[rng.integers(len(zoo.EXACT))]
    ad = cls(rng, s)
    n = gen.length(rng, 2, 24, 120)
    ctx.describe(filter=ad.name, n=s.n, m=s.m, ops=n, kind=getattr(ad, 'kind', ''))
    h = zoo.Run(ctx, rng, s, ad)
    prev = [ad.P]

    def mon(op):
        P = ad.P
        valid(ctx, 'covariance', P, 1e-8, max(float(np.max(np.abs(P))), 1e-3 * float(np.max(np.abs(prev[0])))))
        if op['op'] in ('update', 'none'):
            shrink(ctx, 'update does not inflate', prev[0], P, 1e-8)
        prev[0] = P
    h.run(n, mon)


def extreme(ctx, rng):
    """vague priors, very precise sensors, many updates: KF, SR, fading, EKF stay valid"""
    n = int(rng.integers(1, 6))
    full = rng.random() < .6
    m = n if full else int(rng.integers(1, n + 1))
    s = gen.WellSys(rng, n=n, m=m, du=0, scale=1.)
    while np.linalg.cond(s.H) > 20:
        s.H = s.newH()
    s.F = gen.trans_inv(rng, n, 10.)
    full = m == n
    p = gen.logu(rng, 1e4, 1e10) if full else gen.logu(rng, 1e2, 1e5)
    r = gen.logu(rng, 1e-6, 1e-1) if full else gen.logu(rng, 1e-2, 1.)
    s.P0 = s.P0 * p
    s.R = s.R * r
    cls = (zoo.KF, zoo.KF, zoo.KF, zoo.SR, zoo.Fading, zoo.EKF)[rng.integers(6)]
    q = rng.random() < .5
    s.Q = s.Q * (1e-6 if q else 1.)
    ad = cls(rng, s)
    k = int(rng.integers(2, 40))
    big = float(np.max(np.abs(s.P0)))
    ctx.describe(filter=ad.name, n=n, m=m, ops=k, p=round(np.log10(p)), r=round(np.log10(r)), q=q)
    for i in range(k):
        if i and rng.random() < .5:
            s.step()
            ad.predict()
            P = ad.P
            big = max(big, float(np.max(np.abs(P))))
            valid(ctx, 'covariance after predict', P, 1e-7, None if full else
                  max(float(np.max(np.abs(P))), 1e-5 * big))
            ctx.event('predict')
        else:
            prior = ad.P
            ad.update(s.z(ad.H, ad.R) if rng.random() > .05 else s.z() * 1e3)
            P = ad.P
            # judged at the scale of the posterior where everything is measured
            sc = None if full else max(float(np.max(np.abs(P))), 1e-5 * big)
            valid(ctx, 'covariance after update', P, 1e-7, sc)
            shrink(ctx, 'update does not inflate', prior, P, 1e-8, None if full else max(float(np.max(np.abs(prior))), 1e-5 * big))
            ctx.event('update')


def _model(rng, n, m):
    A = gen.trans_inv(rng, n)
    C = rng.standard_normal((m, n))
    a = rng.uniform(.1, .6)
    f = lambda x, dt: A @ x + a * np.sin(x) * dt                       # noqa
    h = lambda x: C @ x + a * np.cos(C @ x)                            # noqa
    J = lambda x: C - a * np.sin(C @ np.asarray(x).reshape(-1))[:, None] * C   # noqa
    return f, h, J


def nonlinear(ctx, rng):
    """EKF, UKF, CKF and ensemble filter on nonlinear models"""
    from filterpy.kalman import (ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter,
                                 EnsembleKalmanFilter, JulierSigmaPoints, SimplexSigmaPoints,
                                 MerweScaledSigmaPoints)
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    f, h, J = _model(rng, n, m)
    P0, Q, R = gen.spd(rng, n), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .05, 2)
    x0 = rng.standard_normal(n)
    kind = str(rng.choice(['ekf', 'ukf', 'ckf', 'enkf']))
    if kind == 'ekf':
        k = ExtendedKalmanFilter(n, m)
        k.x, k.F = x0, gen.trans_inv(rng, n)
        upd = lambda z: k.update(z, J, h)                              # noqa
    elif kind == 'ukf':
        pt = (JulierSigmaPoints(n, float(rng.choice([0., 1., .5]))), SimplexSigmaPoints(n),
              MerweScaledSigmaPoints(n, 1., 2., float(rng.choice([0., 1.]))))[rng.integers(3)]
        k = UnscentedKalmanFilter(n, m, .5, h, f, pt)
        k.x = x0
        upd = k.update
    elif kind == 'ckf':
        k = CubatureKalmanFilter(n, m, .5, h, f)
        k.x = x0
        upd = k.update
    else:
        N = int(rng.integers(3, 40))
        k = EnsembleKalmanFilter(x0, P0, m, .5, N, h, f)
        upd = k.update
    k.P, k.Q, k.R = P0, Q, R
    steps = int(rng.integers(1, 15))
    ctx.describe(kind=kind, n=n, m=m, steps=steps, pts=type(getattr(k, 'points_fn', None)).__name__)
    truth = x0.copy()
    for i in range(steps):
        k.predict()
        valid(ctx, 'covariance after predict (%s)' % kind, k.P, 1e-9)
        ctx.event('predict')
        prior = np.array(k.P)
        truth = f(truth, .5) + .3 * rng.standard_normal(n)
        if rng.random() < .15:
            upd(None) if kind != 'ekf' else k.update(None, J, h)
            ctx.event('missing')
        else:
            upd(h(truth) + .5 * rng.standard_normal(m))
            ctx.event('update')
        valid(ctx, 'covariance after update (%s)' % kind, k.P, 1e-8, float(np.max(np.abs(prior))))
        ctx.true('covariance not negligible asymmetry', np.max(np.abs(k.P - k.P.T)) <= 1e-10 * np.max(np.abs(prior)))
        shrink(ctx, 'update does not inflate (%s)' % kind, prior, k.P, 1e-8)


def mixtures(ctx, rng):
    """IMM estimator and multiple-model bank: combined covariance valid, mixing included"""
    from filterpy.kalman import IMMEstimator, MMAEFilterBank
    s = gen.LinSys(rng, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)), du=0, scale=1.)
    N = int(rng.integers(2, 5))
    ndim = int(rng.choice([1, 2]))
    fs = []
    for i in range(N):
        k = make_kf(s, ndim)
        k.x = lay(s.x0 + rng.standard_normal(s.n) * rng.choice([0, 2]), ndim)
        k.P, k.F, k.Q, k.R = gen.spd(rng, s.n), s.newF(), s.newQ(), s.newR()
        fs.append(k)
    mu = rng.dirichlet(np.ones(N))
    imm = rng.random() < .5
    b = IMMEstimator(fs, mu, rng.dirichlet(np.ones(N), size=N)) if imm else \
        MMAEFilterBank(fs, mu, s.n, H=s.H)
    steps = int(rng.integers(1, 25))
    ctx.describe(imm=imm, n=s.n, m=s.m, N=N, ndim=ndim, steps=steps)
    if imm:
        valid(ctx, 'initial combined covariance', b.P, 1e-9)
    for i in range(steps):
        b.predict()
        valid(ctx, 'combined covariance after predict', b.P, 1e-9)
        for k in fs:
            valid(ctx, 'member covariance after predict', k.P, 1e-9)
        s.step()
        b.update(lay(s.z(), ndim))
        valid(ctx, 'combined covariance after update', b.P, 1e-8)
        for k in fs:
            valid(ctx, 'member covariance after update', k.P, 1e-8)
        ctx.event('step')
        if b.P.max() > 1e8:
            break


SCENARIOS = [(histories, 3500, 120000), (extreme, 3000, 100000), (nonlinear, 1500, 40000), (mixtures, 1000, 30000)]
