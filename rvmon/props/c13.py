"""C13: every formulation agrees with the Kalman filter on linear problems"""
import numpy as np
from .. import gen, zoo
from ..refs import RefKF, ls_posterior

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'square_root', 'information_filter', 'fading_memory', 'EKF', 'UKF',
    'CubatureKalmanFilter', 'sigma_points', 'unscented_transform')]
RULE = ('Random linear systems (1-6 states, 1-4 measurements, controls, invertible transitions) run through each '
        'formulation with random histories of predict, update, missing data, noise overrides and model changes.')


def _agree(ctx, rng, cls, tol=1e-6):
    s = gen.WellSys(rng, n=gen.dim(rng, 5))
    ad = cls(rng, s)
    n = gen.length(rng, 2, 20, 80)
    ctx.describe(filter=ad.name, n=s.n, m=s.m, du=s.du, ops=n, alpha=getattr(ad, 'alpha', 1),
                 kind=getattr(ad, 'kind', ''), scale=round(np.log10(s.s)))
    h = zoo.Run(ctx, rng, s, ad, adjust=.06)
    calls = [0, 0]
    custom = hasattr(ad.f, 'inv') and rng.random() < .3
    if custom:
        def inv(S):
            calls[0] += 1
            return np.linalg.pinv(S)
        ad.f.inv = inv

    def mon(op):
        if op['op'] == 'update' and custom:
            ctx.true('the inverse function of the user is used', calls[0] > calls[1])
            calls[1] = calls[0]
        ctx.close('state after ' + op['op'], ad.x, h.ref.x, tol, h.xscale)
        ctx.close('covariance after ' + op['op'], ad.P, h.ref.P, tol, h.Pscale)
        for a in 'FQHRB':
            v, w = getattr(ad.f, a, None), getattr(ad, a)
            if w is not None and np.shape(v) == w.shape and not (ad.unset(a)):
                ctx.close('models read back as set', v, w, 1e-9)
        if cls is zoo.SR:
            for a, w in (('P1_2', h.ref.P), ('Q1_2', ad.Q), ('R1_2', ad.R)):
                v = getattr(ad.f, a)
                ctx.close('reported square roots', v @ v.T, w, tol if a == 'P1_2' else 1e-9, h.Pscale if a == 'P1_2' else None)
        if op['op'] == 'update':
            r = op['ref']
            zs = float(np.max(np.abs(op['z']))) + float(np.max(np.abs(op['H']))) * h.xscale
            ctx.close('residual', ad.y, r['y'], tol, zs)
            ctx.close('innovation covariance', ad.S, r['S'], tol)
            ctx.close('gain', ad.K, r['K'], tol * 10, max(1., float(np.max(np.abs(r['K'])))))
            if ad.has_ll:
                ctx.close('log-likelihood', ad.ll, r['ll'], tol * 10, abs(r['ll']) + 1.)
            if ad.has_maha:
                ctx.close('mahalanobis', ad.maha, r['maha'], tol * 10, abs(r['maha']) + 1.)
    h.run(n, mon)


def square_root(ctx, rng):
    """square-root filter vs posterior"""
    _agree(ctx, rng, zoo.SR)


def information(ctx, rng):
    """information filter vs posterior"""
    _agree(ctx, rng, zoo.Info)


def fading(ctx, rng):
    """fading filter vs posterior with inflated prediction"""
    _agree(ctx, rng, zoo.Fading)


def extended(ctx, rng):
    """extended filter with linear functions vs posterior"""
    _agree(ctx, rng, zoo.EKF)


def unscented(ctx, rng):
    """unscented filter (all point families) with linear functions vs posterior"""
    _agree(ctx, rng, zoo.UKF)


def cubature(ctx, rng):
    """cubature filter with linear functions vs posterior"""
    _agree(ctx, rng, zoo.CKF)


def plain(ctx, rng):
    """the linear filter itself vs posterior"""
    _agree(ctx, rng, zoo.KF)


def no_information(ctx, rng):
    """information filter started without any information: weighted least squares"""
    from filterpy.kalman import InformationFilter
    n = int(rng.integers(1, 5))
    s = gen.WellSys(rng, n=n, m=int(rng.integers(1, 4)), du=int(rng.integers(0, 2)))
    f = InformationFilter(n, s.m, s.du)
    f.F, f.Q, f.H, f.R_inv = s.F.copy(), s.Q.copy(), s.H.copy(), np.linalg.inv(s.R)
    if s.du:
        f.B = s.B.copy()
    f.P_inv = np.zeros((n, n))
    warm = bool(rng.random() < .7)
    k = int(np.ceil(n / s.m)) + int(rng.integers(0, 3)) if warm else 1
    if not warm:
        f = InformationFilter(n, n, s.du)
        s.m = n
        s.H, s.R = s.newH(n), s.newR(n)
        f.F, f.Q, f.H, f.R_inv = s.F.copy(), s.Q.copy(), s.H.copy(), np.linalg.inv(s.R)
        if s.du:
            f.B = s.B.copy()
        f.P_inv = np.zeros((n, n))
    ctx.describe(n=n, m=s.m, warm=warm, k=k)
    L, v = np.zeros((n, n)), np.zeros(n)
    if warm:
        for _ in range(int(rng.integers(1, 3))):
            f.predict()
    zmax = 0.
    for _ in range(k):
        H = s.newH()
        z = s.z(H)
        Ri = np.linalg.inv(s.R)
        if not warm and np.linalg.cond(H.T @ Ri @ H) > 1e6:  # the update itself needs the inverse
            return
        f.H = H.copy()
        f.update(z.reshape(-1, 1))
        ctx.event('update')
        L += H.T @ Ri @ H
        v += H.T @ Ri @ z
        zmax = max(zmax, float(np.max(np.abs(z))))
        if not warm:
            break
    if np.linalg.cond(L) > 1e6:
        return
    C = np.linalg.inv(L)
    x = C @ v
    sc = max(1e-6, float(np.max(np.abs(x))), zmax)
    ctx.close('information accumulated', f.P_inv, L, 1e-8)
    if not warm:
        ctx.close('estimate from the first measurement alone', f.x, x, 1e-6, sc, flat=True)
    ref = RefKF(x, C)
    for i in range(int(rng.integers(1, 5))):
        u = s.newu() if s.du and rng.random() < .5 else None
        Bu = np.zeros(n) if u is None else s.B @ u
        f.predict(*(() if u is None else (u.reshape(-1, 1),)))
        ref.predict(s.F, s.Q, Bu)
        ctx.event('predict')
        sc = max(sc, float(np.max(np.abs(ref.x))))
        ctx.close('after the prediction: state', f.x, ref.x, 1e-6, sc, flat=True)
        ctx.close('after the prediction: covariance', f.P, ref.P, 1e-6)
        s.step(s.F, Bu)
        H = s.newH()
        z = s.z(H)
        f.H = H.copy()
        f.update(z.reshape(-1, 1))
        ref.update(H, s.R, z)
        ctx.event('update')
        sc = max(sc, float(np.max(np.abs(ref.x))), float(np.max(np.abs(z))))
        ctx.close('after the update: state', f.x, ref.x, 1e-6, sc, flat=True)
        ctx.close('after the update: covariance', f.P, ref.P, 1e-6)


def partial_information(ctx, rng):
    """information known in some coordinates only, propagated before the rest is measured"""
    from filterpy.kalman import InformationFilter
    n = int(rng.integers(2, 6))
    s = gen.WellSys(rng, n=n, m=1, du=int(rng.integers(0, 2)), scale=1.)
    F = np.diag(rng.choice([1., 1., 2., -.5], n))[rng.permutation(n)]
    known = np.flatnonzero(rng.random(n) < .5)
    if len(known) == n:
        known = known[:-1]
    d = np.zeros(n)
    d[known] = rng.choice([.5, 1., 4.], len(known))
    f = InformationFilter(n, 1, s.du)
    f.F, f.Q, f.R_inv = F.copy(), s.Q.copy(), np.eye(1) * 2.
    if s.du:
        f.B = s.B.copy()
    x0 = np.zeros(n)
    x0[known] = rng.standard_normal(len(known))
    f.x, f.P_inv = x0.reshape(-1, 1), np.diag(d)
    steps = [('u', np.diag(np.sqrt(d))[known], np.eye(len(known)), np.sqrt(d[known]) * x0[known])] if len(known) else []
    u = s.newu() if s.du and rng.random() < .6 else None
    f.predict(*(() if u is None else (u.reshape(-1, 1),)))
    steps.append(('p', F, s.Q, np.zeros(n) if u is None else s.B @ u))
    ctx.event('predict', known=known)
    for i in range(n + int(rng.integers(0, 2))):
        H = rng.standard_normal((1, n))
        z = rng.standard_normal(1)
        f.H = H.copy()
        f.update(z.reshape(1, 1))
        steps.append(('u', H, np.eye(1) * .5, z))
        ctx.event('update')
    ctx.describe(n=n, known=len(known), u=u is not None)
    if np.linalg.cond(f.P_inv) > 1e6:
        return
    F2 = s.newF()
    f.F = F2.copy()
    f.predict()
    steps.append(('p', F2, s.Q, np.zeros(n)))
    m, C = ls_posterior(steps, x0, None)[-1]
    ctx.close('informed from then on: state', f.x, m, 1e-6, max(1., float(np.max(np.abs(m)))), flat=True)
    ctx.close('informed from then on: covariance', f.P, C, 1e-6)


SCENARIOS = [(partial_information, 600, 20000), (no_information, 800, 20000), (square_root, 1600, 60000), (information, 1600, 60000), (fading, 1600, 60000),
             (extended, 1600, 60000), (unscented, 1600, 50000), (cubature, 1200, 40000),
             (plain, 800, 20000)]
