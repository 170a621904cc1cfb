"""C10: reported likelihoods are the true Gaussian densities"""
import math
import sys
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, Hist, lay
from ..refs import condition, logpdf, joint_evidence

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'fading_memory', 'information_filter', 'EKF', 'UKF', 'CubatureKalmanFilter')] + [
    'filterpy/stats/stats.py']
RULE = ('After every update of random histories (also with outliers down to underflow) likelihood, log-likelihood and '
        'Mahalanobis distance are recomputed by Cholesky conditioning; the sum over the run is compared with the '
        'log density of all measurements under their joint Gaussian.')


def judge(ctx, f, r, maha=True, tag=''):
    ll = float(f.log_likelihood)
    ctx.close('log-likelihood' + tag, ll, r['ll'], 1e-6, 1 + abs(r['ll']))
    lk = float(f.likelihood)
    ctx.true('likelihood never zero' + tag, lk > 0 and math.isfinite(lk), lk)
    e = math.exp(ll) if ll < 700 else float('inf')
    if e > 3e-308:
        ctx.close('likelihood is the exponential' + tag, lk / e, 1., 1e-9)
    else:
        ctx.true('tiny likelihood stays tiny' + tag, lk < 3e-308, lk)
    if maha:
        ctx.close('Mahalanobis distance' + tag, float(f.mahalanobis), r['maha'], 1e-6, max(1e-3, r['maha']))


def linear(ctx, rng):
    """KalmanFilter histories with overrides and drop-outs; values read late, repeatedly, or not at all"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    h = Hist(ctx, rng, s, kf, nd, retune=False, none=rng.random() < .4)
    n = gen.length(rng, 2, 14, 60)
    lazy = rng.random() < .5
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, ops=n, lazy=lazy)
    last, tot, cnt = [None], [0.], [0]

    def mon(op):
        if op['op'] == 'update':
            last[0] = op['ref']
            if not lazy or rng.random() < .5:
                judge(ctx, kf, op['ref'])
            tot[0] += kf.log_likelihood
            cnt[0] += 1
        elif op['op'] == 'none':
            last[0] = None
        elif last[0] is not None and rng.random() < .4:
            judge(ctx, kf, last[0], tag=' after a prediction')
    h.run(n, mon)
    if cnt[0]:
        ev, k = joint_evidence(h.steps, s.x0, s.P0)
        if ev is not None:
            ctx.close('sum is the log evidence', tot[0], ev, 1e-6, 10 + abs(ev) + k)


def formulations(ctx, rng):
    """every formulation that reports likelihoods"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4))
    cls = (zoo.Info, zoo.Fading, zoo.EKF, zoo.UKF, zoo.CKF)[rng.integers(5)]
    ad = cls(rng, s)
    r = zoo.Run(ctx, rng, s, ad)
    n = gen.length(rng, 2, 12, 40)
    ctx.describe(filter=ad.name, n=s.n, m=s.m, du=s.du, ops=n, kind=getattr(ad, 'kind', ''))
    tot, ref, last = [0.], [0.], [None]

    def mon(op):
        if op['op'] == 'update':
            last[0] = op['ref']
            judge(ctx, ad.f, op['ref'], ad.has_maha)
            tot[0] += ad.ll
            ref[0] += op['ref']['ll']
        elif last[0] is not None and rng.random() < .3:
            judge(ctx, ad.f, last[0], ad.has_maha, ' after a later step')
    r.run(n, mon)
    ctx.close('sum of log-likelihoods', tot[0], ref[0], 1e-6, 10 + abs(ref[0]))


def outliers(ctx, rng):
    """measurements far out: underflow never gives zero, nan or an exception"""
    s = gen.WellSys(rng, n=gen.dim(rng, 3), du=0, scale=1.)
    cls = (zoo.KF, zoo.Info, zoo.Fading, zoo.EKF, zoo.UKF, zoo.CKF)[rng.integers(6)]
    ad = cls(rng, s)
    ctx.describe(filter=ad.name, n=s.n, m=s.m)
    for i in range(int(rng.integers(1, 5))):
        ad.predict()
        x, P = ad.x, ad.P
        z = s.z() + rng.standard_normal(s.m) * gen.logu(rng, 1, 1e4)
        if rng.random() < .5:
            # next to the smallest representable likelihood
            zp = ad.H @ x
            q = condition(x, (P + P.T) / 2, ad.H, ad.R, z)
            c0 = q['ll'] + .5 * q['maha'] ** 2
            z = zp + (z - zp) * math.sqrt(2 * (c0 + rng.uniform(600., 760.))) / max(q['maha'], 1e-3)
        ad.update(z)
        r = condition(x, (P + P.T) / 2, ad.H, ad.R, z)
        judge(ctx, ad.f, r, ad.has_maha)
        ctx.event('outlier', ll=r['ll'])


def nonlinear(ctx, rng):
    """reported values on nonlinear models, from the reported residual and innovation covariance"""
    from filterpy.kalman import ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter
    from .c02 import _model
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    f, h, J = _model(rng, n, m)
    kind = str(rng.choice(['ekf', 'ukf', 'ckf']))
    if kind == 'ekf':
        k = ExtendedKalmanFilter(n, m)
        upd = lambda z, **kw: k.update(z, J, h, **kw)                              # noqa
    elif kind == 'ukf':
        k = UnscentedKalmanFilter(n, m, .3, h, f, zoo.points(rng, n, ('julier', 'simplex'))[1])
        upd = lambda z, **kw: k.update(z, **kw)                                    # noqa
    else:
        k = CubatureKalmanFilter(n, m, .3, h, f)
        upd = lambda z, **kw: k.update(z, **kw)                                    # noqa
    x0 = rng.standard_normal(n)
    k.x, k.P, k.Q, k.R = x0.copy(), gen.spd(rng, n, .1, 2), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2)
    ctx.describe(kind=kind, n=n, m=m)
    for i in range(int(rng.integers(1, 8))):
        k.predict()
        z = h(x0) + rng.standard_normal(m) * rng.choice([1, 1, 20])
        kw = {'R': gen.spd(rng, m, .1, 2)} if rng.random() < .3 else {}
        upd(z, **kw)
        y, S = np.reshape(k.y, -1).astype(float), k.S
        r = {'ll': logpdf(y, S), 'maha': math.sqrt(max(0, y @ np.linalg.solve(S, y)))}
        judge(ctx, k, r)
        ctx.event('update', R=bool(kw))


def initial(ctx, rng):
    """before any update the likelihood is the smallest representable, never zero or nan"""
    s = gen.WellSys(rng, n=gen.dim(rng, 3), du=0, scale=1.)
    cls = (zoo.KF, zoo.Info, zoo.Fading, zoo.EKF, zoo.UKF, zoo.CKF)[rng.integers(6)]
    f = cls(rng, s).f
    ctx.describe(filter=cls.name, n=s.n)
    ctx.true('likelihood never zero before the first update', f.likelihood > 0 and f.likelihood < 1e-290)
    ctx.close('log-likelihood before the first update', f.log_likelihood, math.log(sys.float_info.min), 1e-12)
    ctx.event('initial')


def steady(ctx, rng):
    """values are refreshed by every flavour of update, also through the steady-state form"""
    s = gen.LinSys(rng, n=gen.dim(rng, 4), scale=1., du=0)
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    ctx.describe(n=s.n, m=s.m, nd=nd)
    kf.predict()
    kf.update(lay(s.z(), nd))
    S = kf.S.copy()
    for i in range(int(rng.integers(1, 6))):
        kf.likelihood, kf.log_likelihood, kf.mahalanobis
        s.step()
        if rng.random() < .7:
            kf.predict_steadystate()
        x = np.reshape(kf.x, -1)
        z = s.z()
        if rng.random() < .7:
            kf.update_steadystate(lay(z, nd))
            y = z - s.H @ x
            judge(ctx, kf, {'ll': logpdf(y, S), 'maha': math.sqrt(y @ np.linalg.solve(S, y))}, tag=' (steady)')
        else:
            P = kf.P.copy()
            kf.update_correlated(lay(z, nd))
            S = kf.S.copy()
            judge(ctx, kf, condition(x, (P + P.T) / 2, s.H, s.R, z), tag=' (correlated)')
        ctx.event('update')


SCENARIOS = [(linear, 2500, 80000), (formulations, 2000, 60000), (outliers, 1200, 30000), (nonlinear, 1200, 30000),
             (initial, 60, 200), (steady, 800, 20000)]
