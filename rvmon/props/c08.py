"""C08: a missing measurement leaves the estimate exactly at the prediction"""
import copy
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay
from ..gen import col
from .c04 import _hinf

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'information_filter', 'fading_memory', 'EKF', 'UKF', 'CubatureKalmanFilter',
    'ensemble_kalman_filter')] + ['filterpy/hinfinity/hinfinity_filter.py']
RULE = ('Random drop-out patterns (single, runs, first, last, all). State and covariance are compared bit by bit '
        'before and after each missing update, and a twin skips those updates altogether.')


def _none(z):
    """recorded measurement says: there was none"""
    return z is None or (np.size(z) > 0 and all(v is None for v in np.asarray(z, object).reshape(-1)))


def pattern(rng, n):
    k = str(rng.choice(['iid', 'runs', 'first', 'last', 'all', 'alternate']))
    m = np.zeros(n, bool)
    if k == 'iid':
        m = rng.random(n) < rng.uniform(.1, .7)
    elif k == 'runs':
        a = int(rng.integers(0, n))
        m[a:a + int(rng.integers(1, 6))] = True
    elif k == 'first':
        m[:int(rng.integers(1, n + 1))] = True
    elif k == 'last':
        m[-int(rng.integers(1, n + 1)):] = True
    elif k == 'all':
        m[:] = True
    else:
        m[::2] = True
    return k, m


def exact_filters(ctx, rng):
    """all formulations on linear models"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4))
    cls = zoo.EXACT[rng.integers(len(zoo.EXACT))]
    ad = cls(rng, s)
    bd = copy.deepcopy(ad)
    ad.rng = bd.rng = rng
    n = gen.length(rng, 1, 12, 40)
    k, miss = pattern(rng, n)
    ctx.describe(filter=ad.name, n=s.n, m=s.m, pat=k, N=n, x=np.ndim(ad.f.x))
    for i in range(n):
        if not ad.multi or rng.random() < .85:
            u = s.newu() if s.du and rng.random() < .5 else None
            s.step()
            ad.predict(u)
            bd.predict(u)
            ctx.event('predict')
        if miss[i]:
            pa = 'P_inv' if ad.name == 'InformationFilter' else 'P'
            x, P = np.array(ad.f.x), np.array(getattr(ad.f, pa))
            for _ in range(int(rng.choice([1, 1, 2]))):
                if rng.random() < .3 and ad.name in ('KalmanFilter', 'UnscentedKalmanFilter', 'CubatureKalmanFilter',
                                                     'FadingKalmanFilter'):
                    ad.f.update(None, R=s.newR())
                else:
                    ad.none()
            f = ad.f
            ctx.event('missing')
            ctx.true('state untouched', np.array_equal(f.x, x) and f.x.shape == x.shape, repr(f.x))
            ctx.true('covariance untouched', np.array_equal(getattr(f, pa), P))
            ctx.true('posterior is the prediction', np.array_equal(f.x_post, x))
            if ad.name == 'SquareRootKalmanFilter':
                ctx.close('posterior covariance is the prediction', f.P_post, P, 1e-12)
            else:
                ctx.true('posterior covariance is the prediction', np.array_equal(getattr(f, pa + '_post'), P))
            ctx.true('absence recorded', _none(f.z), repr(f.z))
            if ad.name != 'InformationFilter':
                ctx.true('one record per measured quantity', np.size(f.z) == s.m, repr(f.z))
            if ad.y_reset:
                ctx.true('residual reset', not np.any(f.y), repr(f.y))
        else:
            z = s.z()
            st = rng.bit_generator.state
            ad.update(z)
            rng.bit_generator.state = st
            bd.update(z)
            ctx.event('update')
            ctx.true('presence recorded', not _none(ad.f.z))
            if rng.random() < .2:                            # a second sensor, silent, straight after the first
                pa = 'P_inv' if ad.name == 'InformationFilter' else 'P'
                x, P = np.array(ad.f.x), np.array(getattr(ad.f, pa))
                ad.none()
                ctx.event('missing')
                ctx.true('silent second sensor: state untouched', np.array_equal(ad.f.x, x))
                ctx.true('silent second sensor: covariance untouched', np.array_equal(getattr(ad.f, pa), P))
                ctx.true('silent second sensor: posterior is the belief', np.array_equal(ad.f.x_post, x))
                ctx.close('silent second sensor: posterior covariance', getattr(ad.f, pa + '_post'), P, 1e-12)
                ctx.true('silent second sensor: absence recorded', _none(ad.f.z), repr(ad.f.z))
        sc = max(1e-6, float(np.max(np.abs(bd.x))), 1e-3 * float(np.sqrt(np.max(np.abs(bd.P)))))
        ctx.close('same as leaving the update out: state', ad.x, bd.x, 1e-10, sc)
        ctx.close('same as leaving the update out: covariance', ad.P, bd.P, 1e-10)


def kalman_forms(ctx, rng):
    """every update flavour of the linear filter"""
    from filterpy.kalman import kalman_filter as M
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    a = make_kf(s, nd)
    if rng.random() < .4:
        a.M = .01 * s.s ** 2 * rng.standard_normal((s.n, s.m))
    b = copy.deepcopy(a)
    n = int(rng.integers(1, 10))
    k, miss = pattern(rng, n)
    ctx.describe(n=s.n, m=s.m, nd=nd, N=n, pat=k)
    for i in range(n):
        s.step()
        F, Q = s.newF(), s.newQ()
        a.predict(F=F, Q=Q)
        b.predict(F=F, Q=Q)
        kind = str(rng.choice(['update', 'update_correlated', 'update_steadystate']))
        if miss[i]:
            x, P, K = a.x.copy(), a.P.copy(), np.array(a.K)
            args = {}
            if kind != 'update_steadystate':
                args = {q: getattr(s, 'new' + q)() for q in ('R', 'H') if rng.random() < .3}
            getattr(a, kind)(None, **args)
            ctx.event('missing', kind=kind)
            ctx.true('state untouched', np.array_equal(a.x, x) and a.x.shape == x.shape)
            ctx.true('covariance untouched', np.array_equal(a.P, P))
            ctx.true('gain untouched', np.array_equal(a.K, K))
            ctx.true('posterior is the prediction', np.array_equal(a.x_post, x) and np.array_equal(a.P_post, P))
            ctx.true('absence recorded', _none(a.z), repr(a.z))
            ctx.true('one record per measured quantity', np.size(a.z) == s.m, repr(a.z))
            ctx.true('residual reset', np.shape(a.y)[0] == s.m and not np.any(a.y), repr(a.y))
            o = M.update(x, P, None, s.R, s.H)
            ctx.true('stateless update returns its input', np.array_equal(o[0], x) and np.array_equal(o[1], P))
            ctx.true('stateless steady update returns its input', np.array_equal(M.update_steadystate(x, None, K, s.H), x))
            g = a.get_update(None)
            ctx.true('get_update of nothing', np.array_equal(g[0], x) and np.array_equal(g[1], P))
        else:
            z = lay(s.z(), nd)
            if kind == 'update_correlated' and np.any(a.M):
                kind = 'update'
            getattr(a, kind)(z.copy())
            getattr(b, kind)(z.copy())
            ctx.event('update', kind=kind)
        ctx.close('same as leaving the update out: state', a.x, b.x, 1e-12, max(1e-6, float(np.max(np.abs(b.x)))))
        ctx.close('same as leaving the update out: covariance', a.P, b.P, 1e-12)
        ctx.true('copies are independent of the state', a.x_post is not a.x and not np.shares_memory(a.x_post, a.x)
                 and not np.shares_memory(a.P_post, a.P))


def nonlinear(ctx, rng):
    """extended, unscented, cubature and ensemble filters on nonlinear models, H-infinity"""
    from filterpy.kalman import (ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter,
                                 EnsembleKalmanFilter)
    from .c02 import _model
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    f, h, J = _model(rng, n, m)
    P0, Q, R, x0 = gen.spd(rng, n, .1, 2), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2), rng.standard_normal(n)
    kind = str(rng.choice(['ekf', 'ukf', 'ckf', 'enkf', 'hinf']))
    calls = [0]

    def hc(x):
        calls[0] += 1
        return h(x)
    if kind == 'ekf':
        k = ExtendedKalmanFilter(n, m)
        k.F = gen.trans_inv(rng, n)
        k.x = x0.copy()
        upd = lambda o, z: o.update(z, J, hc)                              # noqa
    elif kind == 'hinf':
        s = gen.WellSys(rng, n=n, m=m, du=0, scale=1.)
        k = _hinf(rng, s)
        upd = lambda o, z: o.update(None if z is None else col(z))         # noqa
    else:
        if kind == 'ukf':
            k = UnscentedKalmanFilter(n, m, .3, hc, f, zoo.points(rng, n)[1])
        elif kind == 'ckf':
            k = CubatureKalmanFilter(n, m, .3, hc, f)
        else:
            k = EnsembleKalmanFilter(x0.copy(), P0, m, .3, int(rng.integers(4, 20)), hc, f)
        k.x = x0.copy()
        upd = lambda o, z: o.update(z)                                     # noqa
    if kind != 'hinf':
        k.P, k.Q, k.R = P0.copy(), Q.copy(), R.copy()
    b = copy.deepcopy(k)
    N = int(rng.integers(1, 10))
    pat, miss = pattern(rng, N)
    ctx.describe(kind=kind, n=n, m=m, N=N, pat=pat)
    for i in range(N):
        sd = int(rng.integers(2 ** 31))
        np.random.seed(sd)
        k.predict()
        np.random.seed(sd)
        b.predict()
        if miss[i]:
            x, P = np.array(k.x), np.array(k.P)
            sg = np.array(k.sigmas) if kind == 'enkf' else None
            c0 = calls[0]
            st = np.random.get_state()[1].copy()
            upd(k, None)
            ctx.event('missing')
            ctx.true('state untouched', np.array_equal(k.x, x) and k.x.shape == x.shape)
            ctx.true('covariance untouched', np.array_equal(k.P, P))
            ctx.true('user function not called', calls[0] == c0)
            if kind == 'enkf':
                ctx.true('ensemble untouched', np.array_equal(k.sigmas, sg))
                ctx.true('random stream untouched', np.array_equal(np.random.get_state()[1], st))
            if kind != 'hinf':
                ctx.true('posterior is the prediction', np.array_equal(k.x_post, x) and np.array_equal(k.P_post, P))
                ctx.true('absence recorded', _none(k.z), repr(k.z))
                ctx.true('one record per measured quantity', np.size(k.z) == m, repr(k.z))
        else:
            z = rng.standard_normal(m) * 2
            np.random.seed(sd + 1 & 0x7fffffff)
            upd(k, z.copy())
            np.random.seed(sd + 1 & 0x7fffffff)
            upd(b, z.copy())
            ctx.event('update')
            if rng.random() < .2:                            # a second sensor, silent, straight after the first
                x, P = np.array(k.x), np.array(k.P)
                upd(k, None)
                ctx.event('missing')
                ctx.true('silent second sensor: belief untouched', np.array_equal(k.x, x) and np.array_equal(k.P, P))
                if kind != 'hinf':
                    ctx.true('silent second sensor: posterior is the belief',
                             np.array_equal(k.x_post, x) and np.array_equal(k.P_post, P))
                    ctx.true('silent second sensor: absence recorded', _none(k.z), repr(k.z))
        if not np.all(np.isfinite(b.P)) or np.max(np.abs(b.P)) > 1e9:
            return
        ctx.close('same as leaving the update out: state', k.x, b.x, 1e-12, max(1., float(np.max(np.abs(b.x)))))
        ctx.close('same as leaving the update out: covariance', k.P, b.P, 1e-12)


def ekf_combined(ctx, rng):
    """EKF.predict_update with a missing measurement is the prediction alone; batch calls with drop-outs"""
    from filterpy.kalman import ExtendedKalmanFilter
    s = gen.LinSys(rng, n=gen.dim(rng, 4))
    k = ExtendedKalmanFilter(s.n, s.m, s.du)
    k.x, k.P, k.F, k.Q, k.R = col(s.x0), s.P0.copy(), s.F.copy(), s.Q.copy(), s.R.copy()
    if s.du:
        k.B = s.B.copy()
    b = copy.deepcopy(k)
    J, h = (lambda x: s.H), (lambda x: s.H @ x)
    ctx.describe(n=s.n, m=s.m, du=s.du)
    for i in range(int(rng.integers(1, 8))):
        kw = {'u': col(s.newu())} if s.du and rng.random() < .5 else {}
        s.step()
        z = None if rng.random() < .5 else col(s.z())
        k.predict_update(z, J, h, **kw)
        b.predict(**kw)
        if z is not None:
            b.update(z, J, h)
        ctx.event('step', z=z is not None)
        ctx.close('combined call: state', k.x, b.x, 1e-10, max(1e-6, float(np.max(np.abs(b.x)))))
        ctx.close('combined call: covariance', k.P, b.P, 1e-10)


SCENARIOS = [(exact_filters, 5000, 80000), (kalman_forms, 4000, 50000), (nonlinear, 3000, 30000),
             (ekf_combined, 1600, 20000)]
