"""C05: the stateless functions compute what the filter objects compute"""
import copy
import numpy as np
from .. import gen
from ..drive import make_kf, lay
from ..refs import condition

ANCHORS = ['filterpy/kalman/kalman_filter.py']
RULE = ('Random histories run through a filter object and through the stateless functions side by side; '
        'also scalar problems against hand-written scalar formulas.')


def lockstep(ctx, rng):
    """predict/update object vs stateless, with extras"""
    from filterpy.kalman import predict, update
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    al = float(rng.choice([1., 1., 1.02, 1.3]))
    kf = make_kf(s, nd, alpha=al)
    x, P = kf.x.copy(), kf.P.copy()
    steps = int(rng.integers(1, 14))
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, steps=steps, alpha=al)
    for i in range(steps):
        s.step()
        F, Q, H, R = s.newF(), s.newQ(), s.newH(), s.newR()
        if rng.random() < .6:
            kw = {}
            if s.du and rng.random() < .6:
                B, u = s.newB(), lay(s.newu(), nd)
                if rng.random() < .1:
                    u = u * 0
                kw = dict(u=u, B=B)
            kf.predict(F=F, Q=Q, **kw)
            x, P = predict(x, P, F=F, Q=Q, alpha=al, **kw)
            ctx.event('predict', u=bool(kw))
        else:
            if rng.random() < .15:
                z = None
                kf.update(None)
                r = update(x, P, None, R, H, return_all=True)
                ctx.true('missing measurement returns six values', len(r) == 6 and all(v is None for v in r[2:]))
                ctx.close('missing: state', r[0], x, 0.)
                ctx.close('missing: covariance', r[1], P, 0.)
                x, P = update(x, P, None, R, H)
                ctx.event('missing')
            else:
                z = s.z(H, R)
                kf.H, kf.R = H, R
                f, zz = gen.zform(rng, z)
                kf.update(zz)
                if rng.random() < .5:
                    x, P = update(x, P, copy.deepcopy(zz), R, H)
                else:
                    pre = (x.copy(), P.copy())
                    x, P, y, K, S, ll = update(x, P, copy.deepcopy(zz), R, H, return_all=True)
                    sc = max(1e-6, float(np.max(np.abs(x))), float(np.max(np.abs(z))))
                    ctx.close('residual', y, kf.y, 1e-8, sc * s.n * 4, flat=True)
                    ctx.close('gain', K, kf.K, 1e-8)
                    ctx.close('innovation covariance', S, kf.S, 1e-8)
                    ctx.close('log-likelihood', ll, kf.log_likelihood, 1e-7, 1 + abs(kf.log_likelihood))
                    c = condition(pre[0], pre[1], H, R, z)
                    ctx.close('log-likelihood (reference)', ll, c['ll'], 1e-6, 1 + abs(c['ll']))
                ctx.event('update', form=f)
        sc = max(1e-6, float(np.max(np.abs(kf.x))))
        if z_mag(s):
            sc = max(sc, z_mag(s))
        ctx.close('state', x, kf.x, 1e-8, sc)
        ctx.close('covariance', P, kf.P, 1e-8)


def z_mag(s):
    return float(np.max(np.abs(s.truth)))


def steady(ctx, rng):
    """steady-state pair"""
    from filterpy.kalman import kalman_filter as M
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    kf.K = rng.standard_normal((s.n, s.m)) * .3
    x = kf.x.copy()
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd)
    for i in range(int(rng.integers(1, 12))):
        s.step()
        kf.F, kf.H = s.newF(), s.newH()
        kw = {}
        if s.du and rng.random() < .6:
            kw = dict(u=lay(s.newu(), nd), B=s.newB())
        kf.predict_steadystate(**kw)
        x = M.predict_steadystate(x, kf.F, **kw)
        sc = max(1e-6, float(np.max(np.abs(kf.x))), z_mag(s))
        ctx.close('steady prediction', x, kf.x, 1e-9, sc)
        if rng.random() < .15:
            kf.update_steadystate(None)
            x = M.update_steadystate(x, None, kf.K, kf.H)
            ctx.event('missing')
        else:
            f, z = gen.zform(rng, s.z(kf.H))
            kf.update_steadystate(copy.deepcopy(z))
            x = M.update_steadystate(x, z, kf.K, kf.H)
            ctx.event('update', form=f)
        ctx.close('steady update', x, kf.x, 1e-9, max(sc, float(np.max(np.abs(kf.x)))))


def scalar(ctx, rng):
    """scalar problems with plain numbers"""
    from filterpy.kalman import kalman_filter as M
    from filterpy.kalman import KalmanFilter
    num = [float, np.float64, lambda v: np.array([v]), lambda v: np.array(v)]
    kind = int(rng.integers(4))
    w = num[kind]
    x, P = float(rng.standard_normal() * 5), gen.logu(rng, 1e-2, 1e2)
    if kind < 2 and rng.random() < .2:
        x, w = float(int(rng.integers(-5, 6))), int
    kf = KalmanFilter(1, 1, 1)
    kf.x, kf.P = np.array([[x]]), np.array([[P]])
    xs, Ps = w(x), P
    ctx.describe(kind=kind, t=str(getattr(w, '__name__', '')))
    for i in range(int(rng.integers(1, 10))):
        F, Q = float(rng.uniform(-1.2, 1.2)), float(rng.uniform(0, 2))
        if rng.random() < .5:
            kw = {}
            if rng.random() < .2:
                F, Q = 1., 0.
            else:
                kw = dict(F=F, Q=Q)
            Bu = 0.
            if rng.random() < .5:
                u, B = float(rng.standard_normal()), float(rng.standard_normal())
                kw['u'] = u
                if rng.random() < .7:
                    kw['B'] = B
                else:
                    B = 1.
                Bu = B * u
            al = float(rng.choice([1., 1.1]))
            if al != 1.:
                kw['alpha'] = al
            xs, Ps = M.predict(xs, Ps, **kw)
            kf.F, kf.Q, kf.B, kf.alpha = np.array([[F]]), np.array([[Q]]), np.array([[1.]]), al
            kf.predict(u=np.array([[Bu]]))
            ctx.event('predict', kw=sorted(kw))
        else:
            H, R, z = float(rng.uniform(-2, 2)), gen.logu(rng, .05, 5), float(rng.standard_normal() * 5)
            kw = {}
            if rng.random() < .3:
                H = 1.
            else:
                kw['H'] = H if rng.random() < .7 else np.array([H])
            zz = [z, np.float64(z), [z], np.array([z])][rng.integers(4)]
            kf.H, kf.R = np.array([[H]]), np.array([[R]])
            kf.update(z)
            if rng.random() < .5:
                xs, Ps = M.update(xs, Ps, zz, R, **kw)
            else:
                xs, Ps, y, K, S, ll = M.update(xs, Ps, zz, R, return_all=True, **kw)
                ctx.close('scalar residual', y, kf.y[0, 0], 1e-9, 10, flat=True)
                ctx.close('scalar gain', K, kf.K[0, 0], 1e-9, 1, flat=True)
                ctx.close('scalar innovation variance', S, kf.S[0, 0], 1e-9, flat=True)
                ctx.close('scalar log-likelihood', ll, kf.log_likelihood, 1e-8, 1 + abs(kf.log_likelihood))
            ctx.event('update', kw=sorted(kw))
        ctx.close('scalar state', np.reshape(xs, -1), kf.x[0], 1e-9, 10)
        ctx.close('scalar variance', np.reshape(Ps, -1), kf.P[0], 1e-9)
        k = float(rng.uniform(-1, 1))
        F2, u2 = float(rng.uniform(-1, 1)), float(rng.standard_normal())
        ctx.close('scalar steady prediction', np.reshape(M.predict_steadystate(w(x), F2, u2, 2.), -1),
                  [F2 * x + 2 * u2], 1e-9, 10)
        ctx.close('scalar steady update', np.reshape(M.update_steadystate(w(x), 1.5, k, 2.), -1),
                  [x + k * (1.5 - 2 * x)], 1e-9, 20)
        ctx.close('scalar steady update, default H', np.reshape(M.update_steadystate(w(x), 1.5, k), -1),
                  [x + k * (1.5 - x)], 1e-9, 20)


def batch_and_smooth(ctx, rng):
    """stateless batch filter and smoother against the object's"""
    from filterpy.kalman import kalman_filter as M
    s = gen.WellSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    n = gen.far(rng, gen.length(rng, 1, 9, 40))
    uf = bool(rng.random() < .5)
    Fs, Qs, Hs, Rs = ([getattr(s, 'new' + k)() for _ in range(n)] for k in 'FQHR')
    if rng.random() < .06:
        Qs = [np.zeros((s.n, s.n)) for _ in range(n)]      # noise-free transitions
    zs = []
    for i in range(n):
        s.step()
        zs.append(None if rng.random() < .2 else lay(s.z(Hs[i]), nd))
    kw = {}
    if s.du and rng.random() < .5:
        kw = dict(us=[lay(s.newu(), nd) for _ in range(n)], Bs=[s.newB() for _ in range(n)])
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, N=n, uf=uf, u=bool(kw))
    x0, P0 = kf.x.copy(), kf.P.copy()
    o1 = kf.batch_filter(zs, Fs=Fs, Qs=Qs, Hs=Hs, Rs=Rs, update_first=uf, **kw)
    if uf or rng.random() < .5:
        kw['update_first'] = uf
    o2 = gen.call(rng, M.batch_filter, ['Bs', 'us', 'update_first', 'saver'], kw, (x0, P0, zs, Fs, Qs, Hs, Rs),
                  {'update_first': False})
    ctx.event('batch', N=n)
    for nm, a, b in zip(('means', 'covariances', 'prior means', 'prior covariances'), o2, o1):
        ctx.close('batch ' + nm, a, b, 1e-8, max(1e-6, float(np.max(np.abs(b)))))
    if max(np.max(np.linalg.cond(c)) for c in o1[3]) > 1e8:
        return
    r1 = kf.rts_smoother(o1[0], o1[1], Fs, Qs)
    r2 = M.rts_smoother(o1[0].copy(), o1[1].copy(), Fs, Qs)
    ctx.event('smooth')
    for nm, a, b in zip(('means', 'covariances', 'gains', 'predicted covariances'), r2, r1):
        ctx.close('smoother ' + nm, a, b, 1e-7, max(1e-6, float(np.max(np.abs(b)))))


def precise(ctx, rng):
    """very precise sensors on vague priors: the uncertainty left along the measured direction"""
    from filterpy.kalman import KalmanFilter
    from filterpy.kalman import kalman_filter as M
    n = gen.dim(rng, 4)
    nd = int(rng.choice([1, 2]))
    kf = KalmanFilter(n, 1)
    kf.P = gen.spd(rng, n, .5, 2., kind=str(rng.choice(['diag', 'dense', 'iso']))) * gen.logu(rng, 1e2, 1e5)
    j = int(rng.integers(0, n))
    H = np.eye(n)[[j]] * float(rng.choice([1., 1., 2., -.5]))
    R = np.array([[gen.logu(rng, 1e-9, 1e-6)]])
    kf.H, kf.R = H, R
    kf.x = lay(rng.standard_normal(n), nd)
    ctx.describe(n=n, nd=nd, ratio=round(float(np.log10(kf.P[j, j] / R[0, 0]))))
    for i in range(int(rng.integers(1, 4))):
        x, P = kf.x.copy(), kf.P.copy()
        z = lay(rng.standard_normal(1), nd)
        kf.update(z.copy())
        a = M.update(x, P, z.copy(), R, H)
        b = M.update(x, P, z.copy(), R, H, return_all=True)
        ctx.event('update')
        left = float(H @ kf.P @ H.T)
        for o in (a, b):
            ctx.close('precise sensor: state', o[0], kf.x, 1e-9, 1. + np.max(np.abs(z)))
            ctx.close('precise sensor: variance left', float(H @ o[1] @ H.T) / left, 1., 1e-4)
            ctx.true('precise sensor: valid covariance', np.linalg.eigvalsh((o[1] + o[1].T) / 2)[0] > -1e-12 * np.max(P))


SCENARIOS = [(precise, 800, 20000), (lockstep, 6000, 100000), (steady, 3000, 50000), (scalar, 4000, 50000), (batch_and_smooth, 3000, 40000)]
