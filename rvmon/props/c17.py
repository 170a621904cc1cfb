"""C17: the cubature filter computes the spherical-cubature moments of the given model"""
import numpy as np
from .. import gen
from ..refs import sym, logpdf
from .c14 import wrap, cov

ANCHORS = ['filterpy/kalman/CubatureKalmanFilter.py']
RULE = ('Random nonlinear models (1-6 states, 1-4 measurements, some coordinates angles), extra arguments, per-call time '
        'steps and noise, missing data; the point set and the transform are also judged on their own.')


class World(object):
    def __init__(self, rng, n, m, angles, units=False):
        self.n, self.m = n, m
        self.xa = rng.random(n) < .5 if angles else np.zeros(n, bool)
        self.za = rng.random(m) < .5 if angles else np.zeros(m, bool)
        if angles and not self.xa.any() and not self.za.any():
            self.xa[rng.integers(n)] = True
        self.A = gen.trans_inv(rng, n)
        # units of state and measurement (plain coordinates only)
        self.sx = self.sz = 1.
        if units and not angles and rng.random() < .4:
            self.sx, self.sz = (float(v) for v in rng.choice([1., 1e-5, 1e-3, 1e3, 1e5], 2))
        self.C = rng.standard_normal((m, n))
        self.a = float(rng.uniform(.05, .4))
        self.fcalls, self.hcalls, self.used, self.shapes = [], [], set(), []

    def fv(self, s, dt, g=1., c=0.):
        s = np.asarray(s, float) / self.sx
        return self.wx((s + dt * .3 * (g * np.tanh(self.A @ s) + np.sin(s) * self.a + c)) * self.sx)

    def hv(self, s, g=1., c=0.):
        s = np.asarray(s, float) / self.sx
        w = np.where(self.xa, np.sin(s), s)
        return self.wz((g * (self.C @ w) + self.a * np.cos(self.C @ w) + c) * self.sz)

    @staticmethod
    def _w(y, mask):
        y = np.array(y, float)
        y[mask] = wrap(y[mask])
        return y

    def wx(self, y):
        return self._w(y, self.xa)

    def wz(self, y):
        return self._w(y, self.za)

    def f(self, s, dt, *a):
        self.fcalls.append((np.array(s), dt, a))
        return self.fv(s, dt, *a)

    def h(self, s, *a):
        self.hcalls.append((np.array(s), a))
        return self.hv(s, *a)

    def _mean(self, s, w, ang):
        return np.where(ang, np.arctan2(np.dot(w, np.sin(s)), np.dot(w, np.cos(s))), np.dot(w, s))

    def xmean(self, s, w):
        self.used.add('x_mean')
        self.shapes.append((np.shape(s), np.shape(w), float(np.sum(w))))
        return self._mean(s, w, self.xa)

    def zmean(self, s, w):
        self.used.add('z_mean')
        self.shapes.append((np.shape(s), np.shape(w), float(np.sum(w))))
        return self._mean(s, w, self.za)

    def rx(self, a, b):
        self.used.add('residual_x')
        return self.wx(np.asarray(a) - b)

    def rz(self, a, b):
        self.used.add('residual_z')
        return self.wz(np.asarray(a) - b)

    def custom(self):
        return dict(x_mean_fn=self.xmean, z_mean_fn=self.zmean, residual_x=self.rx, residual_z=self.rz)


def cub(x, P):
    n = len(x)
    L = np.linalg.cholesky(P) * np.sqrt(n)
    return np.vstack([x + L.T, x - L.T])


def points(ctx, rng):
    """the cubature points carry the mean and covariance"""
    from filterpy.kalman.CubatureKalmanFilter import spherical_radial_sigmas
    n = int(rng.integers(1, 10))
    x, P = rng.standard_normal(n) * float(rng.choice([1., 100.])), cov(rng, n)
    xx = x.copy() if rng.random() < .5 else x.reshape(-1, 1).copy()
    ctx.describe(n=n, ndim=xx.ndim, c=round(np.log10(np.linalg.cond(P))))
    ctx.event('points')
    keep = xx.copy(), P.copy()
    S = spherical_radial_sigmas(xx, P)
    ctx.true('arguments untouched', np.array_equal(xx, keep[0]) and np.array_equal(P, keep[1]))
    ctx.shape('2n points', S, (2 * n, n))
    d = np.sqrt(np.diag(P))
    U = S - x
    rx = (np.abs(x) / d).max()
    ctx.close('mean of the points', S.mean(0) / (d + np.abs(x)), x / (d + np.abs(x)), 1e-13, 1.)
    ctx.close('covariance of the points', (U.T @ U) / (2 * n) / np.outer(d, d), P / np.outer(d, d), 1e-12 + 1e-14 * rx, 1.)


def transform(ctx, rng):
    """transform of any point set: equally weighted mean, covariance plus noise"""
    from filterpy.kalman.CubatureKalmanFilter import ckf_transform
    n = int(rng.integers(1, 6))
    m = int(rng.integers(1, 14))
    off = float(rng.choice([0., 10., 1e4, 1e7]))
    S = rng.standard_normal((m, n)) * float(rng.choice([1., 20.])) + off
    Q = gen.psd(rng, n)
    if n == 1 and rng.random() < .3:
        Q = float(Q[0, 0])
    kw = {}
    g = rng.uniform(.5, 2., n)
    c = rng.standard_normal(n)
    seen = []
    mode = str(rng.choice(['plain', 'mean', 'residual', 'both']))
    if mode in ('mean', 'both'):
        def mf(s, w):
            seen.append((np.array(s), np.array(w)))
            return np.dot(w, s) + c
        kw['mean_fn'] = mf
    if mode in ('residual', 'both'):
        kw['residual_fn'] = lambda a, b: (a - b) * g
    ctx.describe(n=n, m=m, mode=mode, off=off)
    ctx.event('transform')
    keep = S.copy(), np.array(Q)
    x, P = ckf_transform(S, Q, **kw)
    ctx.true('arguments untouched', np.array_equal(S, keep[0]) and np.array_equal(keep[1], Q))
    xm = S.mean(0) + (c if 'mean_fn' in kw else 0)
    D = S - xm
    if 'residual_fn' in kw:
        D = D * g
    ctx.close('mean', x, xm, 1e-12, float(np.max(np.abs(S))) + 1, flat=True)
    if seen:
        ctx.true('mean function gets the points with equal weights', np.array_equal(seen[0][0], S) and
                 np.allclose(seen[0][1], 1. / m))
    ctx.close('covariance', P, D.T @ D / m + Q, 1e-11 + 1e-15 * off, float(np.max(np.abs(D))) ** 2 + np.max(np.abs(Q)) + 1e-6)


def moments(ctx, rng):
    """predict and update against the moment-matching formulas"""
    from filterpy.kalman import CubatureKalmanFilter
    n, m = gen.dim(rng, 5), gen.mdim(rng)
    ang = bool(rng.random() < .4)
    w = World(rng, n, m, ang, True)
    sx, sz = w.sx, w.sz
    kw = w.custom() if ang or rng.random() < .15 else {}
    if kw and not ang:
        for k in list(kw):
            if rng.random() < .5:
                del kw[k]
    dt0 = gen.dtv(rng)
    f = CubatureKalmanFilter(n, m, dt0, w.h, w.f, **kw)
    P = gen.spd(rng, n, .02, .2) if ang else gen.spd(rng, n, .05, 2.) * sx ** 2
    x = w.wx(rng.standard_normal(n) * 2 * sx)
    f.x = x.copy() if rng.random() < .5 else x.reshape(-1, 1).copy()
    f.P = P.copy()
    f.Q, f.R = gen.psd(rng, n, 1.) * sx ** 2, gen.spd(rng, m, .1, 2.) * sz ** 2
    ops = gen.length(rng, 2, 14, 40) if rng.random() < .99 else int(rng.integers(160, 260))
    ctx.describe(n=n, m=m, ang=ang, sx=sx, sz=sz, ops=ops, custom=sorted(kw))
    fresh = False
    tol = 1e-8
    for i in range(ops):
        if rng.random() < .1:
            f.Q, f.R = gen.spd(rng, n, .01, .3) * sx ** 2, gen.spd(rng, m, .1, 2.) * sz ** 2
        k = int(rng.integers(0, 3)) if rng.random() < .5 else 0
        extra = tuple(float(v) for v in rng.uniform(.5, 1.5, k))
        if k and rng.random() < .15:
            extra = (int(rng.integers(0, 2)) * 0.,) + extra[1:] if k > 1 else (0,)
        earg = extra[0] if k == 1 and rng.random() < .4 else extra
        w.fcalls, w.hcalls, w.used, w.shapes = [], [], set(), []
        if not fresh or rng.random() < .15:
            pk, dt = {}, dt0
            if k:
                pk['fx_args'] = earg
            if rng.random() < .4:
                dt = pk['dt'] = gen.dtv(rng)
            S0 = cub(x, P)
            Y = np.array([w.fv(s, dt, *extra) for s in S0])
            xm = w._mean(Y, np.full(2 * n, .5 / n), w.xa) if 'x_mean_fn' in kw else Y.mean(0)
            D = np.array([w.wx(y - xm) for y in Y]) if 'residual_x' in kw else Y - xm
            Pm = sym(D.T @ D / (2 * n) + f.Q)
            if np.linalg.eigvalsh(Pm)[0] < 1e-5 * np.max(Pm):
                return
            gen.call(rng, f.predict, ['dt', 'fx_args'], pk, p=.4)
            ctx.event('predict', kw=sorted(pk))
            ctx.true('transition called once per point with its arguments', len(w.fcalls) == 2 * n and
                     all(d == dt and a == extra for _, d, a in w.fcalls), lambda: repr(w.fcalls[:2]))
            ctx.close('transition called with the points of the belief', sum(s for s, _, _ in w.fcalls), S0.sum(0), 1e-9,
                      float(np.max(np.abs(S0))) * len(S0) + sx)
            for fn, a in (('x_mean', 'x_mean_fn'), ('residual_x', 'residual_x')):
                ctx.true('user %s is used in predict' % fn, a not in kw or fn in w.used)
            e = np.asarray(f.x).reshape(-1) - xm
            ctx.close('predicted state', w.wx(e) if ang else e, np.zeros(n), tol, float(np.max(np.abs(Y))) + sx)
            ctx.close('predicted covariance', f.P, Pm, tol, float(np.max(np.abs(Pm))))
            x, P = np.array(f.x).reshape(-1), np.array(f.P)
            ctx.close('prior state copy', f.x_prior, x, 1e-15, 1. + np.max(np.abs(x)), flat=True)
            fresh = True
            continue
        if rng.random() < .12:
            f.update(None)
            ctx.event('missing')
            ctx.true('missing measurement changes nothing', np.array_equal(np.reshape(f.x, -1), x) and np.array_equal(f.P, P))
            continue
        uk, R = {}, np.array(f.R)
        if k:
            uk['hx_args'] = earg
        r = rng.random()
        if r < .2:
            R = uk['R'] = gen.spd(rng, m, .1, 2.) * sz ** 2
        elif r < .35:
            q = gen.logu(rng, .1, 2.) * sz ** 2
            uk['R'], R = q, np.eye(m) * q
        S0 = cub(x, P)
        Z = np.array([w.hv(s, *extra) for s in S0])
        zm = w._mean(Z, np.full(2 * n, .5 / n), w.za) if 'z_mean_fn' in kw else Z.mean(0)
        DZ = np.array([w.wz(z - zm) for z in Z]) if 'residual_z' in kw else Z - zm
        DX = np.array([w.wx(s - x) for s in S0]) if 'residual_x' in kw else S0 - x
        S = sym(DZ.T @ DZ / (2 * n) + R)
        K = np.linalg.solve(S, DZ.T @ DX / (2 * n)).T
        z = zm + rng.standard_normal(m) * .5 * sz
        if ang and rng.random() < .5:
            z = w.wz(z)
        if not ang and sz >= 1:
            z = gen.whole(rng, z)
        y = w.wz(z - zm) if 'residual_z' in kw else z - zm
        xp = x + K @ y
        Pp = sym(P - K @ S @ K.T)
        form, zz = gen.zform(rng, z, ('col', '1d', 'list')) if rng.random() < .6 else ('arg', gen.zarg(rng, z, int(rng.choice([1, 2])), .8))
        w.used = set()
        gen.call(rng, f.update, ['R', 'hx_args'], uk, (zz,), p=.4)
        fresh = False
        ctx.event('update', kw=sorted(uk), form=form)
        ctx.true('measurement function called once per point with its arguments', len(w.hcalls) == 2 * n and
                 all(a == extra for _, a in w.hcalls), lambda: repr(w.hcalls[:2]))
        for fn, a in (('z_mean', 'z_mean_fn'), ('residual_z', 'residual_z'), ('residual_x', 'residual_x')):
            ctx.true('user %s is used in update' % fn, a not in kw or fn in w.used)
        zs = float(np.max(np.abs(Z))) + float(np.max(np.abs(z))) + sz
        cs = np.linalg.cond(S)
        ctx.close('residual', f.y, y, tol, zs, flat=True)
        ctx.close('innovation covariance', f.S, S, tol)
        ctx.close('inverse innovation covariance', f.SI @ S, np.eye(m), tol * cs, 10.)
        ctx.close('gain', f.K, K, tol * cs, max(sx / sz, float(np.max(np.abs(K)))))
        ctx.close('log-likelihood', f.log_likelihood, logpdf(y, S), tol * 10 * cs, 10 + abs(logpdf(y, S)))
        e = np.asarray(f.x).reshape(-1) - xp
        ctx.close('updated state', w.wx(e) if ang else e, np.zeros(n), tol * cs, float(np.max(np.abs(xp))) + np.max(np.abs(K)) * zs + sx)
        ctx.close('updated covariance', f.P, Pp, tol * cs, float(np.max(np.abs(P))))
        x, P = np.array(f.x).reshape(-1), np.array(f.P)
        if np.linalg.eigvalsh(sym(P))[0] < 1e-5 * np.max(P):
            return


SCENARIOS = [(points, 1500, 50000), (transform, 1500, 50000), (moments, 4000, 150000)]
