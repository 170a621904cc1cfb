"""C15: the extended filter is the Kalman filter of the linearised problem"""
import numpy as np
from .. import gen
from ..refs import condition, sym, logpdf

ANCHORS = ['filterpy/kalman/EKF.py']
RULE = ('Random nonlinear measurement functions with analytic Jacobians (1-6 states, 1-4 measurements, row and column '
        'states, extra arguments, angular residuals, controls, noise overrides), random histories.')


def wrap(a):
    return (np.asarray(a, float) + np.pi) % (2 * np.pi) - np.pi


class Model(object):
    """h(x, *extra) and its Jacobian, recording what they are called with"""

    def __init__(self, rng, n, m, ndim, extra, units=False):
        self.sx = self.sz = 1.                               # units of state and measurement
        if units:
            self.sx, self.sz = (float(v) for v in rng.choice([1., 1e-5, 1e-3, 1e3, 1e5], 2))
        self.C = rng.standard_normal((m, n))
        self.a = float(rng.uniform(.1, 1.2))
        self.n, self.m, self.ndim, self.extra = n, m, ndim, extra
        self.hcalls, self.jcalls = [], []

    def val(self, x, c=0., d=1.):
        if isinstance(c, list):                              # one list is one extra argument
            c, d = c
        w = self.C @ np.asarray(x, float).reshape(-1) / self.sx
        return (d * w + self.a * np.sin(w + c)) * self.sz

    def jac(self, x, c=0., d=1.):
        if isinstance(c, list):
            c, d = c
        w = self.C @ np.asarray(x, float).reshape(-1) / self.sx
        return (d + self.a * np.cos(w + c))[:, None] * self.C * (self.sz / self.sx)

    def h(self, x, *args):
        self.hcalls.append((np.array(x), args))
        r = self.val(x, *args)
        return r if self.ndim == 1 else r.reshape(-1, 1)

    def J(self, x, *args):
        self.jcalls.append((np.array(x), args))
        return self.jac(x, *args)


def _setup(ctx, rng, units=False):
    from filterpy.kalman import ExtendedKalmanFilter
    n, m = gen.dim(rng, 5), gen.mdim(rng)
    ndim = int(rng.choice([1, 2]))
    du = int(rng.integers(0, 3))
    f = ExtendedKalmanFilter(n, m, du)
    mod = Model(rng, n, m, ndim, int(rng.integers(0, 3)), units)
    sx, sz = mod.sx, mod.sz
    lay = (lambda v: np.array(v, float).reshape(-1)) if ndim == 1 else (lambda v: np.array(v, float).reshape(-1, 1))
    x, P = rng.standard_normal(n) * 2 * sx, gen.spd(rng, n) * sx ** 2
    f.x, f.P = lay(x), P.copy()
    f.F, f.Q, f.R = gen.trans(rng, n), gen.psd(rng, n) * sx ** 2, gen.spd(rng, m, .1, 5.) * sz ** 2
    if du:
        f.B = rng.standard_normal((n, du)) * sx
    return f, mod, lay, x, P, n, m, ndim, du


def linearised(ctx, rng):
    """every step against the Gaussian update linearised at the current state"""
    angular = rng.random() < .4
    f, mod, lay, x, P, n, m, ndim, du = _setup(ctx, rng, not angular and rng.random() < .4)
    sx, sz = mod.sx, mod.sz
    ops = gen.length(rng, 2, 16, 60) if rng.random() < .99 else int(rng.integers(180, 300))
    ang = rng.random(m) < .5 if angular else None
    ctx.describe(n=n, m=m, ndim=ndim, du=du, ops=ops, extra=mod.extra, ang=ang is not None, sx=sx, sz=sz)
    rcalls = []

    def resid(a, b):
        rcalls.append((np.array(a), np.array(b)))
        d = a - b
        d[ang] = wrap(d[ang])
        return d
    sc, ps = float(np.max(np.abs(x))), float(np.max(np.abs(P)))
    for i in range(ops):
        if rng.random() < .1:
            f.F, f.Q = gen.trans(rng, n), gen.psd(rng, n) * sx ** 2
        if (i % 2 == 0 or rng.random() < .15) and ps < 1e5 * sx ** 2:
            u = rng.standard_normal(du) if du and rng.random() < .5 else None
            F, Q = np.array(f.F), np.array(f.Q)
            if u is None:
                f.predict()
            else:
                f.predict(lay(u))
            x = F @ x + (0. if u is None else np.array(f.B) @ u)
            P = sym(F @ P @ F.T + Q)
            ctx.event('predict', u=u)
            what = 'after predict'
        else:
            R, kw = np.array(f.R), {}
            r = rng.random()
            if r < .2:
                R = kw['R'] = gen.spd(rng, m, .1, 5.) * sz ** 2
            elif r < .3:
                q = gen.logu(rng, .1, 4.) * sz ** 2
                kw['R'], R = q, np.eye(m) * q
            hx_args, args = (), ()
            if mod.extra:
                hx_args = tuple(float(v) for v in rng.uniform(.5, 2., mod.extra))
                if rng.random() < .15:
                    hx_args = (0,) + hx_args[1:]
                args = hx_args if rng.random() < .5 else tuple(float(v) for v in rng.uniform(.5, 2., mod.extra))
                one = mod.extra == 1 and rng.random() < .4
                if mod.extra == 2 and rng.random() < .25:
                    hx_args, args, one = (list(hx_args),), (list(args),), True
                kw['hx_args'], kw['args'] = (hx_args[0], args[0]) if one else (hx_args, args)
                only = rng.random()
                if only < .2:                                # extra arguments for one of the two functions only
                    args = ()
                    del kw['args']
                elif only < .4:
                    hx_args = ()
                    del kw['hx_args']
            if ang is not None:
                kw['residual'] = resid
            hx = mod.val(x, *hx_args)
            H = mod.jac(x, *args)
            d = rng.standard_normal(m) * rng.choice([.3, 2.]) * sz
            z = hx + d
            if ang is None and sz >= 1:
                z = gen.whole(rng, z)
                d = z - hx
            if ang is not None:
                d[ang] = wrap(d[ang])
                z = hx + d
                z[ang] += 2 * np.pi * rng.integers(-2, 3)
            zz = gen.zarg(rng, z, ndim) if ang is None else lay(z)
            if m == 1 and rng.random() < .2 and ang is None:
                zz = float(z[0])
            mod.hcalls, mod.jcalls = [], []
            del rcalls[:]
            S = sym(H @ P @ H.T + R)
            K = np.linalg.solve(S, H @ P).T
            gen.call(rng, f.update, ['R', 'args', 'hx_args', 'residual'], kw, (zz, mod.J, mod.h), {'args': (), 'hx_args': ()})
            ctx.event('update', over=sorted(kw))
            ctx.true('measurement function sees the current state and its arguments',
                     len(mod.hcalls) >= 1 and all(a == hx_args and np.shape(v) == np.shape(f.x) and
                                                  np.allclose(v.reshape(-1), x, 1e-6, 1e-6 * (sx + sc)) for v, a in mod.hcalls),
                     lambda: repr(mod.hcalls))
            ctx.true('Jacobian sees the current state and its arguments',
                     len(mod.jcalls) >= 1 and all(a == args and np.shape(v) == np.shape(f.x) and
                                                  np.allclose(v.reshape(-1), x, 1e-6, 1e-6 * (sx + sc)) for v, a in mod.jcalls),
                     lambda: repr(mod.jcalls))
            if ang is not None:
                ctx.true('residual function gets measurement and prediction', len(rcalls) >= 1 and
                         np.allclose(rcalls[0][0].reshape(-1), z) and np.allclose(rcalls[0][1].reshape(-1), hx, 1e-6, 1e-5))
            ctx.close('residual', f.y, d, 1e-6, float(np.max(np.abs(z))) + np.max(np.abs(H)) * sc + sz, flat=True)
            ctx.close('innovation covariance', f.S, S, 1e-7)
            ctx.close('gain', f.K, K, 1e-6, max(sx / sz, float(np.max(np.abs(K)))))
            ctx.close('log-likelihood', f.log_likelihood, logpdf(d, S), 1e-5, abs(logpdf(d, S)) + 1.)
            x = x + K @ d
            P = condition(np.zeros(n), P, H, R, np.zeros(m))['P']
            what = 'after update'
        sc = max(sc, float(np.max(np.abs(x))))
        ps = max(ps, float(np.max(np.abs(P))))
        ctx.close('state ' + what, f.x, x, 1e-6, sc, flat=True)
        ctx.shape('state keeps its layout', f.x, (n,) if ndim == 1 else (n, 1))
        ctx.close('covariance ' + what, f.P, P, 1e-6, ps)
        x, P = np.array(f.x).reshape(-1), sym(np.array(f.P))      # restart the comparison: nonlinear maps amplify rounding


def combined(ctx, rng):
    """predict_update() equals predict() then update() (or predict() alone for a missing measurement)"""
    import copy
    f, mod, lay, x, P, n, m, ndim, du = _setup(ctx, rng)
    g = copy.deepcopy(f)
    ops = gen.length(rng, 1, 10, 30)
    ctx.describe(n=n, m=m, ndim=ndim, du=du, ops=ops, extra=mod.extra)
    for i in range(ops):
        u = lay(rng.standard_normal(du)) if du and rng.random() < .6 else None
        kw = {}
        if mod.extra:
            kw = dict(hx_args=tuple(rng.uniform(.5, 2., mod.extra)), args=tuple(rng.uniform(.5, 2., mod.extra)))
            if rng.random() < .4:
                del kw['args' if rng.random() < .5 else 'hx_args']
        missing = rng.random() < .2
        z = None if missing else lay(rng.standard_normal(m) * 2)
        if u is None:
            gen.call(rng, f.predict_update, ['args', 'hx_args'], kw, (z, mod.J, mod.h), {'args': (), 'hx_args': ()})
            g.predict()
        else:
            f.predict_update(z, mod.J, mod.h, u=u, **kw)
            g.predict(u)
        if not missing:
            g.update(z, mod.J, mod.h, **kw)
        ctx.event('predict_update', missing=missing, u=u)
        ctx.close('state of the combined call', f.x, g.x, 1e-9, float(np.max(np.abs(g.x))) + 1.)
        ctx.close('covariance of the combined call', f.P, g.P, 1e-9)
        ctx.close('prior state of the combined call', f.x_prior, g.x_prior, 1e-9, float(np.max(np.abs(g.x_prior))) + 1.)
        ctx.close('prior covariance of the combined call', f.P_prior, g.P_prior, 1e-9)
        if not missing:
            for a in ('y', 'S', 'K', 'log_likelihood', 'x_post', 'P_post', 'z', 'mahalanobis'):
                w = getattr(g, a)
                ctx.close('reported %s of the combined call' % a, getattr(f, a), w, 1e-8, float(np.max(np.abs(w))) + 1.)
        if np.max(np.abs(g.P)) > 1e5:
            break


def nonlinear_predict(ctx, rng):
    """an overridden predict_x() propagates the state, F the covariance, as documented"""
    from filterpy.kalman import ExtendedKalmanFilter
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    A = gen.trans(rng, n)
    seen = []

    class E(ExtendedKalmanFilter):
        def predict_x(self, u=0):
            seen.append(u)
            self.x = A @ self.x + .3 * np.sin(self.x) + u
    f = E(n, m)
    x, P = rng.standard_normal(n), gen.spd(rng, n)
    Q = gen.psd(rng, n)
    f.x, f.P, f.Q, f.R = x.copy(), P.copy(), Q, gen.spd(rng, m)
    mod = Model(rng, n, m, 1, 0)
    ctx.describe(n=n, m=m)
    for i in range(int(rng.integers(1, 6))):
        F = A + .3 * np.diag(np.cos(x))
        f.F = F
        u = float(rng.standard_normal()) if rng.random() < .5 else 0.
        z = rng.standard_normal(m)
        comb = rng.random() < .5
        if comb:
            f.predict_update(z, mod.J, mod.h, u=u)
        else:
            f.predict(u)
        ctx.event('predict', u=u)
        xp = A @ x + .3 * np.sin(x) + u
        Pp = sym(F @ P @ F.T + Q)
        ctx.true('user transition called with the control', seen and seen[-1] == u)
        ctx.close('prior state', f.x_prior, xp, 1e-9, float(np.max(np.abs(xp))) + 1)
        ctx.close('prior covariance', f.P_prior, Pp, 1e-9)
        if not comb:
            f.update(z, mod.J, mod.h)
        H = mod.jac(xp)
        r = condition(np.zeros(n), Pp, H, f.R, z - mod.val(xp))
        ctx.close('posterior state', f.x, xp + r['x'], 1e-7, float(np.max(np.abs(xp))) + np.max(np.abs(r['K'])) + 1)
        ctx.close('posterior covariance', f.P, r['P'], 1e-7)
        x, P = np.array(f.x), sym(np.array(f.P))


SCENARIOS = [(linearised, 4000, 150000), (combined, 2000, 60000), (nonlinear_predict, 800, 20000)]
