"""C16: the unscented filter computes the unscented moments of the given model"""
import numpy as np
from .. import gen
from ..refs import sym, logpdf
from .c14 import family, wrap

ANCHORS = ['filterpy/kalman/UKF.py', 'filterpy/kalman/unscented_transform.py', 'filterpy/kalman/sigma_points.py']
RULE = ('Random nonlinear transition and measurement models (1-5 states, 1-4 measurements, some coordinates angles), all '
        'point families and parameters, extra arguments, per-call time steps, functions and noise, missing data.')


class World(object):
    """model with recorded calls; the angular coordinates of state and measurement are wrapped"""

    def __init__(self, rng, n, m, angles, units=False):
        self.rng, self.n, self.m = rng, n, m
        self.xa = rng.random(n) < .4 if angles else np.zeros(n, bool)
        self.za = rng.random(m) < .4 if angles else np.zeros(m, bool)
        if angles and not self.xa.any() and not self.za.any():
            self.xa[rng.integers(n)] = True
        self.A = gen.trans_inv(rng, n)
        # units of state and measurement (plain coordinates only)
        self.sx = self.sz = 1.
        if units and not angles and rng.random() < .4:
            self.sx, self.sz = (float(v) for v in rng.choice([1., 1e-5, 1e-3, 1e3, 1e5], 2))
        self.C = rng.standard_normal((m, n))
        self.a = float(rng.uniform(.05, .4))
        self.fcalls, self.hcalls = [], []
        self.used = set()

    def fv(self, s, dt, g=1., c=0.):
        s = np.asarray(s, float) / self.sx
        y = s + dt * .3 * (g * np.tanh(self.A @ s) + np.sin(s) * self.a + c)
        return self.wx(y * self.sx)

    def hv(self, s, g=1., c=0.):
        s = np.asarray(s, float) / self.sx
        w = np.where(self.xa, np.sin(s), s)
        y = g * (self.C @ w) + self.a * np.cos(self.C @ w) + c
        return self.wz(y * self.sz)

    def wx(self, y):
        return np.where(self.xa, wrap(y), y)

    def wz(self, y):
        return np.where(self.za, wrap(y), y)

    def f(self, s, dt, **kw):
        self.fcalls.append((np.array(s), dt, kw))
        return self.fv(s, dt, **kw)

    def h(self, s, **kw):
        self.hcalls.append((np.array(s), kw))
        r = self.hv(s, **kw)
        return r

    def _mean(self, s, w, ang):
        r = np.dot(w, s)
        k = np.arctan2(np.dot(w, np.sin(s)), np.dot(w, np.cos(s)))
        return np.where(ang, k, r)

    def xmean(self, s, w):
        self.used.add('x_mean')
        return self._mean(s, w, self.xa)

    def zmean(self, s, w):
        self.used.add('z_mean')
        return self._mean(s, w, self.za)

    def rx(self, a, b):
        self.used.add('residual_x')
        return self.wx(np.asarray(a) - b)

    def rz(self, a, b):
        self.used.add('residual_z')
        return self.wz(np.asarray(a) - b)

    def add(self, a, b):
        self.used.add('state_add')
        return self.wx(np.asarray(a) + b)

    def custom(self):
        return dict(x_mean_fn=self.xmean, z_mean_fn=self.zmean, residual_x=self.rx,
                    residual_z=self.rz, state_add=self.add)


def _points(ctx, rng, n, lim=1e3, **kw):
    for _ in range(50):
        k, p, r2, Wm, Wc = family(rng, n, **kw)
        if np.sum(np.abs(Wm)) < lim and (Wc[0] >= 0 or k != 'x'):
            return k, p, Wm, Wc
    raise RuntimeError


def _pos(P):
    return np.linalg.eigvalsh(sym(P))[0] > 1e-4 * np.max(np.abs(P))


def moments(ctx, rng):
    """predict and update against the moment-matching formulas"""
    from filterpy.kalman import UnscentedKalmanFilter
    n, m = gen.dim(rng, 5), gen.mdim(rng)
    ang = bool(rng.random() < .4)
    w = World(rng, n, m, ang, True)
    sx, sz = w.sx, w.sz
    kw = w.custom() if ang or rng.random() < .15 else {}
    if kw and not ang:
        for k in list(kw):
            if rng.random() < .5:
                del kw[k]
    kind, pts, Wm, Wc = _points(ctx, rng, n, 50. if ang else 1e3, **({'subtract': w.rx} if ang else {}))
    dt0 = gen.dtv(rng)
    f = UnscentedKalmanFilter(n, m, dt0, w.h, w.f, pts, **kw)
    amp = float(np.sum(np.abs(Wm)) + np.sum(np.abs(Wc)))
    P = gen.spd(rng, n, .02, .2) if ang else gen.spd(rng, n, .05, 2.) * sx ** 2
    x = w.wx(rng.standard_normal(n) * 2 * sx)
    f.x, f.P = x.copy(), P.copy()
    f.Q, f.R = gen.spd(rng, n, .01, .3) * sx ** 2, gen.spd(rng, m, .1, 2.) * sz ** 2
    ops = gen.length(rng, 2, 14, 40) if rng.random() < .99 else int(rng.integers(160, 260))
    ctx.describe(n=n, m=m, ang=ang, sx=sx, sz=sz, kind=kind, ops=ops, custom=sorted(kw))
    fresh = False
    tol = 1e-9 + 1e-12 * amp
    for i in range(ops):
        if rng.random() < .1:
            f.Q, f.R = gen.spd(rng, n, .01, .3) * sx ** 2 * (rng.random() > .2), gen.spd(rng, m, .1, 2.) * sz ** 2
        extra = {}
        if rng.random() < .3:
            extra['g'] = float(rng.uniform(.5, 1.5))
        if rng.random() < .3:
            extra['c'] = float(rng.uniform(-1, 1))
        if not fresh or rng.random() < .15:
            pk, dt = dict(extra), dt0
            if rng.random() < .4:
                dt = pk['dt'] = gen.dtv(rng)
            other = rng.random() < .2
            off = float(rng.uniform(-1, 1))
            calls = []
            if other:
                def alt(s, d, **k):
                    calls.append((np.array(s), d, k))
                    return w.wx(w.fv(s, d, **k) + off * sx)
                pk['fx'] = alt
            S0 = np.array(pts.sigma_points(x, P))
            Y = np.array([w.fv(s, dt, **extra) for s in S0])
            if other:
                Y = np.array([w.wx(y + off * sx) for y in Y])
            xm = w._mean(Y, Wm, w.xa) if 'x_mean_fn' in kw else Wm @ Y
            D = np.array([w.wx(y - xm) for y in Y]) if 'residual_x' in kw else Y - xm
            Pm = sym((D.T * Wc) @ D + f.Q)
            if not _pos(Pm):                  # negative weights: no Gaussian belief to go on with
                return
            w.fcalls, w.used = [], set()
            gen.call(rng, f.predict, ['dt', 'UT', 'fx'], pk)
            ctx.event('predict', kw=sorted(pk))
            seen = calls if other else w.fcalls
            ctx.true('only the requested transition function is called', not other or not w.fcalls)
            ctx.true('transition called once per point with its arguments', len(seen) == len(S0) and
                     all(d == dt and k == extra for _, d, k in seen), lambda: repr(seen[:2]))
            ctx.close('transition called with the points of the belief', np.array(sorted([s.tolist() for s, _, _ in seen])),
                      np.array(sorted(S0.tolist())), 1e-9, float(np.max(np.abs(S0))) + sx) if n == 1 else \
                ctx.close('transition called with the points of the belief', sum(s for s, _, _ in seen), S0.sum(0), 1e-9,
                          float(np.max(np.abs(S0))) * len(S0) + sx)
            for fn, a in (('x_mean', 'x_mean_fn'), ('residual_x', 'residual_x')):
                ctx.true('user %s is used in predict' % fn, a not in kw or fn in w.used)
            e = w.wx(np.asarray(f.x) - xm) if ang else np.asarray(f.x) - xm
            ctx.close('predicted state', e, np.zeros(n), tol, float(np.max(np.abs(Y))) + sx)
            ctx.close('predicted covariance', f.P, Pm, tol * 10, float(np.max(np.abs(Pm))) + np.max(np.abs(D)) ** 2)
            x, P = np.array(f.x), np.array(f.P)
            fresh = True
            continue
        if rng.random() < .12:
            f.update(None)
            ctx.event('missing')
            ctx.true('missing measurement changes nothing', np.array_equal(f.x, x) and np.array_equal(f.P, P))
            continue
        uk, R = dict(extra), np.array(f.R)
        r = rng.random()
        if r < .2:
            R = uk['R'] = gen.spd(rng, m, .1, 2.) * sz ** 2
        elif r < .35:
            q = gen.logu(rng, .1, 2.) * sz ** 2
            uk['R'], R = q, np.eye(m) * q
        other = rng.random() < .2
        off = float(rng.uniform(-1, 1))
        calls = []
        if other:
            def alth(s, **k):
                calls.append((np.array(s), k))
                return w.wz(w.hv(s, **k) + off * sz)
            uk['hx'] = alth
        S0 = np.array(pts.sigma_points(x, P))
        Z = np.array([w.hv(s, **extra) for s in S0])
        if other:
            Z = np.array([w.wz(z + off * sz) for z in Z])
        zm = w._mean(Z, Wm, w.za) if 'z_mean_fn' in kw else Wm @ Z
        DZ = np.array([w.wz(z - zm) for z in Z]) if 'residual_z' in kw else Z - zm
        DX = np.array([w.wx(s - x) for s in S0]) if 'residual_x' in kw else S0 - x
        S = sym((DZ.T * Wc) @ DZ + R)
        if not _pos(S):
            return
        Pxz = (DX.T * Wc) @ DZ
        K = np.linalg.solve(S, Pxz.T).T
        z = zm + rng.standard_normal(m) * .5 * sz
        if ang and rng.random() < .5:
            z = w.wz(z)
        if not ang and sz >= 1:
            z = gen.whole(rng, z)
        y = w.wz(z - zm) if 'residual_z' in kw else z - zm
        xp = x + K @ y
        if 'state_add' in kw:
            xp = w.wx(xp)
        Pp = sym(P - K @ S @ K.T)
        w.hcalls, w.used = [], set()
        zarg = gen.zarg(rng, z, 1) if not ang else z.copy()
        if m == 1 and rng.random() < .3 and not ang:
            zarg = float(z[0])
        gen.call(rng, f.update, ['R', 'UT', 'hx'], uk, (zarg,))
        fresh = False
        ctx.event('update', kw=sorted(uk))
        seen = calls if other else w.hcalls
        ctx.true('only the requested measurement function is called', not other or not w.hcalls)
        ctx.true('measurement function called once per point with its arguments', len(seen) == len(S0) and
                 all(k == extra for _, k in seen), lambda: repr(seen[:2]))
        for fn, a in (('z_mean', 'z_mean_fn'), ('residual_z', 'residual_z'), ('residual_x', 'residual_x'),
                      ('state_add', 'state_add')):
            ctx.true('user %s is used in update' % fn, a not in kw or fn in w.used)
        zs = float(np.max(np.abs(Z))) + float(np.max(np.abs(z))) + sz
        cs = np.linalg.cond(S)
        ctx.close('residual', f.y, y, tol, zs, flat=True)
        ctx.close('innovation covariance', f.S, S, tol * 10, float(np.max(np.abs(S))) + np.max(np.abs(DZ)) ** 2)
        ctx.close('inverse innovation covariance', f.SI @ S, np.eye(m), tol * 10 * cs, 10.)
        ctx.close('gain', f.K, K, tol * 10 * cs, max(sx / sz, float(np.max(np.abs(K)))))
        ctx.close('log-likelihood', f.log_likelihood, logpdf(y, S), tol * 100 * cs, 10 + abs(logpdf(y, S)))
        e = np.asarray(f.x) - xp
        e = w.wx(e) if ang else e
        ctx.close('updated state', e, np.zeros(n), tol * 10 * cs, float(np.max(np.abs(xp))) + np.max(np.abs(K)) * zs + sx)
        ctx.close('updated covariance', f.P, Pp, tol * 10 * cs, float(np.max(np.abs(P))))
        x, P = np.array(f.x), np.array(f.P)
        if not _pos(P):
            return


def transforms(ctx, rng):
    """a user-supplied transform replaces the unscented transform for that call only"""
    from filterpy.kalman import UnscentedKalmanFilter, unscented_transform
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    w = World(rng, n, m, False)
    kind, pts, Wm, Wc = _points(ctx, rng, n, 50.)
    mk = lambda: UnscentedKalmanFilter(n, m, .3, w.h, w.f, pts)        # noqa
    f, g = mk(), mk()
    calls = []

    def ut(sig, a, b, noise=None, mean_fn=None, residual_fn=None):
        calls.append((np.array(sig), np.array(a), np.array(b), np.array(noise)))
        x, P = unscented_transform(sig, a, b, noise, mean_fn, residual_fn)
        return x + .25, P * 1.5
    x, P = rng.standard_normal(n), gen.spd(rng, n, .1, 1.)
    Q, R = gen.spd(rng, n, .01, .3), gen.spd(rng, m, .1, 2.)
    for k in (f, g):
        k.x, k.P, k.Q, k.R = x.copy(), P.copy(), Q.copy(), R.copy()
    ctx.describe(n=n, m=m, kind=kind)
    ctx.event('predict')
    Y = np.array([w.fv(q, .3) for q in pts.sigma_points(x, P)])
    if not _pos(((Y - Wm @ Y).T * Wc) @ (Y - Wm @ Y) + Q):
        return
    f.predict()
    g.predict(UT=ut)
    ctx.true('transform got points, weights and noise', len(calls) == 1 and np.allclose(calls[0][1], Wm) and
             np.allclose(calls[0][2], Wc) and np.array_equal(calls[0][3], Q) and calls[0][0].shape == (len(Wm), n))
    ctx.close('state from the user transform', g.x, f.x + .25, 1e-9, float(np.max(np.abs(f.x))) + 1)
    ctx.close('covariance from the user transform', g.P, f.P * 1.5, 1e-8)
    f.x, f.P = g.x.copy(), g.P.copy()
    f = mk()
    f.x, f.P, f.Q, f.R = x.copy(), P.copy(), Q.copy(), R.copy()
    f.predict(UT=ut)
    z = rng.standard_normal(m)
    del calls[:]
    X = pts.sigma_points(np.array(f.x), np.array(f.P))       # the points of the belief the user's transform produced
    Z = np.array([w.hv(q) for q in X])
    zp = Wm @ Z
    S = ((Z - zp).T * Wc) @ (Z - zp) + R
    K = np.linalg.solve(S.T, (((X - f.x).T * Wc) @ (Z - zp)).T).T if _pos(S) else None
    x1 = np.array(f.x)
    f.update(z)
    ctx.true('transform is not kept for later calls', not calls)
    zs = float(np.max(np.abs(Z))) * float(np.sum(np.abs(Wm))) + 1
    ctx.close('measurement predicted from the transformed belief', f.y, z - zp, 1e-8, zs)
    if K is not None:
        ctx.close('update starts from the transformed belief', f.x, x1 + K @ (z - zp), 1e-7,
                  float(np.max(np.abs(x1))) + float(np.max(np.abs(K))) * zs)
    g.update(z, UT=ut)
    ctx.event('update')
    ctx.true('transform got the measurement points and noise', len(calls) == 1 and calls[0][0].shape == (len(Wm), m) and
             np.array_equal(calls[0][3], R))
    ctx.close('innovation covariance from the user transform', g.S, f.S * 1.5, 1e-8)
    ctx.close('residual from the user transform', g.y, f.y - .25, 1e-8, float(np.max(np.abs(f.y))) + 1)


def smoother(ctx, rng):
    """the unscented RTS recursion on nonlinear models, per-step noise and time steps"""
    from filterpy.kalman import UnscentedKalmanFilter
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    ang = bool(rng.random() < .3)
    w = World(rng, n, m, ang)
    kind, pts, Wm, Wc = _points(ctx, rng, n, 30., **({'subtract': w.rx} if ang else {}))
    kw = w.custom() if ang else {}
    dt0 = .3
    f = UnscentedKalmanFilter(n, m, dt0, w.h, w.f, pts, **kw)
    f.Q = gen.spd(rng, n, .02, .3)
    N = gen.far(rng, gen.length(rng, 1, 11, 20), 30, 150)
    Xs = np.array([w.wx(rng.standard_normal(n)) for _ in range(N)])
    Ps = np.array([gen.spd(rng, n, .02, .2) for _ in range(N)])
    sk = {}
    Qs, dts = [f.Q] * N, [dt0] * N
    if rng.random() < .5:
        z0 = rng.random() < .12                            # a noise-free transition
        Qs = sk['Qs'] = [np.zeros((n, n)) if z0 else gen.spd(rng, n, .02, .3) for _ in range(N)]
    if rng.random() < .5:
        dts = [gen.dtv(rng) for _ in range(N)]
        sk['dts'] = dts
        if rng.random() < .3:
            sk['dts'] = dts[0]
            dts = [dts[0]] * N
    ctx.describe(n=n, kind=kind, ang=ang, N=N, kw=sorted(sk))
    keep = Xs.copy(), Ps.copy()
    xs, ps, Ks = gen.call(rng, f.rts_smoother, ['Qs', 'dts', 'UT'], sk, (Xs, Ps))
    ctx.event('smooth', N=N)
    ctx.true('inputs untouched', np.array_equal(Xs, keep[0]) and np.array_equal(Ps, keep[1]))
    wx = (lambda d: w.wx(d)) if ang else (lambda d: d)
    ctx.true('last step unchanged', np.array_equal(xs[-1], Xs[-1]) and np.array_equal(ps[-1], Ps[-1]))
    for k in range(N - 2, -1, -1):
        # one recursion step, restarted from the filter's own step k+1
        S0 = pts.sigma_points(Xs[k], Ps[k])
        Y = np.array([w.fv(s, dts[k + 1]) for s in S0])
        xb = w._mean(Y, Wm, w.xa) if ang else Wm @ Y
        D = np.array([wx(y - xb) for y in Y])
        Pb = sym((D.T * Wc) @ D + Qs[k + 1])
        if not _pos(Pb):
            return
        Pxb = sum(c * np.outer(wx(s - Xs[k]), d) for c, s, d in zip(Wc, S0, D))
        K = np.linalg.solve(Pb, Pxb.T).T
        ctx.close('smoother gain', Ks[k], K, 1e-7, max(1., float(np.max(np.abs(K)))))
        xw = Xs[k] + K @ wx(xs[k + 1] - xb)
        Pw = Ps[k] + K @ (ps[k + 1] - Pb) @ K.T
        ctx.close('smoothed state', wx(xs[k] - xw), np.zeros(n), 1e-7, float(np.max(np.abs(xw))) + 1)
        ctx.close('smoothed covariance', ps[k], Pw, 1e-7, float(np.max(np.abs(Pw))) + np.max(np.abs(Pb)))


SCENARIOS = [(moments, 4000, 150000), (transforms, 800, 20000), (smoother, 1200, 40000)]
