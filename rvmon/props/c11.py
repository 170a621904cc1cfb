"""C11: RTS smoothing is the exact posterior given the whole record"""
import copy
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay
from ..refs import ls_posterior, sym

ANCHORS = ['filterpy/kalman/kalman_filter.py', 'filterpy/kalman/UKF.py']
RULE = ('Filter passes over simulated records (time-varying models, drop-outs, lengths from one) are smoothed and every '
        'smoothed mean and covariance is compared with conditioning the whole record at once (one whitened least-squares problem solved by QR).')


def linear(ctx, rng):
    """method and stateless function against the joint Gaussian"""
    from filterpy.kalman import kalman_filter as M
    far = rng.random() < .01
    s = gen.WellSys(rng, n=int(rng.integers(1, 4)) if far else gen.dim(rng, 4), du=0)
    nd = int(rng.choice([1, 2]))
    n = int(rng.integers(60, 150)) if far else gen.length(rng, 1, 9, 25)
    uf = bool(rng.random() < .2)
    vary = rng.random() < .7 and not uf
    kf = make_kf(s, nd)
    Fs = [s.newF() if vary else s.F for _ in range(n)]
    Qs = [s.newQ() if vary else s.Q for _ in range(n)]
    kw, sk = {}, {}
    if vary:
        which = rng.choice(['both', 'F', 'Q'])
        if which != 'Q':
            kw['Fs'] = Fs
        else:
            Fs = [s.F] * n
        if which != 'F':
            kw['Qs'] = Qs
        else:
            Qs = [s.Q] * n
        sk = dict(kw)
    elif rng.random() < .5:
        sk = dict(Fs=Fs, Qs=Qs)
    zs, steps = [], []
    for i in range(n):
        if uf:
            z = None if rng.random() < .2 else s.z()
            if z is not None:
                steps.append(('u', s.H, s.R, z))
            s.step()
            steps.append(('p', Fs[i], Qs[i], np.zeros(s.n)))
        else:
            s.step(Fs[i])
            steps.append(('p', Fs[i], Qs[i], np.zeros(s.n)))
            z = None if rng.random() < .2 else s.z()
            if z is not None:
                steps.append(('u', s.H, s.R, z))
        zs.append(None if z is None else lay(z, nd))
    Ms, Cs, Mp, Cp = kf.batch_filter(zs, update_first=uf, **kw)
    if max(np.linalg.cond(Cp[i]) for i in range(n)) > 1e5 or np.max(np.abs(Cp)) > 1e5 * s.s ** 2:
        ctx.true('ill-conditioned record skipped', True)
        return
    ctx.describe(n=s.n, m=s.m, nd=nd, N=n, uf=uf, vary=vary, none=sum(z is None for z in zs))
    k0, c0 = Ms.copy(), Cs.copy()
    before = {a: np.array(getattr(kf, a)) for a in ('x', 'P', 'F', 'Q', 'K')}
    if rng.random() < .2:
        sk['inv'] = np.linalg.pinv
    x, P, K, Pp = gen.call(rng, kf.rts_smoother, ['Fs', 'Qs', 'inv'], sk, (Ms, Cs), {'inv': np.linalg.inv})
    ctx.event('smooth', N=n)
    ctx.true('inputs not modified', np.array_equal(Ms, k0) and np.array_equal(Cs, c0))
    ctx.true('filter not modified', all(np.array_equal(getattr(kf, a), v) for a, v in before.items()))
    ctx.shape('shape of means', x, Ms.shape)
    ctx.shape('shape of covariances', P, Cs.shape)
    ctx.true('last step unchanged', np.array_equal(x[-1], Ms[-1]) and np.array_equal(P[-1], Cs[-1]))
    post = ls_posterior(steps, s.x0, s.P0)
    post = post[:n] if uf else post[1:]
    for k in range(n):
        m, C = post[k]
        sc = max(1e-6, float(np.max(np.abs(Ms))), float(np.max(np.abs(m))))
        ctx.close('smoothed mean', x[k], m, 1e-6, sc, flat=True)
        ctx.close('smoothed covariance', P[k], C, 1e-6, float(np.max(np.abs(Cp[k]))) + float(np.max(np.abs(Cs[k]))))
    x2, P2, K2, Pp2 = M.rts_smoother(Ms, Cs, Fs, Qs)
    ctx.true('inputs not modified', np.array_equal(Ms, k0) and np.array_equal(Cs, c0))
    sc = max(1e-6, float(np.max(np.abs(Ms))))
    ctx.close('stateless smoother: means', x2, x, 1e-6, sc)
    ctx.close('stateless smoother: covariances', P2, P, 1e-6, float(np.max(np.abs(Cs))))
    for k in range(n - 1):
        A = sym(Fs[k + 1] @ Cs[k] @ Fs[k + 1].T + Qs[k + 1])
        ctx.close('predicted covariance', Pp[k], A, 1e-8)
        ctx.close('stateless predicted covariance', Pp2[k], A, 1e-8)
        G = np.linalg.solve(A, Fs[k + 1] @ Cs[k]).T
        ctx.close('smoother gain', K[k], G, 1e-5)
        ctx.close('stateless smoother gain', K2[k], G, 1e-5)


def unscented_linear(ctx, rng):
    """unscented smoother on linear models with variable steps against the joint Gaussian"""
    from filterpy.kalman import UnscentedKalmanFilter
    s = gen.WellSys(rng, n=gen.dim(rng, 3), du=0, scale=1.)
    n = gen.far(rng, gen.length(rng, 1, 8, 20), 30, 100 if s.n < 4 else 40)
    G = rng.standard_normal((s.n, s.n))
    G *= .4 / np.linalg.norm(G, 2)
    tr = lambda dt: s.F @ (np.eye(s.n) + dt * G)                      # noqa
    kind, pts = zoo.points(rng, s.n)
    k = UnscentedKalmanFilter(s.n, s.m, .5, lambda x: s.H @ x, lambda x, dt: tr(dt) @ x, pts)
    k.x, k.P, k.Q, k.R = s.x0.copy(), s.P0.copy(), s.Q.copy(), s.R.copy()
    mode = str(rng.choice(['default', 'list', 'scalar', 'Qs', 'listQs']))
    dts = [.5] * n
    if mode in ('list', 'listQs'):
        dts = [gen.dtv(rng, .1, 1.2) for _ in range(n)]
    elif mode == 'scalar':
        dts = [gen.dtv(rng, .1, 1.2)] * n
    Qs = [s.newQ() for _ in range(n)] if 'Qs' in mode else [s.Q] * n
    Ms, Cs, steps = [], [], []
    for i in range(n):
        F = tr(dts[i])
        s.step(F)
        k.Q = Qs[i].copy()
        k.predict(dt=dts[i])
        z = None if rng.random() < .2 else s.z()
        k.update(z)
        steps.append(('p', F, Qs[i], np.zeros(s.n)))
        if z is not None:
            steps.append(('u', s.H, s.R, z))
        Ms.append(k.x.copy())
        Cs.append(k.P.copy())
    k.Q = s.Q.copy()
    Ms, Cs = np.array(Ms), np.array(Cs)
    kw = {}
    if mode == 'list' or mode == 'listQs':
        kw['dts'] = dts
    elif mode == 'scalar':
        kw['dts'] = dts[0]
    if 'Qs' in mode:
        kw['Qs'] = Qs
    ctx.describe(n=s.n, m=s.m, N=n, mode=mode, points=kind)
    m0, c0 = Ms.copy(), Cs.copy()
    bx, bP = k.x.copy(), k.P.copy()
    x, P, K = gen.call(rng, k.rts_smoother, ['Qs', 'dts', 'UT'], kw, (Ms, Cs))
    ctx.event('smooth', N=n)
    ctx.true('inputs not modified', np.array_equal(Ms, m0) and np.array_equal(Cs, c0))
    ctx.true('filter not modified', np.array_equal(k.x, bx) and np.array_equal(k.P, bP))
    ctx.true('last step unchanged', np.array_equal(x[-1], Ms[-1]) and np.array_equal(P[-1], Cs[-1]))
    post = ls_posterior(steps, s.x0, s.P0)[1:]
    for i in range(n):
        m, C = post[i]
        ctx.close('smoothed mean', x[i], m, 1e-6, max(1., float(np.max(np.abs(Ms)))))
        ctx.close('smoothed covariance', P[i], C, 1e-6, max(float(np.max(np.abs(Cs))), 1e-9))
    for i in range(n - 1):
        F = tr(dts[i + 1])
        A = sym(F @ Cs[i] @ F.T + Qs[i + 1])
        ctx.close('smoother gain', K[i], np.linalg.solve(A, F @ Cs[i]).T, 1e-5)


def unscented_nonlinear(ctx, rng):
    """unscented smoother on nonlinear models against the sigma-point smoothing formulas"""
    from filterpy.kalman import UnscentedKalmanFilter, unscented_transform
    from .c02 import _model
    n = int(rng.integers(1, 4))
    f, h, _ = _model(rng, n, 1)
    kind, pts = zoo.points(rng, n, ('julier', 'simplex', 'merwe'))
    k = UnscentedKalmanFilter(n, 1, .4, h, f, pts)
    Q = gen.spd(rng, n, .05, 1)
    k.Q = Q.copy()
    k.P = gen.spd(rng, n, .1, 1)
    N = gen.far(rng, gen.length(rng, 1, 6, 12), 30, 100)
    dts = [gen.dtv(rng, .1, 1.) for _ in range(N)]
    Ms, Cs = [], []
    for i in range(N):
        k.predict(dt=dts[i])
        k.update(rng.standard_normal(1) * 2)
        Ms.append(k.x.copy())
        Cs.append(k.P.copy())
    Ms, Cs = np.array(Ms), np.array(Cs)
    calls = []

    def ut(*a, **kw):
        calls.append(1)
        return unscented_transform(*a, **kw)
    custom = rng.random() < .3
    ctx.describe(n=n, N=N, points=kind, custom=custom)
    x, P, K = k.rts_smoother(Ms, Cs, dts=dts, **({'UT': ut} if custom else {}))
    ctx.event('smooth', N=N)
    if custom:
        ctx.true('custom transform used', len(calls) == N - 1)
    xs, ps = Ms.copy(), Cs.copy()
    for i in range(N - 2, -1, -1):
        X = pts.sigma_points(Ms[i], Cs[i])
        Y = np.array([f(v, dts[i + 1]) for v in X])
        yb = pts.Wm @ Y
        dY = Y - yb
        Pb = (dY.T * pts.Wc) @ dY + Q
        Pxb = ((X - Ms[i]).T * pts.Wc) @ dY
        G = np.linalg.solve(Pb.T, Pxb.T).T
        ctx.close('smoother gain', K[i], G, 1e-6)
        xs[i] = xs[i] + G @ (xs[i + 1] - yb)
        ps[i] = ps[i] + G @ (ps[i + 1] - Pb) @ G.T
        ctx.close('smoothed mean (sigma points)', x[i], xs[i], 1e-7, max(1., np.max(np.abs(Ms))))
        ctx.close('smoothed covariance (sigma points)', P[i], ps[i], 1e-7, np.max(np.abs(Cs)))
    ctx.true('last step unchanged', np.array_equal(x[-1], Ms[-1]) and np.array_equal(P[-1], Cs[-1]))


def unscented_angles(ctx, rng):
    """unscented smoother with its own state mean, residual and point subtraction (angles crossing the wrap)"""
    from filterpy.kalman import UnscentedKalmanFilter
    from .c16 import World
    n = int(rng.integers(1, 4))
    W = World(rng, n, 1, True)
    if not W.xa.any():
        W.xa[rng.integers(n)] = True
    N = gen.far(rng, gen.length(rng, 1, 6, 12), 30, 100)
    res = lambda a, b: W.wx(np.asarray(a) - np.asarray(b))             # noqa
    pts, kind = _pts(rng, n, res)
    k = UnscentedKalmanFilter(n, 1, .3, W.h, W.f, pts, x_mean_fn=W.xmean, residual_x=res)
    Q = gen.spd(rng, n, .01, .1)
    k.Q = Q.copy()
    dts = [gen.dtv(rng, .1, .6) for _ in range(N)]
    Ms = W.wx(np.cumsum(rng.standard_normal((N, n)) * .3, 0) + rng.uniform(-4, 4, n))
    Cs = np.array([gen.spd(rng, n, .01, .15) for _ in range(N)])
    x0, P0 = k.x.copy(), k.P.copy()
    m0, c0 = Ms.copy(), Cs.copy()
    Qs = [gen.spd(rng, n, .01, .1) for _ in range(N)] if rng.random() < .5 else None
    ctx.describe(n=n, N=N, points=kind, ang=int(W.xa.sum()), Qs=Qs is not None)
    x, P, K = k.rts_smoother(Ms, Cs, dts=dts, **({} if Qs is None else {'Qs': Qs}))
    ctx.event('smooth', N=N)
    ctx.true('inputs not modified', np.array_equal(Ms, m0) and np.array_equal(Cs, c0))
    ctx.true('filter not modified', np.array_equal(k.x, x0) and np.array_equal(k.P, P0))
    xs, ps = Ms.copy(), Cs.copy()
    for i in range(N - 2, -1, -1):
        X = pts.sigma_points(Ms[i], Cs[i])
        Y = np.array([W.fv(v, dts[i + 1]) for v in X])
        yb = W._mean(Y, pts.Wm, W.xa)
        dY = np.array([res(v, yb) for v in Y])
        dX = np.array([res(v, Ms[i]) for v in X])
        Pb = (dY.T * pts.Wc) @ dY + (Q if Qs is None else Qs[i + 1])
        if np.linalg.eigvalsh(sym(Pb))[0] < 1e-3 or min(np.abs(np.abs(W.wx(v)) - np.pi)[W.xa].min() for v in
                                                       list(dY) + list(dX)) < 1e-6:
            return
        G = np.linalg.solve(Pb.T, ((dX.T * pts.Wc) @ dY).T).T
        ctx.close('smoother gain (angles)', K[i], G, 1e-6, max(1., np.abs(G).max()))
        xs[i] = xs[i] + G @ res(xs[i + 1], yb)
        ps[i] = ps[i] + G @ (ps[i + 1] - Pb) @ G.T
        ctx.close('smoothed mean (angles)', res(x[i], xs[i]), np.zeros(n), 1e-6, max(1., np.abs(xs[i]).max()))
        ctx.close('smoothed covariance (angles)', P[i], ps[i], 1e-6, max(np.max(np.abs(Cs)), np.abs(ps[i]).max()))
        xs[i], ps[i] = x[i], P[i]                 # the gains do not depend on them; keeps the comparison stepwise


def _pts(rng, n, res):
    from filterpy.kalman import JulierSigmaPoints, SimplexSigmaPoints, MerweScaledSigmaPoints
    j = int(rng.integers(3))
    if j == 0:
        return JulierSigmaPoints(n, float(rng.choice([.5, 1.])), subtract=res), 'julier'
    if j == 1:
        return SimplexSigmaPoints(n, subtract=res), 'simplex'
    return MerweScaledSigmaPoints(n, float(rng.choice([.5, 1.])), 2., 1., subtract=res), 'merwe'


SCENARIOS = [(linear, 6000, 80000), (unscented_linear, 3000, 40000), (unscented_nonlinear, 2400, 30000),
             (unscented_angles, 3000, 40000)]
