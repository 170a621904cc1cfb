"""C35: invalid configurations are rejected, valid ones accepted"""
import copy
import random
import warnings
import numpy as np
from .. import gen, world

ANCHORS = ['filterpy/kalman', 'filterpy/gh/gh_filter.py', 'filterpy/common', 'filterpy/stats/stats.py', 'filterpy/memory',
           'filterpy/leastsq', 'filterpy/hinfinity']
RULE = ('Constructors and operations of every class with sizes and parameters on both sides of the documented boundaries; documented argument names; fresh objects are '
        'compared with the documented defaults and used once; objects with a history are compared before and after a refused operation.')
BAD = (ValueError, AssertionError, TypeError)
REJ = 'invalid configuration refused'


def pick(rng, *v):
    return v[int(rng.integers(0, len(v)))]


def eq(ctx, o, name, want, shape=None):
    v = getattr(o, name)
    want = np.asarray(want, float)
    got = np.asarray(v, float)
    ctx.shape('default shape [%s]' % name, got, shape or want.shape)
    ctx.true('default value [%s]' % name, np.array_equal(got, want), lambda: '%s.%s = %r' % (type(o).__name__, name, v))


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def num(rng, v):
    """an integer in one of its usual types"""
    return pick(rng, int(v), int(v), np.int64(v), np.int32(v))


def fresh(ctx, rng):
    """documented defaults of a fresh filter, and its first steps"""
    import filterpy.kalman as K
    import filterpy.hinfinity as Hi
    n, m, du = int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.integers(0, 4))
    N, M, U = num(rng, n), num(rng, m), num(rng, du)
    kind = pick(rng, 'KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'FadingKalmanFilter', 'ExtendedKalmanFilter',
                'HInfinityFilter', 'FixedLagSmoother', 'UnscentedKalmanFilter', 'CubatureKalmanFilter', 'EnsembleKalmanFilter')
    ctx.describe(kind=kind, n=n, m=m, du=du)
    ctx.event('construct', kind=kind)
    I, Z = np.eye(n), np.zeros((n, 1))

    def construct(cls, *a):
        if rng.random() < .3 and not du:
            return quiet(cls, *a)
        return quiet(cls, *a, dim_u=U) if rng.random() < .5 else quiet(cls, *a, U)

    if kind in ('KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'FadingKalmanFilter', 'ExtendedKalmanFilter'):
        if kind == 'FadingKalmanFilter':
            al = pick(rng, 1, 1., 1.02, gen.logu(rng, 1., 3.))
            f = construct(K.FadingKalmanFilter, al, N, M)
            ctx.close('fading factor', f.alpha, al, 1e-14, 1.)
        else:
            f = construct(getattr(K, kind), N, M)
        ctx.true('sizes', (f.dim_x, f.dim_z, f.dim_u) == (n, m, du))
        eq(ctx, f, 'x', Z)
        for a in ('Q', 'P', 'F', 'R', 'P_inv', 'R_inv'):
            if hasattr(f, a) and not (kind == 'InformationFilter' and a == 'F'):
                eq(ctx, f, a, np.eye(m if a[0] == 'R' else n))
        if kind != 'ExtendedKalmanFilter':
            eq(ctx, f, 'H', np.zeros((m, n)))
        eq(ctx, f, 'y', np.zeros((m, 1)))
        if kind == 'KalmanFilter':
            ctx.true('no fading by default', f.alpha == 1.)
            eq(ctx, f, 'M', np.zeros((n, m)))
            eq(ctx, f, 'K', np.zeros((n, m)))
        if kind in ('KalmanFilter', 'FadingKalmanFilter', 'ExtendedKalmanFilter'):
            for a, w in (('x_prior', Z), ('x_post', Z), ('P_prior', I), ('P_post', I)):
                eq(ctx, f, a, w)
            ctx.true('likelihood of nothing', 0 < f.likelihood < 1e-300 and f.log_likelihood < -700)
        if kind in ('KalmanFilter', 'SquareRootKalmanFilter', 'FadingKalmanFilter', 'ExtendedKalmanFilter'):
            ctx.event('first steps')
            a2 = float(al) ** 2 if kind == 'FadingKalmanFilter' else 1.
            f.predict()
            ctx.close('first prediction: state', f.x, Z, 1e-12, 1.)
            ctx.close('first prediction: covariance', f.P, I * (a2 + 1.), 1e-12)
            H, z = rng.standard_normal((m, n)), rng.standard_normal((m, 1))
            if kind == 'ExtendedKalmanFilter':
                f.update(z, lambda x: H, lambda x: H @ x)
            else:
                f.H = H
                f.update(z)
            S = (a2 + 1) * H @ H.T + np.eye(m)
            G = (a2 + 1) * H.T @ np.linalg.inv(S)
            ctx.close('first update: state', f.x, G @ z, 1e-9, 1. + np.max(np.abs(z)))
            ctx.close('first update: covariance', f.P, (a2 + 1) * (I - G @ H), 1e-9, 3.)
        elif kind == 'InformationFilter':
            f.F = np.eye(n)
            f.predict()
            ctx.close('first prediction: information', f.P_inv, I / 2, 1e-12, 1.)
    elif kind == 'HInfinityFilter':
        f = quiet(Hi.HInfinityFilter, N, M, U, gamma=.01)
        ctx.true('sizes', (f.dim_x, f.dim_z, f.dim_u, f.gamma) == (n, m, du, .01))
        for a, w in (('x', Z), ('P', I), ('Q', I), ('F', I), ('H', np.zeros((m, n)))):
            eq(ctx, f, a, w)
        ctx.shape('default shape [V]', f.V, (m, m))
        ctx.shape('default shape [W]', f.W, (n, n))
        f.predict()
        ctx.close('first prediction: state', f.x, Z, 1e-12, 1.)
    elif kind == 'FixedLagSmoother':
        f = K.FixedLagSmoother(N, M) if rng.random() < .4 else K.FixedLagSmoother(N, M, N=num(rng, rng.integers(1, 6)))
        ctx.true('sizes', (f.dim_x, f.dim_z) == (n, m))
        for a, w in (('x', Z), ('P', I), ('Q', I), ('F', I), ('R', np.eye(m)), ('H', np.eye(m, n))):
            eq(ctx, f, a, w)
        if f.N:
            z = rng.standard_normal((m, 1))
            f.smooth(z)
            ctx.event('first steps')
            h = np.eye(m, n)
            ctx.close('first smoothing step', f.x, 2 * h.T @ np.linalg.inv(2 * h @ h.T + np.eye(m)) @ z, 1e-9, 3.)
    else:
        hx, fx = (lambda x: np.resize(x, m)), (lambda x, dt: x)
        if kind == 'EnsembleKalmanFilter':
            x0, P0, E = rng.standard_normal(n), gen.spd(rng, n, .5, 2.), num(rng, pick(rng, 2, 3, 10, 50))
            f = K.EnsembleKalmanFilter(x=x0, P=P0, dim_z=M, dt=.5, N=E, hx=hx, fx=fx)
            ctx.true('sizes', (f.dim_x, f.dim_z, f.N, f.dt) == (n, m, int(E), .5))
            for a, w in (('x', x0), ('P', P0), ('Q', I), ('R', np.eye(m)), ('x_prior', x0), ('x_post', x0), ('P_prior', P0),
                         ('P_post', P0)):
                eq(ctx, f, a, w)
            ctx.shape('ensemble', f.sigmas, (int(E), n))
            ctx.true('ensemble is finite', np.all(np.isfinite(f.sigmas)))
        else:
            if kind == 'CubatureKalmanFilter':
                f = K.CubatureKalmanFilter(N, M, .5, hx, fx)
                k = 2 * n
            else:
                p = pick(rng, K.MerweScaledSigmaPoints(n, .5, 2., 1.), K.JulierSigmaPoints(n, 1.), K.SimplexSigmaPoints(n))
                f = K.UnscentedKalmanFilter(N, M, .5, hx, fx, p)
                k = p.num_sigmas()
                ctx.true('number of points', k == (n + 1 if type(p).__name__[0] == 'S' else 2 * n + 1))
                ctx.shape('weights', f.Wm, (k,))
                ctx.shape('weights', f.Wc, (k,))
            for a, w in (('x', np.zeros(n)), ('P', I), ('Q', I), ('R', np.eye(m)), ('x_prior', np.zeros(n)), ('P_prior', I),
                         ('x_post', np.zeros(n)), ('P_post', I)):
                eq(ctx, f, a, w)
            ctx.shape('points', f.sigmas_f, (k, n))
            ctx.shape('measured points', f.sigmas_h, (k, m))
            ctx.true('likelihood of nothing', 0 < f.likelihood < 1e-300 and f.log_likelihood < -700)
            f.predict()
            ctx.close('first prediction: state', np.ravel(f.x), np.zeros(n), 1e-9, 1.)
            ctx.close('first prediction: covariance', f.P, 2 * I, 1e-7)
    # nothing is shared between fresh objects
    ctx.true('fresh state is not shared', f.x is not f.P)


def sizes(ctx, rng):
    """constructors at the boundaries of the sizes"""
    import filterpy.kalman as K
    name = pick(rng, 'KalmanFilter', 'SquareRootKalmanFilter', 'InformationFilter', 'FadingKalmanFilter')
    v = [int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(0, 4))]
    low = [1, 1, 0]
    k = int(rng.integers(0, 4))
    if k < 3:
        v[k] = low[k] - int(rng.integers(1, 4))
    elif rng.random() < .5:
        v = low[:]
    head = [1.] if name == 'FadingKalmanFilter' else []
    cls = getattr(K, name)
    ctx.describe(name=name, k=k)
    ctx.event('sizes', bad=k < 3)

    def call():
        if rng.random() < .5:
            return quiet(cls, *(head + v))
        kw = dict(zip(('dim_x', 'dim_z', 'dim_u'), v))
        if head:
            kw['alpha'] = 1.
        return quiet(cls, **kw)
    if k < 3:
        ctx.raises(REJ, BAD, call)
    else:
        f = call()
        ctx.true('valid sizes accepted', (f.dim_x, f.dim_z, f.dim_u) == tuple(v))


def params(ctx, rng):
    """other documented parameter bounds"""
    import filterpy.kalman as K
    import filterpy.gh as G
    import filterpy.memory as Me
    import filterpy.leastsq as L
    import filterpy.common as C
    import filterpy.stats as S
    k = int(rng.integers(0, 15))
    ctx.describe(k=k)
    ctx.event('parameter', kind=k)
    bad = rng.random() < .5
    OK = 'valid configuration accepted'
    if k == 0:
        if bad:
            a = pick(rng, 0., .5, .999999, -1., -2)
            ctx.raises(REJ, BAD, quiet, K.FadingKalmanFilter, a, 2, 1)
        else:
            a = pick(rng, 1, 1., 1.0001, 5.)
            ctx.close(OK, quiet(K.FadingKalmanFilter, a, 2, 1).alpha, a, 1e-13, 1.)
    elif k == 1:
        f = K.KalmanFilter(2, 1)
        f.alpha = a0 = pick(rng, 1, 1.5, 3.)
        if bad:
            a = pick(rng, 0., .999, -1., -3, [1.5], np.array([1.2, 1.3]))
            ctx.raises(REJ, BAD, setattr, f, 'alpha', a)
        ctx.close('fading factor kept', f.alpha, a0, 1e-13, 1.)
    elif k in (2, 3, 4):
        o = int(pick(rng, -1, -2, 3, 4, 17) if bad else pick(rng, 0, 1, 2))
        if k == 2:
            mk = lambda: G.GHFilterOrder(0., 1., o, .5, .2, .1)                   # noqa
        elif k == 3:
            mk = lambda: Me.FadingMemoryFilter(0., 1., o, .5)                     # noqa
        else:
            mk = lambda: L.LeastSquaresFilter(1., o)                              # noqa
        if bad:
            ctx.raises(REJ, BAD, mk)
        else:
            f = mk()
            ctx.true(OK, len(f.x) == o + 1 and not np.any(f.x), f.x)
    elif k == 5:
        f = pick(rng, C.Q_discrete_white_noise, C.Q_continuous_white_noise)
        d = int(pick(rng, 1, 0, 5, -2, 7) if bad else pick(rng, 2, 3, 4))
        if bad:
            ctx.raises(REJ, BAD, f, d)
        else:
            ctx.shape(OK, f(d), (d, d))
    elif k == 6:
        if bad:
            ctx.raises(REJ, BAD, C.kinematic_state_transition, pick(rng, -1, -3, .5, 1.5, 2.25), 1.)
        else:
            d = int(rng.integers(0, 7))
            ctx.shape(OK, C.kinematic_state_transition(d, 1.), (d + 1, d + 1))
    elif k == 7:
        d, o, z = [int(rng.integers(1, 4)), int(rng.integers(0, 4)), 1]
        if bad:
            i = int(rng.integers(0, 3))
            q = [d, o, z]
            q[i] = -1 if i == 1 else int(rng.integers(-2, 1))
            ctx.raises(REJ, BAD, lambda: C.kinematic_kf(dim=q[0], order=q[1], dim_z=q[2]))
            f = K.KalmanFilter(d * (o + 1) + pick(rng, 1, 2), 1) if rng.random() < .5 else K.KalmanFilter(d * (o + 1), 2)
            before = world.snap(f)
            ctx.raises(REJ, BAD, lambda: C.kinematic_kf(dim=d, order=o, kf=f))
            ctx.true('refused filter unchanged', world.equal(before, world.snap(f)))
        else:
            f = C.kinematic_kf(dim=d, order=o, dim_z=z)
            ctx.shape(OK, f.F, (d * (o + 1), d * (o + 1)))
    elif k == 8:
        if bad:
            if rng.random() < .5:
                ctx.raises(REJ, BAD, G.critical_damping_parameters, pick(rng, -.01, -1., 1.01, 2.), pick(rng, 2, 3))
            else:
                ctx.raises(REJ, BAD, G.critical_damping_parameters, .5, pick(rng, 0, 1, 4, -2))
        else:
            o = pick(rng, 2, 3)
            t = float(pick(rng, 0., 1., rng.random()))
            ctx.true(OK, len(G.critical_damping_parameters(t, o)) == o)
    elif k == 9:
        hx, fx = (lambda x: x[:1]), (lambda x, dt: x)
        mk = lambda **kw: K.EnsembleKalmanFilter(**dict(dict(x=np.zeros(2), P=np.eye(2), dim_z=1, dt=1., N=8, hx=hx, fx=fx), **kw))  # noqa
        if bad:
            kw = pick(rng, {'dim_z': 0}, {'dim_z': -1}, {'N': 0}, {'N': -4}, {'N': 1}, {'x': np.zeros((2, 1))}, {'x': np.zeros((1, 2)), 'P': np.eye(1)})
            ctx.raises(REJ, BAD, mk, **kw)
        else:
            ctx.shape(OK, mk(N=2).sigmas, (2, 2))
    elif k in (10, 11):
        n = int(rng.integers(1, 4))
        nf = int(rng.integers(2, 5))
        fs = [K.KalmanFilter(n, 1) for _ in range(nf)]
        p = np.full(nf, 1. / nf)
        if k == 10:
            M = np.full((nf, nf), 1. / nf)
            if bad and rng.random() < .4:
                cut = int(rng.integers(0, 2))
                ctx.raises(REJ, BAD, K.IMMEstimator, fs[:cut], p[:cut] if cut else [1.], M[:cut, :cut])
            elif bad:
                j = int(rng.integers(0, nf))
                fs[j] = K.KalmanFilter(n + 1, 1)
                if rng.random() < .3:
                    fs[j] = K.KalmanFilter(n, 1)
                    fs[j].x = np.zeros(n)
                ctx.raises(REJ, BAD, K.IMMEstimator, fs, p, M)
            else:
                f = K.IMMEstimator(fs, p * pick(rng, 1., 7., 3), M)
                ctx.close('mode probabilities normalised', np.sum(f.mu), 1., 1e-12)
                ctx.true(OK, f.N == nf and f.x.shape == (n, 1) and f.P.shape == (n, n))
        elif bad:
            d = pick(rng, 1, -1)
            pp = np.full(nf + d, 1. / (nf + d))
            if rng.random() < .6:
                ctx.raises(REJ, BAD, K.MMAEFilterBank, fs, pp, n)
            else:
                ctx.raises(REJ, BAD, K.MMAEFilterBank, fs, p, int(pick(rng, 0, -1)))
        else:
            f = K.MMAEFilterBank(fs, pick(rng, p, p.tolist()), n, H=pick(rng, None, np.ones((1, n))))
            ctx.true(OK, len(f.p) == nf and f.x.shape == (n, 1))
    elif k == 12:
        n = int(rng.integers(1, 5))
        p = pick(rng, K.MerweScaledSigmaPoints(n, .5, 2., 1.), K.JulierSigmaPoints(n, 1.), K.SimplexSigmaPoints(n))
        if bad:
            j = n + int(pick(rng, 1, 2)) if n < 2 or rng.random() < .5 else n - 1
            ctx.raises(REJ, BAD, p.sigma_points, rng.standard_normal(j), np.eye(pick(rng, n, j)))
        else:
            ctx.shape(OK, p.sigma_points(rng.standard_normal(n), np.eye(n)), (p.num_sigmas(), n))
    elif k == 13:
        n = int(rng.integers(1, 5))
        if bad:
            ctx.raises(REJ, BAD, C.inv_diagonal, pick(rng, np.ones((n, n + 1)), np.ones((n + 1, n)), np.ones(n), np.ones((n, n, n))))
            a, b = rng.standard_normal(n), rng.standard_normal(n + 1 + int(rng.integers(0, 2)))
            if rng.random() < .5:
                a, b = b, a
            ctx.raises(REJ, BAD, S.mahalanobis, a, b, np.eye(len(a)))
            if n > 1:
                ctx.raises(REJ, BAD, S.mahalanobis, np.ones((n, n)), np.ones((n, n)), np.eye(n))
        else:
            ctx.close(OK, S.mahalanobis(np.ones(n), np.zeros(n), np.eye(n)), n ** .5, 1e-12)
    else:
        n = int(rng.integers(1, 4))
        A = gen.spd(rng, n, .5, 2.)
        mu = rng.standard_normal(n)
        if bad:
            w, V = np.linalg.eigh(A)
            w[int(rng.integers(0, n))] *= -1
            c = pick(rng, V @ np.diag(w) @ V.T, -gen.logu(rng, .1, 3.), -A) if n > 1 else -gen.logu(rng, .1, 3.)
            ctx.raises(REJ, BAD, S.multivariate_gaussian, mu, mu, c)
        else:
            got = S.multivariate_gaussian(mu, mu, A)
            ctx.close(OK, got, np.linalg.det(2 * np.pi * A) ** -.5, 1e-9)


STATE = 'x P x_prior P_prior x_post P_post z F Q H R B M alpha dim_x dim_z'


def refused(ctx, rng):
    """an operation that is refused leaves the filter as it was"""
    W = pick(rng, world.KFw, world.KFw, world.CKFw)
    w = W(rng, world.Handed())
    for _ in range(int(rng.integers(0, 5))):
        w.act(rng)
    f = w.obj
    m = f.dim_z
    n = f.dim_x
    j = m + int(rng.integers(1, 3)) if m == 1 or rng.random() < .6 else m - 1
    bad = pick(rng, rng.standard_normal(j), rng.standard_normal((j, 1)), rng.standard_normal((1, j)), rng.standard_normal((j, 1)).tolist())
    if j == m - 1 == 1 and rng.random() < .3:
        bad = float(rng.normal())
    ops = []
    if W is world.KFw:
        ops = [('update', lambda: f.update(bad)), ('update_correlated', lambda: f.update_correlated(bad)), ('get_update', lambda: f.get_update(bad)),
               ('update_steadystate', lambda: f.update_steadystate(bad)),
               ('update R', lambda: f.update(bad, R=2.)), ('batch_filter', None), ('rts', None), ('alpha', lambda: setattr(f, 'alpha', .5))]
    else:
        ops = [('update', lambda: f.update(bad))]
        if not np.all(np.isfinite(f.sigmas_h)):
            return
    name, op = ops[int(rng.integers(0, len(ops)))]
    if name == 'rts':
        k = int(rng.integers(2, 6))
        op = lambda: f.rts_smoother(np.zeros((k, n, 1)), np.zeros((k + int(pick(rng, 1, -1)), n, n)))      # noqa
    elif name == 'batch_filter':
        op = lambda: f.batch_filter([bad, bad])                                    # noqa
    ctx.describe(cls=W.cls, op=name, m=m, n=n, j=j)
    before = world.snap(f)
    ctx.event('refused', op=name)
    ctx.raises('invalid operation refused', BAD, op)
    if name != 'batch_filter':
        after = world.snap(f)
        diff = [k for k in STATE.split() if k in before and not world.equal(before[k], after.get(k))]
        ctx.true('refused operation changes nothing', not diff, lambda: [(k, before[k], after.get(k)) for k in diff[:3]])


def procedures(ctx, rng):
    """procedural functions and other operations refuse what they cannot use"""
    import filterpy.kalman as K
    k = int(rng.integers(0, 5))
    ctx.describe(k=k)
    ctx.event('procedure', kind=k)
    n = int(rng.integers(1, 4))
    if k == 0:
        a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if a == b:
            return
        ctx.raises('lists of different length refused', BAD, K.rts_smoother, np.zeros((a, n, 1)), np.stack([np.eye(n)] * b),
                   [np.eye(n)] * a, [np.eye(n)] * a)
    elif k == 1:
        p = K.JulierSigmaPoints(n, 1.)
        f = K.UnscentedKalmanFilter(n, n, 1., lambda x: x, lambda x, dt: x, p)
        before = world.snap(f)
        bad = pick(rng, 3, 2.5, None) if rng.random() < .4 else [rng.standard_normal(n + 1)] * 2 if n > 1 else [rng.standard_normal(2)] * 2
        ctx.raises('unusable measurements refused', BAD, f.batch_filter, bad)
        ctx.true('refused operation changes nothing', world.equal(before, world.snap(f)))
    elif k == 2:
        p = K.JulierSigmaPoints(n, 1.)
        f = K.UnscentedKalmanFilter(n, n, 1., lambda x: x, lambda x, dt: x, p)
        a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if a == b:
            return
        before = world.snap(f)
        ctx.raises('lists of different length refused', BAD, f.rts_smoother, np.zeros((a, n)), np.stack([np.eye(n)] * b))
        ctx.true('refused operation changes nothing', world.equal(before, world.snap(f)))
    elif k == 3:
        f = K.EnsembleKalmanFilter(x=np.zeros(n), P=np.eye(n), dim_z=1, dt=1., N=6, hx=lambda x: x[:1], fx=lambda x, dt: x)
        if rng.random() < .5:
            f.predict()
        before = world.snap(f)
        ctx.raises('unusable state refused', BAD, f.initialize, np.zeros((n, 1)), np.eye(n))
        ctx.true('refused operation changes nothing', world.equal(before, world.snap(f)))
    else:
        m = int(rng.integers(1, 4))
        j = int(rng.integers(1, 6))
        if j == m:
            return
        R, H = np.eye(m), rng.standard_normal((m, n))
        x, P = np.zeros((n, 1)), np.eye(n)
        if m == 1:
            bad = rng.standard_normal((j, 1))
            return
        ctx.raises('inconvertible measurement refused', BAD, K.update, x, P, rng.standard_normal((j, 1)), R, H)


def dimensions(ctx, rng):
    """test_matrix_dimensions accepts exactly the consistent sets of matrices"""
    from filterpy.kalman import KalmanFilter
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    f = KalmanFilter(n, m)
    nd = int(pick(rng, 1, 2))
    f.x = np.zeros(n) if nd == 1 else np.zeros((n, 1))
    f.F, f.Q, f.P, f.H = rng.standard_normal((n, n)), np.eye(n), np.eye(n), rng.standard_normal((m, n))
    f.R = np.eye(m)
    if m == 1 and rng.random() < .4:
        f.R = pick(rng, 2., np.array([2.]), np.array([[3.]]))
    kw = {}
    for a in 'HRFQ':
        if rng.random() < .3:
            kw[a] = copy.deepcopy(getattr(f, a))
    if rng.random() < .5:
        if nd == 1:
            kw['z'] = rng.standard_normal(m) if m > 1 or rng.random() < .5 else pick(rng, 1.5, np.array([1.5]), np.array(1.5))
        else:
            kw['z'] = rng.standard_normal((m, 1)) if m > 1 or rng.random() < .5 else pick(rng, 1.5, np.array([1.5]), np.array(1.5),
                                                                                        np.array([[1.5]]))
    bad = pick(rng, None, None, 'x', 'P', 'Q', 'F', 'H', 'R', 'z')
    up = n + 1
    wrong = {'x': lambda: pick(rng, np.zeros(up), np.zeros((up, 1)), np.zeros((n, 2)), np.zeros((n, 1, 1))),
             'P': lambda: pick(rng, np.eye(up), np.zeros((n, up)), np.zeros((up, n))),
             'Q': lambda: pick(rng, np.eye(up), np.zeros((n, up)), np.zeros((up, n))),
             'F': lambda: pick(rng, np.eye(up), np.zeros((n, up)), np.zeros((up, n))),
             'H': lambda: pick(rng, np.zeros((m, up)), np.zeros(n), np.zeros((m, n, 1))),
             'R': lambda: pick(rng, np.eye(m + 1), np.zeros((m, m + 1))) if m == 1 or rng.random() < .5 else pick(rng, 2., np.ones(m)),
             'z': lambda: pick(rng, np.zeros(m + 1), np.zeros((m + 1, 1))) if m == 1 or rng.random() < .5 else pick(rng, 1., np.zeros(1), np.zeros((1, 1)))}
    if bad:
        v = wrong[bad]()
        if bad in 'xP' or bad != 'z' and rng.random() < .5:
            if bad in kw:
                del kw[bad]
            setattr(f, bad, v)
        else:
            kw[bad] = v
    ctx.describe(n=n, m=m, nd=nd, bad=bad, kw=sorted(kw))
    ctx.event('dimensions', bad=bad)
    before = world.snap(f) if bad != 'x' else None
    if bad:
        ctx.raises('inconsistent matrices reported', AssertionError, f.test_matrix_dimensions, **kw)
    else:
        f.test_matrix_dimensions(**kw)
        ctx.true('consistent matrices pass', True)
    if before is not None:
        ctx.true('checking changes nothing', world.equal(before, world.snap(f)))


def _table(rng):
    """functions with their documented argument names and one valid set of arguments"""
    import filterpy.common as C
    import filterpy.stats as S
    import filterpy.discrete_bayes as D
    import filterpy.monte_carlo as M
    import filterpy.gh as G
    import filterpy.kalman as K
    from filterpy.kalman import kalman_filter as KF
    n, m, N = int(rng.integers(1, 4)), int(rng.integers(1, 3)), 4
    v = rng.standard_normal
    a, b = float(v()), float(v())
    p, q = float(rng.uniform(.2, 3)), float(rng.uniform(.2, 3))
    P, P2, Q, R = gen.spd(rng, n), gen.spd(rng, n), gen.spd(rng, n), gen.spd(rng, m)
    F, H, x = gen.trans_inv(rng, n), v((m, n)), v(n)
    z, Kg = v(m), v((n, m)) * .3
    w = rng.random(7) + .01
    w /= w.sum()
    pts = K.MerweScaledSigmaPoints(n, .5, 2., 1.)
    X = pts.sigma_points(x, P)
    Xs, Ps = v((N, n)), np.array([gen.spd(rng, n) for _ in range(N)])
    zs = [v(m) for _ in range(N)]
    return [
        (S.gaussian, 'x mean var', (a, b, p)), (S.mul, 'mean1 var1 mean2 var2', (a, p, b, q)),
        (S.mul_pdf, 'mean1 var1 mean2 var2', (a, p, b, q)), (S.add, 'mean1 var1 mean2 var2', (a, p, b, q)),
        (S.multivariate_gaussian, 'x mu cov', (x, v(n), P)), (S.multivariate_multiply, 'm1 c1 m2 c2', (x, P, v(n), P2)),
        (S.logpdf, 'x mean cov', (x, v(n), P)), (S.mahalanobis, 'x mean cov', (x, v(n), P)),
        (S.norm_cdf, 'x_range mu var std', ((a, a + 1), b, p, None)), (S.covariance_ellipse, 'P deviations', (gen.spd(rng, 2), 2)),
        (S.NEES, 'xs est_xs ps', (Xs, Xs + .1, Ps)), (S.log_likelihood, 'z x P H R', (z, x, P, H, R)),
        (S.likelihood, 'z x P H R', (z, x, P, H, R)), (S.rand_student_t, 'df mu std', (5, a, p)),
        (D.update, 'likelihood prior', (rng.random(7) + .1, w)),
        (D.predict, 'pdf offset kernel mode cval', (w, 2, np.array([.2, .6, .2]), 'constant', .1)),
        (M.residual_resample, 'weights', (w,)), (M.stratified_resample, 'weights', (w,)),
        (M.systematic_resample, 'weights', (w,)), (M.multinomial_resample, 'weights', (w,)),
        (G.least_squares_parameters, 'n', (5,)), (G.critical_damping_parameters, 'theta order', (.5, 3)),
        (G.benedict_bornder_constants, 'g critical', (.3, True)), (G.optimal_noise_smoothing, 'g', (.3,)),
        (C.Q_discrete_white_noise, 'dim dt var block_size order_by_dim', (3, p, q, 2, False)),
        (C.Q_continuous_white_noise, 'dim dt spectral_density block_size order_by_dim', (3, p, q, 2, False)),
        (C.van_loan_discretization, 'F G dt', (F, v((n, 1)), .1)), (C.linear_ode_discretation, 'F L Q dt', (F, v((n, 1)), np.eye(1), .1)),
        (C.kinematic_state_transition, 'order dt', (2, p)), (C.runge_kutta4, 'y x dx f', (a, b, .1, lambda y, x: y * x)),
        (C.inv_diagonal, 'S', (np.diag(rng.random(3) + .1),)), (C.outer_product_sum, 'A B', (v((4, 2)), v((4, 3)))),
        (C.reshape_z if hasattr(C, 'reshape_z') else __import__('filterpy.common.helpers', fromlist=['x']).reshape_z, 'z dim_z ndim',
         ([float(k) for k in z], m, 2)),
        (K.unscented_transform, 'sigmas Wm Wc noise_cov', (X, pts.Wm, pts.Wc, Q)),
        (pts.sigma_points, 'x P', (x, P)), (K.JulierSigmaPoints(n, 1.).sigma_points, 'x P', (x, P)),
        (K.SimplexSigmaPoints(n).sigma_points, 'x P', (x, P)),
        (KF.update, 'x P z R H', (x, P, z, R, H)), (KF.predict, 'x P F Q u B alpha', (x, P, F, Q, v(1), v((n, 1)), 1.2)),
        (KF.update_steadystate, 'x z K H', (x, z, Kg, H)), (KF.predict_steadystate, 'x F u B', (x, F, v(1), v((n, 1)))),
        (KF.batch_filter, 'x P zs Fs Qs Hs Rs', (x, P, zs, [F] * N, [Q] * N, [H] * N, [R] * N)),
        (KF.rts_smoother, 'Xs Ps Fs Qs', (Xs, Ps, [F] * N, [Q] * N)),
    ]


def _objects(rng):
    """objects, calls with their documented argument names, what to read afterwards"""
    import filterpy.kalman as K
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    from filterpy.leastsq import LeastSquaresFilter
    from filterpy.memory import FadingMemoryFilter
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    v = rng.standard_normal
    H, F, B = v((m, n)), gen.trans_inv(rng, n), v((n, 1))
    z, u, R = v((m, 1)), v((1, 1)), gen.spd(rng, m)
    kf = K.KalmanFilter(n, m, 1)
    sr, inf, fk = K.SquareRootKalmanFilter(n, m, 1), K.InformationFilter(n, m, 1), K.FadingKalmanFilter(1.1, n, m, 1)
    for f in (kf, sr, inf, fk):
        f.H, f.F, f.B = H.copy(), F.copy(), B.copy()
    ek = K.ExtendedKalmanFilter(n, m, 1)
    ek.F, ek.B = F.copy(), B.copy()
    uk = K.UnscentedKalmanFilter(n, m, .5, lambda x: H @ x, lambda x, dt: F @ x * (1 + dt), K.JulierSigmaPoints(n, 1.))
    ck = K.CubatureKalmanFilter(n, m, .5, lambda x: H @ x, lambda x, dt: F @ x * (1 + dt))
    en = K.EnsembleKalmanFilter(v(n), np.eye(n), m, .5, 9, lambda x: H @ x, lambda x, dt: F @ x)

    def bank():
        g = copy.deepcopy(kf)
        g.Q = g.Q * 3
        return [copy.deepcopy(kf), g]
    im = K.IMMEstimator(bank(), [.5, .5], np.array([[.9, .1], [.2, .8]]))
    mm = K.MMAEFilterBank(bank(), [.5, .5], n, H)
    fl = K.FixedLagSmoother(n, m, N=2)
    fl.H, fl.F, fl.B = H.copy(), F.copy(), B.copy()
    s = float(v())
    J, h = (lambda x: H), (lambda x: H @ x)
    xP = ('x', 'P')
    out = [(kf, 'predict', 'u B F Q', (u, B * 2, F, np.eye(n)), xP), (kf, 'update', 'z R H', (z, R, H), xP),
           (kf, 'get_prediction', 'u B F Q', (u, B * 2, F, np.eye(n)), xP), (kf, 'get_update', 'z', (z,), xP),
           (kf, 'residual_of', 'z', (z,), xP), (kf, 'measurement_of_state', 'x', (v((n, 1)),), xP),
           (kf, 'update_correlated', 'z R H', (z, R, H), xP), (kf, 'log_likelihood_of', 'z', (z,), xP),
           (kf, 'predict_steadystate', 'u B', (u, B * 2), xP), (kf, 'update_steadystate', 'z', (z,), xP),
           (kf, 'update_sequential', 'start z_i R_i H_i', (0, z, R, H), xP),
           (kf, 'batch_filter', 'zs', ([z, None, z],), xP),
           (sr, 'predict', 'u', (u,), xP), (sr, 'update', 'z R2', (z, np.linalg.cholesky(R)), xP),
           (inf, 'predict', 'u', (u,), ('x', 'P_inv')), (inf, 'update', 'z R_inv', (z, np.linalg.inv(R)), ('x', 'P_inv')),
           (fk, 'predict', 'u', (u,), xP), (fk, 'update', 'z R', (z, R), xP),
           (ek, 'predict', 'u', (u,), xP), (ek, 'update', 'z HJacobian Hx R', (z, J, h, R), xP),
           (ek, 'predict_update', 'z HJacobian Hx args hx_args u', (z, J, h, (), (), u), xP),
           (uk, 'predict', 'dt', (.3,), xP), (uk, 'update', 'z R', (z[:, 0], R), xP),
           (ck, 'predict', 'dt', (.3,), xP), (ck, 'update', 'z R', (z, R), xP),
           (en, 'update', 'z R', (z[:, 0], R), xP), (en, 'initialize', 'x P', (v(n), np.eye(n) * 2), xP),
           (im, 'predict', 'u', (u,), xP), (im, 'update', 'z', (z,), xP),
           (mm, 'predict', 'u', (u,), xP), (mm, 'update', 'z R H', (z, R, H), xP),
           (fl, 'smooth', 'z u', (z, u), ('x', 'P')), (fl, 'smooth_batch', 'zs N us', ([z, z, z], 2, [u] * 3), ('x',)),
           (GHFilter(0., s, 1., .5, .2), 'update', 'z g h', (1.5, .3, .1), ('x', 'dx')),
           (GHKFilter(0., s, .1, 1., .5, .2, .1), 'update', 'z g h k', (1.5, .3, .1, .05), ('x', 'dx', 'ddx')),
           (GHFilterOrder(np.array([0., s, .1]), 1., 2, .5, .2, .1), 'update', 'z g h k', (1.5, .3, .1, .05), ('x',)),
           (LeastSquaresFilter(1., 1), 'update', 'z', (1.5,), ('x',)),
           (FadingMemoryFilter([0., s], 1., 1, .6), 'update', 'z', (1.5,), ('x',))]
    return out


def named(ctx, rng):
    """every documented argument may be given by its name"""
    if rng.random() < .6:
        t = _table(rng)
        fn, names, args = t[rng.integers(len(t))]
        name = getattr(fn, '__name__', 'function')
        run = [copy.deepcopy(fn), copy.deepcopy(fn)]
        objs = None
    else:
        t = _objects(rng)
        o, name, names, args, read = t[rng.integers(len(t))]
        objs = [copy.deepcopy(o), copy.deepcopy(o)]
        for k in objs:
            if name.startswith('update') and hasattr(k, 'predict'):
                np.random.seed(7)
                k.predict()
        run = [getattr(k, name) for k in objs]
        name = type(o).__name__ + '.' + name
    names = names.split()
    pos = int(rng.integers(0, len(names)))
    seed = int(rng.integers(2 ** 31))
    ctx.describe(fn=name, pos=pos)
    ctx.event('named', fn=name)
    out = []
    for i, k in enumerate((len(names), pos)):
        a = copy.deepcopy(args)
        np.random.seed(seed)
        random.seed(seed)
        out.append(run[i](*a[:k], **dict(zip(names[k:], a[k:]))))
    def flat(r):
        if isinstance(r, (tuple, list)):
            return [v for e in r for v in flat(e)]
        return [] if r is None else [np.asarray(r, float).reshape(-1)]
    a, b = flat(out[0]), flat(out[1])
    ctx.true('result by name as by position: number of values', len(a) == len(b), name)
    for v, w in zip(a, b):
        ctx.true('result by name as by position: finite parts', np.array_equal(np.isfinite(v), np.isfinite(w)), name)
        ok = np.isfinite(v)
        v, w = v[ok], w[ok]
        ctx.close('result by name as by position', w, v, 1e-12, max(1e-9, float(np.max(np.abs(v), initial=0))))
    if objs:
        for q in read:
            v, w = (np.asarray(getattr(k, q), float) for k in objs)
            ctx.close('effect by name as by position', w, v, 1e-12, max(1e-9, float(np.max(np.abs(v)))))


SCENARIOS = [(named, 4000, 30000), (fresh, 9000, 60000), (sizes, 4500, 20000), (params, 18000, 120000), (refused, 7500, 60000), (procedures, 4500, 30000),
             (dimensions, 9000, 60000)]
