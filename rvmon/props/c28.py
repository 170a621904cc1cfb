"""C28: kinematic models are exact Taylor transitions in the requested layout"""
from math import factorial
import numpy as np
from .. import gen

ANCHORS = ['filterpy/common/kinematic.py']
RULE = ('Orders 0-9, dimensions 1-5, both state orderings, one to three measurement rows, time steps 1e-4 to 1e4, own and supplied '
        'filters; the matrices are compared with their definitions and the filter is run along exact polynomial trajectories.')


def taylor(order, dt):
    n = order + 1
    return np.array([[float(dt) ** (j - i) / factorial(j - i) if j >= i else 0. for j in range(n)] for i in range(n)])


def step(rng):
    return gen.logu(rng, 1e-4, 1e4) if rng.random() < .7 else [1., 1, .1, 2, 0., 10][int(rng.integers(0, 6))]


def same(ctx, what, got, W, tol=1e-13):
    g = np.asarray(got, float)
    ctx.shape(what + ': size', g, W.shape)
    nz = W != 0
    ctx.close(what, g[nz] / W[nz], np.ones(nz.sum()), tol, 1.)
    ctx.close(what + ': zeros elsewhere', g[~nz], np.zeros((~nz).sum()), 0., 1.)


def matrix(ctx, rng):
    """the transition matrix of any order"""
    from filterpy.common import kinematic_state_transition as kst
    order = int(rng.integers(0, 10))
    dt = step(rng)
    if rng.random() < .1:
        dt = -dt                               # backwards in time
    ctx.describe(order=order, dt=dt)
    F = kst(order, dt) if rng.random() < .5 else kst(order=order, dt=dt)
    ctx.event('transition', order=order)
    same(ctx, 'Taylor transition', F, taylor(order, dt))
    if dt > 0:
        e = float(dt) * rng.uniform(.1, 5)
        ctx.event('transition', order=order)
        C = np.asarray(kst(order, e)) @ F
        W = taylor(order, e + float(dt))
        nz = W != 0
        ctx.close('transitions compose over steps', C[nz] / W[nz], np.ones(nz.sum()), 1e-11, 1.)
        F2 = kst(order, dt)
        F2 = np.array(F2)
        F[:] = 7.
        ctx.true('each call returns its own matrix', np.array_equal(kst(order, dt), F2))


def filt(ctx, rng):
    """the ready-made filter"""
    from filterpy.common import kinematic_kf
    dim = int(rng.integers(1, 6))
    order = int(rng.integers(0, 6))
    dz = 1 if rng.random() < .7 else int(rng.integers(2, 4))
    obd = bool(rng.random() < .5)
    dt = step(rng)
    n = order + 1
    N = dim * n
    own = None
    if rng.random() < .35:
        from filterpy.kalman import KalmanFilter, SquareRootKalmanFilter, FadingKalmanFilter, InformationFilter
        cls = [KalmanFilter, SquareRootKalmanFilter, InformationFilter,
               lambda a, b: FadingKalmanFilter(1.02, a, b)][int(rng.integers(0, 4))]
        own = cls(N, dz)
    ctx.describe(dim=dim, order=order, dz=dz, obd=obd, dt=dt, own=own is not None)
    kw = {'dt': dt}
    if dz != 1 or rng.random() < .3:
        kw['dim_z'] = dz
    if not obd or rng.random() < .5:
        kw['order_by_dim'] = obd
    if own is not None:
        kw['kf'] = own
    if dt == 1. and rng.random() < .5:
        del kw['dt']
    kf = kinematic_kf(dim, order, **kw)
    ctx.event('kinematic_kf', dim=dim, order=order, obd=obd)
    if own is not None:
        ctx.true('the supplied filter is the one set up', kf is own)
    T = taylor(order, dt)
    W = np.kron(np.eye(dim), T) if obd else np.kron(T, np.eye(dim))
    same(ctx, 'transition of the ready-made filter', kf.F, W)
    H = np.asarray(kf.H, float)
    pos = [d * n for d in range(dim)] if obd else list(range(dim))
    rest = [i for i in range(N) if i not in pos]
    ctx.true('measures nothing but positions', H.ndim == 2 and H.shape[1] == N and np.all(H[:, rest] == 0), H)
    ctx.true('measurement entries are zero or one', np.all((H == 0) | (H == 1)), H)
    ctx.true('every position is measured', np.all(np.any(H[:, pos] == 1, axis=0)), H)
    ctx.true('every measurement row measures', np.all(np.any(H == 1, axis=1)), H)
    if dim == 1:
        ctx.close('measures the position', H, np.eye(N)[[0] * dz], 0., 1.)
    if float(dt) <= 3. and order < 4:
        # the filter moves as its transition matrix says
        kf.x = rng.standard_normal((N, 1))
        w = W @ kf.x
        kf.predict()
        ctx.event('predict')
        ctx.close('predicted state of the filter set up', kf.x, w, 1e-12, float(np.max(np.abs(W).sum(1))) * 3)
        P = W @ W.T * (getattr(kf, 'alpha', 1.) if own is not None else 1.) ** 2 + np.eye(N)
        P = P if hasattr(kf, 'P') else np.linalg.inv(P)
        ctx.close('predicted covariance of the filter set up', kf.P if hasattr(kf, 'P') else kf.P_inv, P, 1e-10)
        kf = kinematic_kf(dim, order, **dict(kw, kf=None))
    if own is None:
        for name, k in (('P', N), ('Q', N), ('R', H.shape[0])):
            ctx.close('%s is the identity' % name, getattr(kf, name), np.eye(k), 0., 1.)
        ctx.true('starts at rest', np.size(kf.x) == N and np.all(np.asarray(kf.x) == 0))
        if float(dt) <= 10.:
            # follows a polynomial trajectory exactly
            c = rng.standard_normal((dim, n))
            x = c.ravel() if obd else c.T.ravel()
            kf.x = x.reshape(-1, 1).copy()
            for _ in range(3):
                kf.predict()
                ctx.event('predict')
                c = c @ T.T
                w = c.ravel() if obd else c.T.ravel()
                ctx.close('predicted motion', kf.x, w, 1e-12, float(np.max(np.abs(T).sum(1)) ** 3) * 3, flat=True)
        k2 = kinematic_kf(dim, order, **kw)
        ctx.true('two ready-made filters share nothing', not any(
            np.shares_memory(getattr(kf, a), getattr(k2, a)) for a in ('x', 'P', 'Q', 'R', 'F', 'H')))


def per_dimension(ctx, rng):
    """documented: the measurement is one position per dimension"""
    from filterpy.common import kinematic_kf
    for dim, order, obd in ((2, 1, True), (3, 1, True), (2, 2, True), (2, 1, False)):
        kf = kinematic_kf(dim, order, order_by_dim=obd)
        ctx.event('kinematic_kf')
        n = order + 1
        pos = [d * n for d in range(dim)] if obd else list(range(dim))
        W = np.eye(dim * n)[pos]
        H = np.asarray(kf.H)
        ctx.true('one measured position per dimension', np.shape(H) == W.shape and np.array_equal(H, W),
                 'kinematic_kf(%d, %d): H = %s' % (dim, order, H.tolist()))


SCENARIOS = [(matrix, 18000, 100000), (filt, 18000, 60000), (per_dimension, 1, 1)]
