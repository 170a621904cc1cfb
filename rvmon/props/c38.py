"""C38: an operation that fails leaves the estimate as it was"""
import copy
import warnings
import numpy as np
import scipy.linalg as linalg
from .. import gen, zoo
from ..gen import col

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'sigma_points')] + ['filterpy/hinfinity/hinfinity_filter.py']
RULE = ('Fault injection: the n-th call of a user function (transition, measurement, Jacobian, mean, residual, addition, matrix root, '
        'inverse) is made to raise inside a random history, or an unusable measurement or control is handed over; the exception must reach '
        'the caller, the estimate must be what it was, and the rest of the history must run as in a twin that never failed.')


class Boom(Exception):
    pass


class Fuse(object):
    """wraps user functions; blows on the n-th call after being armed"""

    def __init__(self):
        self.n = None
        self.left = 0
        self.calls = {}

    def __call__(self, name, fn):
        def g(*a, **k):
            self.calls[name] = self.calls.get(name, 0) + 1
            if self.n == name:
                self.left -= 1
                if self.left <= 0:
                    self.n = None
                    raise Boom(name)
            return fn(*a, **k)
        return g

    def arm(self, name, k):
        self.n, self.left = name, k


def _mean(s, w):
    return np.dot(w, s)


def _build(rng, kind, n, m, fuse):
    from filterpy.kalman import (ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter, EnsembleKalmanFilter,
                                 KalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints)
    from .c02 import _model
    f, h, J = _model(rng, n, m)
    w = fuse
    P0, Q, R, x0 = gen.spd(rng, n, .1, 2), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2), rng.standard_normal(n)
    fx, hx, HJ = w('fx', f), w('hx', h), w('HJ', J)
    pre, upd = ['fx'], ['hx']
    if kind == 'ukf':
        root = rng.random() < .6
        kw = dict(sqrt_method=w('sqrt', linalg.cholesky)) if root else {}
        p = MerweScaledSigmaPoints(n, 1., 2., 1., **kw) if rng.random() < .5 else JulierSigmaPoints(n, 1., **kw)
        kw = {}
        if root:
            pre = pre + ['sqrt']
        if rng.random() < .6:
            kw = dict(x_mean_fn=w('xmean', _mean), z_mean_fn=w('zmean', _mean), residual_x=w('rx', np.subtract),
                      residual_z=w('rz', np.subtract), state_add=w('add', np.add))
            pre, upd = pre + ['xmean', 'rx'], upd + ['zmean', 'rx', 'rz', 'add']
        k = UnscentedKalmanFilter(n, m, .3, hx, fx, p, **kw)
        if rng.random() < .5:
            k.inv = w('inv', np.linalg.inv)
            upd = upd + ['inv']
    elif kind == 'ckf':
        kw = {}
        if rng.random() < .6:
            kw = dict(x_mean_fn=w('xmean', lambda s, q: np.dot(q, s)), z_mean_fn=w('zmean', lambda s, q: np.dot(q, s)),
                      residual_x=w('rx', np.subtract), residual_z=w('rz', np.subtract))
            pre, upd = pre + ['xmean', 'rx'], upd + ['zmean', 'rx', 'rz']
        k = CubatureKalmanFilter(n, m, .3, hx, fx, **kw)
    elif kind == 'enkf':
        k = EnsembleKalmanFilter(x0.copy(), P0, m, .3, int(rng.integers(4, 20)), hx, fx)
        if rng.random() < .5:
            k.inv = w('inv', np.linalg.inv)
            upd = upd + ['inv']
    elif kind == 'ekf':
        k = ExtendedKalmanFilter(n, m)
        k.F = gen.trans_inv(rng, n)
        k.res = w('res', np.subtract)
        pre, upd = [], ['hx', 'HJ', 'res']
    else:
        k = KalmanFilter(n, m)
        k.F, k.H = gen.trans_inv(rng, n), gen.meas(rng, m, n)
        k.inv = w('inv', np.linalg.inv)
        pre, upd = [], ['inv']
    if kind != 'enkf':
        k.x = x0.copy()
        k.P = P0.copy()
    k.Q, k.R = Q.copy(), R.copy()
    return k, pre, upd, hx, HJ


def _op(k, kind, what, z, hx, HJ, sd):
    np.random.seed(sd)
    if what == 'predict':
        return k.predict()
    if kind == 'ekf':
        return k.update(z.copy(), HJ, hx, residual=k.res)
    return k.update(z.copy())


def callbacks(ctx, rng):
    """user functions that raise at a random call"""
    kind = str(rng.choice(['ukf', 'ukf', 'ckf', 'enkf', 'ekf', 'kf']))
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    st = rng.bit_generator.state
    sd = int(rng.integers(2 ** 31))
    np.random.seed(sd)
    fa, fb = Fuse(), Fuse()
    seed = int(rng.integers(2 ** 31))
    a, pre, upd, hxa, HJa = _build(np.random.default_rng(seed), kind, n, m, fa)
    np.random.seed(sd)
    b, _, _, hxb, HJb = _build(np.random.default_rng(seed), kind, n, m, fb)
    T = int(rng.integers(1, 9))
    ctx.describe(kind=kind, n=n, m=m, T=T, fns=len(pre) + len(upd))
    for i in range(T):
        z = rng.standard_normal(m) * 2
        for what, fns in (('predict', pre), ('update', upd)):
            sd = int(rng.integers(2 ** 31))
            fa.calls = {}
            if fns and rng.random() < .4:
                name = str(rng.choice(fns))
                fa.arm(name, int(rng.choice([1, 1, 2, 3, 5, 9])))
                x, P = np.array(a.x), np.array(a.P)
                sg = np.array(a.sigmas) if kind == 'enkf' else None
                try:
                    _op(a, kind, what, z, hxa, HJa, sd)
                    blown = False
                except Boom:
                    blown = True
                if not blown and fa.n is None:
                    ctx.fail('failure of the user function reaches the caller', '%s.%s %s' % (kind, what, name))
                ctx._decided('failure of the user function reaches the caller')
                if blown:
                    ctx.event('fault', fn=name, what=what)
                    ctx.true('state as before the failed call', np.array_equal(a.x, x) and a.x.shape == x.shape,
                             lambda: '%s.%s %s' % (kind, what, name))
                    ctx.true('covariance as before the failed call', np.array_equal(a.P, P), lambda: '%s.%s %s' % (kind, what, name))
                    if sg is not None:
                        ctx.true('ensemble as before the failed call', np.array_equal(a.sigmas, sg))
                    _op(a, kind, what, z, hxa, HJa, sd)             # the caller tries again
                else:
                    fa.n = None
            else:
                _op(a, kind, what, z, hxa, HJa, sd)
            _op(b, kind, what, z, hxb, HJb, sd)
            ctx.event(what)
        if not np.all(np.isfinite(b.P)) or np.max(np.abs(b.P)) > 1e4:
            return
        sc = max(1., float(np.max(np.abs(b.x))))
        ctx.close('continues as if the call had not failed: state', a.x, b.x, 1e-9, sc)
        ctx.close('continues as if the call had not failed: covariance', a.P, b.P, 1e-9)


def refused(ctx, rng):
    """linear filters: measurements and controls that cannot be used, singular innovations"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4))
    cls = zoo.EXACT[rng.integers(len(zoo.EXACT))]
    ad = cls(rng, s)
    bd = copy.deepcopy(ad)
    ad.rng = bd.rng = rng
    T = int(rng.integers(1, 10))
    pa = 'P_inv' if ad.name == 'InformationFilter' else 'P'
    ctx.describe(filter=ad.name, n=s.n, m=s.m, T=T)
    for i in range(T):
        s.step()
        u = s.newu() if s.du and rng.random() < .5 else None
        if s.du and rng.random() < .3 and ad.name not in ('UnscentedKalmanFilter', 'CubatureKalmanFilter'):
            x, P = np.array(ad.f.x), np.array(getattr(ad.f, pa))
            try:
                ad.f.predict(np.ones((s.du + 1, 1) if np.ndim(x) == 2 else s.du + 1))
                bad = True
            except Exception:                                        # noqa
                bad = False
            ctx.true('unusable control is refused', not bad)
            ctx.event('fault', fn='u')
            ctx.true('state as before the refused control', np.array_equal(ad.f.x, x), ad.name)
            ctx.true('covariance as before the refused control', np.array_equal(getattr(ad.f, pa), P), ad.name)
        ad.predict(u)
        bd.predict(u)
        ctx.event('predict')
        if rng.random() < .4:
            x, P = np.array(ad.f.x), np.array(getattr(ad.f, pa))
            z = np.ones((s.m + 1 + int(rng.integers(0, 2)), 1))
            try:
                ad.update(z.reshape(-1))
                bad = True
            except Exception:                                        # noqa
                bad = False
            ctx.true('unusable measurement is refused', not bad, ad.name)
            ctx.event('fault', fn='z')
            ctx.true('state as before the refused measurement', np.array_equal(ad.f.x, x), ad.name)
            ctx.true('covariance as before the refused measurement', np.array_equal(getattr(ad.f, pa), P), ad.name)
        z = s.z()
        st = rng.bit_generator.state
        ad.update(z)
        rng.bit_generator.state = st
        bd.update(z)
        ctx.event('update')
        sc = max(1e-6, float(np.max(np.abs(bd.x))), 1e-3 * float(np.sqrt(np.max(np.abs(bd.P)))))
        ctx.close('continues as if nothing had been refused: state', ad.x, bd.x, 1e-10, sc)
        ctx.close('continues as if nothing had been refused: covariance', ad.P, bd.P, 1e-10)


SCENARIOS = [(callbacks, 4000, 120000), (refused, 3000, 90000)]
