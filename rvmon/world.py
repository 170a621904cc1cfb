"""Live objects of every class of the library with random valid operations,
for the properties that are about objects rather than about numbers: recording,
isolation, determinism, copying, printing.

A world is built from a generator `rng`; what it is told to do afterwards comes
from the generator given to act(), so that two worlds built and driven from
equal seeds receive equal calls."""
import copy
import types
import warnings
import numpy as np
from . import gen
from .gen import col


class Handed(object):
    """everything handed to the library, with the value it had"""

    def __init__(self):
        self.items = []

    def __call__(self, v, label='argument'):
        self.items.append((label, v, copy.deepcopy(v)))
        del self.items[:-400]
        return v

    def scribble(self, start, rng):
        """the caller reuses the buffers it passed since `start`"""
        for label, v, _ in self.items[start:]:
            if not label.startswith('initial'):              # initial values may be adopted
                _scribble(v, rng)
        del self.items[start:]

    def check(self, ctx, when=''):
        for label, v, keep in self.items:
            ctx.true('handed-over data keep their value', equal(v, keep), lambda: '%s %s: now %r, was %r' % (label, when, v, keep))


def _scribble(v, rng):
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fi' and v.flags.writeable:
        v[...] = rng.integers(-9, 9, v.shape) + 100
    elif isinstance(v, list):
        for i in v:
            _scribble(i, rng)
        if v and all(np.isscalar(i) for i in v):
            v[:] = [float(q) + 100. for q in rng.integers(-9, 9, len(v))]


def equal(a, b, tol=0.):
    """structural equality; NaN equals NaN; numbers to a relative tolerance"""
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or np.isscalar(a) and np.isscalar(b):
        try:
            a, b = np.asarray(a), np.asarray(b)
        except Exception:                                     # noqa
            return False
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            if a.dtype != b.dtype and a.size == 0:
                return True
            return all(equal(p, q, tol) if not (np.isscalar(p) and np.isscalar(q) and p is a) else p == q
                       for p, q in zip(a.ravel().tolist(), b.ravel().tolist())) if a.ndim else a.item() == b.item()
        if a.dtype.kind in 'USO' or b.dtype.kind in 'USO':
            return bool(np.all(a == b))
        if tol:
            with np.errstate(all='ignore'):
                ok = (a == b) | ((a != a) & (b != b))
                fin = np.isfinite(a) & np.isfinite(b)
                s = max(float(np.max(np.abs(a), initial=0., where=fin)), 1e-300)
                return bool(np.all(ok | (fin & (np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)) <= tol * s))))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(equal(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k], tol) for k in a)
    if callable(a) and callable(b):
        return True
    if type(a) is type(b) and hasattr(a, '__dict__'):
        return equal(public(a), public(b), tol)
    return bool(a == b)


def props_of(obj):
    out = []
    for c in type(obj).__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and k not in out:
                out.append(k)
    return out


def public(obj):
    """the public state: data attributes and properties"""
    d = {}
    for k, v in vars(obj).items():
        if not k.startswith('_') and (not callable(v) or hasattr(v, '__dict__') and not isinstance(
                v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.ufunc))):
            d[k] = v
    for k in props_of(obj):
        if not k.startswith('_'):
            try:
                d[k] = getattr(obj, k)
            except Exception as e:                            # noqa
                d[k] = 'raises ' + type(e).__name__
    return d


def snap(obj):
    d = public(obj)
    out = {}
    for k, v in d.items():
        if isinstance(v, (list, tuple)) and v and hasattr(v[0], '__dict__'):
            out[k] = [snap(i) for i in v]
        else:
            out[k] = copy.deepcopy(v)
    return out


class World(object):
    """obj: the object; act(rng): one random valid operation; src: the arrays it was built from"""
    cls = '?'
    stochastic = False
    limit = 1e6                                               # banks stop being driven beyond this variance
    flatable = False                                          # the state may also be kept one-dimensional

    def __init__(self, rng, g, src=None):
        self.g = g
        self.src = src or self.source(rng)
        self.build(rng)

    def source(self, rng):
        n = int(rng.integers(1, 4))
        m = int(rng.integers(1, 3))
        s = gen.WellSys(rng, n, m, int(rng.integers(0, 2)), scale=1.)
        s.flat = self.flatable and bool(rng.random() < .25)
        return s

    def c(self, v):
        """a vector of this system"""
        return np.array(v) if self.src.flat and self.flatable else col(v)

    def fit(self, f, s, names='FQHR'):
        g = self.g
        for a in names:
            setattr(f, a, g(getattr(s, a), a))
        if getattr(s, 'du', 0) and hasattr(f, 'B'):
            f.B = g(s.B, 'B')

    def z(self, rng):
        return self.g(self.c(rng.standard_normal(self.src.m) * 2), 'z')

    def u(self, rng):
        return self.g(self.c(rng.standard_normal(self.src.du)), 'u') if self.src.du else None


def spdm(rng, n):
    return gen.spd(rng, n, .3, 3.)


class KFw(World):
    cls = 'KalmanFilter'

    flatable = True

    def build(self, rng):
        from filterpy.kalman import KalmanFilter
        s = self.src
        f = self.obj = KalmanFilter(s.n, s.m, s.du)
        f.x = self.g(self.c(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s)
        if rng.random() < .3:
            f.alpha = 1.02

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 12))
        if k <= 3:
            kw = {}
            if rng.random() < .3:
                kw['F'] = g(s.F * .9, 'F')
            if rng.random() < .3:
                kw['Q'] = g(spdm(rng, s.n), 'Q')
            if s.du and rng.random() < .6:
                kw['u'] = self.u(rng)
                if rng.random() < .4:
                    kw['B'] = g(s.B * 2, 'B')
            return f.predict(**kw)
        if k <= 7:
            kw = {}
            if rng.random() < .3:
                kw['R'] = g(spdm(rng, s.m), 'R')
            if rng.random() < .3:
                kw['H'] = g(s.H + .1, 'H')
            return f.update(self.z(rng), **kw)
        if k == 8:
            return f.update(None)
        if k == 9:
            zs = [self.z(rng) for _ in range(int(rng.integers(1, 4)))]
            kw = {}
            if rng.random() < .5:
                kw['Fs'] = g([s.F * .9] * len(zs), 'Fs')
            if rng.random() < .5:
                kw['Rs'] = g([spdm(rng, s.m) for _ in zs], 'Rs')
            if s.du and rng.random() < .5:
                kw['us'] = g([self.u(rng) for _ in zs], 'us')
            if rng.random() < .3:
                kw['update_first'] = True
            r = f.batch_filter(g(zs, 'zs'), **kw)
            if rng.random() < .5:
                return r, f.rts_smoother(g(r[0], 'Xs'), g(r[1], 'Ps'))
            return r
        if k == 10:
            return (f.get_prediction(self.u(rng) if s.du else None), f.get_update(self.z(rng)), f.residual_of(self.z(rng)),
                    f.measurement_of_state(g(self.c(rng.standard_normal(s.n)), 'x')), f.log_likelihood_of(self.z(rng)))
        f.test_matrix_dimensions(z=self.z(rng))
        if s.m == 1 and rng.random() < .5:
            return f.update_correlated(self.z(rng))
        return f.update_correlated(self.z(rng), R=g(spdm(rng, s.m), 'R'))


class KFsteady(World):
    cls = 'KalmanFilter steady state'

    flatable = True

    def build(self, rng):
        from filterpy.kalman import KalmanFilter
        s = self.src
        f = self.obj = KalmanFilter(s.n, s.m, s.du)
        f.x = self.g(self.c(s.x0), 'x')
        self.fit(f, s)
        f.K = self.g(rng.standard_normal((s.n, s.m)) * .2, 'K')

    def act(self, rng):
        s, f = self.src, self.obj
        k = int(rng.integers(0, 5))
        if k < 2:
            return f.predict_steadystate(self.u(rng) if s.du else None)
        if k < 4:
            return f.update_steadystate(self.z(rng))
        return f.update_steadystate(None)


class KFseq(World):
    cls = 'KalmanFilter sequential'

    def build(self, rng):
        from filterpy.kalman import KalmanFilter
        s = self.src
        f = self.obj = KalmanFilter(s.n, s.m, s.du)
        f.x = self.g(col(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s)

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        if rng.random() < .4:
            return f.predict()
        i = int(rng.integers(0, s.m))
        kw = {}
        if rng.random() < .3:
            kw['R_i'] = g(np.array([[.7]]), 'R_i')
        if rng.random() < .3:
            kw['H_i'] = g(rng.standard_normal((1, s.n)), 'H_i')
        return f.update_sequential(i, g(rng.standard_normal((1, 1)), 'z_i'), **kw)


class SRw(World):
    cls = 'SquareRootKalmanFilter'

    def build(self, rng):
        from filterpy.kalman import SquareRootKalmanFilter
        s = self.src
        f = self.obj = SquareRootKalmanFilter(s.n, s.m, s.du)
        f.x = self.g(col(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s)

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 6))
        if k < 2:
            return f.predict(*([self.u(rng)] if s.du else []))
        if k < 4:
            return f.update(self.z(rng), *([g(np.linalg.cholesky(spdm(rng, s.m)), 'R2')] if rng.random() < .3 else []))
        if k == 4:
            return f.update(None)
        return f.residual_of(self.z(rng)), f.measurement_of_state(g(rng.standard_normal((s.n, 1)), 'x'))


class Infw(World):
    cls = 'InformationFilter'

    def build(self, rng):
        from filterpy.kalman import InformationFilter
        s = self.src
        f = self.obj = InformationFilter(s.n, s.m, s.du)
        f.x = self.g(col(s.x0), 'x')
        f.P_inv = self.g(np.linalg.inv(s.P0), 'P_inv')
        self.fit(f, s, 'FQH')
        f.R_inv = self.g(np.linalg.inv(s.R), 'R_inv')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 6))
        if k < 2:
            return f.predict(*([self.u(rng)] if s.du else []))
        if k < 5:
            return f.update(self.z(rng), *([g(spdm(rng, s.m), 'R_inv')] if rng.random() < .3 else []))
        return f.update(None)


class Fadw(World):
    cls = 'FadingKalmanFilter'

    def build(self, rng):
        from filterpy.kalman import FadingKalmanFilter
        s = self.src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = self.obj = FadingKalmanFilter(1.02, s.n, s.m, s.du)
        f.x = self.g(col(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s)

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 7))
        if k < 2:
            return f.predict(*([self.u(rng)] if s.du else []))
        if k < 4:
            return f.update(self.z(rng), *([g(spdm(rng, s.m), 'R')] if rng.random() < .3 else []))
        if k == 4:
            return f.update(None)
        if k == 5:
            zs = [self.z(rng) for _ in range(2)]
            return f.batch_filter(g(zs, 'zs'), update_first=bool(rng.random() < .5))
        return (f.get_prediction(*([self.u(rng)] if s.du else [])), f.residual_of(self.z(rng)),
                f.measurement_of_state(g(rng.standard_normal((s.n, 1)), 'x')))


class EKFw(World):
    cls = 'ExtendedKalmanFilter'

    def build(self, rng):
        from filterpy.kalman import ExtendedKalmanFilter
        s = self.src
        f = self.obj = ExtendedKalmanFilter(s.n, s.m, s.du)
        f.x = self.g(col(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s, 'FQR')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        H = g(s.H.copy(), 'H')
        HJ = lambda x, c=1.: H * c                            # noqa
        Hx = lambda x, c=1.: np.dot(H, x) * c                 # noqa
        k = int(rng.integers(0, 7))
        if k < 2:
            return f.predict(*([self.u(rng)] if s.du else []))
        if k < 4:
            kw = {}
            if rng.random() < .3:
                kw['R'] = g(spdm(rng, s.m), 'R')
            if rng.random() < .3:
                kw['args'] = g((1.5,), 'args')
                kw['hx_args'] = g((1.5,), 'hx_args')
            return f.update(self.z(rng), HJ, Hx, **kw)
        if k == 4:
            return f.update(None, HJ, Hx)
        return f.predict_update(self.z(rng), HJ, Hx, u=self.u(rng) if s.du else 0)


class UKFw(World):
    cls = 'UnscentedKalmanFilter'

    def build(self, rng):
        from filterpy.kalman import (UnscentedKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints)
        s = self.src
        p = [lambda: MerweScaledSigmaPoints(s.n, .5, 2., 1.), lambda: JulierSigmaPoints(s.n, 1.),
             lambda: SimplexSigmaPoints(s.n)][int(rng.integers(0, 3))]()
        F, H = self.g(s.F, 'F'), self.g(s.H, 'H')
        f = self.obj = UnscentedKalmanFilter(s.n, s.m, 1., hx=lambda x, c=1.: H @ x * c, fx=lambda x, dt, c=1.: F @ x * c, points=p)
        f.x = self.g(s.x0, 'x')
        f.P = self.g(s.P0, 'P')
        f.Q = self.g(s.Q, 'Q')
        f.R = self.g(s.R, 'R')
        self.n = 0

    def z(self, rng):
        return self.g(rng.standard_normal(self.src.m) * 2, 'z')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        self.n += 1
        k = int(rng.integers(0, 12))
        if k == 0:
            zs = [self.z(rng) for _ in range(2)]
            kw = {'Rs': g([spdm(rng, s.m) for _ in zs], 'Rs')} if rng.random() < .4 else {}
            r = f.batch_filter(g(zs, 'zs'), **kw)
            return r, f.rts_smoother(g(r[0], 'Xs'), g(r[1], 'Ps'), *([g(np.array([s.Q, s.Q]), 'Qs')] if rng.random() < .4 else []))
        r = f.predict(**({'c': .9} if rng.random() < .2 else {}))
        if k == 1:
            return r, f.update(None)
        kw = {'c': 1.1} if rng.random() < .2 else {}
        if rng.random() < .3:
            kw['R'] = g(spdm(rng, s.m), 'R')
        return r, f.update(self.z(rng), **kw)


class CKFw(World):
    cls = 'CubatureKalmanFilter'

    def build(self, rng):
        from filterpy.kalman import CubatureKalmanFilter
        s = self.src
        F, H = self.g(s.F, 'F'), self.g(s.H, 'H')
        f = self.obj = CubatureKalmanFilter(s.n, s.m, 1., hx=lambda x, c=1.: H @ x * c, fx=lambda x, dt, c=1.: F @ x * c)
        f.x = self.g(col(s.x0), 'x') if rng.random() < .5 else self.g(s.x0, 'x')
        f.P = self.g(s.P0, 'P')
        f.Q = self.g(s.Q, 'Q')
        f.R = self.g(s.R, 'R')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 12))
        r = f.predict(**({'fx_args': g((.9,), 'fx_args')} if rng.random() < .2 else {}))
        if k == 1:
            return r, f.update(None)
        kw = {'hx_args': g((1.1,), 'hx_args')} if rng.random() < .2 else {}
        if rng.random() < .3:
            kw['R'] = g(spdm(rng, s.m), 'R')
        return r, f.update(self.z(rng), **kw)


class EnKFw(World):
    cls = 'EnsembleKalmanFilter'
    stochastic = True

    def build(self, rng):
        from filterpy.kalman import EnsembleKalmanFilter
        s = self.src
        F, H = self.g(s.F, 'F'), self.g(s.H, 'H')
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        f = self.obj = EnsembleKalmanFilter(self.g(s.x0, 'x'), self.g(s.P0, 'P'), s.m, 1., int(rng.integers(5, 20)),
                                            hx=lambda x: H @ x, fx=lambda x, dt: F @ x)
        f.Q = self.g(s.Q, 'Q')
        f.R = self.g(s.R, 'R')

    def z(self, rng):
        return self.g(rng.standard_normal(self.src.m) * 2, 'z')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        k = int(rng.integers(0, 12))
        if k == 0:
            return f.initialize(g(s.x0 + 1, 'initial x'), g(s.P0 * 1., 'initial P'))
        r = f.predict() if k < 8 else None
        if k == 1:
            return r, f.update(None)
        return r, f.update(self.z(rng), *([g(spdm(rng, s.m), 'R')] if rng.random() < .3 else []))


class HInfw(World):
    cls = 'HInfinityFilter'

    def build(self, rng):
        from filterpy.hinfinity import HInfinityFilter
        s = self.src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = self.obj = HInfinityFilter(s.n, s.m, s.du, gamma=.01)
        f.x = self.g(col(s.x0), 'x')
        f.P = self.g(np.eye(s.n) * .5, 'P')
        f.W = self.g(np.eye(s.n) * .01, 'W')
        f.V = self.g(np.eye(s.m), 'V')
        f.Q = self.g(np.eye(s.n) * .1, 'Q')
        self.fit(f, s, 'FH')

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        k = int(rng.integers(0, 7))
        if k < 2:
            return f.predict(*([self.u(rng)] if s.du else []))
        if k < 4:
            return f.update(self.z(rng))
        if k == 4:
            return f.update(None)
        if k == 5:
            return f.batch_filter(g([self.z(rng) for _ in range(2)], 'Zs'), update_first=bool(rng.random() < .5))
        return (f.get_prediction(*([self.u(rng)] if s.du else [])), f.residual_of(self.z(rng)),
                f.measurement_of_state(g(rng.standard_normal((s.n, 1)), 'x')))


class FLw(World):
    cls = 'FixedLagSmoother'

    flatable = True

    def build(self, rng):
        from filterpy.kalman import FixedLagSmoother
        s = self.src
        f = self.obj = FixedLagSmoother(s.n, s.m, N=int(rng.integers(1, 4)))
        f.x = self.g(self.c(s.x0), 'x')
        f.P = self.g(s.P0, 'P')
        self.fit(f, s)

    def act(self, rng):
        s, f, g = self.src, self.obj, self.g
        if rng.random() < .15:
            zs = [self.z(rng) for _ in range(3)]
            us = g([self.u(rng) for _ in zs], 'us') if s.du else None
            return f.smooth_batch(g(zs, 'zs'), 2, us)
        return f.smooth(self.z(rng), self.u(rng) if s.du and rng.random() < .7 else None)


class IMMw(World):
    cls = 'IMMEstimator'

    flatable = True

    def build(self, rng):
        from filterpy.kalman import IMMEstimator, KalmanFilter
        s = self.src
        k = int(rng.integers(2, 4))
        fs = []
        for i in range(k):
            f = KalmanFilter(s.n, s.m, s.du)
            f.x = self.g(self.c(s.x0), 'x')
            f.P = self.g(s.P0, 'P')
            self.fit(f, s)
            f.Q = self.g(s.Q * (1 + 3 * i), 'Q')
            fs.append(f)
        mu = rng.dirichlet(np.ones(k))
        M = np.array([rng.dirichlet(np.ones(k) + 3 * np.eye(k)[i]) for i in range(k)])
        if rng.random() < .5:
            mu = mu.tolist()
        self.obj = IMMEstimator(fs, self.g(mu, 'mu'), self.g(M, 'M'))

    def act(self, rng):
        f = self.obj
        if max(float(np.max(np.abs(k.P))) for k in f.filters) > self.limit:      # diverged; rounding decides from here on
            return None
        return f.predict(self.u(rng) if self.src.du else None), f.update(self.z(rng))


class MMAEw(World):
    cls = 'MMAEFilterBank'

    flatable = True

    def build(self, rng):
        from filterpy.kalman import MMAEFilterBank, KalmanFilter
        s = self.src
        k = int(rng.integers(1, 4))
        fs = []
        for i in range(k):
            f = KalmanFilter(s.n, s.m, s.du)
            f.x = self.g(self.c(s.x0), 'x')
            f.P = self.g(s.P0, 'P')
            self.fit(f, s)
            f.Q = self.g(s.Q * (1 + 3 * i), 'Q')
            fs.append(f)
        p = rng.dirichlet(np.ones(k))
        if rng.random() < .5:
            p = p.tolist()
        self.obj = MMAEFilterBank(fs, self.g(p, 'p'), s.n, *([self.g(s.H, 'H')] if rng.random() < .5 else []))

    def act(self, rng):
        f, s, g = self.obj, self.src, self.g
        if max(float(np.max(np.abs(k.P))) for k in f.filters) > self.limit:
            return None
        r = f.predict(self.u(rng) if s.du else None)
        kw = {}
        if rng.random() < .3:
            kw['R'] = g(spdm(rng, s.m), 'R')
        if rng.random() < .3:
            kw['H'] = g(s.H + .1, 'H')
        return r, f.update(self.z(rng), **kw)


class Plain(World):
    def source(self, rng):
        return types.SimpleNamespace(dt=float(rng.uniform(.2, 2)), order=int(rng.integers(0, 3)), x0=rng.standard_normal(3), m=1, du=0,
                                     vec=bool(rng.random() < .3))


class GHw(Plain):
    cls = 'GHFilter'

    def build(self, rng):
        from filterpy.gh import GHFilter
        s = self.src
        if s.vec:
            self.obj = GHFilter(self.g(s.x0, 'x'), self.g(s.x0 * .1, 'dx'), s.dt, .6, .2)
        else:
            self.obj = GHFilter(float(s.x0[0]), .1, s.dt, .6, .2)

    def zz(self, rng):
        return self.g(rng.standard_normal(3), 'z') if self.src.vec else float(rng.standard_normal())

    def act(self, rng):
        f = self.obj
        k = int(rng.integers(0, 6))
        if k == 0 and not self.src.vec:
            return f.batch_filter(self.g([self.zz(rng) for _ in range(3)], 'data'), save_predictions=bool(rng.random() < .5))
        if k == 1:
            return f.update(self.zz(rng), g=.5, h=.1)
        if k == 2:
            return f.VRF(), f.VRF_prediction()
        return f.update(self.zz(rng))


class GHKw(GHw):
    cls = 'GHKFilter'

    def build(self, rng):
        from filterpy.gh import GHKFilter
        s = self.src
        if s.vec:
            self.obj = GHKFilter(self.g(s.x0, 'x'), self.g(s.x0 * .1, 'dx'), self.g(s.x0 * .01, 'ddx'), s.dt, .6, .2, .05)
        else:
            self.obj = GHKFilter(float(s.x0[0]), .1, .01, s.dt, .6, .2, .05)

    def act(self, rng):
        f = self.obj
        k = int(rng.integers(0, 6))
        if k == 0 and not self.src.vec:
            return f.batch_filter(self.g([self.zz(rng) for _ in range(3)], 'data'), save_predictions=bool(rng.random() < .5))
        if k == 1:
            return f.update(self.zz(rng), g=.5, h=.1, k=.02)
        if k == 2:
            return f.VRF(), f.VRF_prediction(), f.bias_error(.1)
        return f.update(self.zz(rng))


class GHOw(Plain):
    cls = 'GHFilterOrder'

    def build(self, rng):
        from filterpy.gh import GHFilterOrder
        s = self.src
        x0 = self.g(s.x0[:s.order + 1], 'x0') if rng.random() < .7 else float(s.x0[0])
        if rng.random() < .3 and not np.isscalar(x0):
            x0 = self.g([float(v) for v in x0], 'x0')
        self.obj = GHFilterOrder(x0, s.dt, s.order, .6, .2, .05)

    def act(self, rng):
        z = float(rng.standard_normal())
        if rng.random() < .3:
            return self.obj.update(z, .5, .1, .02)
        return self.obj.update(z)


class FMw(Plain):
    cls = 'FadingMemoryFilter'

    def build(self, rng):
        from filterpy.memory import FadingMemoryFilter
        s = self.src
        x0 = self.g(s.x0[:s.order + 1], 'x0') if rng.random() < .7 else float(s.x0[0])
        if rng.random() < .3 and not np.isscalar(x0):
            x0 = self.g([float(v) for v in x0], 'x0')
        self.obj = FadingMemoryFilter(x0, s.dt, s.order, .6)

    def act(self, rng):
        return self.obj.update(float(rng.standard_normal()))


class LSw(Plain):
    cls = 'LeastSquaresFilter'

    def build(self, rng):
        from filterpy.leastsq import LeastSquaresFilter
        self.obj = LeastSquaresFilter(self.src.dt, self.src.order, 1.)
        for _ in range(4):
            self.obj.update(float(rng.standard_normal()))

    def act(self, rng):
        k = int(rng.integers(0, 8))
        if k == 0:
            return self.obj.errors()
        if k == 1:
            self.obj.reset()
            for _ in range(4):
                self.obj.update(float(rng.standard_normal()))
            return
        return np.array(self.obj.update(float(rng.standard_normal())))


KALMAN = [KFw, KFsteady, KFseq, SRw, Infw, Fadw, EKFw, UKFw, CKFw, EnKFw, HInfw, FLw, IMMw, MMAEw]
SIMPLE = [GHw, GHKw, GHOw, FMw, LSw]
ALL = KALMAN + SIMPLE
