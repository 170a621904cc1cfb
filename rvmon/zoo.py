"""One adapter per filter class of the library: the same linear-Gaussian
question put to every formulation through its public interface."""
import warnings
import numpy as np
from . import gen
from .gen import col


def flat(a):
    return np.asarray(a, float).reshape(-1)


class Ad(object):
    name = '?'
    multi = True          # several updates per prediction allowed
    over_R = True         # update() takes R for one call
    has_y = has_S = has_K = has_SI = has_ll = has_maha = has_prior = has_post = True
    y_reset = False       # a missing measurement resets the residual

    def __init__(self, rng, s):
        self.rng, self.s = rng, s
        self.F, self.Q, self.H, self.R, self.B = s.F, s.Q, s.H, s.R, s.B
        self.make()
        for a in ('F', 'Q', 'H', 'R', 'B'):
            if getattr(self, a) is not None:
                self.set(a, getattr(self, a))

    def base(self, f):
        self.f = f
        f.x = col(self.s.x0)
        if self.s.ints:
            f.x = f.x.astype(int)
        f.P = self.s.P0.copy()

    inplace = ('F', 'Q', 'H', 'R', 'B')       # matrices the user may edit where they are

    def set(self, a, v):
        setattr(self, a, v)
        self._put(a, v)

    def _put(self, a, v):
        o = getattr(self.f, a, None)
        if a in self.inplace and isinstance(o, np.ndarray) and o.shape == v.shape and np.can_cast(v.dtype, o.dtype) and self.rng.random() < .35:
            o[...] = v
        else:
            setattr(self.f, a, v.copy())

    def unset(self, a):
        """the filter knows this model through a function or in another form"""
        return False

    def setP(self, P, c=None):
        """assign a covariance (or scale the present one by c in place)"""
        if c is not None:
            self.f.P *= c
        else:
            self.f.P = P.copy()

    def u(self, u):
        return col(u)

    def zlay(self, z):
        return gen.zarg(self.rng, z, 2)

    def predict(self, u=None):
        if u is None:
            self.f.predict()
        else:
            self.f.predict(self.u(u))

    def Rarg(self, R):
        return R

    def update(self, z, R=None):
        if R is None:
            self.f.update(self.zlay(z))
        else:
            self.f.update(self.zlay(z), self.Rarg(R))

    def none(self):
        self.f.update(None)

    @property
    def x(self):
        return flat(self.f.x)

    @property
    def P(self):
        return np.array(self.f.P, float)

    @property
    def y(self):
        return flat(self.f.y)

    @property
    def S(self):
        return np.atleast_2d(np.array(self.f.S, float))

    @property
    def SI(self):
        return np.atleast_2d(np.array(self.f.SI, float))

    @property
    def K(self):
        return np.array(self.f.K, float)

    @property
    def ll(self):
        return float(self.f.log_likelihood)

    @property
    def lik(self):
        return float(self.f.likelihood)

    @property
    def maha(self):
        return float(self.f.mahalanobis)

    @property
    def prior(self):
        return flat(self.f.x_prior), np.array(self.f.P_prior, float)

    @property
    def post(self):
        return flat(self.f.x_post), np.array(self.f.P_post, float)


class KF(Ad):
    name = 'KalmanFilter'
    y_reset = True

    def make(self):
        from filterpy.kalman import KalmanFilter
        s = self.s
        self.base(KalmanFilter(s.n, s.m, s.du))
        if self.rng.random() < .4:
            self.f.x = s.x0.copy()
            self.u = lambda u: flat(u).copy()

    def zlay(self, z):
        return gen.zform(self.rng, z)[1]


class SR(Ad):
    name = 'SquareRootKalmanFilter'
    has_ll = has_maha = False
    inplace = ('F', 'H', 'B')

    def setP(self, P, c=None):
        self.f.P = P.copy() if c is None else self.f.P * c

    def make(self):
        from filterpy.kalman import SquareRootKalmanFilter
        s = self.s
        self.base(SquareRootKalmanFilter(s.n, s.m, s.du))

    def Rarg(self, R):
        return np.linalg.cholesky(R)


class Info(Ad):
    name = 'InformationFilter'

    def unset(self, a):
        return a == 'R'
    has_SI = has_maha = False
    inplace = ('Q', 'H', 'B')

    def setP(self, P, c=None):
        if c is None:
            self.f.P_inv = np.linalg.inv(P)
        else:
            self.f.P_inv /= c

    def make(self):
        from filterpy.kalman import InformationFilter
        s = self.s
        f = self.f = InformationFilter(s.n, s.m, s.du)
        f.x = col(s.x0)
        f.P_inv = np.linalg.inv(s.P0)

    def set(self, a, v):
        setattr(self, a, v)
        if a == 'R':
            self.f.R_inv = np.linalg.inv(v)
        else:
            self._put(a, v)

    def Rarg(self, R):
        return np.linalg.inv(R)

    @property
    def P(self):
        return np.linalg.inv(self.f.P_inv)

    @property
    def prior(self):
        return flat(self.f.x_prior), np.linalg.inv(self.f.P_inv_prior)

    @property
    def post(self):
        return flat(self.f.x_post), np.linalg.inv(self.f.P_inv_post)


class Fading(Ad):
    name = 'FadingKalmanFilter'
    alpha = 1.

    def make(self):
        from filterpy.kalman import FadingKalmanFilter
        s = self.s
        self.alpha = float(self.rng.choice([1., 1., 1.01, 1.2]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.base(FadingKalmanFilter(self.alpha, s.n, s.m, s.du))


class EKF(Ad):
    name = 'ExtendedKalmanFilter'

    def unset(self, a):
        return a == 'H'

    def make(self):
        from filterpy.kalman import ExtendedKalmanFilter
        s = self.s
        self.base(ExtendedKalmanFilter(s.n, s.m, s.du))
        if self.rng.random() < .3:
            self.f.x = s.x0.copy()
            self.u = lambda u: flat(u).copy()
            self.zlay = lambda z: flat(z).copy()

    def update(self, z, R=None):
        kw = {} if R is None else {'R': R}
        self.f.update(self.zlay(z), lambda x: self.H, lambda x: self.H @ x, **kw)

    def none(self):
        self.f.update(None, lambda x: self.H, lambda x: self.H @ x)


def points(rng, n, kinds=('merwe', 'julier', 'simplex')):
    from filterpy.kalman import (MerweScaledSigmaPoints, JulierSigmaPoints,
                                 SimplexSigmaPoints)
    k = str(rng.choice(kinds))
    if k == 'merwe':
        a = float(rng.choice([1., .5, .1, .03]))
        kap = float(rng.choice([0., 3. - n, 1.])) if n < 3 else float(rng.choice([0., 1.]))
        p = MerweScaledSigmaPoints(n, a, float(rng.choice([2., 0., 1.])), kap)
    elif k == 'julier':
        p = JulierSigmaPoints(n, float(rng.choice([0., 1., 3. - n])) if n < 3
                              else float(rng.choice([0., 1., .5])))
    else:
        p = SimplexSigmaPoints(n)
    return k, p


class UKF(Ad):
    name = 'UnscentedKalmanFilter'
    multi = False

    def unset(self, a):
        return a not in 'QR'

    def make(self):
        from filterpy.kalman import UnscentedKalmanFilter
        s = self.s
        self.kind, p = points(self.rng, s.n)
        self.Bu = np.zeros(s.n)
        f = self.f = UnscentedKalmanFilter(
            s.n, s.m, 1., hx=lambda x: self.H @ x,
            fx=lambda x, dt, u=None: self.F @ x + (0. if u is None else self.B @ u), points=p)
        f.x = s.x0.copy()
        f.P = s.P0.copy()

    def set(self, a, v):
        setattr(self, a, v)
        if a in ('Q', 'R'):
            self._put(a, v)

    def predict(self, u=None):
        if u is None:
            self.f.predict()
        else:
            self.f.predict(u=flat(u))

    def zlay(self, z):
        return flat(z).copy()


class CKF(Ad):
    name = 'CubatureKalmanFilter'
    multi = False

    def unset(self, a):
        return a not in 'QR'

    def make(self):
        from filterpy.kalman import CubatureKalmanFilter
        s = self.s
        f = self.f = CubatureKalmanFilter(
            s.n, s.m, 1., hx=lambda x: self.H @ x,
            fx=lambda x, dt, u=None: self.F @ x + (0. if u is None else self.B @ u))
        f.x = s.x0.copy() if self.rng.random() < .5 else col(s.x0)
        f.P = s.P0.copy()

    def set(self, a, v):
        setattr(self, a, v)
        if a in ('Q', 'R'):
            self._put(a, v)

    def predict(self, u=None):
        if u is None:
            self.f.predict()
        else:
            self.f.predict(fx_args=(flat(u),))

    def zlay(self, z):
        return flat(z).copy() if self.rng.random() < .5 else col(z)


EXACT = (KF, SR, Info, Fading, EKF, UKF, CKF)


class Run(object):
    """random linear history for one adapter with its Gaussian mirror"""

    def __init__(self, ctx, rng, s, ad, none=.12, over=.25, sets=.12, control=.5, adjust=0.):
        from .refs import RefKF
        self.ctx, self.rng, self.s, self.ad = ctx, rng, s, ad
        self.ref = RefKF(s.x0, s.P0, getattr(ad, 'alpha', 1.))
        self.none, self.over, self.sets, self.control = none, over, sets, control
        self.adj = adjust
        self.fresh = ad.multi
        self.xscale = float(np.max(np.abs(s.x0))) + float(np.sqrt(np.max(np.diag(s.P0))))
        self.Pscale = float(np.max(np.abs(s.P0)))

    def _mag(self):
        r = self.ref
        self.xscale = max(self.xscale, float(np.max(np.abs(r.x))),
                          float(np.sqrt(np.max(np.abs(np.diag(r.P))))))
        self.Pscale = max(self.Pscale, float(np.max(np.abs(r.P))))

    def predict(self):
        s, ad, rng = self.s, self.ad, self.rng
        u, Bu = None, np.zeros(s.n)
        if s.du and rng.random() < self.control:
            u = s.newu()
            Bu = ad.B @ u
        s.step(ad.F, Bu)
        ad.predict(u)
        self.ref.predict(ad.F, ad.Q, Bu)
        self.fresh = True
        self._mag()
        self.ctx.event('predict', u=u)
        return dict(op='predict', u=u, F=ad.F, Q=ad.Q)

    def update(self):
        s, ad, rng = self.s, self.ad, self.rng
        if not ad.multi and not self.fresh:
            return self.predict()
        if rng.random() < self.none:
            pre = (ad.x.copy(), ad.P.copy())
            ad.none()
            self.ctx.event('missing')
            return dict(op='none', pre=pre)
        R, kw = ad.R, None
        if ad.over_R and rng.random() < self.over:
            R = kw = s.newR()
        z = gen.whole(rng, s.z(ad.H, R))
        if rng.random() < .04:
            z = ad.H @ ad.x                               # exactly as predicted
        pre = (self.ref.x.copy(), self.ref.P.copy())
        ad.update(z, kw)
        r = self.ref.update(ad.H, R, z)
        self.fresh = ad.multi
        self._mag()
        self.xscale = max(self.xscale, float(np.max(np.abs(r['K']))) * float(np.max(np.abs(z))))
        self.ctx.event('update', z=z, R=kw is not None)
        return dict(op='update', z=z, H=ad.H, R=R, ref=r, refpre=pre)

    def set(self):
        a = str(self.rng.choice(['F', 'Q', 'H', 'R', 'B']))
        if a == 'B' and not self.s.du:
            return
        self.ad.set(a, getattr(self.s, 'new' + a)())
        self.ctx.event('set_' + a)

    def adjust(self):
        """the user corrects the belief between two calls, in place or by assignment"""
        s, ad, rng, ref = self.s, self.ad, self.rng, self.ref
        k = rng.random()
        if s.ints:
            k = 1.
        if k < .5:
            i = int(rng.integers(0, s.n))
            d = s.s * rng.standard_normal()
            ad.f.x[i] += d
            ref.x = ref.x + d * np.eye(s.n)[i]
            how = 'x'
        elif k < .75:
            c = float(rng.choice([.5, 2.]))
            ad.setP(None, c)
            ref.P = ref.P * c
            how = 'P'
        else:
            x = ref.x + s.s * rng.standard_normal(s.n)
            P = gen.spd(rng, s.n, .1, 10.) * s.s ** 2
            ad.f.x = x.reshape(np.shape(ad.f.x)).copy()
            ad.setP(P)
            ref.x, ref.P = x, P
            how = 'new'
        self.ctx.event('adjust_' + how)
        self._mag()
        return dict(op='adjust', how=how)

    def run(self, n, monitor):
        pat = self.rng.choice(['pu', 'mixed', 'mixed', 'upd']) if self.ad.multi else 'pu'
        for i in range(n):
            # the sigma points of a prediction belong to its belief: those filters are corrected after updates only
            if self.adj and (self.ad.multi or not self.fresh) and self.rng.random() < self.adj:
                op = self.adjust()
                op['i'] = i
                monitor(op)
            if self.rng.random() < self.sets:
                self.set()
            if pat == 'pu':
                w = i % 2
            else:
                w = self.rng.random() < (.75 if pat == 'upd' else .5)
            if self.ref.P.max() > 1e5 * self.s.s ** 2:
                w = True
            op = self.update() if w else self.predict()
            op['i'] = i
            monitor(op)
