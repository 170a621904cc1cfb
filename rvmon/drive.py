"""Random operation histories for the (linear) KalmanFilter interface and the
mirror that knows what each call should have meant."""
import numpy as np
from . import gen
from .gen import col
from .refs import RefKF


def lay(v, ndim):
    v = np.array(v, float).reshape(-1)
    return v.copy() if ndim == 1 else v.reshape(-1, 1)


def make_kf(sysm, ndim=2, cls=None, alpha=1.):
    from filterpy.kalman import KalmanFilter
    cls = cls or KalmanFilter
    kf = cls(dim_x=sysm.n, dim_z=sysm.m, dim_u=sysm.du)
    kf.x = lay(sysm.x0, ndim)
    if sysm.ints:
        kf.x = kf.x.astype(int)
    kf.P = sysm.P0.copy()
    kf.F = sysm.F.copy()
    kf.Q = sysm.Q.copy()
    kf.H = sysm.H.copy()
    kf.R = sysm.R.copy()
    if sysm.du:
        kf.B = sysm.B.copy()
    if alpha != 1.:
        kf.alpha = alpha
    return kf


class Hist(object):
    """Drives one KalmanFilter object through a random history, together with
    the mirror `ref` (RefKF).  After each operation calls monitor(op) where op
    is a dict describing what was asked and what the mirror says."""

    def __init__(self, ctx, rng, sysm, kf, ndim, alpha=1., overrides=True, none=True,
                 sets=True, control=True, hdim=True, zforms=True, retune=True, adjust=0.):
        self.ctx, self.rng, self.sys, self.kf, self.ndim = ctx, rng, sysm, kf, ndim
        self.ref = RefKF(sysm.x0, sysm.P0, alpha)
        self.over, self.none, self.sets, self.control = overrides, none, sets, control
        self.adj = adjust
        self.hdim, self.zf, self.tune_alpha = hdim, zforms, retune
        self.F, self.Q, self.H, self.R, self.B = (
            sysm.F, sysm.Q, sysm.H, sysm.R, sysm.B)
        self.alpha = alpha
        self.steps = []       # for joint_posterior
        self.xscale = float(np.max(np.abs(sysm.x0))) + float(np.sqrt(np.max(np.diag(sysm.P0))))
        self.Pscale = float(np.max(np.abs(sysm.P0)))

    def _mag(self):
        self.xscale = max(self.xscale, float(np.max(np.abs(self.ref.x))),
                          float(np.sqrt(np.max(np.abs(np.diag(self.ref.P))))))
        self.Pscale = max(self.Pscale, float(np.max(np.abs(self.ref.P))))

    # -- operations --------------------------------------------------------
    def predict(self):
        rng, s, kf = self.rng, self.sys, self.kf
        kw = {}
        F, Q, B = self.F, self.Q, self.B
        if self.over and rng.random() < .3:
            F = s.newF()
            kw['F'] = F.copy()
        if self.over and rng.random() < .3:
            if rng.random() < .3:
                q = gen.logu(rng, .01, 2.) * s.s ** 2
                kw['Q'] = q if rng.random() < .7 else np.float64(q)
                Q = np.eye(s.n) * q
            else:
                Q = s.newQ()
                kw['Q'] = Q.copy()
        Bu = np.zeros(s.n)
        if s.du and self.control and rng.random() < .6:
            u = s.newu()
            if self.over and rng.random() < .3:
                B = s.newB()
                kw['B'] = B.copy()
            Bu = B @ u
            if s.du == 1 and self.ndim == 2 and rng.random() < .2:
                kw['u'] = float(u[0])
            else:
                kw['u'] = lay(u, self.ndim)
        elif self.over and s.du and rng.random() < .1:
            kw['B'] = s.newB()               # B without u: no control input
        s.step(F, Bu)
        op = dict(op='predict', F=F, Q=Q, Bu=Bu, kw=kw, prex=kf.x, preP=kf.P,
                  refpre=(self.ref.x, self.ref.P))
        gen.call(rng, kf.predict, ['u', 'B', 'F', 'Q'], kw)
        self.ref.predict(F, Q, Bu)
        self.steps.append(('p', F, Q, Bu))
        self.ctx.event('predict', over=sorted(kw))
        self._mag()
        return op

    def update(self):
        rng, s, kf = self.rng, self.sys, self.kf
        if self.none and rng.random() < .15:
            return self.update_none()
        kw = {}
        H, R = self.H, self.R
        m = s.m
        hover = self.over and rng.random() < .3
        if hover:
            if self.hdim and rng.random() < .3:
                m = int(rng.integers(1, 5))
            H = s.newH(m)
            kw['H'] = H.copy()
        if m != s.m or (self.over and rng.random() < .3):
            if m == s.m and rng.random() < .3:
                r = gen.logu(rng, .1, 3.) * s.s ** 2
                R = np.eye(m) * r
                kw['R'] = r if rng.random() < .7 else np.float64(r)
            else:
                R = s.newR(m)
                kw['R'] = R.copy()
        z = s.z(H, R)
        if rng.random() < .04:
            z = H @ np.reshape(kf.x, -1)                  # exactly as predicted
        if hover:
            # documented: with H given, z must already have the right shape
            form, zz = ('1d', z.copy()) if self.ndim == 1 else ('col', col(z))
        elif self.zf:
            form, zz = gen.zform(rng, z)
        else:
            form, zz = 'col', col(z)
        pre = (self.ref.x.copy(), self.ref.P.copy())
        op = dict(op='update', z=z, zform=form, zz=zz, H=H, R=R, m=m, kw=kw, prex=kf.x,
                  preP=kf.P, hover=hover)
        gen.call(rng, kf.update, ['R', 'H'], kw, (zz,))
        r = self.ref.update(H, R, z)
        op['ref'] = r
        op['refpre'] = pre
        self.steps.append(('u', H, R, z))
        self.ctx.event('update', z=zz, form=form, over=sorted(kw))
        self._mag()
        self.zmag = float(np.max(np.abs(z)))
        self.xscale = max(self.xscale, float(np.max(np.abs(r['K']))) * self.zmag)
        return op

    def update_none(self):
        kf = self.kf
        op = dict(op='none', prex=kf.x.copy(), preP=kf.P.copy(),
                  refpre=(self.ref.x, self.ref.P))
        kw = {}
        if self.over and self.rng.random() < .2:
            kw['R'] = self.sys.newR()
        kf.update(None, **kw)
        self.ctx.event('missing')
        return op

    def set_attr(self):
        rng, s, kf = self.rng, self.sys, self.kf
        a = rng.choice(['F', 'Q', 'H', 'R', 'B', 'alpha'])
        if a == 'alpha':
            if not self.tune_alpha:
                return None
            self.alpha = float(rng.choice([1., 1.01, 1.1, 1.5]))
            kf.alpha = self.alpha
            self.ref.alpha = self.alpha
        elif a == 'B':
            if not s.du:
                return None
            self.B = s.newB()
            kf.B = self.B.copy()
        else:
            v = getattr(s, 'new' + a)()
            setattr(self, a, v)
            o = getattr(kf, a)
            if rng.random() < .4 and o.shape == v.shape and np.can_cast(v.dtype, o.dtype):
                getattr(kf, a)[...] = v      # the user edits the matrix where it is
            else:
                setattr(kf, a, v.copy())
        self.ctx.event('set_' + a)
        return dict(op='set', attr=a)

    def adjust(self):
        """the user corrects the belief between two calls, in place or by assignment"""
        rng, s, kf, ref = self.rng, self.sys, self.kf, self.ref
        op = dict(op='adjust', prex=kf.x, preP=kf.P, refpre=(ref.x, ref.P))
        k = rng.random()
        if kf.x.dtype.kind == 'i' or kf.P.dtype.kind == 'i':
            k = 1.
        if k < .5:
            i = int(rng.integers(0, s.n))
            d = s.s * rng.standard_normal()
            kf.x[i] += d
            ref.x = ref.x + d * np.eye(s.n)[i]
            op['how'] = 'x'
        elif k < .75:
            c = float(rng.choice([.5, 2.]))
            kf.P *= c
            ref.P = ref.P * c
            op['how'] = 'P'
        else:
            x = ref.x + s.s * rng.standard_normal(s.n)
            P = gen.spd(rng, s.n, .1, 10.) * s.s ** 2
            kf.x, kf.P = lay(x, self.ndim), P.copy()
            ref.x, ref.P = x, P
            op['how'] = 'new'
        self.ctx.event('adjust_' + op['how'])
        self._mag()
        return op

    def run(self, nops, monitor):
        rng = self.rng
        pat = rng.choice(['pu', 'mixed', 'mixed', 'upd'])
        for i in range(nops):
            if self.sets and rng.random() < .12:
                self.set_attr()
            if pat == 'pu':
                which = 'p' if i % 2 == 0 else 'u'
            elif pat == 'upd':
                which = 'u' if rng.random() < .75 else 'p'
            else:
                which = 'u' if rng.random() < .5 else 'p'
            # keep the covariance bounded: with a big P update more
            if self.ref.P.max() > 1e6 * self.sys.s ** 2:
                which = 'u'
            if self.adj and rng.random() < self.adj:
                op = self.adjust()
                op['i'] = i
                monitor(op)
            op = self.predict() if which == 'p' else self.update()
            op['i'] = i
            monitor(op)
