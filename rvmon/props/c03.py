"""C03: measurement/state layout and per-call overrides do not matter"""
import copy
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay
from ..gen import col

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'information_filter', 'fading_memory', 'EKF', 'UKF',
    'CubatureKalmanFilter', 'ensemble_kalman_filter')] + ['filterpy/common/helpers.py']
RULE = ('Pairs of filters fed the same history, one in a random layout or with per-call overrides, the other '
        'in the canonical layout or with the attribute set for that call only.')


def layouts(ctx, rng):
    """random measurement layouts and state layouts against columns"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    a, b = make_kf(s, 2), make_kf(s, nd)
    corr = rng.random() < .25
    steps = int(rng.integers(1, 12))
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, steps=steps, corr=corr)
    for i in range(steps):
        u = s.newu() if s.du and rng.random() < .6 else None
        s.step()
        a.predict(u=None if u is None else col(u))
        ub = None if u is None else lay(u, nd)
        if u is not None and s.du == 1 and nd == 2 and rng.random() < .3:
            ub = float(u[0])
        b.predict(u=ub)
        z = s.z()
        f, zz = gen.zform(rng, z)
        if corr:
            G = rng.standard_normal((s.n, s.m))
            G *= .6 / np.linalg.norm(G, 2)
            lo = max(0., float(np.linalg.eigvalsh((a.P + a.P.T) / 2)[0]))
            M = np.sqrt(lo) * G @ np.linalg.cholesky(s.R).T
            a.M, b.M = M.copy(), M.copy()
            a.update_correlated(col(z))
            b.update_correlated(zz)
        else:
            a.update(col(z))
            b.update(zz)
        ctx.event('update', form=f, z=zz)
        sc = float(np.max(np.abs(a.x))) + float(np.max(np.abs(z))) + 1e-9
        ctx.close('state [%s]' % f, b.x, a.x, 1e-8, sc, flat=True)
        ctx.close('covariance [%s]' % f, b.P, a.P, 1e-8)
        ctx.shape('state layout kept', b.x, (s.n,) if nd == 1 else (s.n, 1))
        ctx.close('residual [%s]' % f, b.y, a.y, 1e-8, sc * (1 + float(np.abs(s.H).max())) * s.n, flat=True)
        g, zg = gen.zform(rng, z)
        ctx.close('residual_of [%s]' % g, b.residual_of(zg), a.residual_of(col(z)), 1e-8,
                  sc * (1 + float(np.abs(s.H).max())) * s.n, flat=True)
        g, zg = gen.zform(rng, z)
        xa, Pa = a.get_update(col(z))
        xb, Pb = b.get_update(zg)
        ctx.close('get_update state [%s]' % g, xb, xa, 1e-8, sc, flat=True)
        ctx.close('get_update covariance [%s]' % g, Pb, Pa, 1e-8)
        ctx.shape('get_update state layout', xb, b.x.shape)
        g, zg = gen.zform(rng, z)
        la, lb = a.log_likelihood_of(col(z)), b.log_likelihood_of(zg)
        ctx.close('log_likelihood_of [%s]' % g, lb, la, 1e-6, abs(la) + 1)


def steady(ctx, rng):
    """layouts in the steady-state operations"""
    s = gen.LinSys(rng, n=gen.dim(rng, 4))
    nd = int(rng.choice([1, 2]))
    a, b = make_kf(s, 2), make_kf(s, nd)
    K = rng.standard_normal((s.n, s.m)) * .3
    a.K, b.K = K.copy(), K.copy()
    ctx.describe(n=s.n, m=s.m, nd=nd, du=s.du)
    for i in range(int(rng.integers(1, 8))):
        u = s.newu() if s.du and rng.random() < .6 else None
        B = s.newB() if s.du and rng.random() < .4 else None
        s.step()
        keep = None if b.B is None else b.B.copy()
        kw = {} if B is None else {'B': B.copy()}
        b.predict_steadystate(u=None if u is None else lay(u, nd), **kw)
        if B is not None:
            old = a.B
            a.B = B.copy()
        a.predict_steadystate(u=None if u is None else col(u))
        if B is not None:
            a.B = old
        if keep is not None:
            ctx.close('B attribute unchanged', b.B, keep, 0.)
        z = s.z()
        f, zz = gen.zform(rng, z)
        a.update_steadystate(col(z))
        b.update_steadystate(zz)
        sc = float(np.max(np.abs(a.x))) + float(np.max(np.abs(z))) + 1e-9
        ctx.event('update', form=f)
        ctx.close('steady state [%s]' % f, b.x, a.x, 1e-8, sc, flat=True)
        ctx.shape('state layout kept', b.x, (s.n,) if nd == 1 else (s.n, 1))


def kf_overrides(ctx, rng):
    """any subset of overrides equals setting the attributes for one call"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    a, b = make_kf(s, nd), make_kf(s, nd)
    steps = int(rng.integers(1, 14))
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, steps=steps)
    corr = rng.random() < .2
    for i in range(steps):
        attrs = {k: copy.deepcopy(getattr(a, k)) for k in ('F', 'Q', 'H', 'R', 'B', 'M')}
        op = str(rng.choice(['predict', 'update', 'get_prediction']))
        kw, eff = {}, {}
        if op == 'update':
            names = [k for k in ('R', 'H') if rng.random() < .5]
        else:
            names = [k for k in ('B', 'F', 'Q') if rng.random() < .5 and (k != 'B' or s.du)]
        for k in names:
            if k in 'QR' and rng.random() < .35:
                v = gen.logu(rng, .05, 3) * s.s ** 2
                kw[k] = [v, np.float64(v), max(1, int(v))][rng.integers(3)]
                if k == 'Q' and rng.random() < .2:
                    kw[k] = [0, 0.][rng.integers(2)]
                eff[k] = np.eye(s.n if k == 'Q' else s.m) * kw[k]
            else:
                kw[k] = getattr(s, 'new' + k)()
                eff[k] = kw[k].copy()
        u = None
        if op != 'update' and s.du and rng.random() < .7:
            u = lay(s.newu(), nd)
        old = {k: getattr(b, k) for k in eff}
        for k, v in eff.items():
            setattr(b, k, v)
        if op == 'update':
            z = lay(s.z(kw.get('H', s.H), np.atleast_2d(eff.get('R', s.R))), nd)
            if corr:
                a.update_correlated(z.copy(), **kw)
                b.update_correlated(z.copy())
            else:
                a.update(z.copy(), **kw)
                b.update(z.copy())
            for k in ('y', 'S', 'SI', 'K'):
                ctx.close('override: ' + k, getattr(a, k), getattr(b, k), 1e-9)
            ctx.close('override: log-likelihood', a.log_likelihood, b.log_likelihood, 1e-9, 1 + abs(b.log_likelihood))
        elif op == 'predict':
            s.step()
            if rng.random() < .3 and u is None:
                kw.pop('B', None)
            a.predict(u, **kw)
            b.predict(u)
            ctx.close('override: x_prior', a.x_prior, b.x_prior, 1e-9)
            ctx.close('override: P_prior', a.P_prior, b.P_prior, 1e-9)
        else:
            xa, Pa = a.get_prediction(u, **kw)
            xb, Pb = b.get_prediction(u)
            ctx.close('override: predicted state', xa, xb, 1e-9)
            ctx.close('override: predicted covariance', Pa, Pb, 1e-9)
        for k, v in old.items():
            setattr(b, k, v)
        ctx.event(op, names=names)
        ctx.close('override: state', a.x, b.x, 1e-9)
        ctx.close('override: covariance', a.P, b.P, 1e-9)
        for k, v in attrs.items():
            w = getattr(a, k)
            ctx.true('attribute unchanged', (v is None and w is None) or np.array_equal(v, w), k)


def other_overrides(ctx, rng):
    """noise overrides of the other filters; scalars and matrices"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4), du=0)
    cls = (zoo.SR, zoo.Info, zoo.Fading, zoo.EKF, zoo.UKF, zoo.CKF, zoo.KF)[rng.integers(7)]
    st = rng.bit_generator.state
    a = cls(rng, s)
    rng.bit_generator.state = st
    b = cls(rng, s)
    ctx.describe(filter=a.name, n=s.n, m=s.m)
    sq = a.name == 'SquareRootKalmanFilter'
    inv = a.name == 'InformationFilter'
    attr = 'R_inv' if inv else 'R'
    T = int(rng.integers(1, 8))
    last = rng.random() < .25
    for i in range(T):
        if rng.random() < .8 or not a.multi:
            s.step()
            a.predict()
            b.predict()
        keepA = np.array(getattr(a.f, attr), float)
        R = s.R
        k = str(rng.choice(['none', 'matrix', 'scalar']))
        arg = None
        if k == 'matrix':
            R = s.newR()
            arg = np.linalg.cholesky(R) if sq else np.linalg.inv(R) if inv else R.copy()
        elif k == 'scalar':
            v = gen.logu(rng, .1, 3) * s.s
            R = np.eye(s.m) * v * v
            arg = v if sq else 1 / v ** 2 if inv else v * v
            if rng.random() < .3:
                arg = np.float64(arg)
        S = s.H @ np.atleast_2d(b.P) @ s.H.T
        if last and i == T - 1 and not sq and np.linalg.cond(S) < 1e6:
            k = 'zero'                                     # a perfect sensor (or, in information form, no sensor at all)
            R = np.zeros((s.m, s.m))
            arg = [0, 0., np.zeros((s.m, s.m))][rng.integers(3)]
        z = s.z(s.H, s.R if k == 'zero' else R)
        st = rng.bit_generator.state
        _upd(a, z, arg)
        rng.bit_generator.state = st
        if k == 'zero':
            setattr(b.f, attr, R)
        elif k != 'none':
            b.set('R', R)
        _upd(b, z, None)
        if k != 'none':
            b.set('R', s.R)
        ctx.event('update', R=k)
        sc = float(np.max(np.abs(b.x))) + float(np.max(np.abs(z)))
        ctx.close('override: state', a.x, b.x, 1e-7, sc)
        ctx.close('override: covariance', a.P, b.P, 1e-7)
        ctx.close('override: innovation covariance', a.S, b.S, 1e-7)
        ctx.close('attribute unchanged', np.array(getattr(a.f, attr), float), keepA, 1e-12)


def _upd(ad, z, arg):
    if isinstance(ad, zoo.EKF):
        kw = {} if arg is None else {'R': arg}
        ad.f.update(ad.zlay(z), lambda x: ad.H, lambda x: ad.H @ x, **kw)
    elif arg is None:
        ad.f.update(ad.zlay(z))
    elif isinstance(ad, zoo.SR):
        ad.f.update(ad.zlay(z), R2=arg)
    elif isinstance(ad, zoo.Info):
        ad.f.update(ad.zlay(z), R_inv=arg)
    else:
        ad.f.update(ad.zlay(z), R=arg)


def model_overrides(ctx, rng):
    """unscented/cubature: time step, transition, measurement function and transform for one call; ensemble noise"""
    from filterpy.kalman import (UnscentedKalmanFilter, CubatureKalmanFilter, EnsembleKalmanFilter,
                                 unscented_transform)
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    A, C = gen.trans_inv(rng, n), rng.standard_normal((m, n))
    A2, C2 = gen.trans_inv(rng, n), rng.standard_normal((m, n))
    fx = lambda x, dt: A @ x + dt * np.sin(x)              # noqa
    fx2 = lambda x, dt: A2 @ x + dt * np.cos(x)            # noqa
    hx = lambda x: C @ x + .2 * np.sin(C @ x)              # noqa
    hx2 = lambda x: C2 @ x + .2 * np.cos(C2 @ x)           # noqa
    Q, R, P0, x0 = gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2), gen.spd(rng, n, .1, 1), rng.standard_normal(n)
    kind = str(rng.choice(['ukf', 'ckf', 'enkf']))
    ctx.describe(kind=kind, n=n, m=m)

    def new(dt=.5, f=fx, h=hx):
        if kind == 'ukf':
            k = UnscentedKalmanFilter(n, m, dt, h, f, zoo.points(rng, n, ('julier',))[1] if pts[0] is None else pts[0])
            pts[0] = k.points_fn
        elif kind == 'ckf':
            k = CubatureKalmanFilter(n, m, dt, h, f)
        else:
            np.random.seed(seed)
            k = EnsembleKalmanFilter(x0, P0, m, dt, 12, h, f)
        k.x, k.P, k.Q, k.R = x0.copy(), P0.copy(), Q.copy(), R.copy()
        return k
    pts = [None]
    seed = int(rng.integers(2 ** 31))
    a, b = new(), new()
    for i in range(int(rng.integers(1, 6))):
        z = hx(x0) + rng.standard_normal(m)
        s2 = int(rng.integers(2 ** 31))
        Rv = gen.spd(rng, m, .1, 2)
        Rs = [None, Rv, float(Rv[0, 0])][rng.integers(3)]
        if kind == 'enkf':
            if rng.random() < .1:
                Rs = [0., 0, np.zeros((m, m))][rng.integers(3)]
            np.random.seed(s2)
            a.predict()
            a.update(z, R=Rs)
            np.random.seed(s2)
            b.predict()
            old = b.R
            if Rs is not None:
                b.R = np.eye(m) * Rs if np.isscalar(Rs) else Rs.copy()
            b.update(z)
            b.R = old
            ctx.event('step', R=Rs is not None)
        else:
            dt = gen.dtv(rng, .1, 2) if rng.random() < .6 else None
            kw = {} if dt is None else {'dt': dt}
            fo = kind == 'ukf' and rng.random() < .4
            if fo:
                kw['fx'] = fx2
            ho = kind == 'ukf' and rng.random() < .4
            if kind == 'ukf' and rng.random() < .2:
                kw['UT'] = unscented_transform
            a.predict(**kw)
            c = new(.5 if dt is None else dt, fx2 if fo else fx, hx2 if ho else hx)
            c.x, c.P = b.x.copy(), b.P.copy()
            c.predict()
            ctx.close('one-call prediction', a.x, c.x, 1e-9, 10., flat=True)
            ctx.close('one-call prediction covariance', a.P, c.P, 1e-9)
            ku = {'hx': hx2} if ho else {}
            a.update(z, R=Rs, **ku)
            if Rs is not None:
                c.R = np.eye(m) * Rs if np.isscalar(Rs) else Rs.copy()
            c.update(z)
            b.x, b.P = c.x.copy(), c.P.copy()
            ctx.event('step', dt=dt, fx=fo, hx=ho, R=Rs is not None)
        sc = 10. + float(np.max(np.abs(z)))
        ctx.close('one-call update', a.x, b.x, 1e-8, sc, flat=True)
        ctx.close('one-call update covariance', a.P, b.P, 1e-8, 10.)
        ctx.close('R attribute unchanged', a.R, R, 0.)
        ctx.close('Q attribute unchanged', a.Q, Q, 0.)


SCENARIOS = [(layouts, 2500, 100000), (steady, 1200, 40000), (kf_overrides, 2500, 100000),
             (other_overrides, 2000, 60000), (model_overrides, 1500, 40000)]
