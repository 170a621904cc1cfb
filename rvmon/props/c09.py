"""C09: the quantities a filter reports about its last step are those of that step"""
import copy
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, Hist, lay
from ..refs import condition, sym

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'fading_memory', 'EKF', 'UKF', 'CubatureKalmanFilter', 'information_filter',
    'ensemble_kalman_filter', 'IMM', 'mmae')]
RULE = ('After every operation of a random history all reported arrays are recomputed from the state reported before '
        'that operation; every array handed out is kept and compared with its value at that time when the history ends.')


class Keeper(object):
    """arrays handed out, with their values at the time"""

    def __init__(self):
        self.items = []

    def take(self, o, names, step):
        for k in names:
            v = getattr(o, k, None)
            if isinstance(v, np.ndarray):
                self.items.append((step, k, v, v.copy()))

    def edited(self, o, names):
        """the user changed these arrays of o in place; nothing else may have moved"""
        for j, (step, k, v, w) in enumerate(self.items):
            if k in names and v is getattr(o, k, None):
                self.items[j] = (step, k, v, v.copy())

    def check(self, ctx):
        for step, k, v, w in self.items:
            if v.dtype == object:
                ok = v.shape == w.shape and all(a is b or a == b for a, b in zip(v.flat, w.flat))
            else:
                ok = np.array_equal(v, w, equal_nan=True)
            ctx.true('values handed out for a step are not altered later', ok, lambda: 'step %d, %s: %r was %r' % (step, k, v, w))


NAMES = ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'K', 'S', 'SI', 'z', 'P_inv', 'P_inv_prior', 'P_inv_post')
def isolated(ctx, o, rng):
    """a user edits the estimate where it is: the records of the last step are not part of it"""
    rec = [a for a in NAMES + ('sigmas', 'mu', 'p', 'likelihood', 'log_likelihood') if a not in ('x', 'P', 'P_inv') and hasattr(o, a)]
    before = [np.array(getattr(o, a)) for a in rec]
    edit = [v for v in (o.x, o.P) if isinstance(v, np.ndarray) and v.size]
    keep = [v.copy() for v in edit]
    for v in edit:
        v += int(rng.integers(1, 9))
    bad = [a for a, w in zip(rec, before) if not _same(np.array(getattr(o, a)), w)]
    for v, w in zip(edit, keep):
        v[...] = w
    ctx.event('edit')
    ctx.true('records of the last step are not part of the estimate', not bad, lambda: repr(bad))


def _same(v, w):
    return v.shape == w.shape and all(a is b or a == b or a != a and b != b for a, b in zip(v.flat, w.flat))


RECORDS = ('x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'K', 'S', 'SI', 'z')


def linear(ctx, rng):
    """KalmanFilter with overrides, resized measurements and drop-outs"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    kf = make_kf(s, nd)
    h = Hist(ctx, rng, s, kf, nd, adjust=.08)
    kp = Keeper()
    n = gen.length(rng, 2, 14, 60)
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, ops=n)
    st = {'x': kf.x.copy(), 'P': kf.P.copy(), 'prior': (kf.x_prior.copy(), kf.P_prior.copy()),
          'post': (kf.x_post.copy(), kf.P_post.copy())}
    st['last'] = [np.array(getattr(kf, a)) for a in RECORDS]

    def mon(op):
        if op['op'] == 'adjust':
            ctx.true('records of the last step survive a correction of the belief', all(
                np.array_equal(np.array(getattr(kf, a)), v) for a, v in zip(RECORDS, st['last'])), op['how'])
            kp.edited(kf, ('x', 'P'))
            st.update(x=kf.x.copy(), P=kf.P.copy())
            return
        if 'z' in op:
            op['z'], op['H'], op['R'] = [np.array(op[a]) for a in 'zHR']
        if op['op'] == 'predict':
            op['F'], op['Q'], op['Bu'] = np.array(op['F']), np.array(op['Q']), np.array(op['Bu'])
        for v in [op.get('zz')] + list(op.get('kw', {}).values()):
            if isinstance(v, np.ndarray) and v.ndim and op['op'] != 'none':
                v += 50                                                   # the caller reuses its buffers
        x0, P0 = np.reshape(st['x'], -1), st['P']
        sc = max(1e-6, float(np.max(np.abs(x0))), float(np.max(np.abs(kf.x))))
        if op['op'] == 'predict':
            x = op['F'] @ x0 + op['Bu']
            P = kf.alpha ** 2 * op['F'] @ P0 @ op['F'].T + op['Q']
            ctx.close('predict: state', kf.x, x, 1e-9, sc, flat=True)
            ctx.close('predict: covariance', kf.P, P, 1e-9)
            ctx.true('prior copies are the prediction', np.array_equal(kf.x_prior, kf.x) and np.array_equal(kf.P_prior, kf.P))
            ctx.true('posterior copies kept by predict', np.array_equal(kf.x_post, st['post'][0])
                     and np.array_equal(kf.P_post, st['post'][1]))
        else:
            ctx.true('posterior copies are the posterior', np.array_equal(kf.x_post, kf.x) and np.array_equal(kf.P_post, kf.P))
            ctx.true('prior copies kept by update', np.array_equal(kf.x_prior, st['prior'][0])
                     and np.array_equal(kf.P_prior, st['prior'][1]))
        if op['op'] == 'none':
            ctx.true('no correction', np.array_equal(kf.x, st['x']) and np.array_equal(kf.P, st['P']))
        if op['op'] == 'update':
            H, R, z = op['H'], op['R'], op['z']
            zs = max(sc, float(np.max(np.abs(z)))) * (1 + float(np.abs(H).max())) * s.n
            ctx.close('measurement recorded', np.asarray(kf.z, float), z, 1e-12, flat=True)
            ctx.close('residual', kf.y, z - H @ x0, 1e-9, zs, flat=True)
            ctx.shape('residual layout', kf.y, (op['m'],) if nd == 1 else (op['m'], 1))
            S = H @ P0 @ H.T + R
            ctx.close('innovation covariance', kf.S, S, 1e-9)
            ctx.close('its inverse', kf.SI @ S, np.eye(op['m']), 1e-6)
            ctx.close('gain', kf.K @ S, P0 @ H.T, 1e-6)
            ctx.close('gain times residual is the correction', np.reshape(kf.x, -1) - x0,
                      kf.K @ np.reshape(kf.y, -1), 1e-9, max(sc, float(np.max(np.abs(kf.K))) * zs))
            I = np.eye(s.n) - kf.K @ H
            ctx.close('covariance follows from the gain', kf.P, I @ P0 @ I.T + kf.K @ R @ kf.K.T, 1e-8,
                      float(np.max(np.abs(P0))))
        for k in 'FQHRB':
            v, w = getattr(kf, k), getattr(h, k)
            ctx.true('model attributes are those set', (v is None and w is None) or np.array_equal(v, w), k)
        kp.take(kf, NAMES, op['i'])
        st.update(x=kf.x.copy(), P=kf.P.copy(), prior=(kf.x_prior.copy(), kf.P_prior.copy()),
                  post=(kf.x_post.copy(), kf.P_post.copy()), last=[np.array(getattr(kf, a)) for a in RECORDS])
    h.run(n, mon)
    kp.check(ctx)


def formulations(ctx, rng):
    """every formulation on linear models"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4))
    cls = (zoo.SR, zoo.Info, zoo.Fading, zoo.EKF, zoo.UKF, zoo.CKF)[rng.integers(6)]
    ad = cls(rng, s)
    r = zoo.Run(ctx, rng, s, ad, adjust=.08)
    kp = Keeper()
    n = gen.length(rng, 2, 14, 40)
    ctx.describe(filter=ad.name, n=s.n, m=s.m, du=s.du, ops=n)
    f = ad.f
    al = getattr(ad, 'alpha', 1.)
    st = {'x': ad.x.copy(), 'P': ad.P.copy(), 'prior': [np.array(v) for v in ad.prior], 'post': [np.array(v) for v in ad.post]}
    rec = ('y', 'K', 'S', 'z') + (() if ad.name == 'InformationFilter' else ('SI',))
    grab = lambda: [np.array(getattr(f, a)) for a in rec] + [np.array(v) for v in ad.prior + ad.post]      # noqa
    st['last'] = grab()

    def mon(op):
        if op['op'] == 'adjust':
            ctx.true('records of the last step survive a correction of the belief',
                     all(np.array_equal(v, w) for v, w in zip(grab(), st['last'])), op['how'])
            kp.edited(f, ('x', 'P', 'P_inv'))
            st.update(x=ad.x.copy(), P=ad.P.copy())
            return
        x0, P0 = st['x'], st['P']
        x1, P1 = ad.x, ad.P
        sc = max(float(np.sqrt(np.max(np.abs(P0)))), float(np.max(np.abs(x0))), float(np.max(np.abs(x1))))
        xp, Pp = ad.prior
        xq, Pq = ad.post
        if op['op'] == 'predict':
            Bu = ad.B @ op['u'] if op['u'] is not None else 0.
            ctx.close('predict: state', x1, ad.F @ x0 + Bu, 1e-8, max(sc, float(np.max(np.abs(ad.F @ x0)))))
            ctx.close('predict: covariance', P1, al ** 2 * ad.F @ P0 @ ad.F.T + ad.Q, 1e-7)
            ctx.close('prior copies are the prediction', xp, x1, 1e-12, sc)
            ctx.close('prior covariance copy is the prediction', Pp, P1, 1e-9)
            ctx.close('posterior copy kept by predict', xq, st['post'][0], 1e-12, sc)
            ctx.close('posterior covariance copy kept by predict', Pq, st['post'][1], 1e-9)
        else:
            ctx.close('posterior copy is the posterior', xq, x1, 1e-12, sc)
            ctx.close('posterior covariance copy is the posterior', Pq, P1, 1e-9)
            ctx.close('prior copy kept by update', xp, st['prior'][0], 1e-12, sc)
            ctx.close('prior covariance copy kept by update', Pp, st['prior'][1], 1e-9)
        if op['op'] == 'update':
            H, R, z = op['H'], op['R'], op['z']
            zs = max(sc, float(np.max(np.abs(z)))) * (1 + float(np.abs(H).max())) * s.n
            c = condition(x0, sym(P0), H, R, z)
            ctx.close('measurement recorded', np.asarray(f.z, float), z, 1e-12, flat=True)
            ctx.close('residual', ad.y, c['y'], 1e-7, zs)
            ctx.close('innovation covariance', ad.S, c['S'], 1e-6)
            if ad.has_SI:
                ctx.close('its inverse', ad.SI @ ad.S, np.eye(s.m), 1e-6)
            kk = ad.K
            if ad.name == 'SquareRootKalmanFilter':
                # documented meaning of K is the gain applied to y
                pass
            ctx.close('gain', kk @ c['S'], P0 @ H.T, 1e-5)
            ctx.close('gain times residual is the correction', x1 - x0, kk @ ad.y, 1e-7,
                      max(sc, float(np.max(np.abs(kk))) * zs))
            ctx.close('posterior covariance', P1, c['P'], 1e-6, float(np.max(np.abs(P0))))
        kp.take(f, NAMES, op['i'])
        st.update(x=ad.x.copy(), P=ad.P.copy(), prior=[np.array(v) for v in ad.prior], post=[np.array(v) for v in ad.post],
                  last=grab())
    r.run(n, mon)
    kp.check(ctx)


def other_forms(ctx, rng):
    """steady-state and correlated updates of the linear filter, nonlinear EKF/UKF/CKF/EnKF records"""
    from filterpy.kalman import (ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter, EnsembleKalmanFilter)
    from .c02 import _model
    kind = str(rng.choice(['steady', 'corr', 'ekf', 'ukf', 'ckf', 'enkf']))
    kp = Keeper()
    if kind in ('steady', 'corr'):
        s = gen.LinSys(rng, n=gen.dim(rng, 4), scale=1.)
        nd = int(rng.choice([1, 2]))
        kf = make_kf(s, nd)
        ctx.describe(kind=kind, n=s.n, m=s.m, nd=nd)
        if kind == 'steady':
            kf.K = .3 * rng.standard_normal((s.n, s.m))
        for i in range(int(rng.integers(1, 8))):
            x0, P0, K0 = kf.x.copy(), kf.P.copy(), np.array(kf.K)
            (kf.predict if kind == 'corr' else kf.predict_steadystate)()
            ctx.true('prior copies are the prediction', np.array_equal(kf.x_prior, kf.x) and np.array_equal(kf.P_prior, kf.P))
            kp.take(kf, NAMES, i)
            isolated(ctx, kf, rng)
            x1, P1 = kf.x.copy(), kf.P.copy()
            s.step()
            z = s.z()
            zz = lay(z, nd)
            (kf.update_correlated if kind == 'corr' else kf.update_steadystate)(zz)
            zz += 50
            zs = (np.max(np.abs(x1)) + np.max(np.abs(z))) * (1 + np.abs(s.H).max()) * s.n
            ctx.close('residual', kf.y, z - s.H @ np.reshape(x1, -1), 1e-9, zs, flat=True)
            ctx.close('gain times residual is the correction', np.reshape(kf.x - x1, -1),
                      kf.K @ np.reshape(kf.y, -1), 1e-9, zs * max(1., np.abs(kf.K).max()))
            ctx.true('posterior copies are the posterior', np.array_equal(kf.x_post, kf.x) and np.array_equal(kf.P_post, kf.P))
            ctx.true('prior copies kept by update', np.array_equal(kf.x_prior, x1) and np.array_equal(kf.P_prior, P1))
            ctx.close('measurement recorded', np.asarray(kf.z, float), z, 1e-12, flat=True)
            if kind == 'steady':
                ctx.true('gain and covariance untouched', np.array_equal(kf.K, K0) and np.array_equal(kf.P, P0))
            ctx.event('step')
            isolated(ctx, kf, rng)
            kp.take(kf, NAMES, i)
        return kp.check(ctx)
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    f, h, J = _model(rng, n, m)
    P0, Q, R, x0 = gen.spd(rng, n, .1, 2), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2), rng.standard_normal(n)
    if kind == 'ekf':
        k = ExtendedKalmanFilter(n, m)
        k.F = gen.trans_inv(rng, n)
        upd = lambda z: k.update(z, J, h)                                  # noqa
    elif kind == 'ukf':
        k = UnscentedKalmanFilter(n, m, .3, h, f, zoo.points(rng, n, ('julier', 'simplex'))[1])
        upd = lambda z: k.update(z)                                        # noqa
    elif kind == 'ckf':
        k = CubatureKalmanFilter(n, m, .3, h, f)
        upd = lambda z: k.update(z)                                        # noqa
    else:
        k = EnsembleKalmanFilter(x0.copy(), P0, m, .3, int(rng.integers(6, 20)), h, f)
        upd = lambda z: k.update(z)                                        # noqa
    k.x, k.P, k.Q, k.R = x0.copy(), P0.copy(), Q.copy(), R.copy()
    ctx.describe(kind=kind, n=n, m=m)
    for i in range(int(rng.integers(1, 8))):
        post = (np.array(k.x_post), np.array(k.P_post))
        k.predict()
        ctx.event('predict')
        kp.take(k, NAMES, i)
        isolated(ctx, k, rng)
        ctx.true('prior copies are the prediction', np.array_equal(k.x_prior, k.x) and np.array_equal(k.P_prior, k.P))
        ctx.true('posterior copies kept by predict', np.array_equal(k.x_post, post[0]) and np.array_equal(k.P_post, post[1]))
        x1, P1 = np.array(k.x), np.array(k.P)
        z = h(x0) + rng.standard_normal(m)
        zz = z.copy()
        upd(zz)
        zz += 50                                                          # the caller reuses its buffer
        ctx.event('update')
        ctx.true('posterior copies are the posterior', np.array_equal(k.x_post, k.x) and np.array_equal(k.P_post, k.P))
        ctx.true('prior copies kept by update', np.array_equal(k.x_prior, x1) and np.array_equal(k.P_prior, P1))
        ctx.close('measurement recorded', np.asarray(k.z, float), z, 1e-12, flat=True)
        ctx.close('its inverse', k.SI @ k.S, np.eye(m), 1e-7)
        if kind != 'enkf':
            ctx.close('gain times residual is the correction', np.reshape(k.x, -1) - np.reshape(x1, -1),
                      k.K @ np.reshape(k.y, -1), 1e-8, 10 + np.max(np.abs(x1)))
        if kind == 'ekf':
            ctx.close('residual', k.y, z - h(np.reshape(x1, -1)), 1e-9, 10 + np.max(np.abs(z)), flat=True)
        if kind != 'ekf':
            ctx.close('covariance follows from the gain', k.P, P1 - k.K @ k.S @ k.K.T, 1e-8, np.max(np.abs(P1)))
        kp.take(k, NAMES, i)
        if i and rng.random() < .2:
            k.update(*((None, J, h) if kind == 'ekf' else (None,)))
        isolated(ctx, k, rng)
    kp.check(ctx)


def sequential(ctx, rng):
    """records of the component-wise update of the linear filter"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5), m=int(rng.integers(1, 5)), scale=1.)
    kf = make_kf(s, 2)
    kp = Keeper()
    ctx.describe(n=s.n, m=s.m)
    for i in range(int(rng.integers(1, 6))):
        if rng.random() < .7:
            kf.predict()
            kp.take(kf, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), i)
        s.step()
        z = s.z()
        x1, P1 = np.array(kf.x_prior), np.array(kf.P_prior)
        order = []
        a = 0
        while a < s.m:
            b = int(rng.integers(a + 1, s.m + 1))
            order.append((a, b))
            a = b
        order = [order[j] for j in rng.permutation(len(order))]
        if rng.random() < .3:
            order = order[:-1] or order
        for a, b in order:
            y0, K0, z0 = np.array(kf.y), np.array(kf.K), np.array(kf.z)
            x0, P0 = np.array(kf.x), np.array(kf.P)
            H, R = s.H[a:b], s.R[a:b, a:b]
            own = rng.random() < .3
            if own:
                H = H + .3 * rng.standard_normal(H.shape)
                R = gen.spd(rng, b - a, .2, 2)
            v = float(z[a]) if b - a == 1 and rng.random() < .6 else z[a:b].reshape(-1, 1).copy()
            kw = dict(H_i=H.copy(), R_i=R.copy()) if own else {}
            if own and rng.random() < .3:
                R = np.eye(b - a) * R[0, 0]
                kw['R_i'] = float(R[0, 0])
            kf.update_sequential(a, v, **kw)
            for q in [v] + list(kw.values()):
                if isinstance(q, np.ndarray):
                    q += 50                                               # the caller reuses its buffers
            ctx.event('sequential', block=b - a)
            c = condition(x0[:, 0], P0, H, R, z[a:b])
            zs = (np.max(np.abs(x0)) + np.max(np.abs(z))) * (1 + np.abs(H).max()) * s.n
            ctx.close('residual block', kf.y[a:b], c['y'], 1e-9, zs, flat=True)
            ctx.close('gain block', kf.K[:, a:b] @ c['S'], P0 @ H.T, 1e-6)
            ctx.close('measurement block', np.asarray(kf.z[a:b], float), z[a:b], 1e-12, flat=True)
            ctx.close('gain times residual is the correction', (kf.x - x0)[:, 0], kf.K[:, a:b] @ kf.y[a:b, 0], 1e-9,
                      zs * max(1., np.abs(kf.K[:, a:b]).max()))
            ctx.close('posterior covariance', kf.P, c['P'], 1e-7, float(np.max(np.abs(P0))))
            rest = [j for j in range(s.m) if not a <= j < b]
            ctx.true('other blocks kept', np.array_equal(kf.y[rest], y0[rest]) and np.array_equal(kf.K[:, rest], K0[:, rest])
                     and all(p is q or p == q for p, q in zip(np.ravel(kf.z[rest]), np.ravel(z0[rest]))))
            ctx.true('posterior copies are the posterior', np.array_equal(kf.x_post, kf.x) and np.array_equal(kf.P_post, kf.P))
            ctx.true('prior copies kept by update', np.array_equal(kf.x_prior, x1) and np.array_equal(kf.P_prior, P1))
            kp.take(kf, ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post'), i)
            isolated(ctx, kf, rng)
    kp.check(ctx)


def banks(ctx, rng):
    """interacting and adaptive banks: prior and posterior copies of the combined estimate"""
    from filterpy.kalman import IMMEstimator, MMAEFilterBank
    s = gen.LinSys(rng, n=gen.dim(rng, 4), scale=1., du=0)
    nd = int(rng.choice([1, 2]))
    k = int(rng.integers(2, 4))
    fs = []
    for _ in range(k):
        f = make_kf(s, nd)
        f.Q = s.newQ()
        fs.append(f)
    mu = rng.dirichlet(np.ones(k) * 3)
    if rng.random() < .5:
        M = .7 * np.eye(k) + .3 * rng.dirichlet(np.ones(k), k)
        b = IMMEstimator(fs, mu.copy(), M)
    else:
        b = MMAEFilterBank(fs, mu.copy(), s.n, s.H.copy())
    kp = Keeper()
    names = NAMES + ('mu', 'p')
    ctx.describe(bank=type(b).__name__, n=s.n, m=s.m, nd=nd, k=k)
    for i in range(int(rng.integers(1, 8))):
        post = np.array(b.x_post), np.array(b.P_post)
        b.predict()
        ctx.event('predict')
        ctx.true('prior copies are the prediction', np.array_equal(b.x_prior, b.x) and np.array_equal(b.P_prior, b.P))
        ctx.true('posterior copies kept by predict', _same(np.array(b.x_post), post[0]) and _same(np.array(b.P_post), post[1]))
        isolated(ctx, b, rng)
        kp.take(b, names, i)
        x1, P1 = np.array(b.x_prior), np.array(b.P_prior)
        s.step()
        z = lay(s.z(), nd)
        keep = z.copy()
        b.update(z)
        z += 50
        ctx.event('update')
        ctx.true('posterior copies are the posterior', np.array_equal(b.x_post, b.x) and np.array_equal(b.P_post, b.P))
        ctx.true('prior copies kept by update', np.array_equal(b.x_prior, x1) and np.array_equal(b.P_prior, P1))
        if hasattr(b, 'z'):
            ctx.close('measurement recorded', np.asarray(b.z, float), keep, 1e-12, flat=True)
        isolated(ctx, b, rng)
        kp.take(b, names, i)
    kp.check(ctx)


SCENARIOS = [(banks, 800, 10000), (sequential, 2000, 30000), (linear, 5000, 60000), (formulations, 5000, 60000), (other_forms, 3000, 40000)]
