"""C33: the correlated-noise update is the exact posterior under correlated noise"""
import numpy as np
from .. import gen
from ..drive import make_kf, lay, Hist
from ..refs import condition, RefKF, sym

ANCHORS = ['filterpy/kalman/kalman_filter.py']
RULE = ('Random systems whose process and measurement noise have a random joint covariance (from zero to nearly perfect '
        'correlation), histories with overrides, layouts and missing data, judged by conditioning the joint Gaussian.')


def correlated(ctx, rng):
    """updates against the joint Gaussian of state and measurement"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    f = make_kf(s, nd)
    ref = RefKF(s.x0, s.P0)
    ops = gen.length(rng, 1, 10, 40)
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, ops=ops, scale=round(np.log10(s.s)))
    xs, Ps = float(np.max(np.abs(s.x0))) + s.s, float(np.max(np.abs(s.P0)))
    for i in range(ops):
        if rng.random() < .5 and Ps < 1e5 * s.s ** 2:
            u = s.newu() if s.du and rng.random() < .4 else None
            f.predict(**({} if u is None else {'u': lay(u, nd)}))
            ref.predict(s.F, s.Q, 0. if u is None else s.B @ u)
            ctx.event('predict')
            what = 'after predict'
        elif rng.random() < .12:
            f.update_correlated(None)
            ctx.event('missing')
            ctx.true('residual reset', not np.any(f.y))
            ctx.true('no measurement recorded', all(v is None for v in np.reshape(f.z, -1)))
            what = 'after a missing measurement'
        else:
            H, R, kw = s.H, s.R, {}
            hover = rng.random() < .25
            if hover:
                H = kw['H'] = s.newH()
            r = rng.random()
            if r < .2:
                R = kw['R'] = s.newR()
            elif r < .35:
                q = gen.logu(rng, .1, 3.) * s.s ** 2
                kw['R'], R = q, np.eye(s.m) * q
            # cross covariance of state and measurement noise, joint covariance PSD
            C = rng.standard_normal((s.n, s.m))
            C *= float(rng.choice([0., .3, .9])) / max(np.linalg.norm(C, 2), 1e-9)
            Lp, Lr = np.linalg.cholesky(sym(ref.P) + 1e-12 * np.eye(s.n) * np.max(np.abs(ref.P))), np.linalg.cholesky(R)
            Mx = Lp @ C @ Lr.T
            f.M = Mx.copy()
            z = H @ ref.x + np.linalg.cholesky(sym(H @ ref.P @ H.T + R)) @ rng.standard_normal(s.m) * float(rng.choice([.5, 2.]))
            form, zz = (('1d', z.copy()) if nd == 1 else ('col', z.reshape(-1, 1))) if hover else gen.zform(rng, z)
            if hover and s.m == 1:
                form, zz = gen.zform(rng, z)
            f.update_correlated(zz, **kw)
            try:
                r = condition(ref.x, ref.P, H, R, z, Mx)
            except np.linalg.LinAlgError:
                return
            if np.linalg.cond(r['S']) > 1e6:
                return
            ctx.event('update', kw=sorted(kw), form=form)
            sens = np.linalg.cond(r['S'])
            zs = float(np.max(np.abs(z))) + float(np.max(np.abs(H))) * xs
            ks = max(1., float(np.max(np.abs(r['K']))))
            ctx.close('residual', f.y, r['y'], 1e-8, zs, flat=True)
            ctx.close('innovation covariance', f.S, r['S'], 1e-8, (float(np.max(np.abs(ref.P))) * np.max(np.abs(H)) ** 2 + np.max(R)) * s.n)
            ctx.close('inverse innovation covariance', f.SI @ r['S'], np.eye(s.m), 1e-8 * sens, 10.)
            ctx.close('gain', f.K, r['K'], 1e-8 * sens, ks)
            ctx.close('log-likelihood', f.log_likelihood, r['ll'], 1e-6 * sens, 10 + abs(r['ll']))
            ctx.close('mahalanobis', f.mahalanobis, r['maha'], 1e-6 * sens, 1 + r['maha'])
            ctx.close('recorded measurement', f.z, z, 0., zs, flat=True)
            ref.x, ref.P = r['x'], r['P']
            xs = max(xs, ks * zs)
            ctx.close('state after update', f.x, ref.x, 1e-8 * sens, xs, flat=True)
            ctx.close('covariance after update', f.P, ref.P, 1e-8 * sens, Ps)
            ref.x, ref.P = np.array(f.x).reshape(-1), sym(np.array(f.P))
            if np.linalg.eigvalsh(ref.P)[0] < 1e-7 * np.max(ref.P):
                return
            what = 'after update'
        xs, Ps = max(xs, float(np.max(np.abs(ref.x)))), max(Ps, float(np.max(np.abs(ref.P))))
        ctx.close('state ' + what, f.x, ref.x, 1e-7, xs, flat=True)
        ctx.close('covariance ' + what, f.P, ref.P, 1e-7, Ps)
        ctx.shape('state layout', f.x, (s.n,) if nd == 1 else (s.n, 1))
        if what != 'after predict':
            ctx.true('posterior copies', np.array_equal(f.x_post, f.x) and np.array_equal(f.P_post, f.P))
        P = np.array(f.P)
        if np.max(np.abs(P - P.T)) > 1e-11 * np.max(np.abs(P)):            # rounding of the simple form piles up
            f.P = sym(P)
            ref.P = sym(P)


def uncorrelated(ctx, rng):
    """zero cross covariance: the ordinary update"""
    s = gen.LinSys(rng)
    nd = int(rng.choice([1, 2]))
    f, g = make_kf(s, nd), make_kf(s, nd)
    n = gen.length(rng, 1, 10, 30)
    ctx.describe(n=s.n, m=s.m, nd=nd, ops=n)
    sc, ps = s.s + float(np.max(np.abs(s.x0))), float(np.max(np.abs(s.P0)))
    for i in range(n):
        if rng.random() < .6:
            s.step()
            f.predict()
            g.predict()
        if rng.random() < .15:
            zz, form = None, 'None'
        else:
            form, zz = gen.zform(rng, s.z())
        kw = {}
        if rng.random() < .3:
            kw['R'] = s.newR() if rng.random() < .5 else gen.logu(rng, .1, 3.) * s.s ** 2
        f.update_correlated(zz, **kw)
        g.update(zz, **kw)
        ctx.event('update', form=form)
        sc, ps = max(sc, float(np.max(np.abs(g.x)))), max(ps, float(np.max(np.abs(g.P))))
        if np.linalg.cond(g.S) > 1e6:
            return
        ctx.close('state of the ordinary update', f.x, g.x, 1e-6, sc)
        ctx.close('covariance of the ordinary update', f.P, g.P, 1e-6, ps)
        ctx.close('residual of the ordinary update', f.y, g.y, 1e-6, sc * 10)
        if zz is not None:
            for a in ('S', 'SI', 'K', 'log_likelihood', 'mahalanobis'):
                w = getattr(g, a)
                ctx.close('%s of the ordinary update' % a, getattr(f, a), w, 1e-4, float(np.max(np.abs(w))) + 1.)
        ctx.true('record of the ordinary update', np.array_equal(np.array(f.z, object), np.array(g.z, object)) and
                 np.shape(f.z) == np.shape(g.z))


SCENARIOS = [(correlated, 8000, 150000), (uncorrelated, 3000, 40000)]
