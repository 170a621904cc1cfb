"""C21: steady-state filtering equals the full filter once the gain has converged"""
import numpy as np
import scipy.linalg as sla
from .. import gen
from ..drive import make_kf, lay
from ..refs import sym, logpdf

ANCHORS = ['filterpy/kalman/kalman_filter.py']
RULE = ('Random stabilisable systems; the fixed point comes from an algebraic Riccati solver and from running the full '
        'filter; histories of controls, layouts, missing data and overrides in class and functional form.')


def _sys(rng):
    """system whose Riccati equation has a well-conditioned stabilising solution"""
    for _ in range(100):
        s = gen.WellSys(rng, n=int(rng.integers(1, 6)), m=int(rng.integers(1, 4)), scale=1.)
        if rng.random() < .3:
            s.F = s.F * 1.05
        try:
            P = sla.solve_discrete_are(s.F.T, s.H.T, s.Q, s.R)
        except (np.linalg.LinAlgError, ValueError):
            continue
        P = sym(P)
        if np.linalg.eigvalsh(P)[0] <= 0 or np.linalg.cond(P) > 1e6 or np.max(P) > 1e4:
            continue
        S = sym(s.H @ P @ s.H.T + s.R)
        K = np.linalg.solve(S, s.H @ P).T
        A = (np.eye(s.n) - K @ s.H) @ s.F
        if np.max(np.abs(np.linalg.eigvals(A))) > .97:
            continue
        return s, P, K, S, sym(P - K @ S @ K.T), A
    raise RuntimeError('no system')


def fixed_point(ctx, rng):
    """steady-state operations against the full filter at its fixed point"""
    from filterpy.kalman import KalmanFilter
    import filterpy.kalman.kalman_filter as M
    s, Pp, K, S, Pu, A = _sys(rng)
    nd = int(rng.choice([1, 2]))
    full, st = make_kf(s, nd), make_kf(s, nd)
    how = str(rng.choice(['riccati', 'run']))
    n = gen.length(rng, 2, 15, 60)
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, how=how, ops=n)
    truth = np.array(s.x0)
    if how == 'riccati':
        full.P = Pu.copy()
        st.K, st.P, st.S = K.copy(), Pu.copy(), S.copy()
    else:
        for i in range(600):
            full.predict()
            full.update(lay(s.H @ s.x0, nd))
            if np.max(np.abs(full.P - Pu)) < 1e-9 * np.max(Pp):
                break
        ctx.close('gain converges to the Riccati gain', full.K, K, 1e-6, 1. + float(np.max(np.abs(K))))
        ctx.close('covariance converges', full.P, Pu, 1e-6, float(np.max(np.abs(Pp))))
        full.x = lay(s.x0, nd)
        st.K, st.P, st.S, st.SI = (np.array(getattr(full, a)) for a in ('K', 'P', 'S', 'SI'))
    keep = [np.array(st.P), np.array(st.K)]
    xf = full.x.copy()
    sc = 1. + float(np.max(np.abs(s.x0)))
    for i in range(n):
        u = s.newu() if s.du and rng.random() < .5 else None
        Bu = np.zeros(s.n) if u is None else s.B @ u
        truth = s.F @ truth + Bu + rng.standard_normal(s.n) * .3
        truth *= min(1., 50. / np.linalg.norm(truth))
        form, z = gen.zform(rng, s.H @ truth + rng.standard_normal(s.m))
        if u is None:
            full.predict()
            st.predict_steadystate()
            xf = M.predict_steadystate(xf, s.F)
        else:
            full.predict(u=lay(u, nd))
            st.predict_steadystate(u=lay(u, nd))
            xf = M.predict_steadystate(xf, s.F, lay(u, nd), s.B)
        ctx.event('predict', u=u)
        sc = max(sc, float(np.max(np.abs(full.x))))
        ctx.close('predicted state', st.x, full.x, 1e-5, sc)
        ctx.close('predicted state (function)', xf, full.x, 1e-5, sc)
        ctx.true('prior copy of the state', np.array_equal(st.x_prior, st.x))
        full.update(z)
        st.update_steadystate(z)
        xf = M.update_steadystate(xf, z, st.K, s.H)
        ctx.event('update', form=form)
        sc = max(sc, float(np.max(np.abs(full.x))), float(np.max(np.abs(full.y))) * (1 + float(np.max(np.abs(K)))))
        ctx.close('updated state', st.x, full.x, 1e-5, sc)
        ctx.close('updated state (function)', xf, full.x, 1e-5, sc)
        ctx.close('residual', st.y, full.y, 1e-5, sc)
        if how == 'run' or rng.random() < .3:
            ctx.close('log-likelihood at the fixed point', st.log_likelihood, logpdf(np.reshape(st.y, -1), S),
                      1e-4, 10 + abs(logpdf(np.reshape(st.y, -1), S)))
        ctx.true('posterior copy of the state', np.array_equal(st.x_post, st.x))
        ctx.true('covariance and gain untouched', np.array_equal(st.P, keep[0]) and np.array_equal(st.K, keep[1]))
        full.P = Pu.copy()


def definition(ctx, rng):
    """any fixed gain: x = F x + B u, x += K (z - H x), nothing else moves"""
    s = gen.LinSys(rng)
    nd = int(rng.choice([1, 2]))
    f = make_kf(s, nd)
    K = rng.standard_normal((s.n, s.m))
    K /= max(1., np.linalg.norm(K, 2) * np.linalg.norm(s.H, 2))
    f.K = K.copy()
    x, H, F, B = np.array(s.x0), s.H, s.F, s.B
    ops = gen.length(rng, 2, 20, 80)
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, ops=ops)
    P = np.array(f.P)
    sc = s.s + float(np.max(np.abs(x)))
    for i in range(ops):
        r = rng.random()
        if r < .1:
            F = s.newF()
            f.F = F.copy()
        elif r < .2:
            H = s.newH()
            f.H = H.copy()
        elif r < .3:
            P = gen.spd(rng, s.n)
            f.P = P.copy()
        fx = [np.array(getattr(f, a), copy=True) for a in ('P', 'K', 'F', 'H', 'Q', 'R')]
        if rng.random() < .5:
            kw, Bu = {}, 0.
            if s.du and rng.random() < .6:
                u = s.newu()
                Bx = B
                if rng.random() < .3:
                    Bx = kw['B'] = s.newB()
                kw['u'] = lay(u, nd)
                Bu = Bx @ u
            elif s.du and rng.random() < .2:
                kw['B'] = s.newB()                       # B without u: no control
            f.predict_steadystate(**kw)
            x = F @ x + Bu
            ctx.event('predict', kw=sorted(kw))
            ctx.true('prior copies', np.array_equal(f.x_prior, f.x) and np.array_equal(f.P_prior, f.P))
        elif rng.random() < .2:
            f.update_steadystate(None)
            ctx.event('missing')
            ctx.true('residual reset', not np.any(f.y))
            ctx.true('no measurement recorded', all(v is None for v in np.reshape(f.z, -1)))
            ctx.true('posterior copies', np.array_equal(f.x_post, f.x) and np.array_equal(f.P_post, f.P))
        else:
            z = rng.standard_normal(s.m) * s.s + H @ x
            form, zz = gen.zform(rng, z)
            f.update_steadystate(zz)
            y = z - H @ x
            x = x + K @ y
            ctx.event('update', form=form)
            sc = max(sc, float(np.max(np.abs(z))))
            ctx.close('residual', f.y, y, 1e-9, sc, flat=True)
            ctx.close('recorded measurement', f.z, z, 0., sc, flat=True)
            ctx.true('posterior copies', np.array_equal(f.x_post, f.x) and np.array_equal(f.P_post, f.P))
        sc = max(sc, float(np.max(np.abs(x))))
        ctx.close('state', f.x, x, 1e-8, sc, flat=True)
        ctx.shape('state layout', f.x, (s.n,) if nd == 1 else (s.n, 1))
        for a, b in zip(('P', 'K', 'F', 'H', 'Q', 'R'), fx):
            ctx.true('%s untouched' % a, np.array_equal(getattr(f, a), b))
        if sc > 1e6 * s.s:
            break


SCENARIOS = [(fixed_point, 3000, 50000), (definition, 5000, 80000)]
