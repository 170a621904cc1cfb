"""C20: the multiple-model bank weighs its filters by Bayes' rule"""
import math
import sys
import numpy as np
from .. import gen
from ..drive import lay
from ..refs import RefKF

ANCHORS = ['filterpy/kalman/mmae.py']
RULE = ('Random banks of 1-6 linear models, histories with controls, noise and measurement-matrix overrides, outliers; '
        'the probabilities are compared with prior times product of independently computed likelihoods.')


def bank(ctx, rng):
    """probabilities, member estimates and moment match over a whole history"""
    from filterpy.kalman import KalmanFilter, MMAEFilterBank
    n, m, N = gen.dim(rng, 5), gen.mdim(rng, 3), int(rng.integers(1, 7))
    du, ndim = int(rng.integers(0, 3)), int(rng.choice([1, 2]))
    s = gen.LinSys(rng, n=n, m=m, du=du, scale=1. if rng.random() < .7 else float(rng.choice([1e-6, 1e-3, 1e3, 1e6])))
    shared = bool(rng.random() < .3)
    fs, refs, F, Q, H, R, B = [], [], [], [], [], [], []
    for i in range(N):
        k = KalmanFilter(n, m, du)
        x, P = s.x0 + rng.standard_normal(n) * float(rng.choice([0, 1.])) * s.s, gen.spd(rng, n) * s.s ** 2
        k.x, k.P = lay(x, ndim), P.copy()
        F.append(s.newF())
        Q.append(s.newQ())
        H.append(s.newH())
        R.append(s.newR())
        B.append(s.newB() if du else None)
        k.F, k.Q, k.H, k.R = F[i].copy(), Q[i].copy(), H[i].copy(), R[i].copy()
        if du:
            k.B = B[i].copy()
        fs.append(k)
        refs.append(RefKF(x, P))
    p = rng.dirichlet(np.ones(N))
    if N > 1 and rng.random() < .15:
        p[rng.integers(N)] = 0.
        p /= p.sum()
    pk = p.copy()
    p = p if rng.random() < .6 else [float(v) for v in p]
    bH = s.newH() if shared else None
    b = MMAEFilterBank(fs, p, n, H=bH) if shared or rng.random() < .5 else MMAEFilterBank(fs, p, dim_x=n)
    ops = gen.length(rng, 1, 20, 80)
    ctx.describe(n=n, m=m, N=N, du=du, ndim=ndim, s=s.s, ops=ops, shared=shared)
    with np.errstate(divide='ignore'):
        lw = np.log(pk)
    sc, ps = s.s, s.s ** 2
    exact = True

    def look(when):
        nonlocal sc, ps
        for f, r in zip(b.filters, refs):
            sc, ps = max(sc, float(np.max(np.abs(r.x)))), max(ps, float(np.max(np.abs(r.P))))
            ctx.close('member state ' + when, f.x, r.x, 1e-7, sc, flat=True)
            ctx.close('member covariance ' + when, f.P, r.P, 1e-7, ps)
        pp = np.asarray(b.p, float)
        ctx.true('probabilities are a distribution', pp.shape == (N,) and np.all(np.isfinite(pp)) and np.all(pp >= 0) and
                 abs(pp.sum() - 1) < 1e-10, lambda: repr(pp))
        xs = [np.asarray(f.x).reshape(-1) for f in b.filters]
        xm = sum(a * x for a, x in zip(pp, xs))
        Pm = sum(a * (np.asarray(f.P) + np.outer(x - xm, x - xm)) for a, x, f in zip(pp, xs, b.filters))
        ctx.close('state is the mixture mean', b.x, xm, 1e-12, sc, flat=True)
        ctx.close('covariance is the mixture covariance', b.P, Pm, 1e-11, float(np.max(np.abs(Pm))) + 1e-12 * sc * sc)
        ctx.shape('state layout', b.x, np.shape(fs[0].x))

    prev = None
    for i in range(ops):
        if rng.random() < .5:
            u = s.newu() if du and rng.random() < .6 else None
            if u is None:
                b.predict()
            else:
                b.predict(lay(u, ndim))
            for j, r in enumerate(refs):
                r.predict(F[j], Q[j], 0. if u is None else B[j] @ u)
            ctx.event('predict')
            ctx.true('prediction leaves the probabilities alone', prev is None or np.array_equal(prev, b.p))
            look('after predict')
            ctx.close('prior copies', b.x_prior, b.x, 0., 1.)
            ctx.close('prior copies', b.P_prior, b.P, 0., 1.)
        else:
            kw, HH, RR = {}, list(H), list(R)
            if bH is not None:
                HH = [bH] * N
            if rng.random() < .2:
                kw['R'] = s.newR()
                RR = [kw['R']] * N
                if rng.random() < .3:                  # a scalar stands for that multiple of the identity
                    kw['R'] = gen.logu(rng, .1, 3.) * s.s ** 2
                    RR = [np.eye(s.m) * kw['R']] * N
            if rng.random() < .2:
                kw['H'] = s.newH()
                HH = [kw['H']] * N
            j = int(rng.integers(N))
            z = HH[j] @ refs[j].x + rng.standard_normal(m) * float(rng.choice([.3, 2.])) * s.s
            if rng.random() < .04:
                z = z + rng.standard_normal(m) * 100. * s.s
            if rng.random() < .2 and all(np.isfinite(lw)):
                z = HH[int(np.argmin(lw))] @ refs[int(np.argmin(lw))].x
            before = np.array(b.p, float)
            z = gen.whole(rng, z, .12 * (s.s >= 1))
            gen.call(rng, b.update, ['R', 'H'], kw, (gen.zarg(rng, z, ndim),))
            ll = np.array([r.update(HH[k], RR[k], z)['ll'] for k, r in enumerate(refs)])
            ctx.event('update', kw=sorted(kw))
            lik = np.array([math.exp(v) or sys.float_info.min for v in ll])
            amp = max(1., float(np.max(np.abs(ll))))
            if amp < 600:
                w = before * lik
                w /= w.sum()
                ctx.close('one step of Bayes rule', b.p, w, 1e-7 * amp, 1.)
            else:
                exact = False
            lw = lw + ll
            if np.min(lw[np.isfinite(lw)]) - np.max(lw) < -500:   # probabilities leave the range of floats
                exact = False
            if exact:
                e = np.exp(lw - lw.max())
                ctx.close('prior times product of likelihoods', b.p, e / e.sum(), 1e-6 * amp * (i + 1), 1.)
            look('after update')
            ctx.close('posterior copies', b.x_post, b.x, 0., 1.)
            ctx.close('posterior copies', b.P_post, b.P, 0., 1.)
            ctx.close('recorded measurement', b.z, z, 0., 1., flat=True)
        prev = np.array(b.p, float)
        ctx.true('argument p untouched', np.array_equal(np.asarray(p), pk))
        if ps > 1e6 * s.s ** 2 or sc > 1e6 * s.s:
            break


SCENARIOS = [(bank, 3000, 100000)]
