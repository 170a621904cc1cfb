"""C14: sigma points and the unscented transform reproduce moments"""
import numpy as np
import scipy.linalg as sla
from .. import gen

ANCHORS = ['filterpy/kalman/sigma_points.py', 'filterpy/kalman/unscented_transform.py']
RULE = ('Random families, dimensions 1-10, parameters, means and (also badly conditioned) covariances in every accepted '
        'layout; random weighted point sets for the transform; user-supplied root, subtraction, mean and residual functions.')


def family(rng, n, **kw):
    """(name, object, squared Mahalanobis radius, expected Wm, expected Wc)"""
    from filterpy.kalman import (MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints)
    k = str(rng.choice(['merwe', 'merwe', 'julier', 'simplex']))
    if k == 'merwe':
        a = float(rng.choice([1e-3, .01, .1, .3, .5, .75, 1., rng.uniform(.05, 1.4)]))
        b = float(rng.choice([0., 1., 2., 3., rng.uniform(0, 4)]))
        kap = float(rng.choice([0., 1., 3. - n, rng.uniform(-n + .3, 5)]))
        if n + kap <= .1:
            kap = 0.
        pos = rng.random() < .5
        p = MerweScaledSigmaPoints(n, a, b, kap, **kw) if pos else MerweScaledSigmaPoints(n=n, alpha=a, beta=b, kappa=kap, **kw)
        r2 = a * a * (n + kap)
        lam = r2 - n
        Wm = np.full(2 * n + 1, .5 / r2)
        Wc = Wm.copy()
        Wm[0] = lam / r2
        Wc[0] = lam / r2 + 1 - a * a + b
    elif k == 'julier':
        kap = float(rng.choice([0., 1., 3. - n, rng.uniform(-n + .3, 5)]))
        if n + kap <= .1:
            kap = 0.
        dflt = kap == 0. and rng.random() < .5
        p = JulierSigmaPoints(n, **kw) if dflt else JulierSigmaPoints(n, kap, **kw)
        r2 = n + kap
        Wm = np.full(2 * n + 1, .5 / r2)
        Wm[0] = kap / r2
        Wc = Wm
    else:
        p = SimplexSigmaPoints(n, **kw)
        r2 = float(n)
        Wm = Wc = np.full(n + 1, 1. / (n + 1))
    return k, p, r2, Wm, Wc


def cov(rng, n):
    r = rng.random()
    if r < .25:                      # badly conditioned / badly scaled
        d = 10. ** rng.uniform(-5, 5, n)
        c = gen.spd(rng, n, .3, 3.)
        return c * np.sqrt(np.outer(d, d))
    return gen.spd(rng, n, .05, 20.) * (gen.logu(rng, 1e-6, 1e6) if rng.random() < .3 else 1.)


def moments(ctx, rng):
    """weights, mean and covariance of the points of every family"""
    n = int(rng.integers(1, 11)) if rng.random() < .3 else int(rng.integers(1, 6))
    root = {}
    if rng.random() < .3:
        root['sqrt_method'] = [lambda m: np.linalg.cholesky(m).T, lambda m: np.real(sla.sqrtm(m)),
                               lambda m: sla.cholesky(m, lower=False)][rng.integers(3)]
    k, p, r2, Wm, Wc = family(rng, n, **root)
    x = rng.standard_normal(n) * float(rng.choice([1., 10., 300.]))
    P = gen.spd(rng, n, .05, 20.) if root else cov(rng, n)     # sqrtm is not accurate for every scaling
    xx, PP, form = x.copy(), P.copy(), 'array'
    r = rng.random()
    if n == 1 and r < .4:
        xx, form = float(x[0]), 'scalar x'
        PP = float(P[0, 0]) if rng.random() < .6 else PP
    elif r < .3:
        P = np.eye(n) * P[0, 0]
        PP, form = float(P[0, 0]), 'scalar P'
    elif r < .4:
        xx, form = x.tolist(), 'list x'
    ctx.describe(kind=k, n=n, form=form, root=bool(root), r2=round(r2, 3), cond=round(np.log10(np.linalg.cond(P))))
    ctx.event('sigma_points', n=n, kind=k)
    keep = np.array(xx, float).copy(), np.array(PP, float).copy()
    S = p.sigma_points(xx, PP)
    ctx.true('arguments untouched', np.array_equal(keep[0], xx) and np.array_equal(keep[1], PP))
    N = n + 1 if k == 'simplex' else 2 * n + 1
    ctx.true('number of points', p.num_sigmas() == N)
    ctx.shape('points', S, (N, n))
    ctx.shape('weights', p.Wm, (N,))
    wt = 1e-13 + 4e-15 * n / r2
    ctx.close('mean weights by definition', p.Wm, Wm, wt)
    ctx.close('covariance weights by definition', p.Wc, Wc, wt)
    amp = float(np.sum(np.abs(p.Wm)))
    ctx.close('mean weights sum to one', np.sum(p.Wm), 1., 1e-13, max(1., amp))
    d = np.sqrt(np.diag(P))
    U = S - x
    ctx.true('mean of the points', np.all(np.abs(p.Wm @ S - x) <= 1e-13 * amp * (np.abs(x) + np.max(np.abs(U), 0)) * 10),
             lambda: '%r vs %r' % (p.Wm @ S, x))
    C = (U.T * p.Wc) @ U
    # rounding of x + u limits what the points can carry
    tol = 1e-11 + wt + 1e-14 * (np.abs(x) / d).max() * amp ** .5 * 10
    ctx.close('covariance of the points', C / np.outer(d, d), P / np.outer(d, d), tol, 1.)
    L = np.linalg.cholesky(P / np.outer(d, d))
    e = sla.solve_triangular(L, (U / d).T, lower=True)
    cn = np.linalg.cond(L)
    m2 = np.sum(e * e, 0)
    t2 = 1e-9 + cn ** 2 * 1e-13 * (1 + (np.abs(x) / d).max() / r2 ** .5)
    if k != 'simplex':
        ctx.close('first point is the mean', S[0], x, 1e-15)
        ctx.close('points symmetric about the mean', S[1:n + 1] + S[n + 1:], np.tile(2 * x, (n, 1)), 1e-13,
                  float(np.max(np.abs(S))))
        m2 = m2[1:]
    if t2 < 1e-2:
        ctx.close('distance of the points from the mean', m2, np.full(len(m2), r2), t2)
    # the same object gives the same points again, whatever happened in between
    p.sigma_points(np.ones(n), np.eye(n) * 2.)
    ctx.true('repeatable', np.array_equal(p.sigma_points(xx, PP), S))


def wrap(a):
    return (np.asarray(a, float) + np.pi) % (2 * np.pi) - np.pi


def subtraction(ctx, rng):
    """a user-supplied subtraction is used to place the points"""
    n = int(rng.integers(1, 6))
    ang = rng.random(n) < .5
    ang[rng.integers(n)] = True
    calls = []

    def sub(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        calls.append((a.shape, b.shape))
        r = a - b
        r[ang] = wrap(r[ang])
        return r
    k, p, r2, Wm, Wc = family(rng, n, subtract=sub)
    x = rng.standard_normal(n)
    x[ang] = rng.choice([3.1, -3.1, 3.0, 0.], int(ang.sum()))
    P = gen.spd(rng, n, .001, .04)
    ctx.describe(kind=k, n=n, angles=int(ang.sum()))
    ctx.event('sigma_points', x=x)
    S = p.sigma_points(x.copy(), P.copy())
    ctx.true('subtraction is called for the points', len(calls) >= (n + 1 if k == 'simplex' else 2 * n))
    ctx.true('subtraction sees state vectors', all(a == (n,) and b == (n,) for a, b in calls), lambda: repr(calls[:3]))
    ctx.true('points were made by the subtraction', np.all(np.abs(S[:, ang]) <= np.pi + 1e-9), lambda: repr(S))
    U = S - x
    U[:, ang] = wrap(U[:, ang])
    if (np.abs(U[:, ang]) < 3).all():
        amp = float(np.sum(np.abs(p.Wm)))
        ctx.close('mean deviation is zero', p.Wm @ U, np.zeros(n), 1e-12 * amp, 1.)
        ctx.close('covariance of the wrapped deviations', (U.T * p.Wc) @ U, P, 1e-9 + 1e-13 * amp / r2)


def root(ctx, rng):
    """a user-supplied square root is what the points are made of"""
    n = int(rng.integers(1, 5))
    seen = []

    def sq(m):
        seen.append(np.array(m))
        return np.linalg.cholesky(m).T * 2.          # deliberately twice too big
    k, p, r2, Wm, Wc = family(rng, n, sqrt_method=sq)
    x, P = rng.standard_normal(n), gen.spd(rng, n)
    S = p.sigma_points(x.copy(), P.copy())
    ctx.describe(kind=k, n=n)
    ctx.event('sigma_points', calls=len(seen))
    U = S - x
    amp = float(np.sum(np.abs(p.Wm)))
    ctx.close('scaled root scales the covariance', (U.T * p.Wc) @ U, 4 * P, 1e-10 * amp ** .5)
    ctx.true('root is called with a multiple of the covariance', len(seen) == 1 and
             np.allclose(seen[0] / seen[0][0, 0], P / P[0, 0], rtol=1e-9, atol=1e-9))


def affine(ctx, rng):
    """unscented transform of an affine map of sigma points is exact"""
    from filterpy.kalman import unscented_transform
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    k, p, r2, Wm, Wc = family(rng, n)
    x, P = rng.standard_normal(n) * 3, gen.spd(rng, n)
    A, b = rng.standard_normal((m, n)), rng.standard_normal(m) * 2
    R = gen.spd(rng, m)
    S = p.sigma_points(x, P)
    Y = S @ A.T + b
    amp = float(np.sum(np.abs(p.Wm)))
    sc = float(np.max(np.abs(Y))) + 1.
    ctx.describe(kind=k, n=n, m=m)
    ctx.event('transform')
    y, C = unscented_transform(Y.copy(), p.Wm, p.Wc)
    ctx.close('mean of an affine map', y, A @ x + b, 1e-12 * amp, sc)
    W = A @ P @ A.T
    tol = 1e-10 + 1e-12 * amp
    ctx.close('covariance of an affine map', C, W, tol, float(np.max(np.abs(W))) + sc * sc * 1e-3)
    y, C = unscented_transform(Y.copy(), p.Wm, p.Wc, R)
    ctx.close('covariance with noise', C, W + R, tol, float(np.max(np.abs(W + R))) + sc * sc * 1e-3)
    # second moments are captured, so the mean of a quadratic is exact too
    G = rng.standard_normal((n, n))
    q = np.array([[s @ G @ s] for s in S])
    y, C = unscented_transform(q, p.Wm, p.Wc)
    ctx.close('mean of a quadratic form', y, [x @ G @ x + np.trace(G @ P)], 1e-11 * amp, float(np.max(np.abs(q))) + 1.)


def transform(ctx, rng):
    """any weighted set of points: weighted mean and covariance, custom functions used"""
    from filterpy.kalman import unscented_transform
    N, n = int(rng.integers(1, 16)), int(rng.integers(1, 7))
    S = rng.standard_normal((N, n)) * float(rng.choice([1., 50.])) + rng.standard_normal(n) * 5
    Wm = rng.uniform(-.2, 1., N)
    Wm /= np.sum(Wm) if abs(np.sum(Wm)) > .1 else 1.
    Wc = Wm.copy()
    Wc[0] += rng.uniform(0, 2)
    if rng.random() < .3:
        Wc = rng.uniform(-.2, 1., N)
    noise = None
    if rng.random() < .6:
        noise = gen.psd(rng, n)
        if n == 1 and rng.random() < .3:
            noise = float(noise[0, 0])
    mf = rf = None
    mode = str(rng.choice(['plain', 'mean', 'residual', 'both', 'np.subtract']))
    cm, cr = [], []
    if mode in ('mean', 'both'):
        c = rng.standard_normal(n)

        def mf(s, w):
            cm.append((np.array(s), np.array(w)))
            return np.dot(w, s) + c
    if mode in ('residual', 'both'):
        g = rng.uniform(.5, 2., n)

        def rf(a, b):
            cr.append((np.shape(a), np.shape(b)))
            return (a - b) * g
    if mode == 'np.subtract':
        rf = np.subtract
    ctx.describe(N=N, n=n, mode=mode, noise=type(noise).__name__)
    ctx.event('transform', mode=mode)
    args = [S, Wm, Wc] + ([] if noise is None else [noise])
    keep = [np.array(a, copy=True) for a in args]
    kw = {}
    if mf is not None:
        kw['mean_fn'] = mf
    if rf is not None:
        kw['residual_fn'] = rf
    x, P = unscented_transform(*args, **kw)
    ctx.true('arguments untouched', all(np.array_equal(a, b) for a, b in zip(args, keep)))
    xw = Wm @ S + (c if mf is not None else 0.)
    Y = S - xw
    if cr or rf not in (None, np.subtract):
        Y = Y * g
    Pw = sum(w * np.outer(y, y) for w, y in zip(Wc, Y)) + (0. if noise is None else noise)
    sc = float(np.max(np.abs(S))) * (np.sum(np.abs(Wm)) + 1)
    ctx.close('weighted mean', x, xw, 1e-12, sc)
    ctx.close('weighted covariance', P, Pw, 1e-11, float(np.max(np.abs(Y))) ** 2 * np.sum(np.abs(Wc)) + 1e-9 + np.max(np.abs(Pw)))
    ctx.close('covariance symmetric', P, P.T, 1e-12, float(np.max(np.abs(P))) + 1e-12)
    if mf is not None:
        ctx.true('mean function got the points and the mean weights', len(cm) >= 1 and np.array_equal(cm[0][0], keep[0])
                 and np.array_equal(cm[0][1], keep[1]))
    if rf is not None and rf is not np.subtract:
        ctx.true('residual function got state vectors', len(cr) >= N and all(a == (n,) and b == (n,) for a, b in cr))


def angles(ctx, rng):
    """circular mean and wrapped residual: moments of points straddling the cut"""
    from filterpy.kalman import unscented_transform
    n = int(rng.integers(1, 4))
    k, p, r2, Wm, Wc = family(rng, n)
    if np.sum(np.abs(p.Wm)) > 50:
        return
    x0 = rng.uniform(-.5, .5, n)
    P = gen.spd(rng, n, .001, .02)
    S0 = p.sigma_points(x0, P)
    if np.max(np.abs(S0)) > 1.4:
        return
    shift = np.zeros(n)
    a = int(rng.integers(n))
    shift[a] = rng.choice([np.pi, -np.pi, 3., 1.])
    S = S0 + shift
    S[:, a] = wrap(S[:, a])

    def mf(s, w):
        r = np.dot(w, s)
        r[a] = np.arctan2(np.dot(w, np.sin(s[:, a])), np.dot(w, np.cos(s[:, a])))
        return r

    def rf(u, v):
        d = u - v
        d[a] = wrap(d[a])
        return d

    def mf0(s):
        r = np.dot(p.Wm, s)
        r[a] = np.arctan2(np.dot(p.Wm, np.sin(s[:, a])), np.dot(p.Wm, np.cos(s[:, a])))
        return r
    ctx.describe(kind=k, n=n, a=a, shift=round(float(shift[a]), 2))
    ctx.event('transform')
    x, C = unscented_transform(S, p.Wm, p.Wc, None, mf, rf)
    m = mf0(S0)
    Y = S0 - m
    e = np.zeros(n)
    e = x - (m + shift)
    e[a] = wrap(e[a])
    ctx.close('circular mean moves with the points', e, np.zeros(n), 1e-10, 1.)
    ctx.close('covariance does not see the cut', C, (Y.T * p.Wc) @ Y, 1e-9, float(np.max(np.abs(P))) + 1e-3)


def sizes(ctx, rng):
    """a mean of the wrong size is refused"""
    n = int(rng.integers(1, 6))
    k, p, r2, Wm, Wc = family(rng, n)
    b = n + int(rng.choice([-1, 1, 2]))
    ctx.describe(kind=k, n=n, given=b)
    ctx.event('sigma_points', given=b)
    ctx.raises('mean of the wrong size', ValueError, p.sigma_points, np.zeros(b), np.eye(max(b, 1)))


SCENARIOS = [(moments, 18000, 200000), (subtraction, 4500, 60000), (root, 2400, 20000), (affine, 9000, 100000),
             (transform, 9000, 100000), (angles, 4500, 50000), (sizes, 900, 5000)]
