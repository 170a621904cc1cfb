"""C40: the choice of units does not matter"""
import numpy as np
from .. import gen, world
from .c31 import seeds
from .c36 import visible, STATE, BANKS

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'fixed_lag_smoother', 'IMM', 'mmae', 'sigma_points', 'unscented_transform')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/memory/fading_memory.py', 'filterpy/leastsq/least_squares.py', 'filterpy/stats/stats.py']
RULE = ('The same history twice, once with every quantity expressed in other units (powers of two from 2^-60 to 2^60 for states, '
        'measurements and time): estimates, gains, innovations, likelihoods, mode probabilities and smoothed histories must be the same '
        'quantities in the other units.')
# the H-infinity filter weighs errors by absolute matrices; it is left to C36 and C39
WORLDS = [W for W in world.KALMAN if W.cls != 'HInfinityFilter']


class Units(world.Handed):
    """expresses everything that is handed over in units a (states) and b (measurements)"""

    def __init__(self, a, b):
        world.Handed.__init__(self)
        self.a, self.b = a, b

    def __call__(self, v, label='argument'):
        if isinstance(v, list) and label not in ('mu', 'p', 'Xs', 'Ps', 'zs'):
            return [self(i, label) for i in v]
        if v is None or isinstance(v, (list, tuple)):
            return v
        a, b = self.a, self.b
        if label in ('x', 'initial x'):
            return v * (a[:, None] if v.ndim == 2 else a)
        if label in ('P', 'Q', 'initial P', 'Qs'):
            return v * a[:, None] * a[None, :]
        if label in ('F', 'Fs'):
            return v * a[:, None] / a[None, :]
        if label == 'H':
            return v * b[:, None] / a[None, :]
        if label == 'H_i':
            return v * b[0] / a[None, :]
        if label in ('R', 'Rs'):
            return v * b[:, None] * b[None, :]
        if label == 'R_i':
            return v * b[0] ** 2
        if label == 'z':
            return v * (b[:, None] if v.ndim == 2 else b)
        if label == 'z_i':
            return v * b[0]
        if label == 'R2':
            return v * b[:, None]
        if label == 'P_inv':
            return v / a[:, None] / a[None, :]
        if label == 'R_inv':
            return v / b[:, None] / b[None, :]
        if label == 'K':
            return v * a[:, None] / b[None, :]
        if label == 'B':
            return v * a[:, None]
        if label in ('u', 'us', 'zs', 'mu', 'M', 'p', 'Xs', 'Ps'):
            return v
        raise KeyError(label)


def back(v, key, a, b):
    """the quantity `key` in the original units"""
    v = np.asarray(v, float)
    if key in ('x', 'x_prior', 'x_post') or key[0] == 'x' and key[1:].isdigit():
        return v / (a if v.ndim == 1 else a[:, None])
    if key == 'smooth':
        return v / (a if v.ndim == 2 else a[:, None]) if v.size else v
    if key in ('P', 'P_prior', 'P_post') or key[0] == 'P' and key[1:].isdigit():
        return v / a[:, None] / a[None, :]
    if key == 'P_inv':
        return v * a[:, None] * a[None, :]
    if key == 'sigmas':
        return v / a
    if key == 'K':
        return v / a[:, None] * b[None, :]
    if key == 'y':
        return v / (b if v.ndim == 1 else b[:, None])
    if key == 'S':
        return v / b[:, None] / b[None, :]
    if key in ('p', 'mahalanobis'):
        return v
    raise KeyError(key)


def quantities(w):
    if w.cls in STATE or w.cls in BANKS:
        d = visible(w)
    else:
        d = {'x': np.array(w.obj.x, float), 'smooth': np.array(w.obj.xSmooth, float)}
    return d


DERIVED = ('y', 'S', 'K', 'mahalanobis')


def units(rng, n, uniform):
    k = float(2. ** int(rng.integers(-60, 61)))
    if uniform or rng.random() < .5:
        return np.full(n, k)
    return k * 2. ** rng.integers(-5, 6, n)


def fine(w):
    for k, v in quantities(w).items():
        if not np.all(np.isfinite(v)) or v.size and np.max(np.abs(v)) > 1e5:
            return False
        if k[0] == 'P' and v.ndim == 2 and v.shape[0] == v.shape[1] and v.size:
            e = np.linalg.eigvalsh((v + v.T) / 2)
            if e[0] < 1e-5 * max(e[-1], 1e-300):
                return False
    return True


def filters(ctx, rng):
    """filters, smoothers and banks"""
    W = WORLDS[int(rng.integers(0, len(WORLDS)))]
    sb = seeds(rng, 1)[0]
    w = W(np.random.default_rng(sb), world.Handed())
    n, m = w.src.n, w.src.m
    uni = W.stochastic or W.cls == 'KalmanFilter sequential'
    a, b = units(rng, n, uni), units(rng, m, uni)
    ctx.describe(cls=W.cls, n=n, m=m, a=int(np.log2(a[0])) // 10, b=int(np.log2(b[0])) // 10)
    v = W(np.random.default_rng(sb), Units(a, b))
    v.limit = np.inf
    T = int(rng.integers(1, 8))
    for s in seeds(rng, T):
        w.act(np.random.default_rng(s))
        if not fine(w):
            return
        if W.cls in BANKS and any(f.likelihood < 1e-150 for f in w.obj.filters):
            return
        v.act(np.random.default_rng(s))
        ctx.event('operate', cls=W.cls)
        qw, qv = quantities(w), quantities(v)
        for k in qw:
            ctx.close('same %s in other units' % k, back(qv[k], k, a, b), qw[k], 1e-6, 1e-6 + np.max(np.abs(qw[k]), initial=0.))
        if W.cls not in ('KalmanFilter steady state', 'KalmanFilter sequential'):
            for k in DERIVED:
                if hasattr(type(w.obj), k) or hasattr(w.obj, k) and k in vars(w.obj):
                    p = getattr(w.obj, k)
                    if p is None or np.size(p) == 0 or not np.all(np.isfinite(np.asarray(p, float))):
                        continue
                    p = np.asarray(p, float)
                    if k == 'K' and p.shape != (n, m) or k == 'S' and p.shape != (m, m):
                        continue
                    q = np.asarray(getattr(v.obj, k), float)
                    if not q.any():
                        ctx.close('%s in other units' % k, q, p, 1e-7)
                        continue
                    ctx.close('%s in other units' % k, back(q, k, a, b), p, 1e-6, 1e-6 + np.max(np.abs(p)))
        if np.any(getattr(w.obj, 'S', 0)) and hasattr(type(w.obj), 'log_likelihood'):
            e = np.linalg.eigvalsh(np.asarray(w.obj.S, float) * np.outer(b / b[0], b / b[0]))
            if e[0] > 1e-7 * e[-1]:
                L, l = v.obj.log_likelihood, w.obj.log_likelihood
                ctx.close('log-likelihood density in other units', L + np.sum(np.log(b)), l, 1e-6, 1 + abs(l))


def trackers(ctx, rng):
    """g-h, fading memory and least squares: units of state and of time"""
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    from filterpy.memory import FadingMemoryFilter
    from filterpy.leastsq import LeastSquaresFilter
    a, c = (float(2. ** int(rng.integers(-60, 61))) for _ in range(2))
    if rng.random() < .5:
        c = float(2. ** int(rng.integers(-12, 13)))
    dt = float(rng.uniform(.2, 2))
    k = int(rng.integers(0, 5))
    o = int(rng.integers(0, 3))
    vec = k < 2 and rng.random() < .3
    x0 = rng.standard_normal((3, 2)) if vec else rng.standard_normal(3)
    zs = rng.standard_normal((gen.length(rng, 1, 10, 40),) + ((2,) if vec else ()))
    g, h, kk = rng.uniform(.2, .8), rng.uniform(.05, .3), rng.uniform(.01, .1)
    beta = rng.uniform(.3, .9)
    ctx.describe(kind=k, order=o, vec=bool(vec), a=int(np.log2(a)) // 10, c=int(np.log2(c)) // 10)
    U = np.array([a, a / c, a / c ** 2])

    def run(U, a, c):
        s = x0 * (U[:, None] if vec else U)
        d = dt * c
        if k == 0:
            f = GHFilter(s[0], s[1], d, g, h)
            return [[np.array(q) for q in f.update(z * a)] for z in zs]
        if k == 1:
            f = GHKFilter(s[0], s[1], s[2], d, g, h, kk)
            out = []
            for z in zs:
                f.update(z * a)
                out.append([np.array(f.x), np.array(f.dx), np.array(f.ddx)])
            return out
        if k == 2:
            f = GHFilterOrder(s[:o + 1].copy(), d, o, g, h, kk)
        elif k == 3:
            f = FadingMemoryFilter(s[:o + 1].copy(), d, o, beta)
        else:
            f = LeastSquaresFilter(d, o, a)
        out = []
        for z in zs:
            f.update(z * a)
            out.append(np.array(f.x, float))
        if k == 4:
            e = f.errors()
            out.append(np.array(e[0]))
            out.append(np.array(e[1]))
        return out
    want, got = run(np.ones(3), 1., 1.), run(U, a, c)
    ctx.event('track', kind=k)
    for p, q in zip(want, got):
        for i, (s, t) in enumerate(zip(p, q)):
            ctx.close('tracked quantity in other units', np.asarray(t) / U[i], s, 1e-8, 1e-3 + np.max(np.abs(s)))


def gaussians(ctx, rng):
    """functions of Gaussians"""
    import filterpy.stats as st
    import filterpy.kalman as fk
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    a, b = units(rng, n, False), units(rng, m, False)
    U = Units(a, b)
    x, y = rng.standard_normal(n) * 2, rng.standard_normal(n) * 2
    P, Q = gen.spd(rng, n, .3, 3.), gen.spd(rng, n, .3, 3.)
    H, R, z = rng.standard_normal((m, n)), gen.spd(rng, m, .3, 3.), rng.standard_normal(m)
    X, Y, PP, QQ, HH, RR, Z = U(x, 'x'), U(y, 'x'), U(P, 'P'), U(Q, 'P'), U(H, 'H'), U(R, 'R'), U(z, 'z')
    ctx.describe(n=n, m=m, a=int(np.log2(a[0])) // 10, b=int(np.log2(b[0])) // 10)
    ctx.event('functions', n=n, m=m)
    shift, shz = np.sum(np.log(a)), np.sum(np.log(b))
    ctx.close('mahalanobis', st.mahalanobis(X, Y, PP), st.mahalanobis(x, y, P), 1e-8)
    ctx.close('NEES', st.NEES(np.array([X]), np.array([Y]), [PP]), st.NEES(np.array([x]), np.array([y]), [P]), 1e-8)
    ok = lambda M: np.linalg.eigvalsh(M)[0] > 1e-7 * np.linalg.eigvalsh(M)[-1]                   # noqa
    if ok(PP):
        ctx.close('logpdf', st.logpdf(X, Y, PP) + shift, st.logpdf(x, y, P), 1e-8, 10.)
        ctx.close('multivariate_gaussian', np.log(st.multivariate_gaussian(X, Y, PP)) + shift, np.log(st.multivariate_gaussian(x, y, P)), 1e-8, 10.)
    if ok(HH @ PP @ HH.T + RR):
        ctx.close('log_likelihood', st.log_likelihood(Z, X, PP, HH, RR) + shz, st.log_likelihood(z, x, P, H, R), 1e-8, 10.)
        ctx.close('likelihood', np.log(st.likelihood(Z, X, PP, HH, RR)) + shz, np.log(st.likelihood(z, x, P, H, R)), 1e-8, 10.)
    if np.all(a == a[0]):
        M, C = st.multivariate_multiply(X, PP, Y, QQ)
        M0, C0 = st.multivariate_multiply(x, P, y, Q)
        ctx.close('product mean', M / a, M0, 1e-8, 10.)
        ctx.close('product covariance', C / np.outer(a, a), C0, 1e-8, 10.)
    s = float(a[0])
    v1, v2 = P[0, 0], Q[0, 0]
    ctx.close('gaussian', st.gaussian(x[0] * s, y[0] * s, v1 * s * s) * s, st.gaussian(x[0], y[0], v1), 1e-8, 1.)
    for f in (st.mul, st.add):
        p, q = f(x[0] * s, v1 * s * s, y[0] * s, v2 * s * s), f(x[0], v1, y[0], v2)
        ctx.close(f.__name__, [p[0] / s, p[1] / s / s], q, 1e-8, 10.)
    p, q = st.mul_pdf(x[0] * s, v1 * s * s, y[0] * s, v2 * s * s), st.mul_pdf(x[0], v1, y[0], v2)
    ctx.close('mul_pdf', [p[0] / s, p[1] / s / s, p[2] * s], q, 1e-8, 10.)
    ctx.close('norm_cdf', st.norm_cdf((x[0] * s, x[0] * s + s), y[0] * s, v1 * s * s), st.norm_cdf((x[0], x[0] + 1), y[0], v1), 1e-8, 1.)
    C2 = gen.spd(rng, 2, .3, 3.)
    e, f = st.covariance_ellipse(C2 * s * s), st.covariance_ellipse(C2)
    ctx.close('ellipse axes', np.array(e[1:]) / s, f[1:], 1e-8, 10.)
    g, h = fk.update(X[:, None], PP, Z[:, None], RR, HH), fk.update(x[:, None], P, z[:, None], R, H)
    ctx.close('update mean', g[0] / a[:, None], h[0], 1e-7, 10.)
    ctx.close('update covariance', g[1] / np.outer(a, a), h[1], 1e-7, 10.)
    F, Qn = rng.standard_normal((n, n)), gen.spd(rng, n, .3, 3.)
    g, h = fk.predict(X[:, None], PP, U(F, 'F'), U(Qn, 'Q')), fk.predict(x[:, None], P, F, Qn)
    ctx.close('predict mean', g[0] / a[:, None], h[0], 1e-8, 20.)
    ctx.close('predict covariance', g[1] / np.outer(a, a), h[1], 1e-8, 50.)
    for cls, args in ((fk.MerweScaledSigmaPoints, (.5, 2., 1.)), (fk.JulierSigmaPoints, (1.,)), (fk.SimplexSigmaPoints, ())):
        p = cls(n, *args)
        ctx.close('sigma points', p.sigma_points(X, PP) / a, p.sigma_points(x, P), 1e-8, 10.)
        u, t = fk.unscented_transform(p.sigma_points(X, PP), p.Wm, p.Wc, QQ), fk.unscented_transform(p.sigma_points(x, P), p.Wm, p.Wc, Q)
        ctx.close('unscented mean', u[0] / a, t[0], 1e-7, 20.)
        ctx.close('unscented covariance', u[1] / np.outer(a, a), t[1], 1e-7, 50.)


SCENARIOS = [(filters, 9000, 150000), (trackers, 5000, 80000), (gaussians, 1500, 30000)]
