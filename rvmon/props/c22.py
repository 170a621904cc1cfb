"""C22: fading-memory filtering is exponentially weighted estimation"""
import warnings
import numpy as np
import scipy.linalg as sla
from .. import gen
from ..drive import make_kf, lay
from ..refs import sym

ANCHORS = ['filterpy/memory/fading_memory.py', 'filterpy/kalman/fading_memory.py', 'filterpy/kalman/kalman_filter.py']
RULE = ('Polynomial filter: all orders, memory factors 0.02-0.97, time steps 0.01-20, arbitrary signals and initial states. '
        'Kalman variant: random time-varying systems and fading factors, against an explicitly weighted least-squares problem.')


def _beta(rng):
    return float(rng.choice([.5, .9, .1, .8, .99, rng.uniform(.02, .97), rng.uniform(.3, .95)]))


def _mk(rng, order, dt, beta, x0=None):
    from filterpy.memory import FadingMemoryFilter
    if x0 is None:
        x0 = rng.standard_normal(order + 1) * 3
        r = rng.random()
        if r < .25:
            v = float(x0[0])
            return FadingMemoryFilter(v, dt, order, beta), np.r_[v, np.zeros(order)]
        if r < .4:
            x0 = np.round(x0)
            return FadingMemoryFilter([int(v) for v in x0], dt, order, beta), x0
    return FadingMemoryFilter(x0.copy(), dt=dt, order=order, beta=beta), np.array(x0)


def weighted_fit(z, beta, order, dt):
    """value and derivatives at the last sample of the discounted least-squares polynomial"""
    k = np.arange(len(z))[::-1]
    keep = k * np.log10(beta) > -40
    k, z = k[keep], np.asarray(z)[keep]
    t = -k.astype(float)                         # in samples: well scaled
    w = beta ** (k / 2.)
    A = np.stack([t ** j for j in range(order + 1)], 1)
    sc = np.array([(1 - beta) ** j for j in range(order + 1)])
    c = np.linalg.lstsq((A * sc) * w[:, None], z * w, rcond=None)[0] * sc
    return np.array([c[j] * [1, 1, 2][j] / dt ** j for j in range(order + 1)])


def _steps(beta, order):
    return int(np.ceil(np.log(1e-13) / np.log(beta))) + 20 + 12 * order


def limit(ctx, rng):
    """after a long record: the exponentially discounted least-squares polynomial"""
    order, beta = int(rng.integers(0, 3)), _beta(rng)
    dt = gen.logu(rng, .01, 20.)
    f, x0 = _mk(rng, order, dt, beta)
    N = int(_steps(beta, order) * 1.5) + int(rng.integers(0, 30))
    z = np.cumsum(rng.standard_normal(N)) * .3 + rng.standard_normal(N) + 5.
    ctx.describe(order=order, beta=round(beta, 2), dt=round(np.log10(dt), 1), N=N // 20)
    for v in z:
        f.update(float(v))
    ctx.event('record', N=N)
    want = weighted_fit(z, beta, order, dt)
    sc = np.array([1., 1 / dt, 1 / dt ** 2])[:order + 1] * 10
    ctx.close('discounted least-squares estimate', f.x / sc, want / sc, 1e-7 / (1 - beta), 1.)


def recursion(ctx, rng):
    """every step: prediction by the polynomial, correction by the gains of the discounted fit"""
    order, beta = int(rng.integers(0, 3)), _beta(rng)
    if rng.random() < .2:                             # almost no forgetting, almost no memory, none at all
        beta = float(rng.choice([0., 1e-6, 1e-3, .99, .999, .9999, .999999]))
    dt = gen.logu(rng, .01, 20.)
    f, x = _mk(rng, order, dt, beta)
    ctx.close('initial state', f.x, x, 0., 1.)
    th = 1 - beta
    b = {0: [th], 1: [1 - beta ** 2, th ** 2 / dt],
         2: [1 - beta ** 3, 1.5 * th ** 2 * (1 + beta) / dt, th ** 3 / dt ** 2]}[order]
    A = np.array([[1., dt, dt * dt / 2], [0, 1, dt], [0, 0, 1]])[:order + 1, :order + 1]
    N = gen.length(rng, 1, 15, 60)
    ctx.describe(order=order, beta=round(beta, 2), N=N, extreme=not .01 < beta < .98)
    kept = []
    sc = 10. * np.array([1., 1 / dt, 1 / dt ** 2])[:order + 1]
    for i in range(N):
        z = float(rng.standard_normal() * 5)
        f.update(z)
        p = A @ x
        x = p + np.array(b) * (z - p[0])
        ctx.event('update', z=z)
        sc = np.maximum(sc, np.abs(x))
        ctx.close('state', f.x / sc, x / sc, 1e-9, 1.)
        ctx.shape('state', f.x, (order + 1,))
    P0 = np.array(f.P), np.array(f.e)
    f.update(1.)
    ctx.true('reported accuracy does not depend on data', np.array_equal(f.P, P0[0]) and np.array_equal(f.e, P0[1]))


def _system(f, order, rng):
    """the filter's own linear recursion x' = A x + b z, read off its responses"""
    n = order + 1
    # impulse responses through the public interface only
    from filterpy.memory import FadingMemoryFilter
    A = np.zeros((n, n))
    for j in range(n):
        g = FadingMemoryFilter(np.eye(n)[j], f.dt, order, f.beta)
        g.update(0.)
        A[:, j] = g.x
    g = FadingMemoryFilter(np.zeros(n), f.dt, order, f.beta)
    g.update(1.)
    return A, np.array(g.x)


def accuracy(ctx, rng):
    """reported variances and truncation errors are those of the filter's own recursion"""
    order, beta = int(rng.integers(0, 3)), float(rng.choice([.3, .5, .7, .9, rng.uniform(.1, .92)]))
    dt = gen.logu(rng, .05, 10.)
    f, _ = _mk(rng, order, dt, beta)
    n = order + 1
    D = np.array([1., dt, dt * dt])[:n]             # to sample units: well scaled
    A, b = _system(f, order, rng)
    As, bs = A * (D[:, None] / D[None, :]), b * D
    ctx.describe(order=order, beta=round(beta, 2), dt=round(np.log10(dt), 1))
    ctx.event('recursion', A=A)
    V = sla.solve_discrete_lyapunov(As, np.outer(bs, bs))
    ctx.shape('variances', f.P, (n,))
    ctx.close('variance of each output for unit white noise', f.P * D ** 2 / np.diag(V), np.ones(n), 1e-7, 1.)
    # input t^(order+1) in samples; steady-state error of value and derivatives
    c = order + 1
    x = np.zeros(n)
    N = _steps(beta, order)
    t0 = -N
    fact = [lambda t: t ** c, lambda t: c * t ** (c - 1), lambda t: c * (c - 1) * t ** (c - 2) if c > 1 else 0.]
    x = np.array([fact[j](float(t0)) for j in range(n)], float)
    for k in range(1, N + 1):
        x = As @ x + bs * float(t0 + k) ** c
    truth = np.array([fact[j](0.) for j in range(n)])
    err = np.abs(truth - x) * dt ** c / D
    ctx.shape('truncation errors', f.e, (n,))
    ctx.close('truncation error of each output for a unit next coefficient', np.abs(f.e) / np.maximum(err, 1e-300), np.ones(n), 1e-6, 1.)


def tracking(ctx, rng):
    """a polynomial of the filter's order is followed without error"""
    order, beta = int(rng.integers(0, 3)), _beta(rng)
    dt = gen.logu(rng, .01, 10.)
    c = rng.standard_normal(order + 1) * 3
    # coefficients per sample, so that the record stays in range
    c = c * (.05 ** np.arange(order + 1))
    right = rng.random() < .5

    def at(k):
        return np.array([sum(c[j] * k ** j for j in range(order + 1)),
                         sum(j * c[j] * k ** (j - 1) for j in range(1, order + 1)) / dt,
                         (2 * c[2] if order > 1 else 0.) / dt ** 2])[:order + 1]
    x0 = at(0.) if right else rng.standard_normal(order + 1)
    f, _ = _mk(rng, order, dt, beta, x0)
    N = int(rng.integers(1, 30)) if right else _steps(beta, order)
    ctx.describe(order=order, beta=round(beta, 2), right=right, N=N // 10)
    for k in range(1, N + 1):
        f.update(float(at(float(k))[0]))
        if right:
            sc = np.array([1., 1 / dt, 1 / dt ** 2])[:order + 1] * (1 + abs(at(float(k))[0]))
            ctx.close('never leaves the polynomial', f.x / sc, at(float(k)) / sc, 1e-9 * (1 + k), 1.)
    ctx.event('record', N=N)
    sc = np.array([1., 1 / dt, 1 / dt ** 2])[:order + 1] * (10 + abs(at(float(N))[0]))
    ctx.close('converges to the polynomial', f.x / sc, at(float(N)) / sc, 1e-6, 1.)


def kalman(ctx, rng):
    """fading Kalman filter without process noise: explicitly discounted least squares"""
    from filterpy.kalman import FadingKalmanFilter
    s = gen.WellSys(rng, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 3)), du=0, scale=1.)
    alpha = float(rng.choice([1., 1.001, 1.05, 1.3, rng.uniform(1., 1.6)]))
    which = bool(rng.random() < .5)
    if which:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = FadingKalmanFilter(alpha, s.n, s.m)
        f.x, f.P, f.H, f.R = lay(s.x0, 2), s.P0.copy(), s.H.copy(), s.R.copy()
    else:
        f = make_kf(s, int(rng.choice([1, 2])), alpha=alpha)
    f.Q = np.zeros((s.n, s.n))
    N = int(rng.integers(1, 12))
    ctx.describe(n=s.n, m=s.m, alpha=round(alpha, 2), N=N, fading=which)
    rows, rhs = [], []                       # in terms of the current state
    L = np.linalg.cholesky(np.linalg.inv(s.P0)).T
    rows.append(L)
    rhs.append(L @ s.x0)
    for k in range(N):
        F = gen.trans_inv(rng, s.n, 8.)
        f.F = F.copy()
        f.predict()
        Fi = np.linalg.inv(F)
        rows = [r @ Fi / alpha for r in rows]
        rhs = [r / alpha for r in rhs]
        z = s.H @ s.x0 + rng.standard_normal(s.m)
        missing = rng.random() < .15
        f.update(None if missing else z.reshape(-1, 1) if f.x.ndim == 2 else z)
        ctx.event('step', missing=missing)
        if not missing:
            W = np.linalg.cholesky(np.linalg.inv(s.R)).T
            rows.append(W @ s.H)
            rhs.append(W @ z)
        A, b = np.vstack(rows), np.concatenate(rhs)
        cn = np.linalg.cond(A)
        if cn > 1e5:
            break
        x = np.linalg.lstsq(A, b, rcond=None)[0]
        C = np.linalg.inv(A.T @ A)
        sc = max(1., float(np.max(np.abs(x))))
        ctx.close('state minimises the discounted residuals', f.x, x, 1e-9 * cn + 1e-8, sc * (1 + float(np.max(np.abs(b)))), flat=True)
        ctx.close('covariance of the discounted problem', f.P, C, 1e-6)


def plain(ctx, rng):
    """fading filter against a Kalman filter with alpha (and the plain filter for alpha = 1)"""
    from filterpy.kalman import FadingKalmanFilter
    s = gen.LinSys(rng)
    alpha = float(rng.choice([1., 1., 1.02, 1.2]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = FadingKalmanFilter(alpha, s.n, s.m, s.du)
    for a in ('F', 'Q', 'H', 'R'):
        setattr(f, a, getattr(s, a).copy())
    f.x, f.P = lay(s.x0, 2), s.P0.copy()
    if s.du:
        f.B = s.B.copy()
    k = make_kf(s, 2, alpha=alpha)
    ops = gen.length(rng, 2, 16, 120)
    ctx.describe(n=s.n, m=s.m, du=s.du, alpha=alpha, ops=ops)
    sc, ps = s.s, s.s ** 2
    for i in range(ops):
        if rng.random() < .5 and ps < 1e6 * s.s ** 2:
            u = lay(s.newu(), 2) if s.du and rng.random() < .5 else None
            s.step()
            f.predict(*(() if u is None else (u,)))
            k.predict(*(() if u is None else (u,)))
            ctx.event('predict')
            a = ('x', 'P', 'x_prior', 'P_prior')
        else:
            z = gen.zarg(rng, gen.whole(rng, s.z()), 2)
            R = s.newR() if rng.random() < .2 else None
            f.update(z, *(() if R is None else (R,)))
            k.update(z, R)
            ctx.event('update')
            a = ('x', 'P', 'y', 'S', 'K', 'x_post', 'P_post', 'log_likelihood')
        sc, ps = max(sc, float(np.max(np.abs(k.x)))), max(ps, float(np.max(np.abs(k.P))))
        lev = 0. if len(a) == 4 else float(k.mahalanobis) * sc / np.sqrt(np.linalg.eigvalsh(np.atleast_2d(k.S))[0])
        for q in a:
            w = getattr(k, q)
            ctx.close('same %s as the Kalman filter' % q, getattr(f, q), w, 1e-7,
                      {'x': sc, 'P': ps, 'y': sc * 10, 'l': 1 + abs(float(k.log_likelihood)) + lev}.get(
                          q[0], float(np.max(np.abs(w))) + (1. if q[0] == 'K' else 0.)))


SCENARIOS = [(limit, 3000, 40000), (recursion, 4000, 60000), (accuracy, 2000, 30000), (tracking, 3000, 40000),
             (kalman, 4000, 60000), (plain, 3000, 50000)]
