"""C23: g-h and g-h-k filters follow their recursion and report its true variance"""
import numpy as np
import scipy.linalg as sla
from .. import gen
from .c24 import fit

ANCHORS = ['filterpy/gh/gh_filter.py']
RULE = ('Gains over the whole stability region, time steps 1e-2 to 1e2, scalar and array states, per-call gains, arbitrary '
        'signals; variances against the Lyapunov equation of the recursion read off the filter\'s own responses.')


def _stable(rng, n):
    """random gains whose recursion is stable (spectral radius below .97)"""
    for _ in range(400):
        g = float(rng.uniform(.02, 1.5))
        h = float(rng.uniform(.005, 1.5)) * (g if rng.random() < .5 else 1.)
        k = float(rng.uniform(.0005, .5)) * (h if rng.random() < .7 else 1.) if n == 3 else 0.
        A = _A(g, h, k, 1., n)[0]
        if np.max(np.abs(np.linalg.eigvals(A))) < .97:
            return g, h, k
    return (.5, .2, .02 if n == 3 else 0.)


def _A(g, h, k, dt, n):
    F = np.array([[1, dt, dt * dt / 2], [0, 1, dt], [0, 0, 1]])[:n, :n]
    K = np.array([g, h / dt, 2 * k / dt ** 2])[:n]
    return F - np.outer(K, F[0]), K, F


def recursion(ctx, rng):
    """every step of every filter against the defining recursion"""
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    kind = str(rng.choice(['gh', 'ghk', 'order0', 'order1', 'order2']))
    n = {'gh': 2, 'ghk': 3, 'order0': 1, 'order1': 2, 'order2': 3}[kind]
    dt = gen.logu(rng, 1e-2, 1e2) if rng.random() < .6 else float(rng.choice([1., 2., .1]))
    g, h, k = _stable(rng, 3 if n == 3 else 2)
    d = int(rng.integers(1, 4)) if kind in ('gh', 'ghk') and rng.random() < .4 else 0
    sh = (d,) if d else ()
    U = np.array([1., 1 / dt, 1 / dt ** 2])[:n]
    X = rng.standard_normal((n,) + sh) * 3 * U.reshape((n,) + (1,) * len(sh))
    if kind == 'gh':
        f = GHFilter(*[np.array(v) if d else float(v) for v in X], dt, g, h)
        get = lambda: np.array([f.x, f.dx])                                 # noqa
    elif kind == 'ghk':
        f = GHKFilter(*[np.array(v) if d else float(v) for v in X], dt, g, h, k)
        get = lambda: np.array([f.x, f.dx, f.ddx])                          # noqa
    else:
        if rng.random() < .3:
            X[1:] = 0
            x0 = float(X[0])
        else:
            x0 = X.copy() if rng.random() < .6 else X.tolist()
        f = GHFilterOrder(x0, dt, n - 1, g, *((h,) if n > 1 else ()), *((k,) if n > 2 else ()))
        get = lambda: np.array(f.x)                                         # noqa
    N = gen.length(rng, 1, 15, 80)
    ctx.describe(kind=kind, d=d, dt=round(np.log10(dt), 1), N=N)
    sc = 3. * np.ones(n)
    ctx.close('initial state', (get().T * (1 / U)).T, (X.T * (1 / U)).T, 1e-15, 10.)
    for i in range(N):
        z = rng.standard_normal(sh) * 4
        zz = np.array(z) if d else float(z)
        gg, hh, kk, kw = g, h, k, {}
        if rng.random() < .25:
            gg, hh, kk = _stable(rng, 3 if n == 3 else 2)
            names = [a for a, c in (('g', 1), ('h', 2), ('k', 3)) if c <= n and rng.random() < .7]
            gg, hh, kk = (gg if 'g' in names else g), (hh if 'h' in names else h), (kk if 'k' in names else k)
            if rng.random() < .15:                           # an explicit gain of zero is a gain
                gg, hh, kk = [0. if a in names and rng.random() < .6 else v for a, v in (('g', gg), ('h', hh), ('k', kk))]
            kw = {a: {'g': gg, 'h': hh, 'k': kk}[a] for a in names}
        if rng.random() < .06:
            g, h, k = _stable(rng, 3 if n == 3 else 2)
            f.g = g
            if n > 1:
                f.h = h
            if n > 2:
                f.k = k
            gg, hh, kk, kw = g, h, k, {}
        _, K, F = _A(gg, hh, kk, dt, n)
        p = np.tensordot(F, X, 1)
        y = z - p[0]
        X = p + np.multiply.outer(K, y)
        pos = tuple(kw[a] for a in ('g', 'h', 'k')[:len(kw)]) if set(kw) == set(('g', 'h', 'k')[:len(kw)]) and rng.random() < .5 else None
        r = f.update(zz, *pos) if pos is not None else f.update(zz, **kw)
        ctx.event('update', kw=sorted(kw))
        if np.max(np.abs(X.T * (1 / U))) > 1e6:
            break
        s = max(10., float(np.max(np.abs((X.T * (1 / U))))), float(np.max(np.abs((p.T * (1 / U))))))
        ctx.close('state', (get().T * (1 / U)).T, (X.T * (1 / U)).T, 1e-9, s)
        ctx.close('residual', f.y, y, 1e-9, s)
        ctx.close('recorded measurement', f.z, z, 0., 1.)
        ctx.true('gains unchanged by the call', f.g == g and (n < 2 or f.h == h) and (n < 3 or f.k == k))
        if kind in ('gh', 'ghk'):
            ctx.close('returned state', np.array(r[0]), X[0], 1e-9, s)
            ctx.close('returned rate', np.array(r[1]) * dt, X[1] * dt, 1e-9, s)
            ctx.close('predicted state', f.x_prediction, p[0], 1e-9, s)
            ctx.close('predicted rate', np.array(f.dx_prediction) * dt, p[1] * dt, 1e-9, s)
            ctx.shape('state keeps its shape', f.x, sh)
            if n == 3:
                ctx.close('predicted acceleration', np.array(f.ddx_prediction) * dt * dt, p[2] * dt * dt, 1e-9, s)


def agree(ctx, rng):
    """the formulations agree where they overlap"""
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    dt = gen.logu(rng, 1e-2, 1e2)
    two = rng.random() < .5
    g, h, k = _stable(rng, 2 if two else 3)
    x = rng.standard_normal(3) * np.array([1, 1 / dt, 1 / dt ** 2])
    if two:
        fs = [GHFilter(x[0], x[1], dt, g, h), GHKFilter(x[0], x[1], 0., dt, g, h, 0.),
              GHFilterOrder(x[:2], dt, 1, g, h), GHFilterOrder(np.r_[x[:2], 0.], dt, 2, g, h, 0.)]
    else:
        fs = [GHKFilter(x[0], x[1], x[2], dt, g, h, k), GHFilterOrder(x, dt, 2, g, h, k)]
    N = int(rng.integers(1, 40))
    ctx.describe(two=two, dt=round(np.log10(dt), 1), N=N)
    for i in range(N):
        z = float(rng.standard_normal() * 3)
        for f in fs:
            f.update(z)
        ctx.event('update')
        S = [np.array(f.x)[:2] if isinstance(f, GHFilterOrder) else np.array([f.x, f.dx]) for f in fs]
        s = max(10., np.max(np.abs(S[0] * [1, dt])))
        for q in S[1:]:
            ctx.close('same state', q * [1, dt], S[0] * [1, dt], 1e-9, s)
        for f in fs[1:]:
            ctx.close('same residual', f.y, fs[0].y, 1e-9, s)


def _read(mk, n):
    """the linear recursion x' = A x + b z of a filter, from its responses"""
    A = np.zeros((n, n))
    for j in range(n):
        f = mk(*np.eye(n)[j])
        f.update(0.)
        A[:, j] = [f.x, f.dx, getattr(f, 'ddx', 0)][:n]
    f = mk(*np.zeros(n))
    f.update(1.)
    return A, np.array([f.x, f.dx, getattr(f, 'ddx', 0)][:n])


def variances(ctx, rng):
    """variance reduction factors and bias against the filter's own recursion"""
    from filterpy.gh import GHFilter, GHKFilter
    n = int(rng.choice([2, 3]))
    g, h, k = _stable(rng, n)
    dt = gen.logu(rng, 1e-2, 1e2)
    mk = (lambda x, dx: GHFilter(x, dx, dt, g, h)) if n == 2 else (lambda x, dx, ddx: GHKFilter(x, dx, ddx, dt, g, h, k))
    A, b = _read(mk, n)
    D = np.array([1., dt, dt * dt])[:n]
    As, bs = A * (D[:, None] / D[None, :]), b * D
    V = sla.solve_discrete_lyapunov(As, np.outer(bs, bs))
    f = mk(*rng.standard_normal(n))
    ctx.describe(n=n, dt=round(np.log10(dt), 1), r=round(float(np.max(np.abs(np.linalg.eigvals(As)))), 1))
    ctx.event('gains', g=g, h=h, k=k)
    tol = 1e-6 / (1.0001 - np.max(np.abs(np.linalg.eigvals(As))))
    v = np.array(f.VRF(), float)
    ctx.shape('variance reduction factors', v, (n,))
    ctx.close('variance of each output for unit white noise', v * D ** 2 / np.diag(V), np.ones(n), tol, 1.)
    c = np.array([1., 1., .5])[:n]
    ctx.close('variance of the predicted state', f.VRF_prediction(), c @ V @ c, tol, None)
    if n == 3:
        j = float(rng.standard_normal() * 3)
        F = np.array([[1, 1, .5], [0, 1, 1], [0, 0, 1.]])
        # drive it: x_{k+1} = As x_k + bs z_k with z = t^3/6
        N = int(np.log(1e-12) / np.log(np.max(np.abs(np.linalg.eigvals(As))))) + 40
        t = -float(N)
        x = np.array([t ** 3 / 6, t * t / 2, t])
        for i in range(N):
            t += 1
            pred = F[0] @ x
            x = As @ x + bs * t ** 3 / 6
        lag = pred - t ** 3 / 6                       # prediction minus truth per unit jerk * dt^3
        ctx.close('bias of the prediction under constant jerk', f.bias_error(j), lag * j * dt ** 3, 1e-5, None)


def helpers(ctx, rng):
    """gain-selection helpers"""
    import filterpy.gh as G
    kind = str(rng.choice(['critical2', 'critical3', 'lsq', 'optimal', 'benedict', 'benedict_c']))
    ctx.describe(kind=kind, i=int(rng.integers(50)))
    ctx.event(kind)
    if kind.startswith('critical'):
        o = int(kind[-1])
        th = float(rng.uniform(0., .99))
        r = G.critical_damping_parameters(th, order=o) if o == 3 or rng.random() < .5 else G.critical_damping_parameters(th)
        ctx.true('number of gains', len(r) == o)
        A = _A(r[0], r[1], r[2] if o == 3 else 0., 1., o)[0]
        ctx.close('all poles at theta', np.poly(A), np.poly(np.full(o, th)), 1e-12, 3.)
    elif kind == 'lsq':
        f = G.GHFilter(0., 0., dt := gen.logu(rng, .1, 10.), 0., 0.)
        N = int(rng.integers(2, 40))
        z = rng.standard_normal(N) * 3 + 5
        for i, v in enumerate(z):
            g, h = G.least_squares_parameters(i)
            f.update(float(v), g, h)
            if i >= 1:
                w, _ = fit(z[:i + 1], 1, dt)
                ctx.close('least-squares gains give the least-squares line', [f.x, f.dx * dt], [w[0], w[1] * dt], 1e-9, 50.)
    elif kind == 'optimal':
        g = float(rng.uniform(.05, .95))
        r = G.optimal_noise_smoothing(g)
        ctx.true('g is kept', len(r) == 3 and r[0] == g)
        _, h, k = r
        # Polge and Bhagavan: 4(1-g) h^2 + 2 g^2 (2-g) h - 3 g^4 = 0 with h > 0, and k = (h (2-g) - g^2)/g
        ctx.close('h solves the optimality relation', 4 * (1 - g) * h * h + 2 * g * g * (2 - g) * h, 3 * g ** 4, 1e-9, None)
        ctx.true('h is positive', h > 0)
        ctx.close('k follows from g and h', k * g, h * (2 - g) - g * g, 1e-9, g * g)
        ctx.true('optimal filter is stable', np.max(np.abs(np.linalg.eigvals(_A(g, h, k, 1., 3)[0]))) < 1)
    else:
        g = float(rng.uniform(.05, .99))
        if kind == 'benedict':
            r = G.benedict_bornder_constants(g)
            ctx.close('transient-optimal h', r[1] * (2 - g), g * g, 1e-12, None)
        else:
            r = G.benedict_bornder_constants(g, critical=True)
            ctx.close('nearly critical h', r[1] * g * g, .8 * (2 - g * g - 2 * np.sqrt(1 - g * g)), 1e-9, 1e-3)
            ctx.true('less ringing', r[1] < G.benedict_bornder_constants(g)[1])
        ctx.true('g is kept', len(r) == 2 and r[0] == g)


SCENARIOS = [(recursion, 6000, 100000), (agree, 1600, 20000), (variances, 4000, 60000), (helpers, 3000, 40000)]
