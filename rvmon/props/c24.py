"""C24: the recursive least-squares filter is the ordinary least-squares polynomial fit"""
import numpy as np
from .. import gen

ANCHORS = ['filterpy/leastsq/least_squares.py']
RULE = ('All orders, time steps 1e-3 to 1e3, arbitrary signals of 1-2000 samples, resets at any point; after every sample the '
        'state, residual and accuracy are compared with a batch polynomial fit of everything since the last reset.')


def fit(z, order, dt):
    """batch fit in a scaled basis; value and derivatives at the last sample, and their unit variances"""
    n = len(z)
    t = (np.arange(n) - (n - 1)) / max(1., n - 1.)           # [-1, 0]
    A = np.stack([t ** j for j in range(order + 1)], 1)
    c = np.linalg.lstsq(A, z, rcond=None)[0]
    V = np.linalg.pinv(A.T @ A)
    T = max(1., n - 1.) * dt
    D = np.array([1., 1 / T, 2 / T ** 2])[:order + 1]
    return c * D, np.diag(V) * D ** 2


def record(ctx, rng):
    """state, residual and accuracy after every sample"""
    from filterpy.leastsq import LeastSquaresFilter
    order = int(rng.integers(0, 3))
    dt = gen.logu(rng, 1e-3, 1e3) if rng.random() < .5 else float(rng.choice([1., .1, .5]))
    sigma = float(rng.choice([0., 1., gen.logu(rng, 1e-2, 1e2)]))
    f = LeastSquaresFilter(dt, order, sigma) if sigma or rng.random() < .5 else LeastSquaresFilter(dt=dt, order=order)
    N = gen.length(rng, 1, 25, 120)
    amp = float(rng.choice([1., 100.]))
    off = float(rng.choice([0., 50., -1000.]))
    ctx.describe(order=order, dt=round(np.log10(dt), 1), N=N, sigma=round(sigma, 1))
    z = []
    U = np.array([1., dt, dt * dt])[:order + 1]
    x0 = np.array(f.x)
    ctx.close('initial state', x0, np.zeros(order + 1), 0., 1.)
    ctx.true('no samples at the start', f.n == 0)
    for i in range(N):
        if i and rng.random() < .04:
            f.reset()
            z = []
            ctx.event('reset')
            ctx.close('state after reset', f.x, x0, 0., 1.)
            ctx.true('samples after reset', f.n == 0)
            ctx.close('residual after reset', f.y, 0., 0., 1.)
        v = float(rng.standard_normal() * amp + off + .3 * i)
        if rng.random() < .1:
            v = int(v)
        before = np.array(f.x)
        r = f.update(v)
        z.append(float(v))
        n = len(z)
        ctx.event('update')
        ctx.true('sample count', f.n == n)
        ctx.true('update returns the state', np.array_equal(r, f.x))
        sc = max(abs(q) for q in z) + amp
        pred = before[0] + sum(before[j] * dt ** j / [1, 1, 2][j] for j in range(1, order + 1))
        ctx.close('residual of this sample', f.y, v - pred, 1e-9, sc * 20, flat=True)
        if n <= order:
            e, s = f.errors()                                              # nothing to judge yet, but an answer
            ctx.true('accuracy before the fit is determined', np.all(np.isfinite(e)) and np.all(np.isfinite(s)), lambda: (e, s))
            continue
        want, var = fit(np.array(z), order, dt)
        wander = float(np.max(np.abs(want * U))) + sc
        ctx.close('least-squares estimate at the last sample', f.x * U, want * U, 1e-9 * (1 + n ** .5), wander * 10)
        if n > order + 1:
            p, _ = fit(np.array(z[:-1]), order, dt)
            pp = p[0] + sum(p[j] * dt ** j / [1, 1, 2][j] for j in range(1, order + 1))
            ctx.close('residual against the fit of the earlier samples', f.y, v - pp, 1e-8 * (1 + n ** .5), wander * 10, flat=True)
        e, s = f.errors()
        ctx.shape('standard deviations', s, (order + 1,))
        w = sigma * np.sqrt(var)
        rel = np.maximum(w, 1e-300)
        if sigma:
            ctx.close('standard deviation of each coefficient', s / rel, np.ones(order + 1), 1e-6, 1.)
            ctx.close('error of each coefficient', e / rel, np.ones(order + 1), 1e-6, 1.)
        else:
            ctx.close('standard deviation of each coefficient', s, w, 0., 1.)
            ctx.close('error of each coefficient', e, w, 0., 1.)


def long(ctx, rng):
    """thousands of samples"""
    from filterpy.leastsq import LeastSquaresFilter
    order = int(rng.integers(0, 3))
    dt = gen.logu(rng, 1e-2, 1e2)
    N = int(rng.integers(300, 3000))
    f = LeastSquaresFilter(dt, order, 1.)
    z = rng.standard_normal(N) + 3. + np.arange(N) * .01
    for v in z:
        f.update(float(v))
    ctx.event('record', N=N)
    ctx.describe(order=order, dt=round(np.log10(dt), 1), N=N // 100)
    want, var = fit(z, order, dt)
    sd = np.sqrt(var)
    ctx.close('estimate after a long record', (f.x - want) / sd, np.zeros(order + 1), 1e-5, 1.)
    ctx.close('accuracy after a long record', f.errors()[1] / sd, np.ones(order + 1), 1e-6, 1.)


def polynomial(ctx, rng):
    """a noise-free polynomial of the filter's order is reproduced as soon as it is determined"""
    from filterpy.leastsq import LeastSquaresFilter
    order = int(rng.integers(0, 3))
    dt = gen.logu(rng, 1e-2, 1e2)
    c = rng.standard_normal(order + 1) * 5
    f = LeastSquaresFilter(dt, order)
    U = np.array([1., dt, dt * dt])[:order + 1]
    N = int(rng.integers(order + 1, 40))
    ctx.describe(order=order, dt=round(np.log10(dt), 1), N=N)
    for k in range(N):
        v = sum(c[j] * k ** j for j in range(order + 1))
        f.update(float(v))
        if k >= order:
            d = np.array([v, sum(j * c[j] * k ** (j - 1.) for j in range(1, order + 1)), 2 * c[2] if order > 1 else 0])
            ctx.close('polynomial reproduced', f.x * U, d[:order + 1], 1e-10, 1e2 * (1 + np.max(np.abs(c)) * (k + 1.) ** order))
    ctx.event('record', N=N)


SCENARIOS = [(record, 6000, 50000), (long, 400, 3000), (polynomial, 4000, 30000)]
