"""C26: resampling selects particles in proportion to their weights"""
import numpy as np
from .. import gen

ANCHORS = ['filterpy/monte_carlo/resampling.py']
RULE = ('Weight vectors of 1-3000 particles: uniform, Dirichlet, degenerate, with leading, inner and trailing zeros, with exact multiples '
        'of 1/N, unnormalised by rounding; every run is judged on the hard guarantees and repeated runs on the expected counts with a '
        'Bernstein bound of false-alarm probability below 1e-12 per case.')
METHODS = ['residual_resample', 'stratified_resample', 'systematic_resample', 'multinomial_resample']
L = 32.0


def weights(rng, N):
    k = int(rng.integers(0, 8))
    if k == 0:
        w = np.ones(N)
    elif k == 1:
        w = rng.dirichlet(np.full(N, gen.logu(rng, .05, 10.)))
    elif k == 2:
        w = np.zeros(N)
        w[rng.integers(0, N)] = 1.
    elif k == 3:                                 # whole multiples of 1/N
        w = np.bincount(rng.integers(0, N, N), minlength=N).astype(float)
    elif k == 4:
        w = rng.random(N) * (rng.random(N) < .4)
        w[rng.integers(0, N)] += .1
    elif k == 5:                                 # zeros at both ends
        w = rng.random(N)
        a, b = sorted(rng.integers(0, N + 1, 2))
        w[:a] = 0
        w[b:] = 0
        if w.sum() == 0:
            w[N // 2] = 1.
    elif k == 6:
        w = np.exp(-.5 * rng.standard_normal(N) ** 2 * gen.logu(rng, .1, 100.))
    else:
        w = rng.random(N) ** 12
        w[rng.integers(0, N)] += .01
    w = np.clip(w, 0, None)
    w = w / w.sum()
    return w


def lay(rng, w):
    q = int(rng.integers(0, 5))
    if q == 0:
        return [float(v) for v in w]
    if q == 1:
        return tuple(float(v) for v in w)
    if q == 2:
        b = np.zeros(2 * len(w))
        b[::2] = w
        return b[::2]
    return np.array(w)


def check(ctx, name, idx, w):
    N = len(w)
    idx = np.asarray(idx)
    ctx.shape('%s: as many indexes as weights' % name, idx, (N,))
    ctx.true('%s: integer indexes' % name, idx.dtype.kind in 'iu')
    ctx.true('%s: indexes in range' % name, idx.min() >= 0 and idx.max() < N)
    ctx.true('%s: no particle of zero weight' % name, np.all(w[idx] > 0), lambda: 'index %s' % idx[w[idx] <= 0])
    c = np.bincount(idx, minlength=N)
    e = N * w
    tol = 1e-9 * max(1, N / 100)
    if name == 'systematic_resample':
        ctx.true('systematic: count within one of its expectation', np.all((c >= np.floor(e - tol)) & (c <= np.ceil(e + tol))),
                 lambda: 'counts %s expected %s' % (c[:20], e[:20]))
        cum = np.concatenate([[0.], np.cumsum(w)])
        cum[-1] = max(cum[-1], 1.)
        s = np.sort(idx)
        lo = np.max(N * cum[s] - np.arange(N))
        hi = np.min(N * cum[s + 1] - np.arange(N))
        ctx.true('systematic: one offset explains all indexes', lo <= hi + 1e-9 * N and hi >= -1e-9 * N and lo <= 1 + 1e-9 * N,
                 lambda: 'offset between %g and %g' % (lo, hi))
    elif name == 'stratified_resample':
        ctx.true('stratified: count within two of its expectation', np.all(np.abs(c - e) < 2 + tol),
                 lambda: 'counts %s expected %s' % (c[:20], e[:20]))
        cum = np.concatenate([[0.], np.cumsum(w)])
        cum[-1] = max(cum[-1], 1.)
        s = np.sort(idx)
        k = np.arange(N)
        ctx.true('stratified: one particle from each stratum',
                 np.all((N * cum[s] <= k + 1 + 1e-9 * N) & (N * cum[s + 1] >= k - 1e-9 * N)))
    elif name == 'residual_resample':
        ctx.true('residual: at least the integer part', np.all(c >= np.floor(e * (1 - 1e-13) - 1e-13)),
                 lambda: 'counts %s expected %s' % (c[:20], e[:20]))
        rest = int(N - np.sum(np.floor(e)))
        ctx.true('residual: exact multiples once each', np.all(c <= np.ceil(e) + rest))
    return c


def single(ctx, rng):
    """hard guarantees of a single resampling"""
    from filterpy import monte_carlo as mc
    N = int(rng.choice([1, 2, 3, int(rng.integers(4, 50)), int(rng.integers(50, 400)), int(gen.length(rng, 400, 800, 3000))]))
    w = weights(rng, N)
    ctx.describe(N=N, zeros=int(np.sum(w == 0)))
    for name in METHODS:
        a = lay(rng, w)
        before = np.array(a)
        idx = getattr(mc, name)(a)
        ctx.event(name)
        check(ctx, name, idx, w)
        ctx.true('weights unchanged', np.array_equal(before, np.array(a)))
        if isinstance(a, np.ndarray):
            ctx.true('result does not share data with the weights', not np.shares_memory(a, idx))
    if rng.random() < .3:
        # particles of exactly equal whole weight are each kept exactly so often
        k = int(rng.integers(1, 6))
        u = np.zeros(2 ** k)
        m = int(rng.integers(0, k + 1))
        u[:2 ** m] = 2. ** -m
        u = rng.permutation(u)
        for name in METHODS[:3]:
            c = check(ctx, name, getattr(mc, name)(np.array(u)), u)
            if name != 'stratified_resample':
                ctx.true('%s: whole multiples are reproduced exactly' % name, np.array_equal(c, u * 2 ** k))
            else:
                ctx.true('%s: whole multiples are reproduced exactly' % name, np.array_equal(c, u * 2 ** k))


def bern(V, b):
    return np.sqrt(2 * V * L) + 2 * b * L / 3 + 1e-6


def expected(ctx, rng):
    """expected counts over many resamplings"""
    from filterpy import monte_carlo as mc
    N = int(rng.choice([1, 2, 3, 4, 5, 8, 12, 20]))
    T = 4000 if ctx.tier == 'quick' else 40000
    w = weights(rng, N)
    name = METHODS[int(rng.integers(0, 4))]
    ctx.describe(N=N, method=name, zeros=int(np.sum(w == 0)))
    f = getattr(mc, name)
    tot = np.zeros(N)
    first = np.zeros((N, N))
    for t in range(T):
        idx = np.asarray(f(w))
        c = np.bincount(idx, minlength=N)
        tot += c
        first[np.arange(N), np.sort(idx)] += 1
        if t < 20:
            check(ctx, name, idx, w)
    ctx.event('resamplings', T=T)
    e = N * w
    fr = e - np.floor(e + 1e-12)
    if name == 'multinomial_resample':
        V = T * e * (1 - w)
        b = 1.
        V = np.maximum(V, 0)
    elif name == 'systematic_resample':
        V = T * np.clip(fr * (1 - fr), 0, None)
        b = 1.
    elif name == 'stratified_resample':
        cum = np.concatenate([[0.], np.cumsum(w)])
        V = np.zeros(N)
        P = overlap(cum, N)
        V = T * np.sum(P * (1 - P), 0)
        b = 1.
    else:
        R = max(np.sum(fr), 1e-300)
        q = np.clip(fr / R, 0, 1)
        V = T * R * q * (1 - q)
        b = 1.
    dev = np.abs(tot - T * e)
    ctx.true('%s: expected count proportional to the weight' % name, np.all(dev <= bern(np.maximum(V, 0), b) + 1e-9 * T),
             lambda: 'mean counts %s expected %s' % (tot / T, e))
    if name in ('systematic_resample', 'stratified_resample'):
        P = overlap(np.concatenate([[0.], np.cumsum(w)]), N)
        d = np.abs(first - T * P)
        ctx.true('%s: each stratum drawn from uniformly' % name, np.all(d <= bern(T * P * (1 - P), 1.) + 1e-9 * T))
    ctx._decided('Bernstein bound')


def overlap(cum, N):
    """P[k, j]: probability that the draw in stratum k lands in particle j"""
    k = np.arange(N)
    lo = np.maximum(cum[:-1][None], (k / N)[:, None])
    hi = np.minimum(cum[1:][None], ((k + 1) / N)[:, None])
    return np.clip(N * (hi - lo), 0, 1)


def independence(ctx, rng):
    """strata are drawn independently by stratified resampling, together by systematic resampling;
    multinomial draws are independent"""
    from filterpy import monte_carlo as mc
    T = 6000 if ctx.tier == 'quick' else 60000
    # four particles whose boundaries cut stratum 0 and stratum 2 in the middle
    w = np.array([.125, .375, .125, .375])
    ctx.describe(case='strata')
    S = np.zeros((2, 2))
    Y = np.zeros((2, 2))
    M = np.zeros((5,))
    for _ in range(T):
        c = np.bincount(mc.stratified_resample(w), minlength=4)
        S[int(c[0]), int(c[2])] += 1
        c = np.bincount(mc.systematic_resample(w), minlength=4)
        Y[int(c[0]), int(c[2])] += 1
        c = np.bincount(mc.multinomial_resample(w), minlength=4)
        M[int(c[1])] += 1
    ctx.event('resamplings', T=T)
    ctx.true('stratified draws are independent between strata', np.all(np.abs(S - T * .25) <= bern(T * .25 * .75, 1.)), S)
    ctx.true('systematic draws move together', Y[0, 1] == 0 and Y[1, 0] == 0 and
             np.all(np.abs(np.diag(Y) - T * .5) <= bern(T * .25, 1.)), Y)
    from math import comb
    B = np.array([comb(4, i) * .375 ** i * .625 ** (4 - i) for i in range(5)])
    ctx.true('multinomial counts are binomial', np.all(np.abs(M - T * B) <= bern(T * B * (1 - B), 1.)), M)
    # residual: the remainder is multinomial
    w = np.array([.3, .3, .4])
    R = np.zeros(3)
    for _ in range(T):
        c = np.bincount(mc.residual_resample(w), minlength=3)
        ctx_ok = c[2] >= 1
        if not ctx_ok:
            ctx.fail('residual: at least the integer part', c)
        R += c
    e = 3 * w
    ctx.true('residual: expected counts', np.all(np.abs(R - T * e) <= bern(T * 2 * .25, 2.)), R / T)


def short(ctx, rng):
    """weights in single precision, whose running sum falls short of one by accumulated rounding"""
    from filterpy import monte_carlo as mc
    N = int(rng.choice([2000, 5000, 20000]))
    w = rng.dirichlet(np.ones(N)) if rng.random() < .5 else np.ones(N) / N
    w = (w * (1 - 1e-5 * rng.random())).astype(np.float32)
    ctx.describe(N=N, deficit=round(1e6 * float(1 - np.cumsum(w)[-1])))
    for name in METHODS:
        idx = np.asarray(getattr(mc, name)(w))
        ctx.event(name)
        ctx.shape('%s: as many indexes as weights' % name, idx, (N,))
        ctx.true('%s: indexes in range' % name, idx.min() >= 0 and idx.max() < N)
        c = np.bincount(idx, minlength=N)
        if name in ('systematic_resample', 'stratified_resample'):
            # one particle per stratum, up to the rounding of the running sum
            cum = np.cumsum(w.astype(float))
            e = np.abs(np.cumsum(c) - N * cum)
            ctx.true('%s: counts follow the cumulative weight' % name, np.max(e[:-1]) < 2 + N * 1e-3, lambda: np.max(e))


SCENARIOS = [(short, 80, 800), (single, 3000, 60000), (expected, 240, 1500), (independence, 8, 80)]
