"""C25: the discrete Bayes functions are Bayes' rule on a finite grid"""
import numpy as np
from .. import gen

ANCHORS = ['filterpy/discrete_bayes/discrete_bayes.py']
RULE = ('Grids of 1-200 cells holding smooth, sparse, one-cell and denormal-tailed distributions; offsets of either sign up to several '
        'times the grid; kernels narrower and wider than the grid; single operations and long predict/update histories; each result is '
        'compared with explicit index arithmetic on the grid.')


def pdf(rng, n):
    k = int(rng.integers(0, 5))
    if k == 0:
        p = rng.random(n)
    elif k == 1:
        p = np.zeros(n)
        p[rng.integers(0, n)] = 1.
    elif k == 2:
        p = rng.random(n) * (rng.random(n) < .3)
        p[rng.integers(0, n)] += 1.
    elif k == 3:
        p = np.exp(-.5 * ((np.arange(n) - rng.integers(0, n)) / rng.uniform(.3, 3)) ** 2) + 1e-300
    else:
        p = rng.random(n) ** 8
        p[rng.integers(0, n)] += .1
    return p / p.sum()


def kern(rng, n):
    w = int(rng.integers(0, 5))
    m = [1, 3, 5, int(2 * rng.integers(0, n + 2) + 1), int(rng.integers(1, 2 * n + 6))][w]
    k = pdf(rng, m)
    return k


def ref(p, off, k, mode, cval, centre):
    n = len(p)
    out = np.zeros(n)
    if mode == 'wrap':
        for i in range(n):
            if p[i]:
                for j in range(len(k)):
                    out[(i + off + j - centre) % n] += p[i] * k[j]
        return out
    s = np.array([p[i - off] if 0 <= i - off < n else cval for i in range(n)])
    for i in range(n):
        for j in range(len(k)):
            q = i - (j - centre)
            out[i] += k[j] * (s[q] if 0 <= q < n else cval)
    return out


def centres(m):
    return [m // 2] if m % 2 else [m // 2, m // 2 - 1]


def lay(rng, p):
    q = int(rng.integers(0, 4))
    if q == 0:
        return [float(v) for v in p]
    if q == 1:
        b = np.zeros(2 * len(p))
        b[::2] = p
        return b[::2]
    return np.array(p)


def judge(ctx, what, got, p, off, k, mode, cval):
    got = np.asarray(got, float)
    ctx.shape(what + ': one value per cell', got, p.shape)
    best = min((ref(p, off, k, mode, cval, c) for c in centres(len(k))),
               key=lambda w: float(np.max(np.abs(w - got))) if np.all(np.isfinite(got)) else 0.)
    ctx.close(what, got, best, 1e-12, max(1., abs(cval)))


def predict(ctx, rng):
    """wrapping and filling predictions against explicit index arithmetic"""
    from filterpy.discrete_bayes import predict as pr
    n = gen.far(rng, int(gen.length(rng, 1, 20, 60)), 200, 1200, .004)
    p = pdf(rng, n)
    k = kern(rng, min(n, 60))
    if rng.random() < .15:
        k = k * rng.uniform(.2, 3.)            # not normalised: still the linear operation
    off = int(rng.choice([0, 1, -1, int(rng.integers(-n, n + 1)), int(rng.integers(-4 * n - 3, 4 * n + 4))]))
    mode = ['wrap', 'wrap', 'wrapdefault', 'constant', 'other'][int(rng.integers(0, 5))]
    cval = float(rng.choice([0., 0., .1, -.5, 1. / n]))
    ctx.describe(n=n, m=len(k), off=off, mode=mode, cval=cval)
    a, b = lay(rng, p), lay(rng, k)
    a0, b0 = np.array(a), np.array(b)
    o = off if rng.random() < .7 else np.int64(off)
    if mode == 'wrapdefault':
        got = pr(a, o, b)
        what = 'wrapped prediction'
    elif mode == 'wrap':
        got = pr(a, offset=o, kernel=b, mode='wrap', cval=cval)
        what = 'wrapped prediction'
    elif cval == 0. and rng.random() < .5:
        got = pr(a, o, b, mode='constant' if mode == 'constant' else 'fill')
        what = 'filled prediction'
    else:
        got = pr(a, o, b, mode if mode == 'constant' else 'nowrap', cval)
        what = 'filled prediction'
    ctx.event('predict', mode=mode, off=off)
    m = 'wrap' if mode.startswith('wrap') else 'constant'
    judge(ctx, what, got, p, off, k, m, cval if m != 'wrap' else 0.)
    if m == 'wrap':
        ctx.close('total probability', np.sum(got), k.sum() * p.sum(), 1e-12)
        ctx.true('no negative probability', np.all(np.asarray(got) >= -1e-15))
    ctx.true('inputs unchanged', np.array_equal(a0, np.array(a)) and np.array_equal(b0, np.array(b)))
    if isinstance(a, np.ndarray):
        ctx.true('result does not share data with the input', not np.shares_memory(a, got))


def certain(ctx, rng):
    """beliefs that are certain, written with whole numbers, are beliefs too"""
    from filterpy.discrete_bayes import predict as pr
    n = int(rng.integers(1, 12))
    i = int(rng.integers(0, n))
    p = [0] * n
    p[i] = 1
    arr = p if rng.random() < .5 else np.array(p)
    k = [[.1, .8, .1], [.25, .5, .25], [1.], [1], [0, 0, 1]][int(rng.integers(0, 5))]
    off = int(rng.integers(-n, n + 1))
    mode = ['wrap', 'constant'][int(rng.integers(0, 2))]
    ctx.describe(n=n, k=len(k), off=off, mode=mode)
    got = pr(arr, off, k, mode=mode)
    ctx.event('predict')
    judge(ctx, 'prediction of a certain belief', got, np.array(p, float), off, np.array(k, float), mode, 0.)


def update(ctx, rng):
    """Bayes' rule, normalisation in place"""
    from filterpy import discrete_bayes as db
    n = int(gen.length(rng, 1, 40, 200))
    p = pdf(rng, n)
    sc = gen.logu(rng, 1e-6, 1e6)
    L = rng.random(n) * sc
    if rng.random() < .4:
        L[rng.random(n) < .5] = 0.
        L[int(np.argmax(p))] = sc
    if rng.random() < .1:
        L = np.ones(n)
    ctx.describe(n=n, scale=round(np.log10(sc)))
    w = p * L
    w = w / np.sum(w)
    a, b = np.array(L), np.array(p)
    if rng.random() < .2:
        a = list(a)
    got = db.update(a, b) if rng.random() < .5 else db.update(likelihood=a, prior=b)
    ctx.event('update')
    ctx.close('posterior', got, w, 1e-12, float(np.max(w)))
    ctx.close('posterior sums to one', np.sum(got), 1., 1e-12)
    nz = w > 1e-290
    ctx.close('posterior cell by cell', np.asarray(got)[nz] / w[nz], np.ones(nz.sum()), 1e-11, 1.)
    ctx.true('impossible stays impossible', np.all(np.asarray(got)[(p * L) == 0] == 0))
    ctx.true('inputs unchanged', np.array_equal(a, L) and np.array_equal(b, p))
    ctx.true('result does not share data with the input', not np.shares_memory(got, b))
    q = rng.random(n) * sc + 1e-12
    q0 = q.copy()
    v = q if rng.random() < .7 else q.reshape(1, -1)[0]
    r = db.normalize(v)
    ctx.event('normalize')
    ctx.close('normalised distribution', r, q0 / q0.sum(), 1e-12)
    ctx.true('normalised in place', np.array_equal(v, r) and np.array_equal(q, r))


def history(ctx, rng):
    """long histories: the belief stays a distribution and matches exact enumeration of all paths"""
    from filterpy import discrete_bayes as db
    n = int(rng.integers(2, 30))
    bel = pdf(rng, n)
    want = np.array(bel)
    T = gen.length(rng, 3, 30, 200)
    ctx.describe(n=n, T=T)
    for _ in range(T):
        if rng.random() < .6:
            k = kern(rng, min(n, 5))
            if len(k) % 2 == 0:
                k = np.append(k, 0.)
            off = int(rng.integers(-n, n + 1))
            bel = db.predict(bel, off, k)
            want = ref(want, off, k, 'wrap', 0., len(k) // 2)
            ctx.event('predict')
        else:
            L = rng.random(n) + 1e-3
            bel = db.update(L, bel)
            want = want * L
            want /= want.sum()
            ctx.event('update')
        ctx.close('belief after the history', bel, want, 1e-10, 1.)
        ctx.close('belief sums to one', np.sum(bel), 1., 1e-11)
        ctx.true('belief nonnegative', np.all(bel >= 0.))


SCENARIOS = [(predict, 18000, 200000), (certain, 4500, 30000), (update, 18000, 200000), (history, 1800, 15000)]
ASSUMPTIONS = ['a kernel of even width may be centred on either middle cell']
