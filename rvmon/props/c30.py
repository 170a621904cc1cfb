"""C30: Gaussian helper functions compute the exact Gaussian quantities"""
import math
import numpy as np
from .. import gen, refs
from ..gen import col

ANCHORS = ['filterpy/stats/stats.py']
RULE = ('Means, (co)variances (scalar, diagonal, full, ill-conditioned, singular where allowed), points from the centre to far tails, and '
        'every accepted layout (scalars, lists, tuples, rows, columns, integer data) against direct evaluation of the definitions.')


def lay(rng, v, scalar=True, rows=True):
    v = np.asarray(v, float).ravel()
    k = int(rng.integers(0, 6))
    if scalar and v.size == 1 and k < 2:
        return float(v[0])
    if k == 0:
        return [float(i) for i in v]
    if k == 1:
        return tuple(float(i) for i in v)
    if rows and k == 2:
        return v.reshape(-1, 1).copy()
    if rows and k == 3:
        return v.reshape(1, -1).copy()
    if k == 4:
        b = np.zeros(2 * v.size)
        b[::2] = v
        return b[::2]
    return v.copy()


def layc(rng, C):
    C = np.asarray(C, float)
    k = int(rng.integers(0, 4))
    if C.size == 1 and k == 0:
        return float(C[0, 0])
    if k == 1:
        return C.tolist()
    if k == 2:
        return np.asfortranarray(C)
    return C.copy()


def cov(rng, n):
    k = int(rng.integers(0, 5))
    s = gen.logu(rng, 1e-4, 1e4)
    if k == 4:
        d = np.array([gen.logu(rng, .02, 50.) for _ in range(n)])
        return gen.spd(rng, n, .3, 3.) * np.outer(d, d) * s
    if k == 0:
        return np.eye(n) * s
    if k == 1:
        return np.diag([gen.logu(rng, .1, 10.) for _ in range(n)]) * s
    if k == 2:
        return gen.spd(rng, n, .01, 100.) * s
    return gen.spd(rng, n, .3, 3.) * s


def point(rng, n, C):
    m = rng.standard_normal(n) * float(rng.choice([0., 1., 100.]))
    d = np.linalg.cholesky(C) @ rng.standard_normal(n) * float(rng.choice([0., .5, 1., 3., 6.]))
    return m, m + d


def lpdf(d, C):
    n = len(d)
    L = np.linalg.cholesky(C)
    w = np.linalg.solve(L, d)
    return -.5 * (n * math.log(2 * math.pi) + float(w @ w)) - float(np.sum(np.log(np.diag(L)))), float(w @ w)


def density(ctx, rng):
    """log density, density and Mahalanobis distance"""
    from filterpy import stats as st
    n = int(rng.integers(1, 6))
    C = cov(rng, n)
    m, x = point(rng, n, C)
    ll, q = lpdf(x - m, C)
    ctx.describe(n=n, q=round(math.sqrt(q)), s=round(math.log10(C[0, 0])))
    kap = np.linalg.cond(C)
    d = np.linalg.norm(m) / math.sqrt(np.linalg.eigvalsh(C)[0])
    tol = 1e-13 * kap * (10 + q) + 1e-15 * d * (10 + math.sqrt(q)) * 10
    xa, ma, Ca = lay(rng, x), lay(rng, m), layc(rng, C)
    ctx.event('logpdf')
    got = st.logpdf(xa, ma, Ca) if rng.random() < .5 else st.logpdf(x=xa, mean=ma, cov=Ca)
    ctx.close('log density', got, ll, tol, 1., flat=True)
    if rng.random() < .3:
        ll0, q0 = lpdf(x - m, C)
        got = st.logpdf(lay(rng, x - m), cov=Ca)
        ctx.close('log density with default mean', got, ll0, tol, 1., flat=True)
    if n == 1 and rng.random() < .3:
        got = st.logpdf(float(x[0] - m[0]))
        ctx.close('log density with default variance', got, -.5 * math.log(2 * math.pi) - .5 * (x[0] - m[0]) ** 2,
                  1e-12 * (10 + (x[0] - m[0]) ** 2), 1., flat=True)
    ctx.event('mahalanobis')
    got = st.mahalanobis(lay(rng, x), lay(rng, m), layc(rng, C))
    ctx.close('Mahalanobis distance', got, math.sqrt(q), 1e-13 * kap + 1e-14 * d / max(math.sqrt(q), 1e-8) * 10,
              max(math.sqrt(q), 1e-8))
    ctx.true('Mahalanobis distance nonnegative', got >= 0)
    ctx.event('multivariate_gaussian')
    Cm = layc(rng, C)
    if np.allclose(C, np.eye(n) * C[0, 0]) and rng.random() < .5:
        Cm = float(C[0, 0])
    got = st.multivariate_gaussian(lay(rng, x), lay(rng, m), Cm)
    if ll > -600:
        ctx.close('multivariate density', got / math.exp(ll), 1., tol + 1e-12, 1., flat=True)
    else:
        ctx.true('multivariate density far out', 0 <= got <= 1e-200)


def ints(ctx, rng):
    """integer arguments are numbers too"""
    from filterpy import stats as st
    m1, m2, x = (int(v) for v in rng.integers(-5, 6, 3))
    v1, v2 = (int(v) for v in rng.integers(1, 9, 2))
    ctx.describe(v=(v1, v2), x=x - m1)
    ctx.event('integers')
    npd = lambda d, v: math.exp(-.5 * d * d / v) / math.sqrt(2 * math.pi * v)     # noqa
    ctx.close('density', st.gaussian(x, m1, v1), npd(x - m1, v1), 1e-13)
    ctx.close('product mean', st.mul(m1, v1, m2, v2)[0], (m1 * v2 + m2 * v1) / (v1 + v2), 1e-13, 10)
    ctx.close('product variance', st.mul(m1, v1, m2, v2)[1], v1 * v2 / (v1 + v2), 1e-13)
    ctx.close('scaled product', st.mul_pdf(m1, v1, m2, v2), [(m1 * v2 + m2 * v1) / (v1 + v2), v1 * v2 / (v1 + v2),
                                                            npd(m1 - m2, v1 + v2)], 1e-13, 10)
    ctx.close('multivariate density', st.multivariate_gaussian(x, m1, v1), npd(x - m1, v1), 1e-12)
    ctx.close('multivariate density', st.multivariate_gaussian([x, m2], [m1, x], v1), npd(x - m1, v1) * npd(m2 - x, v1), 1e-12)
    ctx.close('Mahalanobis distance', st.mahalanobis([x, m2], [m1, x], [[v1, 0], [0, v2]]),
              math.sqrt((x - m1) ** 2 / v1 + (m2 - x) ** 2 / v2), 1e-12, 1 + abs(x - m1))
    ctx.close('log density', st.logpdf([x, m2], [m1, x], [[v1, 0], [0, v2]]),
              math.log(npd(x - m1, v1)) + math.log(npd(m2 - x, v2)), 1e-12, 10)
    M, C = st.multivariate_multiply([m1, m2], [[v1, 0], [0, v2]], [x, m1], [[v2, 0], [0, v1]])
    ctx.close('multivariate product mean', M, [(m1 * v2 + x * v1) / (v1 + v2), (m2 * v1 + m1 * v2) / (v1 + v2)], 1e-12, 10)
    ctx.close('multivariate product covariance', C, np.eye(2) * v1 * v2 / (v1 + v2), 1e-12)
    ctx.close('NEES', st.NEES([[x, m2]], [[m1, x]], [[[v1, 0], [0, v2]]]), [(x - m1) ** 2 / v1 + (m2 - x) ** 2 / v2], 1e-12, 10.)


def singular(ctx, rng):
    """degenerate covariances: density on the support"""
    from filterpy import stats as st
    n = int(rng.integers(2, 5))
    r = int(rng.integers(1, n))
    A = rng.standard_normal((n, r))
    A = A / np.linalg.norm(A, axis=0)
    C = A @ A.T
    if np.linalg.cond(A) > 50:
        A = np.linalg.qr(A)[0]
        C = A @ A.T
    c = rng.standard_normal(r)
    m = rng.standard_normal(n)
    x = m + A @ c
    w, V = np.linalg.eigh(C)
    w, V = w[n - r:], V[:, n - r:]
    p = V.T @ (x - m)
    ll = -.5 * (r * math.log(2 * math.pi) + np.sum(np.log(w)) + np.sum(p * p / w))
    ctx.describe(n=n, r=r)
    ctx.event('logpdf singular')
    ctx.close('log density on the support', st.logpdf(lay(rng, x), lay(rng, m), C), ll, 1e-8, max(1., abs(ll)), flat=True)
    z = r + 0
    H = rng.standard_normal((2, n))
    R = np.eye(2) * .3
    ctx.event('likelihood')
    l2, _ = lpdf(z * np.ones(2) * .1 - H @ x, H @ C @ H.T + R)
    ctx.close('log likelihood with a degenerate state', st.log_likelihood(z * np.ones(2) * .1, x, C, H, R), l2, 1e-9, max(1., abs(l2)))


def measurement(ctx, rng):
    """likelihood of a measurement"""
    from filterpy import stats as st
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    P, R = cov(rng, n), cov(rng, m)
    H = rng.standard_normal((m, n))
    x = rng.standard_normal(n) * 3
    S = H @ P @ H.T + R
    if np.linalg.cond(S) > 1e7:
        return measurement(ctx, rng)
    z = H @ x + np.linalg.cholesky(S) @ rng.standard_normal(m) * float(rng.choice([0., 1., 4.]))
    ll, q = lpdf(z - H @ x, S)
    ctx.describe(n=n, m=m, q=round(math.sqrt(q)))
    two = rng.random() < .5
    zz, xx = (col(z), col(x)) if two else (z.copy(), x.copy())
    Ra = float(R[0, 0]) if m == 1 and rng.random() < .5 else R.copy()
    ctx.event('likelihood')
    tol = 1e-12 * np.linalg.cond(S) * (10 + q)
    tol += 1e-14 * (np.abs(H) @ np.abs(x)).max() / math.sqrt(np.linalg.eigvalsh(S)[0]) * (10 + q)
    ctx.close('log likelihood', st.log_likelihood(zz, xx, P.copy(), H.copy(), Ra), ll, tol, 1., flat=True)
    if ll > -600:
        ctx.close('likelihood', st.likelihood(zz, xx, P.copy(), H.copy(), Ra) / math.exp(ll), 1., tol, 1., flat=True)


def scalar(ctx, rng):
    """one-dimensional density, product, sum and interval probability"""
    from filterpy import stats as st
    m1, m2 = rng.standard_normal(2) * float(rng.choice([0., 1., 100.]))
    v1, v2 = gen.logu(rng, 1e-5, 1e5), gen.logu(rng, 1e-5, 1e5)
    s1 = math.sqrt(v1)
    t = float(rng.choice([0., .1, 1., 3., 10.])) * rng.standard_normal()
    x = m1 + t * s1
    ctx.describe(t=round(t), v=(round(math.log10(v1)), round(math.log10(v2))))
    e = (x - m1) ** 2 / v1
    pd = math.exp(-.5 * e) / math.sqrt(2 * math.pi * v1)
    tol = 1e-12 * (10 + e)
    ctx.event('gaussian')
    for normed in (True, False):
        g = st.gaussian(x, m1, v1, normed) if rng.random() < .7 or not normed else st.gaussian(x, m1, v1)
        if pd > 1e-290:
            ctx.close('density', g / pd, 1., tol, 1., flat=True)
    k = int(rng.integers(1, 30))
    sh = [(k,), (k, 1), (1, k), (2, k)][int(rng.integers(0, 4))] if rng.random() < .4 else (k,)
    xs = m1 + rng.standard_normal(sh) * s1
    w = np.exp(-.5 * (xs - m1) ** 2 / v1) / math.sqrt(2 * math.pi * v1)
    a = xs.tolist() if rng.random() < .3 else tuple(xs.tolist()) if rng.random() < .2 else xs.copy()
    ctx.close('density of an array', st.gaussian(a, m1, v1, normed=False) / w, np.ones(sh), 1e-10, 1.)
    ctx.close('normalised density of an array', st.gaussian(a, m1, v1) / (w / w.sum()), np.ones(sh), 1e-10, 1.)
    ctx.event('product')
    vm = 1 / (1 / v1 + 1 / v2)
    mm = vm * (m1 / v1 + m2 / v2)
    S = math.exp(-.5 * (m1 - m2) ** 2 / (v1 + v2)) / math.sqrt(2 * math.pi * (v1 + v2))
    M, V = st.mul(m1, v1, m2, v2)
    ctx.close('product mean', M, mm, 1e-12, abs(m1) + abs(m2) + 1e-300)
    ctx.close('product variance', V, vm, 1e-12)
    r = st.mul_pdf(m1, v1, m2, v2)
    ctx.true('scaled product has three parts', len(r) == 3)
    ctx.close('product mean', r[0], mm, 1e-12, abs(m1) + abs(m2) + 1e-300)
    ctx.close('product variance', r[1], vm, 1e-12)
    if S > 1e-290:
        ctx.close('product scale', r[2] / S, 1., 1e-11 * (10 + (m1 - m2) ** 2 / (v1 + v2)), 1.)
    A = st.add(m1, v1, m2, v2)
    ctx.close('sum', A, [m1 + m2, v1 + v2], 1e-14, abs(m1) + abs(m2) + v1 + v2)
    ctx.event('interval')
    b = m1 + s1 * np.sort(rng.standard_normal(2) * float(rng.choice([.5, 1., 4.])))
    if rng.random() < .3:
        b = b[::-1]
    Phi = lambda q: .5 * math.erfc(-q / math.sqrt(2))         # noqa
    want = abs(Phi((b[1] - m1) / s1) - Phi((b[0] - m1) / s1))
    rg = [tuple(b), list(b), b][int(rng.integers(0, 3))]
    tl = 1e-12 + 1e-15 * abs(m1) / s1 * 10
    ctx.close('interval probability', st.norm_cdf(rg, m1, v1), want, tl, 1.)
    ctx.close('interval probability', st.norm_cdf(rg, m1, var=v1), want, tl, 1.)
    ctx.close('interval probability from a deviation', st.norm_cdf(rg, m1, std=s1), want, tl, 1.)
    ctx.close('deviation overrides the variance', st.norm_cdf(rg, m1, v2, s1), want, tl, 1.)
    ctx.close('interval probability, standard', st.norm_cdf((-1., 1.), 0), .6826894921370859, 1e-12)


def multiply(ctx, rng):
    """product of multivariate Gaussians"""
    from filterpy import stats as st
    n = int(rng.integers(1, 6))
    C1, C2 = cov(rng, n), cov(rng, n)
    if rng.random() < .2:
        C1 = np.zeros((n, n)) if rng.random() < .3 else C1 * 0 + np.outer(np.ones(n), np.ones(n))
    m1, m2 = rng.standard_normal(n) * 3, rng.standard_normal(n) * 3
    S = C1 + C2
    kap = np.linalg.cond(S)
    ctx.describe(n=n, k=round(math.log10(kap)))
    if kap > 1e9:
        return multiply(ctx, rng)
    K = np.linalg.solve(S, C1).T
    m = m1 + K @ (m2 - m1)
    C = C1 - K @ C1
    ctx.event('multiply')
    colm = rng.random() < .3
    a, b = (col(m1), col(m2)) if colm else (m1.tolist(), tuple(m2)) if rng.random() < .3 else (m1.copy(), m2.copy())
    M, Q = st.multivariate_multiply(a, C1.tolist() if rng.random() < .3 else C1.copy(), b, C2.copy())
    g = (np.max(np.abs(C1)) + np.max(np.abs(C2))) / np.linalg.eigvalsh(S)[0]
    ctx.close('product mean', M, m, 1e-13 * kap * g, max(1., np.max(np.abs(m1)) + np.max(np.abs(m2))) * g, flat=True)
    ctx.close('product covariance', Q, C, 1e-13 * kap * g, np.max(np.abs(C1)) + 1e-300)
    # a product of densities, point by point
    if kap < 1e4 and np.linalg.eigvalsh(C1)[0] > 1e-6 and g < 1e3 and np.linalg.cond(C1) < 1e4 and np.linalg.cond(C2) < 1e4:
        p = m[:, None] + np.linalg.cholesky((C + C.T) / 2 + 1e-12 * np.eye(n) * np.max(C)) @ rng.standard_normal((n, 2))
        Qs = (np.asarray(Q) + np.asarray(Q).T) / 2
        Mf = np.asarray(M).ravel()
        if np.linalg.cond(Qs) < 1e5:
            r = [lpdf(p[:, j] - m1, C1)[0] + lpdf(p[:, j] - m2, C2)[0] - lpdf(p[:, j] - Mf, Qs)[0] for j in (0, 1)]
            ctx.close('product is proportional to the product of the densities', r[0], r[1], 1e-5, max(1., abs(r[0])))


def ellipse(ctx, rng):
    """the covariance ellipse"""
    from filterpy import stats as st
    k = int(rng.integers(0, 4))
    if k == 0:
        P = np.diag([gen.logu(rng, 1e-3, 1e3), gen.logu(rng, 1e-3, 1e3)])
    elif k == 1:
        v = rng.standard_normal(2)
        P = np.outer(v, v)
    elif k == 2:
        P = np.eye(2) * gen.logu(rng, 1e-3, 1e3)
    else:
        th = rng.uniform(-4, 4)
        U = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
        P = U @ np.diag([gen.logu(rng, 1e-3, 1e3), gen.logu(rng, 1e-3, 1e3)]) @ U.T
        P = (P + P.T) / 2
    sd = float(rng.choice([1, 2, 3, .5])) if rng.random() < .7 else gen.logu(rng, .1, 10.)
    ctx.describe(kind=k, sd=sd, q=(round(math.log10(abs(P[0, 0]) + 1e-9)), round(math.log10(P[1, 1] + 1e-9))))
    ctx.event('ellipse')
    Pa = P.tolist() if rng.random() < .2 else P.copy()
    r = st.covariance_ellipse(Pa) if sd == 1 and rng.random() < .5 else st.covariance_ellipse(Pa, sd) if rng.random() < .5 \
        else st.covariance_ellipse(Pa, deviations=sd)
    ctx.true('three parts', len(r) == 3)
    a, w, h = r
    tr = np.trace(P)
    ctx.true('first axis is the larger', w >= h * (1 - 1e-12) and h >= 0)
    c, s = math.cos(a), math.sin(a)
    U = np.array([[c, -s], [s, c]])
    ctx.close('the axes and the orientation rebuild the covariance', U @ np.diag([(w / sd) ** 2, (h / sd) ** 2]) @ U.T, P, 1e-10, tr)


def nees(ctx, rng):
    """normalised estimation error squared"""
    from filterpy import stats as st
    n = int(rng.integers(1, 5))
    T = int(rng.integers(1, 30))
    P = [cov(rng, n) for _ in range(T)]
    x = rng.standard_normal((T, n)) * 5
    e = np.array([np.linalg.cholesky(p) @ rng.standard_normal(n) for p in P]) * float(rng.choice([0., 1., 3.]))
    est = x - e
    want = [float(d @ np.linalg.solve(p, d)) for d, p in zip(x - est, P)]
    ctx.describe(n=n, T=T)
    ctx.event('NEES')
    k = int(rng.integers(0, 4))
    if k == 0:
        a, b, c = x.copy(), est.copy(), np.array(P)
    elif k == 1:
        a, b, c = list(x), list(est), P
    elif k == 2:
        a, b, c = x[:, :, None], est[:, :, None], np.array(P)
    else:
        a, b, c = x.tolist(), est.tolist(), [p.tolist() for p in P]
    got = st.NEES(a, b, c)
    ctx.true('one value per estimate', len(got) == T)
    kap = max(np.linalg.cond(p) for p in P)
    ctx.close('normalised error', np.array([np.asarray(g).item() for g in got]), want, 1e-12 * kap, max(max(want), 1e-12))


def student(ctx, rng):
    """Student-t variates"""
    from filterpy import stats as st
    from scipy.stats import t
    df = float(rng.choice([1., 2., 3., 5., 10., 50., 2.5]))
    mu, sd = (0., 1.) if rng.random() < .3 else (float(rng.normal()) * 5, gen.logu(rng, .1, 10.))
    N = 4000 if ctx.tier == 'quick' else 20000
    ctx.describe(df=df, mu=mu, sd=sd)
    if (mu, sd) == (0., 1.):
        v = np.array([st.rand_student_t(df) for _ in range(N)])
    elif rng.random() < .5:
        v = np.array([st.rand_student_t(df, mu, sd) for _ in range(N)])
    else:
        v = np.array([st.rand_student_t(df=df, mu=mu, std=sd) for _ in range(N)])
    ctx.event('student', n=N)
    u = np.sort(t.cdf((v - mu) / sd, df))
    D = max(np.max(np.arange(1, N + 1) / N - u), np.max(u - np.arange(N) / N))
    ctx.true('variates follow the distribution', D < math.sqrt(math.log(2 / 1e-13) / (2 * N)), D)
    c = np.mean((u0 := t.cdf((v - mu) / sd, df) - .5)[1:] * u0[:-1]) * 12
    ctx.true('variates are independent', abs(c) < 8 / math.sqrt(N), c)


SCENARIOS = [(density, 12000, 100000), (ints, 3000, 10000), (singular, 2400, 20000), (measurement, 7500, 60000), (scalar, 7500, 60000),
             (multiply, 7500, 60000), (ellipse, 7500, 60000), (nees, 3000, 30000), (student, 300, 600)]
ASSUMPTIONS = ['rand_student_t is the location-scale family with the given scale']
