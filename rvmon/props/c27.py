"""C27: discretised process noise and transition matrices are the exact integrals"""
from math import factorial
import numpy as np
from scipy.linalg import expm
from .. import gen, refs

ANCHORS = ['filterpy/common/discretization.py']
RULE = ('Random continuous models (stable, unstable, oscillating, nilpotent, sparse, zero; 1-6 states, 1-6 noise inputs, steps 1e-4 to 1e2 '
        'with |F|dt up to 4) against Gauss-Legendre quadrature of the propagated noise; the ready-made matrices for every order, '
        'block count, ordering, time step 1e-3..1e3 and intensity.')


def model(rng):
    n = int(rng.integers(1, 7))
    k = int(rng.integers(0, 7))
    if k == 0:
        F = rng.standard_normal((n, n))
    elif k == 1:
        F = np.diag(np.ones(n - 1), 1)
    elif k == 2:
        F = rng.standard_normal((n, n))
        F = F - F.T
    elif k == 3:
        F = -np.diag(rng.uniform(.1, 3, n)) + .3 * rng.standard_normal((n, n))
    elif k == 4:
        F = np.zeros((n, n))
    elif k == 5:
        F = rng.standard_normal((n, n)) * (rng.random((n, n)) < .4)
    else:
        F = np.zeros((n, n))
        for i in range(0, n - 1, 2):
            F[i, i + 1] = 1.
            F[i + 1, i] = -rng.uniform(0, 4)
    dt = gen.logu(rng, 1e-4, 1e2)
    s = np.linalg.norm(F, 2) * dt
    if s > 4:
        F = F * (rng.uniform(.1, 4) / s)
    m = int(rng.integers(1, n + 2))
    g = int(rng.integers(0, 4))
    G = rng.standard_normal((n, m)) if g < 2 else np.eye(n)[:, [n - 1]] * rng.uniform(.1, 5) if g == 2 else np.diag(rng.random(n))
    return F, G, dt, k, g


def lay(rng, M):
    if rng.random() < .2:
        return np.asfortranarray(M)
    if rng.random() < .2:
        b = np.zeros((M.shape[0] * 2, M.shape[1] * 2))
        b[::2, ::2] = M
        return b[::2, ::2]
    return np.array(M)


def quadQ(F, W, dt):
    n = len(F)
    t, w = np.polynomial.legendre.leggauss(24)
    Q = np.zeros((n, n))
    parts = 4
    for p in range(parts):
        for ti, wi in zip(t, w):
            s = dt * (p + .5 * (ti + 1)) / parts
            E = expm(F * s)
            Q += wi * .5 * dt / parts * E @ W @ E.T
    return Q


def van_loan(ctx, rng):
    """van Loan's method and its composition over consecutive steps"""
    from filterpy.common import van_loan_discretization as vl
    F, G, dt, k, g = model(rng)
    ctx.describe(n=len(F), m=G.shape[1], kind=k, g=g, dt=round(np.log10(dt)))
    if rng.random() < .15:
        F = np.round(F).astype(int) if np.linalg.norm(np.round(F), 2) * dt < 4 else F
    if rng.random() < .1:
        G = np.round(G * 3).astype(int)
    a, b = lay(rng, F), lay(rng, G)
    if F.dtype.kind == 'i' or G.dtype.kind == 'i':
        a, b = np.array(F), np.array(G)
    a0, b0 = a.copy(), b.copy()
    phi, Q = vl(a, b, dt)
    ctx.event('van_loan')
    ctx.true('inputs unchanged', np.array_equal(a, a0) and np.array_equal(b, b0))
    F = np.asarray(F, float)
    W = np.asarray(G @ G.T, float)
    E = expm(F * dt)
    sc = max(1., np.linalg.norm(E, 2), np.linalg.norm(np.linalg.inv(E), 2))
    ctx.close('transition matrix is the matrix exponential', phi, E, 1e-11 * sc)
    want = quadQ(F, W, dt)
    ctx.close('process noise is the integral of the propagated noise', Q, want, 1e-11 * sc ** 2,
              max(np.max(np.abs(want)), np.max(np.abs(W)) * dt, 1e-300))
    ctx.close('process noise symmetric', Q - np.asarray(Q).T, np.zeros_like(want), 1e-11 * sc ** 2, max(np.max(np.abs(want)), 1e-300))
    p2, Q2 = vl(a, b, 2 * dt)
    ctx.event('van_loan')
    s2 = sc ** 4
    ctx.close('two steps compose: transition', p2, E @ E, 1e-10 * s2)
    w2 = E @ want @ E.T + want
    ctx.close('two steps compose: process noise', Q2, w2, 1e-10 * s2, max(np.max(np.abs(w2)), np.max(np.abs(W)) * dt, 1e-300))


def lode(ctx, rng):
    """the general linear differential equation"""
    from filterpy.common import linear_ode_discretation as lo
    F, G, dt, k, g = model(rng)
    n = len(F)
    m = G.shape[1]
    L = None if rng.random() < .3 else G
    if L is None:
        m = n
    Qc = None if m == n and rng.random() < .2 else gen.psd(rng, m)
    if rng.random() < .1:
        dt = 1.
        s = np.linalg.norm(F, 2)
        F = F / max(1., s)
    ctx.describe(n=n, m=m, kind=k, L=L is not None, Q=Qc is not None, dt=round(np.log10(dt)))
    args = [np.array(F), None if L is None else np.array(L), None if Qc is None else np.array(Qc)]
    keep = [None if v is None else v.copy() for v in args]
    kw = {}
    if dt != 1. or rng.random() < .5:
        kw['dt'] = dt
    if L is not None:
        kw['L'] = args[1]
    if Qc is not None:
        kw['Q'] = args[2]
    A, q = lo(args[0], **kw) if rng.random() < .7 else lo(args[0], args[1], args[2], dt)
    ctx.event('linear_ode')
    ctx.true('inputs unchanged', all(x is None or np.array_equal(x, y) for x, y in zip(args, keep)))
    E = expm(F * dt)
    sc = max(1., np.linalg.norm(E, 2), np.linalg.norm(np.linalg.inv(E), 2))
    ctx.close('transition matrix is the matrix exponential', A, E, 1e-11 * sc)
    Lm = np.eye(n) if L is None else L
    W = np.zeros((n, n)) if Qc is None else Lm @ Qc @ Lm.T
    want = quadQ(F, W, dt)
    ctx.close('process noise is the integral of the propagated noise', q, want, 1e-10 * sc ** 2,
              max(np.max(np.abs(want)), np.max(np.abs(W)) * dt, 1e-30))


def white(ctx, rng):
    """ready-made kinematic noise matrices"""
    from filterpy.common import Q_continuous_white_noise as qc, Q_discrete_white_noise as qd
    dim = int(rng.integers(2, 5))
    dt = gen.logu(rng, 1e-3, 1e3) if rng.random() < .7 else [1., 1, 2, .1, 0.][int(rng.integers(0, 5))]
    var = gen.logu(rng, 1e-6, 1e6) if rng.random() < .8 else [1., 0., 3][int(rng.integers(0, 3))]
    bs = int(rng.integers(1, 5))
    obd = bool(rng.random() < .5)
    ctx.describe(dim=dim, bs=bs, obd=obd, dt=round(np.log10(max(dt, 1e-9))))
    d = float(dt)
    U = np.array([d ** (dim - 1 - i) for i in range(dim)])           # natural unit of each entry
    # discrete: constant noise input through the documented gain
    top = 2 if dim == 2 else dim - 1
    g = np.array([d ** (top - i) / factorial(top - i) for i in range(dim)])
    Qd = np.outer(g, g)
    # continuous: integral of white noise in the highest derivative
    Qc = np.zeros((dim, dim))
    for i in range(dim):
        for j in range(dim):
            a, b = dim - 1 - i, dim - 1 - j
            Qc[i, j] = d ** (a + b + 1) / (factorial(a) * factorial(b) * (a + b + 1))
    lay_ = (lambda M: np.kron(np.eye(bs), M)) if obd else (lambda M: np.kron(M, np.eye(bs)))
    kw = {'block_size': bs, 'order_by_dim': obd}
    dflt = bs == 1 and obd and rng.random() < .5
    if dflt:
        kw = {}
    D = qd(dim, dt, var, **kw) if rng.random() < .5 else qd(dim, dt=dt, var=var, **kw)
    C = qc(dim, dt, var, **kw) if rng.random() < .5 else qc(dim, dt=dt, spectral_density=var, **kw)
    ctx.event('white_noise', dim=dim, bs=bs, obd=obd)
    for name, got, M in (('discrete white noise', D, Qd), ('continuous white noise', C, Qc)):
        W = lay_(M * var)
        ctx.shape(name + ': size', got, W.shape)
        nz = W != 0
        ctx.close(name, np.asarray(got)[nz] / W[nz], np.ones(nz.sum()), 1e-12, 1.)
        ctx.close(name + ': zeros elsewhere', np.asarray(got)[~nz], np.zeros((~nz).sum()), 0., 1.)
    if dim and rng.random() < .1:
        n1, n2 = qd(dim), qc(dim)
        ctx.close('default time step and variance: discrete', n1, np.outer(*[[1. / factorial(top - i) for i in range(dim)]] * 2), 1e-14)
        ctx.close('default time step and density: continuous', n2,
                  [[1. / (factorial(dim - 1 - i) * factorial(dim - 1 - j) * (2 * dim - 1 - i - j)) for j in range(dim)]
                   for i in range(dim)], 1e-14)
    # composition over consecutive steps (continuous), and agreement with van Loan
    if d > 0 and var > 0:
        e = d * rng.uniform(.1, 3)
        F = np.array([[e ** (j - i) / factorial(j - i) if j >= i else 0. for j in range(dim)] for i in range(dim)])
        F = lay_(F)
        both = F @ np.asarray(C) @ F.T + np.asarray(qc(dim, e, var, **kw))
        W = lay_(qc(dim, d + e, var))
        nz = W != 0
        ctx.close('continuous white noise composes over steps', both[nz] / W[nz], np.ones(nz.sum()), 1e-10, 1.)


SCENARIOS = [(van_loan, 2000, 30000), (lode, 1800, 25000), (white, 8000, 100000)]
ASSUMPTIONS = ['scipy.linalg.expm is correct (the reference integrates it by quadrature; filterpy uses block exponentials)']
