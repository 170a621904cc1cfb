"""Reference models (oracles).  None of them imports the code under test."""
import math
import numpy as np
import scipy.linalg as sla
from scipy.special import gammaln  # noqa: F401


def sym(P):
    return (P + P.T) / 2


def condition(m, P, H, R, z, M=None):
    """Gaussian conditioning x | z = Hx + v, cov(v)=R, cov(x,v)=M, by the joint
    covariance's Cholesky factor."""
    m, z = np.asarray(m, float).reshape(-1), np.asarray(z, float).reshape(-1)
    C = P @ H.T + (0 if M is None else M)
    S = H @ P @ H.T + R + (0 if M is None else H @ M + M.T @ H.T)
    S = sym(S)
    y = z - H @ m
    L = np.linalg.cholesky(S)
    A = sla.solve_triangular(L, C.T, lower=True)          # L^-1 C^T
    e = sla.solve_triangular(L, y, lower=True)
    x = m + A.T @ e
    Pp = sym(P - A.T @ A)
    ll = -.5 * (e @ e) - np.log(np.diag(L)).sum() - .5 * len(z) * math.log(2 * math.pi)
    K = sla.solve_triangular(L, A, lower=True, trans='T').T
    return dict(x=x, P=Pp, y=y, S=S, K=K, ll=ll, maha=math.sqrt(max(0., e @ e)))


def joint_posterior(steps, x0, P0):
    """steps: list of ('p', F, Q, Bu) and ('u', H, R, z).  Forms the joint
    Gaussian of all states x_0..x_T and conditions on all the measurements at
    once (dense least squares; no recursion).  Returns list of (mean, cov) for
    every state index, given all the measurements."""
    n = len(x0)
    nst = 1 + sum(1 for s in steps if s[0] == 'p')
    # x = A w + b with w = (x0, q_1, ..., q_T)
    N = nst * n
    A = np.zeros((N, N))
    b = np.zeros(N)
    W = np.zeros((N, N))
    A[:n, :n] = np.eye(n)
    b[:n] = x0
    W[:n, :n] = P0
    k = 0
    Hs, zs, Rs = [], [], []
    for s in steps:
        if s[0] == 'p':
            _, F, Q, Bu = s
            r = slice((k + 1) * n, (k + 2) * n)
            p = slice(k * n, (k + 1) * n)
            A[r] = F @ A[p]
            A[r, r] += np.eye(n)
            b[r] = F @ b[p] + Bu
            W[r, r] = Q
            k += 1
        else:
            _, H, R, z = s
            row = np.zeros((H.shape[0], N))
            row[:, k * n:(k + 1) * n] = H
            Hs.append(row)
            zs.append(np.asarray(z, float).reshape(-1))
            Rs.append(R)
    C = A @ W @ A.T
    mean, cov = b, sym(C)
    if Hs:
        H = np.vstack(Hs)
        z = np.concatenate(zs)
        R = sla.block_diag(*Rs)
        S = sym(H @ C @ H.T + R)
        L = np.linalg.cholesky(S)
        G = sla.solve_triangular(L, H @ C, lower=True)
        mean = b + G.T @ sla.solve_triangular(L, z - H @ b, lower=True)
        cov = sym(C - G.T @ G)
    return [(mean[i * n:(i + 1) * n], cov[i * n:(i + 1) * n, i * n:(i + 1) * n])
            for i in range(nst)]


def ls_posterior(steps, x0, P0):
    """same question as joint_posterior (needs invertible P0, Q, R), answered by
    one whitened least-squares problem solved by QR: accurate for long records"""
    n = len(x0)
    nst = 1 + sum(1 for s in steps if s[0] == 'p')
    rows, rhs = [], []

    def add(C, blocks, b):
        W = np.linalg.cholesky(sym(C))
        r = np.zeros((C.shape[0], nst * n))
        for k, B in blocks:
            r[:, k * n:(k + 1) * n] = B
        rows.append(sla.solve_triangular(W, r, lower=True))
        rhs.append(sla.solve_triangular(W, b, lower=True))
    if P0 is not None:                    # None: nothing known before the first measurement
        add(P0, [(0, np.eye(n))], np.asarray(x0, float))
    k = 0
    for s in steps:
        if s[0] == 'p':
            add(s[2], [(k, -s[1]), (k + 1, np.eye(n))], np.zeros(n) + s[3])
            k += 1
        else:
            add(s[2], [(k, s[1])], np.asarray(s[3], float).reshape(-1))
    Qm, Rm = np.linalg.qr(np.vstack(rows))
    x = sla.solve_triangular(Rm, Qm.T @ np.concatenate(rhs))
    Ri = sla.solve_triangular(Rm, np.eye(nst * n))
    return [(x[i * n:(i + 1) * n], Ri[i * n:(i + 1) * n] @ Ri[i * n:(i + 1) * n].T) for i in range(nst)]


def joint_evidence(steps, x0, P0):
    """log density of all the measurements of `steps` (see joint_posterior) at
    once, from their joint Gaussian; returns (log density, number of values)"""
    n = len(x0)
    mean, L = np.array(x0, float), [np.linalg.cholesky(P0)]
    A = [np.eye(n)]                       # x = mean + sum_i A_i L_i w_i
    mus, rows, Rs, zs = [], [], [], []
    for s in steps:
        if s[0] == 'p':
            _, F, Q, Bu = s
            mean = F @ mean + Bu
            A = [F @ a for a in A] + [np.eye(n)]
            w, V = np.linalg.eigh(sym(Q))
            L.append(V * np.sqrt(np.clip(w, 0, None)))
        else:
            _, H, R, z = s
            mus.append(H @ mean)
            rows.append([H @ a @ l for a, l in zip(A, L)])
            Rs.append(R)
            zs.append(np.asarray(z, float).reshape(-1))
    if not zs:
        return 0., 0
    N = n * len(L)
    G = np.vstack([np.hstack(r + [np.zeros((r[0].shape[0], N - n * len(r)))]) for r in rows])
    S = sym(G @ G.T + sla.block_diag(*Rs))
    y = np.concatenate(zs) - np.concatenate(mus)
    if np.linalg.cond(S) > 1e8:
        return None, len(y)               # not decidable in floating point
    return logpdf(y, S), len(y)


class RefKF(object):
    """Gaussian belief propagated by the textbook definitions"""

    def __init__(self, x, P, alpha=1.):
        self.x = np.array(x, float).reshape(-1)
        self.P = np.array(P, float)
        self.alpha = alpha
        self.last = None
        self.mag = float(np.max(np.abs(self.P)))

    def predict(self, F, Q, Bu=0.):
        self.x = F @ self.x + Bu
        self.P = sym(self.alpha ** 2 * F @ self.P @ F.T + Q)

    def update(self, H, R, z, M=None):
        self.last = condition(self.x, self.P, H, R, z, M)
        self.x, self.P = self.last['x'], self.last['P']
        return self.last


def logpdf(y, S):
    y = np.asarray(y, float).reshape(-1)
    L = np.linalg.cholesky(sym(np.atleast_2d(S)))
    e = sla.solve_triangular(L, y, lower=True)
    return -.5 * (e @ e) - np.log(np.diag(L)).sum() - .5 * len(y) * math.log(2 * math.pi)


def gauss_quad_Q(F, G, dt, q=1., order=24):
    """int_0^dt e^{Fs} G q G^T e^{F^T s} ds by Gauss-Legendre quadrature"""
    t, w = np.polynomial.legendre.leggauss(order)
    t = (t + 1) * dt / 2
    w = w * dt / 2
    acc = 0.
    for ti, wi in zip(t, w):
        E = sla.expm(F * ti) @ G
        acc = acc + wi * E @ E.T * q
    return acc
