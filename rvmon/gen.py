"""Workload generation: diverse linear-Gaussian systems, argument layouts,
histories.  Sizes and values are also drawn from the literals that occur in the
source of the code under test, so that thresholds written there get exercised."""
import ast
import glob
import os
import numpy as np
from .core import REPO

_lit = None


def literals():
    global _lit
    if _lit is None:
        ints, floats = set(), set()
        for p in glob.glob(os.path.join(REPO, 'filterpy', '**', '*.py'), recursive=True):
            if '/tests/' in p or '/examples/' in p:
                continue
            try:
                with open(p) as f:
                    t = ast.parse(f.read())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, bool):
                        continue
                    if isinstance(n.value, int):
                        ints.add(n.value)
                    elif isinstance(n.value, float):
                        floats.add(n.value)
        _lit = (sorted(ints), sorted(floats))
    return _lit


def lit_int(rng, lo, hi):
    """an int literal of the code under test (+-1) within [lo, hi], or None"""
    c = [i + d for i in literals()[0] for d in (-1, 0, 1, 2) if lo <= i + d <= hi]
    return int(c[rng.integers(len(c))]) if c else None


def length(rng, lo=1, hi=12, long=60, p_long=0.15):
    """history length: short, sometimes long, sometimes next to a source literal"""
    r = rng.random()
    if r < 0.08:
        k = lit_int(rng, lo, max(long, hi))
        if k is not None:
            return k
    if r > 0.985:
        return int(rng.integers(long, 2 * long + 1))
    if r < 0.08 + p_long:
        return int(rng.integers(hi, max(long, hi + 1)))
    return int(rng.integers(lo, hi + 1))


def dtv(rng, lo=.05, hi=1.):
    """a time step: usually positive, now and then zero, negative or a whole number"""
    r = rng.random()
    if r < .06:
        return [0., 0, np.float64(0)][rng.integers(3)]
    if r < .1:
        return -float(rng.uniform(lo, hi))
    if r < .14:
        return 1
    return float(rng.uniform(lo, hi))


def far(rng, n, lo=100, hi=300, p=.012):
    """now and then a record much longer than n"""
    return int(rng.integers(lo, hi + 1)) if rng.random() < p else n


def dim(rng, hi=6):
    r = rng.random()
    if r < 0.03:
        return int(rng.integers(hi, hi + 7))
    return int(rng.integers(1, hi + 1))


def mdim(rng, hi=4):
    """number of measurements"""
    if rng.random() < .04:
        return int(rng.integers(hi + 1, hi + 5))
    return int(rng.integers(1, hi + 1))


def logu(rng, lo, hi):
    return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def spd(rng, n, lo=0.1, hi=10., kind=None):
    """symmetric positive definite with eigenvalues in [lo, hi]"""
    kind = kind or rng.choice(['dense', 'dense', 'diag', 'iso', 'sparse', 'corr'])
    if kind == 'iso':
        return np.eye(n) * logu(rng, lo, hi)
    ev = np.array([logu(rng, lo, hi) for _ in range(n)])
    if kind == 'diag' or n == 1:
        return np.diag(ev)
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    if kind == 'corr':
        c = 1. if lo <= 1. <= hi and rng.random() < .7 else logu(rng, lo, hi)
        q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        m = (q * rng.uniform(.1, 2., n)) @ q.T
        d = np.sqrt(np.diag(m))
        m = c * m / np.outer(d, d)
        m = (m + m.T) / 2
        np.fill_diagonal(m, c)
        return m
    if kind == 'sparse':
        q = np.eye(n)
        i, j = rng.permutation(n)[:2]
        c, s = np.cos(1.1), np.sin(1.1)
        q[i, i] = q[j, j] = c
        q[i, j] = s
        q[j, i] = -s
    m = (q * ev) @ q.T
    return (m + m.T) / 2


def recorr(rng, M):
    """other correlations, the same variances"""
    d = np.sqrt(np.diag(M))
    m = spd(rng, len(d), .5, 2., 'corr')
    m = m / m[0, 0] * np.outer(d, d)
    np.fill_diagonal(m, np.diag(M))
    return m


def psd(rng, n, hi=3.):
    """positive semi-definite, maybe singular or zero"""
    r = rng.random()
    if r < 0.15:
        return np.zeros((n, n))
    if r < 0.4:
        g = rng.standard_normal((n, max(1, n // 2)))
        m = g @ g.T * logu(rng, .01, hi)
        return (m + m.T) / 2
    return spd(rng, n, .001, hi)


def trans(rng, n):
    """asymmetric state transition with bounded growth"""
    k = rng.choice(['kin', 'rand', 'rand', 'rand', 'rot', 'tri', 'eye'])
    if k == 'kin':
        dt = rng.uniform(.05, 1.5)
        F = np.eye(n)
        for i in range(n):
            f = 1.
            for j in range(i + 1, n):
                f *= dt / (j - i)
                F[i, j] = f
        return F
    if k == 'eye':
        return np.eye(n)
    if k == 'rot':
        q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        return q
    F = rng.standard_normal((n, n))
    if k == 'tri':
        F = np.triu(F)
        np.fill_diagonal(F, rng.uniform(.5, 1.1, n) * rng.choice([1, 1, 1, -1], n))
        return F
    s = np.linalg.norm(F, 2)
    return F / s * rng.uniform(.6, 1.1)


def meas(rng, m, n):
    k = rng.choice(['sel', 'rand', 'rand'])
    if k == 'sel' and m <= n:
        H = np.zeros((m, n))
        for i, j in enumerate(rng.permutation(n)[:m]):
            H[i, j] = rng.choice([1., 1., 2., -.5])
        return H
    return rng.standard_normal((m, n))


def col(v):
    return np.asarray(v, float).reshape(-1, 1)


Z_FORMS = ('col', '1d', 'list', 'row', 'tuple', 'nested')


def zform(rng, z, allow=None):
    """one of the layouts documented as acceptable for a measurement vector z.
    A row / nested list of a length-m vector is only unambiguous, as all are."""
    z = np.asarray(z)
    if z.dtype.kind != 'i':
        z = z.astype(float)
    z = z.reshape(-1)
    m = len(z)
    forms = list(allow or Z_FORMS)
    if m == 1 and allow is None:
        forms += ['scalar', '0d', 'np64']
    f = forms[rng.integers(len(forms))]
    return f, {'col': lambda: z.reshape(-1, 1).copy(), '1d': z.copy,
               'list': z.tolist, 'row': lambda: z.reshape(1, -1).copy(),
               'tuple': lambda: tuple(z.tolist()),
               'nested': lambda: [[v] for v in z.tolist()],
               'scalar': lambda: z[0].item(), '0d': lambda: np.array(z[0]),
               'np64': lambda: z[0]}[f]()


def whole(rng, z, p=.12):
    """now and then a measurement made of whole numbers"""
    return np.round(z) if rng.random() < p else z


def zarg(rng, z, ndim, p=.3, scalar=True):
    """measurement vector in the layout of the state (1-D or column), as the various
    kinds of array_like: float or integer array, list, tuple, strided view"""
    z = np.array(z, float).reshape(-1)
    a = z if ndim == 1 else z.reshape(-1, 1)
    if rng.random() > p:
        return a.copy()
    if np.array_equal(z, np.round(z)) and np.max(np.abs(z)) < 1e9 and rng.random() < .7:
        a = a.astype(int)
    k = int(rng.integers(0, 5))
    if k == 4 and len(z) == 1 and scalar:
        return a.reshape(-1)[0].item()
    if k == 0:
        return a.tolist()
    if k == 1:
        return tuple(a.tolist()) if ndim == 1 else tuple(tuple(v) for v in a.tolist())
    if k == 2:
        b = np.full((2 * len(a),) + a.shape[1:], 7, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    return a.copy()


def call(rng, fn, order, kw, first=(), defaults={}, p=.3):
    """the same call, its optional arguments given by name or (now and then) by position"""
    here = [k for k in order if k in kw]
    if not here or rng.random() > p:
        return fn(*first, **kw)
    lead = order[:order.index(here[-1]) + 1]
    return fn(*first, *[kw.get(k, defaults.get(k)) for k in lead], **{k: v for k, v in kw.items() if k not in lead})


def _ispd(rng, n):
    m = np.diag(rng.integers(1, 5, n)) + int(rng.integers(0, 2))
    return m.astype(int)


def _itrans(rng, n):
    F = np.eye(n, dtype=int)
    if rng.random() < .7:
        i = np.arange(n - 1)
        F[i, i + 1] = 1
    return F


def _imeas(rng, m, n):
    H = rng.integers(-1, 2, (m, n))
    for i in range(m):
        if not H[i].any():
            H[i, rng.integers(0, n)] = 1
    return H


class LinSys(object):
    """random linear-Gaussian system with a simulated trajectory"""

    def __init__(self, rng, n=None, m=None, du=None, scale=None, qsing=True):
        self.rng = rng
        self.n = n or dim(rng)
        self.m = m or mdim(rng)
        self.du = int(rng.integers(0, 4)) if du is None else du
        s = self.s = scale or (logu(rng, 1e-3, 1e3) if rng.random() < .3 else 1.)
        self.x0 = rng.standard_normal(self.n) * s * rng.choice([0.2, 3.])
        self.P0 = spd(rng, self.n) * s * s
        self.F = trans(rng, self.n)
        self.Q = (psd(rng, self.n) if qsing else spd(rng, self.n, .01, 3.)) * s * s
        self.H = meas(rng, self.m, self.n)
        self.R = spd(rng, self.m, .1, 5.) * s * s
        self.B = rng.standard_normal((self.n, self.du)) if self.du else None
        self.truth = self.x0 + np.linalg.cholesky(self.P0) @ rng.standard_normal(self.n)
        # round numbers, as users type them
        self.grid = s * float(rng.choice([.5, 1.])) if rng.random() < .1 else 0.
        if self.grid:
            self.x0 = self._round(self.x0)
        elif rng.random() < .05:
            self.x0 = np.zeros(self.n)
        # integer matrices, as users type them
        self.ints = s == 1. and rng.random() < .06
        if self.ints:
            self.grid = 1.
            self.x0 = np.round(self.x0).astype(int)
            self.P0 = _ispd(rng, self.n)
            self.F, self.Q, self.H, self.R = _itrans(rng, self.n), _ispd(rng, self.n), _imeas(rng, self.m, self.n), _ispd(rng, self.m)
            if self.du:
                self.B = rng.integers(-2, 3, (self.n, self.du))
            self.truth = self.x0 * 1.

    def _round(self, v):
        return np.round(v / self.grid) * self.grid + 0. if self.grid else v

    def newF(self):
        if self.ints:
            return _itrans(self.rng, self.n)
        return trans(self.rng, self.n)

    def newQ(self):
        if self.ints:
            return _ispd(self.rng, self.n)
        if self.rng.random() < .2:
            return recorr(self.rng, self.Q)
        return psd(self.rng, self.n) * self.s ** 2

    def newH(self, m=None):
        if self.ints:
            return _imeas(self.rng, m or self.m, self.n)
        return meas(self.rng, m or self.m, self.n)

    def newR(self, m=None):
        if self.ints:
            return _ispd(self.rng, m or self.m)
        if len(self.R) == (m or self.m) and self.rng.random() < .2:
            return recorr(self.rng, self.R)
        return spd(self.rng, m or self.m, .1, 5.) * self.s ** 2

    def newB(self):
        if self.ints:
            return self.rng.integers(-2, 3, (self.n, self.du))
        return self.rng.standard_normal((self.n, self.du))

    def newu(self):
        u = self._round(self.rng.standard_normal(self.du) * self.s)
        r = self.rng.random()
        if r < .05:
            u[:] = 0.
        elif r < .12:
            u[self.rng.integers(0, self.du)] = 0.
        return u

    def step(self, F=None, Bu=0.):
        F = self.F if F is None else F
        self.truth = F @ self.truth + Bu + self.rng.standard_normal(self.n) * .3 * self.s
        # keep the simulated truth bounded; only its role as a source of z matters
        t = np.linalg.norm(self.truth)
        if t > 100 * self.s:
            self.truth *= 100 * self.s / t

    def z(self, H=None, R=None, outlier=True):
        H = self.H if H is None else H
        z = H @ self.truth + self.rng.standard_normal(H.shape[0]) * .7 * self.s
        if outlier and self.rng.random() < .05:
            z = z + self.rng.standard_normal(H.shape[0]) * 10 * self.s
        r = self.rng.random()
        if r < .02:
            z = np.zeros(H.shape[0])
        elif r < .04:
            z[self.rng.integers(0, len(z))] = 0.
        z = self._round(z)
        return z.astype(int) if self.ints and self.rng.random() < .5 else z


def trans_inv(rng, n, cond=40.):
    """well-conditioned invertible transition"""
    for _ in range(50):
        F = trans(rng, n)
        if np.linalg.cond(F) < cond:
            return F
    return np.linalg.qr(rng.standard_normal((n, n)))[0]


class WellSys(LinSys):
    """LinSys with invertible transitions and full-rank process noise (what the
    square-root, information and sigma-point filters need)"""

    def __init__(self, rng, n=None, m=None, du=None, scale=None):
        LinSys.__init__(self, rng, n, m, du, scale, qsing=False)
        if not self.ints:
            self.F = trans_inv(rng, self.n)

    def newF(self):
        if self.ints:
            return _itrans(self.rng, self.n)
        return trans_inv(self.rng, self.n)

    def newQ(self):
        if self.ints:
            return _ispd(self.rng, self.n)
        if self.rng.random() < .2:
            return recorr(self.rng, self.Q)
        return spd(self.rng, self.n, .01, 3.) * self.s ** 2
