"""C39: equal numbers give equal results, however they are stored"""
import copy
import random
import numpy as np
from .. import gen, world
from ..gen import col
from .c31 import seeds
from .c36 import visible, sane

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'fixed_lag_smoother', 'IMM', 'mmae', 'sigma_points', 'unscented_transform')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py', 'filterpy/common/discretization.py', 'filterpy/common/kinematic.py',
    'filterpy/stats/stats.py', 'filterpy/discrete_bayes/discrete_bayes.py', 'filterpy/monte_carlo/resampling.py']
RULE = ('The same history, and the same function call, twice with equal numbers: once as plain arrays of doubles, once as integers, single '
        'precision, other byte order, Fortran order, strided, reversed, misaligned or read-only arrays, lists or other scalar types; the '
        'estimates and returned values must agree.')

SPD = ('P', 'Q', 'R', 'Rs', 'R_inv', 'P_inv', 'R_i', 'W', 'V', 'initial P')
AS_IS = ('mu', 'M', 'p', 'Xs', 'Ps', 'Qs', 'args', 'fx_args', 'hx_args')


def whole(v, label):
    """the whole numbers standing for v"""
    if isinstance(v, list):
        return [whole(i, label) for i in v]
    if v is None or label in AS_IS or not isinstance(v, np.ndarray):
        return v
    v = np.asarray(v, float)
    if label in SPD and v.ndim == 2 and v.shape[0] == v.shape[1]:
        d = np.round(v * 2)
        d = d - np.diag(np.diag(d))
        return d + np.diag(np.round(np.abs(np.diag(v)) * 2) + 1 + np.sum(np.abs(d), axis=1))
    if label == 'R2':
        return np.tril(np.round(v * 2), -1) + np.diag(np.round(np.abs(np.diag(v)) * 2) + 1)
    if label == 'F' and v.ndim == 2:
        return np.eye(len(v)) + np.triu(np.round(v), 1)
    if label == 'Fs':
        return np.eye(len(v)) + np.triu(np.round(v), 1)
    return np.round(v * 2) + 0.


def strided(v):
    b = np.full(tuple(2 * k + 1 for k in v.shape), 7.7, v.dtype) if v.dtype.kind == 'f' else np.full(tuple(2 * k + 1 for k in v.shape), 7, v.dtype)
    w = b[tuple(slice(0, 2 * k, 2) for k in v.shape)]
    w[...] = v
    return w


def reverse(v):
    return np.ascontiguousarray(v[tuple(slice(None, None, -1) for _ in v.shape)])[tuple(slice(None, None, -1) for _ in v.shape)]


def misaligned(v):
    b = np.zeros(v.nbytes + 1, np.uint8)
    w = b[1:1 + v.nbytes].view(v.dtype).reshape(v.shape)
    w[...] = v
    return w


def frozen(v):
    v = v.copy()
    v.flags.writeable = False
    return v


LAYOUT = {'fortran': np.asfortranarray, 'strided': strided, 'reversed': reverse, 'bigendian': lambda v: v.astype('>f8'),
          'misaligned': misaligned, 'readonly': frozen, 'transposed twice': lambda v: np.ascontiguousarray(v.T).T,
          'window': lambda v: np.broadcast_to(v, (2,) + v.shape)[1].copy()}
INTS = {'int64': np.int64, 'int32': np.int32, 'int16': np.int16, 'big int': '>i4'}


class Form(world.Handed):
    """hands the library its numbers in some representation"""

    def __init__(self, ints, rng=None, kinds=None, owned=()):
        world.Handed.__init__(self)
        self.ints, self.rng, self.kinds, self.owned = ints, rng, kinds, owned

    def __call__(self, v, label='argument'):
        if self.ints:
            v = whole(v, label)
        if self.rng is not None and label not in ('args', 'fx_args', 'hx_args'):
            v = self.form(v, label)
        return v

    def form(self, v, label):
        if isinstance(v, list) and v and isinstance(v[0], np.ndarray):
            return [self.form(i, label) for i in v]
        if not isinstance(v, np.ndarray):
            return v
        k = self.kinds[int(self.rng.integers(0, len(self.kinds)))]
        if k in LAYOUT:
            if k == 'readonly' and label in self.owned:
                return v
            return LAYOUT[k](v)
        if label in AS_IS:
            return v
        if k == 'float32':
            return v.astype(np.float32)
        if k == 'unsigned':
            if label in ('z', 'zs', 'data') and np.all(v >= 0):
                return v.astype([np.uint8, np.uint16, np.uint64][int(self.rng.integers(0, 3))])
            return v.astype(int)
        if k == 'mixed':
            return [v, v.astype(int), v.astype(np.int32)][int(self.rng.integers(0, 3))]
        return v.astype(INTS[k])


def leaves(v):
    if v is None or isinstance(v, str):
        return []
    if isinstance(v, dict):
        return [p for k in sorted(v) for p in leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [p for i in v for p in leaves(i)]
    return [np.asarray(v)]


def compare(ctx, what, a, b, tol, detail):
    a, b = leaves(a), leaves(b)
    ctx.true(what + ': as many results', len(a) == len(b), detail)
    for p, q in zip(a, b):
        if p.dtype == object:
            continue
        p, q = p.astype(float), q.astype(float)
        ctx.true(what + ': same shape', p.shape == q.shape, lambda: '%s: %s and %s' % (detail, p.shape, q.shape))
        if not np.all(np.isfinite(p)):
            continue
        ctx.close(what, q, p, tol, 1 + np.max(np.abs(p), initial=0.))


def pair(ctx, rng, W, ints, kinds, tol):
    sb = seeds(rng, 1)[0]
    owned = ('x0', 'data') if W.cls in ('GHFilterOrder', 'FadingMemoryFilter') else ()
    def make(g):
        w = W(np.random.default_rng(sb), g)
        return w
    fr = np.random.default_rng(sb + 7)
    w = make(Form(ints))
    v = make(Form(ints, fr, kinds, owned))
    ctx.event('build', cls=W.cls)
    T = int(rng.integers(1, 8))
    what = 'estimate'
    for s in seeds(rng, T):
        try:
            with np.errstate(all='ignore'):
                a = w.act(np.random.default_rng(s))
        except (np.linalg.LinAlgError, ValueError):
            if not ints:
                raise
            return                                   # rounded numbers need not make a sensible problem
        if not good(w):
            return
        a = copy.deepcopy(a)
        b = v.act(np.random.default_rng(s))
        ctx.event('operate', cls=W.cls)
        compare(ctx, 'returned values', a, b, tol, W.cls)
        compare(ctx, what, state_of(w), state_of(v), tol, W.cls)


from .c36 import STATE, BANKS                         # noqa
KNOWN = set(STATE) | set(BANKS)


def state_of(w):
    if w.cls in KNOWN:
        return visible(w)
    return {'x': np.array(w.obj.x, float), 'smooth': np.array(w.obj.xSmooth, float)}


def good(w):
    for k, v in state_of(w).items():
        if not np.all(np.isfinite(v)) or v.size and np.max(np.abs(v)) > 1e5:
            return False
        if k[0] == 'P' and v.ndim == 2 and v.shape[0] == v.shape[1] and v.size:
            e = np.linalg.eigvalsh((v + v.T) / 2)
            if e[0] < 1e-4 * max(e[-1], 1e-300):
                return False
    return True


def layout(ctx, rng):
    """other memory layouts of the same doubles"""
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    kinds = [str(k) for k in rng.choice(sorted(LAYOUT), int(rng.integers(1, 4)), replace=False)]
    ctx.describe(cls=W.cls, kinds=sorted(kinds))
    pair(ctx, rng, W, False, kinds, 1e-7)


def integers(ctx, rng):
    """whole numbers as integers"""
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    k = str(rng.choice(sorted(INTS) + ['mixed', 'mixed', 'unsigned']))
    ctx.describe(cls=W.cls, kinds=k)
    pair(ctx, rng, W, True, [k], 2e-2 if k == 'int16' else 1e-7)      # scipy computes with short integers in single precision


def single(ctx, rng):
    """whole numbers in single precision"""
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    ctx.describe(cls=W.cls)
    pair(ctx, rng, W, True, ['float32'], 2e-2)


def conv(v, rng, kinds, scal):
    """v in another representation; tuples mark lists of arrays"""
    if isinstance(v, tuple):
        return [conv(i, rng, kinds, scal) for i in v]
    if isinstance(v, np.ndarray):
        if not np.all(v == np.round(v)):
            k = str(rng.choice([k for k in kinds if k in LAYOUT] or ['fortran']))
            return LAYOUT[k](v)
        k = kinds[int(rng.integers(0, len(kinds)))]
        return LAYOUT[k](v) if k in LAYOUT else v.astype(np.float32) if k == 'float32' else v.astype(INTS[k])
    if isinstance(v, float) and not isinstance(v, np.floating):
        if v != np.round(v):
            return np.float64(v)
        return [int, np.int64, np.int32, np.float64, np.float32][scal % 5](v)
    return v


def base(v):
    return [base(i) for i in v] if isinstance(v, tuple) else v.copy() if isinstance(v, np.ndarray) else v


def functions(ctx, rng):
    """library functions and constructors"""
    import filterpy.kalman as fk
    import filterpy.common as fc
    import filterpy.stats as st
    import filterpy.gh as gh
    import filterpy.monte_carlo as mc
    import filterpy.discrete_bayes as db
    from filterpy.leastsq import LeastSquaresFilter
    from filterpy.memory import FadingMemoryFilter
    n, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(2, 5))
    k4, bs, od = int(rng.integers(2, 5)), int(rng.integers(1, 3)), bool(rng.random() < .5)
    o = int(rng.integers(0, 3))
    off, mode = int(rng.integers(-3, 4)), str(rng.choice(['wrap', 'constant']))
    I = lambda *k: np.round(rng.standard_normal(k) * 2) + 0.                             # noqa
    spd = lambda k: np.asarray(gen._ispd(rng, k), float)                                 # noqa
    F = lambda: np.asarray(gen._itrans(rng, n), float)                                   # noqa
    pos = lambda hi=5: float(rng.integers(1, hi))                                        # noqa
    num = lambda: float(rng.integers(-4, 5))                                             # noqa
    B = I(n, 1)
    H = np.asarray(gen._imeas(rng, m, n), float)
    x, P = I(n, 1), spd(n)
    pts = [lambda: (fk.MerweScaledSigmaPoints, (n, 1., 2., 0.)), lambda: (fk.JulierSigmaPoints, (n, 1.)),
           lambda: (fk.SimplexSigmaPoints, (n, 1.))][int(rng.integers(0, 3))]()
    def sigma(a, xx, PP):
        p = pts[0](n, *a)
        return p.sigma_points(xx, PP), p.Wm, p.Wc
    sg = I(5, n)
    w = np.array([.5, .125, .125, .125, .125])
    hot = np.zeros(6)
    hot[int(rng.integers(0, 6))] = 1.
    def seeded(f):
        def g(*a):
            np.random.seed(5)
            random.seed(5)
            return f(*a)
        return g
    def run(make, *zs):
        def g(a, z):
            f = make(*a)
            for v in z:
                f.update(v)
            return f.x
        return g
    def kf_scalars(q, r, a, z):
        k = fk.KalmanFilter(n, 1)
        k.x, k.P, k.F, k.H = I0.copy(), P.copy(), F0, np.eye(1, n)
        k.Q, k.R, k.alpha = q, r, a
        k.predict(Q=q)
        k.update(z, R=r)
        k.predict()
        k.update(z)
        return k.x, k.P, k.log_likelihood
    I0, F0 = I(n, 1), F()
    def kinds_of(cls):
        def g(q, r, z):
            fx, hx = (lambda s, dt: F0 @ s), (lambda s: s[:1])
            if cls == 'ukf':
                k = fk.UnscentedKalmanFilter(n, 1, 1., hx, fx, fk.JulierSigmaPoints(n, 1.))
            elif cls == 'ckf':
                k = fk.CubatureKalmanFilter(n, 1, 1., hx, fx)
            else:
                np.random.seed(3)
                k = fk.EnsembleKalmanFilter(np.ravel(I0), P, 1, 1., 6, hx, fx)
                k.R, k.Q = np.eye(1) * r, np.eye(n) * q
            if cls != 'enkf':
                k.x = np.ravel(I0).copy()
                k.P = P.copy()
                k.Q = np.eye(n) * q
                k.R = np.eye(1) * r
            np.random.seed(4)
            k.predict()
            k.update(np.array([z]), R=r)
            return k.x, k.P
        return g
    def bank(kind):
        def g(pr, M, z):
            fs = []
            for i in range(2):
                k = fk.KalmanFilter(n, 1)
                k.x, k.P, k.F, k.H, k.Q = I0.copy(), P.copy(), F0, np.eye(1, n), np.eye(n) * (1 + 3 * i)
                fs.append(k)
            b = fk.IMMEstimator(fs, pr, M) if kind == 'imm' else fk.MMAEFilterBank(fs, pr, n, np.eye(1, n))
            out = []
            for _ in range(3):
                b.predict()
                b.update(z)
                out.append((b.x.copy(), b.P.copy(), np.array(b.mu if kind == 'imm' else b.p)))
            return out
        return g
    table = [
        ('predict', fk.predict, (x, P, F(), spd(n), I(1, 1), B)),
        ('predict scalars', fk.predict, (num(), pos(), pos(), pos(), num(), num(), 1.)),
        ('update', fk.update, (x, P, I(m, 1), spd(m), H)),
        ('update scalars', fk.update, (num(), pos(), num(), pos(), pos())),
        ('update all', lambda *a: fk.update(*a, return_all=True), (x, P, I(m, 1), spd(m), H)),
        ('predict steady', fk.predict_steadystate, (x, F(), I(1, 1), B)),
        ('update steady', fk.update_steadystate, (x, I(m, 1), I(n, m), H)),
        ('batch', fk.batch_filter, (x, P, tuple(I(m, 1) for _ in range(T)), (F0,) * T, (spd(n),) * T, (H,) * T, (spd(m),) * T)),
        ('rts', fk.rts_smoother, (I(T, n, 1), np.array([spd(n) for _ in range(T)]), (F0,) * T, (spd(n),) * T)),
        ('rts flat', fk.rts_smoother, (I(T, n), np.array([spd(n) for _ in range(T)]), (F0,) * T, (spd(n),) * T)),
        ('kf rts', lambda X, C, f, q: _rts(fk, n, X, C, f, q), (I(T, n, 1), np.array([spd(n) for _ in range(T)]), (F0,) * T, (spd(n),) * T)),
        ('ukf rts', lambda X, C, q: _ukfrts(fk, n, F0, X, C, q), (I(T, n), np.array([spd(n) for _ in range(T)]), np.array([spd(n)] * T))),
        ('kf scalars', kf_scalars, (pos(), pos(), float(rng.integers(1, 3)), num())),
        ('ukf scalars', kinds_of('ukf'), (pos(), pos(), num())),
        ('ckf scalars', kinds_of('ckf'), (pos(), pos(), num())),
        ('enkf scalars', kinds_of('enkf'), (pos(), pos(), num())),
        ('imm', bank('imm'), (np.array([1., 0.]), np.array([[.5, .5], [.25, .75]]), num())),
        ('mmae', bank('mmae'), (np.array([1., 0.]) if rng.random() < .5 else np.array([.5, .5]), 0., num())),
        ('sigma', lambda *a: sigma(a[:-2], *a[-2:]), pts[1][1:] + (np.ravel(x), P)),
        ('sigma scalar P', lambda *a: sigma(a[:-2], *a[-2:]), pts[1][1:] + (np.ravel(x), pos())),
        ('ut', fk.unscented_transform, (sg, w, w, spd(n))),
        ('ut callbacks', lambda s, a, b, q: fk.unscented_transform(s, a, b, q, lambda v, u: np.dot(u, v), np.subtract), (sg, w, w, spd(n))),
        ('ut whole weights', fk.unscented_transform, (I(3, n), np.array([1., 0., 0.]), np.array([2., 1., 1.]), spd(n))),
        ('radial', fk.spherical_radial_sigmas, (x, P)),
        ('ckf transform', fk.ckf_transform, (I(2 * n, n), spd(n))),
        ('rk4', lambda *a: fc.runge_kutta4(*a, lambda y, t: t - y), (num(), num(), 1.)),
        ('rk4 vector', lambda *a: fc.runge_kutta4(*a, lambda y, t: t - y), (I(n), num(), 2.)),
        ('inv_diagonal', fc.inv_diagonal, (np.diag(rng.integers(1, 9, n) + 0.),)),
        ('outer', fc.outer_product_sum, (I(4, n), I(4, m))),
        ('outer self', fc.outer_product_sum, (I(4, n),)),
        ('reshape_z', lambda z: fc.reshape_z(z, m, 2), (I(m),)),
        ('van loan', fc.van_loan_discretization, (F() - np.eye(n), I(n, 1), pos(4))),
        ('ode', fc.linear_ode_discretation, (F() - np.eye(n), np.eye(n), spd(n), pos(4))),
        ('q discrete', lambda d, v: fc.Q_discrete_white_noise(k4, d, v, bs, od), (pos(), pos())),
        ('q continuous', lambda d, v: fc.Q_continuous_white_noise(k4, d, v, bs, od), (pos(), pos())),
        ('by derivative', lambda q: fc.order_by_derivative(q, 2, 2), (I(2, 2),)),
        ('transition', lambda d: fc.kinematic_state_transition(k4, d), (pos(),)),
        ('kinematic', lambda d: fc.kinematic_kf(2, k4, d, order_by_dim=od).F, (pos(),)),
        ('mahalanobis', st.mahalanobis, (I(n), I(n), spd(n))),
        ('mahalanobis scalar', st.mahalanobis, (num(), num(), pos())),
        ('logpdf', st.logpdf, (I(n), I(n), spd(n))),
        ('logpdf scalar', st.logpdf, (num(), num(), pos())),
        ('log_likelihood', st.log_likelihood, (I(m, 1), x, P, H, spd(m))),
        ('likelihood', st.likelihood, (I(m, 1), x, P, H, spd(m))),
        ('gaussian', st.gaussian, (num(), num(), pos())),
        ('gaussian array', st.gaussian, (I(4), num(), pos())),
        ('gaussian plain', lambda *a: st.gaussian(*a, normed=False), (I(4), num(), pos())),
        ('mul', st.mul, (num(), pos(), num(), pos())),
        ('mul_pdf', st.mul_pdf, (num(), pos(), num(), pos())),
        ('add', st.add, (num(), pos(), num(), pos())),
        ('multivariate_gaussian', st.multivariate_gaussian, (I(n), I(n), spd(n))),
        ('multivariate_gaussian scalar', st.multivariate_gaussian, (num(), num(), pos())),
        ('multivariate_gaussian iso', st.multivariate_gaussian, (I(n), I(n), pos())),
        ('multiply', st.multivariate_multiply, (I(n), spd(n), I(n), spd(n))),
        ('ellipse', lambda c: [abs(q) for q in st.covariance_ellipse(c)[1:]], (spd(2),)),
        ('ellipse deviations', lambda c, d: [abs(q) for q in st.covariance_ellipse(c, d)[1:]], (spd(2), pos())),
        ('nees', st.NEES, (I(T, n), I(T, n), np.array([spd(n) for _ in range(T)]))),
        ('norm_cdf', lambda a, b, c, d: st.norm_cdf((a, b), c, d), (-pos(), pos(), num(), pos())),
        ('norm_cdf std', lambda a, b, c, d: st.norm_cdf((a, b), c, std=d), (-pos(), pos(), num(), pos())),
        ('student', seeded(st.rand_student_t), (pos(9), num(), pos())),
        ('bayes update', lambda l: db.update(l, hot * .5 + .25), (I(6) ** 2 + 1,)),
        ('bayes predict', lambda p: db.predict(p, off, np.array([.25, .5, .25]), mode=mode), (hot,)),
        ('bayes kernel', lambda p, k: db.predict(p, off, k, mode=mode), (hot, np.array([0., 1., 0.]))),
        ('residual', seeded(mc.residual_resample), (hot,)),
        ('stratified', seeded(mc.stratified_resample), (hot,)),
        ('systematic', seeded(mc.systematic_resample), (hot,)),
        ('multinomial', seeded(mc.multinomial_resample), (hot,)),
        ('gh', run(lambda *a: gh.GHFilter(*a)), ((num(), num(), pos(), 1., 1.), tuple(num() for _ in range(T)))),
        ('gh vector', run(lambda *a: gh.GHFilter(*a)), ((I(n), I(n), pos(), .5, .25), tuple(I(n) for _ in range(T)))),
        ('ghk', run(lambda *a: gh.GHKFilter(*a)), ((num(), num(), num(), pos(), 1., 1., 1.), tuple(num() for _ in range(T)))),
        ('ghk vector', run(lambda *a: gh.GHKFilter(*a)), ((I(n), I(n), I(n), pos(), .5, .25, .125), tuple(I(n) for _ in range(T)))),
        ('gh batch', lambda z, d: gh.GHFilter(0, 0, d, .5, .25).batch_filter(z), (I(T), pos())),
        ('ghk batch', lambda z, d: gh.GHKFilter(0, 0, 0, d, .5, .25, .125).batch_filter(z), (I(T), pos())),
        ('gh order', run(lambda x0, d: gh.GHFilterOrder(x0, d, o, .5, .25, .125)), ((I(o + 1), pos()), tuple(num() for _ in range(T)))),
        ('gh order scalar', run(lambda x0, d: gh.GHFilterOrder(x0, d, o, .5, .25, .125)), ((num(), pos()), tuple(num() for _ in range(T)))),
        ('memory', run(lambda x0, d: FadingMemoryFilter(x0, d, o, .5)), ((I(o + 1), pos()), tuple(num() for _ in range(T)))),
        ('memory scalar', run(lambda x0, d: FadingMemoryFilter(x0, d, o, .5)), ((num(), pos()), tuple(num() for _ in range(T)))),
        ('least squares', run(lambda d, s: LeastSquaresFilter(d, o, s)), ((pos(), pos()), tuple(num() for _ in range(T)))),
        ('ls errors', lambda d, s: _lserr(LeastSquaresFilter(d, o, s), T), (pos(), pos())),
        ('ls parameters', gh.least_squares_parameters, (pos(9),)),
        ('damping', gh.critical_damping_parameters, (float(rng.integers(0, 2)),)),
        ('benedict', gh.benedict_bornder_constants, (1.,)),
    ]
    ctx.describe(n=n, m=m, T=T, o=o)
    names = sorted(LAYOUT) + sorted(INTS)
    for k in rng.permutation(len(table))[:20]:
        name, f, args = table[k]
        if rng.random() < .2:
            kinds, tol = ['float32'], 1e-4
        else:
            kinds, tol = [names[int(rng.integers(0, len(names)))] for _ in range(2)], 1e-9
        if 'int16' in kinds:
            tol = 1e-4
        sc = int(rng.integers(0, 1000))
        if tol < 1e-6 and sc % 5 == 4:
            sc += 1
        want = f(*[base(a) for a in args])
        got = f(*[conv(a, rng, kinds, sc) for a in args])
        ctx.event(name)
        compare(ctx, name, want, got, tol, name)


def _rts(fk, n, X, C, f, q):
    k = fk.KalmanFilter(n, 1)
    return k.rts_smoother(X, C, f, q)


def _ukfrts(fk, n, F0, X, C, q):
    k = fk.UnscentedKalmanFilter(n, 1, 1., lambda s: s[:1], lambda s, dt: F0 @ s, fk.JulierSigmaPoints(n, 1.))
    return k.rts_smoother(X, C, q)


def _lserr(f, T):
    for _ in range(T + 2):
        f.update(1.)
    return f.errors()


SCENARIOS = [(layout, 6000, 100000), (integers, 6000, 100000), (single, 1500, 30000), (functions, 2400, 50000)]
