"""C31: filters neither modify their inputs nor influence one another"""
import copy
import random
import warnings
import numpy as np
from .. import gen, world
from ..gen import col

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'fixed_lag_smoother', 'IMM', 'mmae', 'sigma_points', 'unscented_transform')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py', 'filterpy/stats/stats.py']
RULE = ('Live objects of every class under random histories of all their operations: everything handed over is compared with its value at '
        'hand-over; histories of two or three objects sharing their matrices are interleaved at random and compared with the same '
        'histories run alone; copies taken at random points are continued; runs are repeated from the same seed.')
TOL = 1e-7


def pick(rng):
    return world.ALL[int(rng.integers(0, len(world.ALL)))]


def inputs(ctx, rng):
    """nothing handed over is modified"""
    W = pick(rng)
    g = world.Handed()
    w = W(rng, g)
    T = gen.length(rng, 2, 12, 60)
    ctx.describe(cls=W.cls, T=T)
    for _ in range(T):
        w.act(rng)
        ctx.event('operate', cls=W.cls)
        g.check(ctx, 'after an operation of ' + W.cls)
    repr(w.obj)
    g.check(ctx, 'after printing')


def same(ctx, what, a, b, detail=''):
    if not world.equal(a, b, TOL):
        d = [k for k in a if not world.equal(a[k], b.get(k), TOL)] if isinstance(a, dict) else ''
        ctx.fail(what, '%s differs: %s' % (detail, [(k, a[k], b.get(k)) for k in d[:3]] if d else (a, b)))
    ctx._decided(what)


def seeds(rng, k):
    return [int(v) for v in rng.integers(0, 2 ** 31, k)]


def alone(W, sb, ops, src):
    w = W(np.random.default_rng(sb), world.Handed(), src)
    out = []
    for s in ops:
        r = w.act(np.random.default_rng(s))
        out.append((copy.deepcopy(r), world.snap(w.obj)))
    return out


def together(ctx, rng):
    """objects of any classes, sharing matrices where their kinds allow, interleaved at random"""
    k = int(rng.integers(2, 4))
    first = pick(rng)
    group = world.SIMPLE if first in world.SIMPLE else world.KALMAN
    Ws = [first] + [first if rng.random() < .5 else group[int(rng.integers(0, len(group)))] for _ in range(k - 1)]
    share = bool(rng.random() < .7)
    src = None
    if share:
        src = Ws[0].source(Ws[0], rng)
    sb = seeds(rng, k)
    T = gen.length(rng, 1, 6, 30)
    ops = [seeds(rng, T) for _ in range(k)]
    ctx.describe(cls=[w.cls for w in Ws], share=share, T=T)
    want = [alone(Ws[i], sb[i], ops[i], copy.deepcopy(src)) for i in range(k)]
    objs = [None] * k
    at = [0] * k
    order = rng.permutation(np.repeat(np.arange(k), T))
    g = world.Handed()
    for i in order:
        if objs[i] is None:                       # built in the middle of the others' histories
            objs[i] = Ws[i](np.random.default_rng(sb[i]), g, src)
            ctx.event('build', cls=Ws[i].cls)
        r = objs[i].act(np.random.default_rng(ops[i][at[i]]))
        ctx.event('operate', cls=Ws[i].cls)
        wr, ws = want[i][at[i]]
        at[i] += 1
        same(ctx, 'result independent of other objects', {'r': wr}, {'r': r}, Ws[i].cls)
        same(ctx, 'state independent of other objects', ws, world.snap(objs[i].obj), Ws[i].cls)
    for i in range(k):                            # nothing happened behind anyone's back
        same(ctx, 'final state independent of other objects', want[i][-1][1], world.snap(objs[i].obj), Ws[i].cls)
    g.check(ctx, 'after interleaving')


def twin(w):
    v = copy.copy(w)
    v.obj = copy.deepcopy(w.obj)
    return v


def copies(ctx, rng):
    """a copy continues like the original, and neither touches the other"""
    W = pick(rng)
    w = W(rng, world.Handed())
    for _ in range(int(rng.integers(0, 5))):
        w.act(rng)
    ctx.describe(cls=W.cls)
    v = twin(w)
    ctx.event('copy', cls=W.cls)
    frozen = world.snap(w.obj)
    same(ctx, 'a copy equals its original', frozen, world.snap(v.obj), W.cls)
    ops = seeds(rng, int(rng.integers(1, 6)))
    res = []
    for s in ops:
        r = v.act(np.random.default_rng(s))
        res.append((r, world.snap(v.obj)))
        ctx.event('operate')
    same(ctx, 'running the copy leaves the original', frozen, world.snap(w.obj), W.cls)
    end = world.snap(v.obj)
    for s, (r, st) in zip(ops, res):
        r2 = w.act(np.random.default_rng(s))
        same(ctx, 'the original continues like the copy', st, world.snap(w.obj), W.cls)
        same(ctx, 'results of the original and the copy', {'r': r}, {'r': r2}, W.cls)
    same(ctx, 'running the original leaves the copy', end, world.snap(v.obj), W.cls)


def repeat(ctx, rng):
    """same calls, same random seed, same results"""
    W = world.EnKFw if rng.random() < .4 else pick(rng)
    sb = seeds(rng, 1)[0]
    ops = seeds(rng, int(rng.integers(1, 8)))
    ctx.describe(cls=W.cls)
    a = alone(W, sb, ops, None)
    for _ in range(int(rng.integers(0, 3))):      # unrelated use of the library and of the generators
        o = pick(rng)(rng, world.Handed())
        o.act(rng)
        np.random.random(int(rng.integers(1, 5)))
        random.random()
    b = alone(W, sb, ops, None)
    ctx.event('repeat', cls=W.cls)
    for (r1, s1), (r2, s2) in zip(a, b):
        same(ctx, 'repeated run: results', {'r': r1}, {'r': r2}, W.cls)
        same(ctx, 'repeated run: state', s1, s2, W.cls)
    # stochastic functions
    from filterpy import monte_carlo as mc
    from filterpy.stats import rand_student_t
    w = rng.dirichlet(np.ones(20))
    for f in (lambda: mc.residual_resample(w), lambda: mc.stratified_resample(w), lambda: mc.systematic_resample(w),
              lambda: mc.multinomial_resample(w), lambda: rand_student_t(5., 1., 2.)):
        np.random.seed(sb % 2 ** 31)
        random.seed(sb)
        p = [f(), f()]
        np.random.seed(sb % 2 ** 31)
        random.seed(sb)
        q = [f(), f()]
        same(ctx, 'stochastic function repeats with the seed', {'r': p}, {'r': q})


def buffers(ctx, rng):
    """the caller overwrites what it passed to a call as soon as the call has returned"""
    W = pick(rng)
    sb = seeds(rng, 1)[0]
    T = gen.length(rng, 1, 8, 30)
    ops = seeds(rng, T)
    ctx.describe(cls=W.cls, T=T)
    want = alone(W, sb, ops, None)
    g = world.Handed()
    w = W(np.random.default_rng(sb), g)
    for s, (wr, ws) in zip(ops, want):
        start = len(g.items)
        r = w.act(np.random.default_rng(s))
        same(ctx, 'result does not depend on what happened to earlier arguments', {'r': wr}, {'r': r}, W.cls)
        g.scribble(start, rng)
        ctx.event('reuse', cls=W.cls)
        same(ctx, 'state does not follow the caller\'s buffers', ws, world.snap(w.obj), W.cls)


def ro(v):
    """an argument the callee cannot write to without an error"""
    if isinstance(v, np.ndarray):
        v = v.copy()
        v.flags.writeable = False
    return v


def functions(ctx, rng):
    """functions leave their arguments alone and answer the same twice"""
    import filterpy.kalman as fk
    import filterpy.common as fc
    import filterpy.stats as st
    import filterpy.gh as gh
    import filterpy.monte_carlo as mc
    import filterpy.discrete_bayes as db
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    s = gen.WellSys(rng, n, m, 1)
    x, z, u = col(s.x0), rng.standard_normal((m, 1)), rng.standard_normal((1, 1))
    T = 4
    zs = [rng.standard_normal((m, 1)) for _ in range(T)]
    L = lambda a: [a.copy() for _ in range(T)]                # noqa
    Xs = np.array([rng.standard_normal((n, 1)) for _ in range(T)])
    Ps = np.array([gen.spd(rng, n, .3, 3.) for _ in range(T)])
    pts = [lambda: fk.MerweScaledSigmaPoints(n, .5, 2., 1.), lambda: fk.JulierSigmaPoints(n, 1.),
           lambda: fk.SimplexSigmaPoints(n)][int(rng.integers(0, 3))]()
    sig = pts.sigma_points(s.x0, s.P0)
    P2 = gen.spd(rng, n, .3, 3.)
    kern = rng.dirichlet(np.ones(3))
    pdf = rng.dirichlet(np.ones(7))
    xs1 = np.linspace(-1, 1, 9)
    calls = [
        ('predict', fk.predict, [x, s.P0, s.F, s.Q, u, s.B]),
        ('predict_steadystate', fk.predict_steadystate, [x, s.F, u, s.B]),
        ('update', lambda *a: fk.update(*a, return_all=True), [x, s.P0, z, s.R, s.H]),
        ('update_steadystate', fk.update_steadystate, [x, z, rng.standard_normal((n, m)), s.H]),
        ('batch_filter', fk.batch_filter, [x, s.P0, zs, L(s.F), L(s.Q), L(s.H), L(s.R), L(s.B), [u] * T]),
        ('rts_smoother', fk.rts_smoother, [Xs, Ps, L(s.F), L(s.Q)]),
        ('unscented_transform', fk.unscented_transform, [sig, pts.Wm, pts.Wc, s.Q]),
        ('sigma_points', pts.sigma_points, [s.x0, s.P0]),
        ('spherical_radial_sigmas', fk.spherical_radial_sigmas, [x, s.P0]),
        ('ckf_transform', fk.ckf_transform, [sig[:2 * n], s.Q]),
        ('reshape_z', lambda a: fc.reshape_z(a, m, 2), [z.ravel() if rng.random() < .5 else z.T]),
        ('inv_diagonal', fc.inv_diagonal, [np.diag(rng.uniform(1, 2, n))]),
        ('outer_product_sum', fc.outer_product_sum, [rng.standard_normal((5, n)), rng.standard_normal((5, n))]),
        ('runge_kutta4', lambda a, f: fc.runge_kutta4(a, 0., .1, f), [s.x0, lambda y, t: -y]),
        ('van_loan', fc.van_loan_discretization, [s.F, rng.standard_normal((n, 1)), .1]),
        ('linear_ode', fc.linear_ode_discretation, [s.F, np.eye(n), s.Q, .1]),
        ('pretty_str', fc.pretty_str, ['x', x]),
        ('mahalanobis', st.mahalanobis, [s.x0, s.x0 + 1, s.P0]),
        ('logpdf', st.logpdf, [x, x + 1, s.P0]),
        ('log_likelihood', st.log_likelihood, [z, x, s.P0, s.H, s.R]),
        ('likelihood', st.likelihood, [z, x, s.P0, s.H, s.R]),
        ('gaussian', st.gaussian, [xs1, 0., 1.]),
        ('multivariate_gaussian', st.multivariate_gaussian, [s.x0, s.x0 + 1, s.P0]),
        ('multivariate_multiply', st.multivariate_multiply, [s.x0, s.P0, s.x0 + 1, P2]),
        ('covariance_ellipse', st.covariance_ellipse, [gen.spd(rng, 2, .3, 3.)]),
        ('norm_cdf', st.norm_cdf, [np.array([-1., 2.]), 0., 2.]),
        ('NEES', st.NEES, [Xs[:, :, 0], Xs[:, :, 0] + 1, Ps]),
        ('discrete update', db.update, [rng.random(7), pdf]),
        ('discrete predict', db.predict, [pdf, 2, kern]),
        ('residual_resample', mc.residual_resample, [pdf]),
        ('stratified_resample', mc.stratified_resample, [pdf]),
        ('systematic_resample', mc.systematic_resample, [pdf]),
        ('multinomial_resample', mc.multinomial_resample, [pdf]),
        ('gh batch', lambda d: gh.GHFilter(0., 0., 1., .5, .2).batch_filter(d), [rng.standard_normal(5)]),
        ('kinematic', fc.kinematic_state_transition, [2, .3]),
    ]
    seed = seeds(rng, 1)[0]
    ctx.describe(n=n, m=m, pts=type(pts).__name__)
    for name, f, args in calls:
        keep = copy.deepcopy(args)
        random.seed(seed)
        np.random.seed(seed)
        a = copy.deepcopy(f(*args))
        ctx.event(name)
        for p, q in zip(args, keep):
            ctx.true('argument unchanged [%s]' % name, world.equal(p, q), lambda: '%s: %r was %r' % (name, p, q))
        random.seed(seed)
        np.random.seed(seed)
        r = f(*[ro(v) for v in args])
        same(ctx, 'same answer twice, and for read-only arguments', {'r': a}, {'r': r}, name)
        # writing into a result does not reach the next result or the argument
        for v in (r if isinstance(r, (tuple, list)) else [r]):
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in 'fi' and v.size:
                v += 17
        random.seed(seed)
        np.random.seed(seed)
        same(ctx, 'same answer after writing into the previous one', {'r': a}, {'r': f(*args)}, name)


SCENARIOS = [(inputs, 1500, 40000), (together, 1000, 30000), (copies, 1200, 30000), (repeat, 500, 12000), (buffers, 1200, 30000), (functions, 300, 8000)]
