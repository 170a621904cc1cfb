"""C37: calls touch nothing but their own objects, may be nested and run in parallel"""
import copy
import gc
import os
import random
import sys
import threading
import warnings
import numpy as np
from .. import gen, world
from ..gen import col
from .c31 import seeds, same, alone

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'fixed_lag_smoother', 'IMM', 'mmae', 'sigma_points', 'unscented_transform')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py', 'filterpy/common/helpers.py', 'filterpy/common/discretization.py', 'filterpy/stats/stats.py']
RULE = ('Process-wide settings (both random streams, floating-point error handling, print options, warning filters, environment) are '
        'compared before and after random operations of every class and function; user functions run other filters inside a call; '
        'threads run histories at the same time and are compared with the same histories run alone.')
DETERMINISTIC = [W for W in world.ALL if not W.stochastic]


def settings():
    return {'errors': np.geterr(), 'print': {k: v for k, v in np.get_printoptions().items()}, 'errcall': np.geterrcall(),
            'bufsize': np.getbufsize(), 'filters': [repr(f) for f in warnings.filters], 'environ': dict(os.environ), 'cwd': os.getcwd(),
            'recursion': sys.getrecursionlimit(), 'gc': gc.isenabled(), 'switch': sys.getswitchinterval(),
            'threads': threading.active_count(), 'stdout': id(sys.stdout), 'stderr': id(sys.stderr)}


def streams():
    a = np.random.get_state()
    return {'numpy': (a[0], a[1].copy(), a[2], a[3], a[4]), 'python': random.getstate()}


def check_settings(ctx, before, name):
    now = settings()
    bad = [k for k in before if before[k] != now[k]]
    ctx.true('process-wide settings are left alone', not bad, lambda: '%s: %s' % (name, [(k, before[k], now[k]) for k in bad]))


def check_streams(ctx, before, name):
    now = streams()
    ctx.true('random streams are left alone', before['python'] == now['python'] and
             all(np.array_equal(p, q) for p, q in zip(before['numpy'], now['numpy'])), name)


def own_errors(rng):
    """error handling chosen by the caller (no mode under which numpy raises)"""
    return {k: str(rng.choice(['ignore', 'warn', 'call'])) for k in ('divide', 'over', 'under', 'invalid')}


def _silent(kind, flag):
    pass


def operations(ctx, rng):
    """operations of live objects, printing, recording, comparing"""
    from filterpy.common import Saver
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    w = W(rng, world.Handed())
    T = int(rng.integers(1, 6))
    ctx.describe(cls=W.cls, T=T, n=np.size(w.obj.x))
    custom = rng.random() < .5
    keep = np.geterr(), np.get_printoptions(), np.geterrcall()
    try:
        if custom:                                            # settings of the caller's own
            np.seterrcall(_silent)
            np.seterr(**own_errors(rng))
            np.set_printoptions(precision=int(rng.integers(2, 12)), suppress=bool(rng.random() < .5), threshold=int(rng.integers(3, 2000)))
        before = settings()
        for _ in range(T):
            st = streams()
            w.act(rng)
            ctx.event('operate', cls=W.cls)
            check_settings(ctx, before, W.cls)
            if not W.stochastic:
                check_streams(ctx, st, W.cls)
        st = streams()
        for k in dir(type(w.obj)):                            # derived quantities
            if not k.startswith('_') and isinstance(getattr(type(w.obj), k), property):
                try:
                    getattr(w.obj, k)
                except Exception:                             # (not judged here)
                    pass
                check_settings(ctx, before, '%s.%s' % (W.cls, k))
        check_streams(ctx, st, 'properties ' + W.cls)
        repr(w.obj)
        check_settings(ctx, before, 'repr ' + W.cls)
        check_streams(ctx, st, 'repr ' + W.cls)
        s = Saver(w.obj)
        s.save()
        s.to_array()
        repr(s)
        check_settings(ctx, before, 'Saver ' + W.cls)
        check_streams(ctx, st, 'Saver ' + W.cls)
        ctx.event('print', cls=W.cls)
    finally:
        np.seterr(**keep[0])
        np.seterrcall(keep[2])
        np.set_printoptions(**keep[1])


def library(rng):
    """calls of library functions: without and with sampling"""
    import filterpy.kalman as fk
    import filterpy.common as fc
    import filterpy.stats as st
    import filterpy.gh as gh
    import filterpy.monte_carlo as mc
    import filterpy.discrete_bayes as db
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    s = gen.WellSys(rng, n, m, 1)
    x, z, u = col(s.x0), rng.standard_normal((m, 1)), rng.standard_normal((1, 1))
    pts = [lambda: fk.MerweScaledSigmaPoints(n, .5, 2., 1.), lambda: fk.JulierSigmaPoints(n, 1.),
           lambda: fk.SimplexSigmaPoints(n)][int(rng.integers(0, 3))]()
    sig = pts.sigma_points(s.x0, s.P0)
    dt, v = float(rng.uniform(.01, 1)), float(rng.uniform(.1, 2))
    pdf = rng.dirichlet(np.ones(7))
    Xs = rng.standard_normal((4, n))
    Ps = np.array([gen.spd(rng, n, .3, 3.) for _ in range(4)])
    far = col(s.x0 + 1e200)
    quiet = [
        ('predict', lambda: fk.predict(x, s.P0, s.F, s.Q, u, s.B)),
        ('update', lambda: fk.update(x, s.P0, z, s.R, s.H, return_all=True)),
        ('rts', lambda: fk.rts_smoother(Xs[:, :, None], Ps, [s.F] * 4, [s.Q] * 4)),
        ('ut', lambda: fk.unscented_transform(sig, pts.Wm, pts.Wc, s.Q)),
        ('points', lambda: pts.sigma_points(s.x0, s.P0)),
        ('repr points', lambda: repr(pts)),
        ('ckf', lambda: fk.ckf_transform(fk.spherical_radial_sigmas(x, s.P0), s.Q)),
        ('rk4', lambda: fc.runge_kutta4(s.x0, 0., dt, lambda y, t: -y)),
        ('inv_diagonal', lambda: fc.inv_diagonal(np.diag(rng.uniform(1, 2, n)))),
        ('van loan', lambda: fc.van_loan_discretization(s.F, rng.standard_normal((n, 1)), dt)),
        ('ode', lambda: fc.linear_ode_discretation(s.F, np.eye(n), s.Q, dt)),
        ('q discrete', lambda: fc.Q_discrete_white_noise(int(rng.integers(2, 5)), dt, v, int(rng.integers(1, 4)), bool(rng.random() < .5))),
        ('q continuous', lambda: fc.Q_continuous_white_noise(int(rng.integers(2, 5)), dt, v, int(rng.integers(1, 4)), bool(rng.random() < .5))),
        ('kinematic', lambda: fc.kinematic_kf(int(rng.integers(1, 3)), int(rng.integers(1, 3)), dt)),
        ('pretty', lambda: fc.pretty_str('x', rng.standard_normal((int(rng.integers(1, 12)), int(rng.integers(1, 40)))))),
        ('repr_string', lambda: fc.repr_string(pts, False)),
        ('mahalanobis', lambda: st.mahalanobis(s.x0, s.x0 + 1, s.P0)),
        ('logpdf', lambda: st.logpdf(x, far, s.P0)),
        ('likelihood', lambda: st.likelihood(z, far, s.P0, s.H, s.R)),
        ('gaussian', lambda: st.gaussian(np.array([1e3, 0.]), 0., v)),
        ('multiply', lambda: st.multivariate_multiply(s.x0, s.P0, s.x0 + 1, Ps[0])),
        ('ellipse', lambda: st.covariance_ellipse(gen.spd(rng, 2, .3, 3.))),
        ('nees', lambda: st.NEES(Xs, Xs + 1, Ps)),
        ('norm_cdf', lambda: st.norm_cdf((-dt, 2.), 0., v)),
        ('bayes', lambda: db.predict(db.update(rng.random(7), pdf), 2, rng.dirichlet(np.ones(3)))),
        ('gh', lambda: gh.GHFilter(0., 0., dt, .5 * v, .2).batch_filter(rng.standard_normal(5))),
        ('gh params', lambda: (gh.optimal_noise_smoothing(v / 4), gh.least_squares_parameters(int(rng.integers(0, 400))), gh.critical_damping_parameters(v / 4),
                               gh.benedict_bornder_constants(v / 4)))]
    noisy = [('residual', lambda: mc.residual_resample(pdf)), ('stratified', lambda: mc.stratified_resample(pdf)),
             ('systematic', lambda: mc.systematic_resample(pdf)), ('multinomial', lambda: mc.multinomial_resample(pdf)),
             ('student', lambda: st.rand_student_t(5. * v, dt, 2.))]
    return quiet, noisy, dict(n=n, m=m, pts=type(pts).__name__)


def functions(ctx, rng):
    """library functions"""
    quiet, noisy, d = library(rng)
    ctx.describe(**d)
    before = settings()
    for k in rng.permutation(len(quiet))[:12]:
        name, f = quiet[k]
        a = streams()
        with np.errstate(call=_silent, **own_errors(rng)), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            inner = settings()
            f()
            check_settings(ctx, inner, name)
        ctx.event(name)
        check_settings(ctx, before, name)
        check_streams(ctx, a, name)
    for name, f in noisy:
        sd = int(rng.integers(2 ** 31))
        out = []
        for _ in range(2):
            np.random.seed(sd)
            random.seed(sd)
            out.append(np.array(f()))
            check_settings(ctx, before, name)
        ctx.event(name)
        ctx.true('same seed, same sample', np.array_equal(out[0], out[1]), name)


def _inner(rng, kind):
    """something that uses the library and always gives the same number"""
    W = {'same': None}.get(kind) or DETERMINISTIC[int(rng.integers(0, len(DETERMINISTIC)))]
    sb = seeds(rng, 1)[0]
    ops = seeds(rng, 2)

    def run():
        w = W(np.random.default_rng(sb), world.Handed())
        for s in ops:
            w.act(np.random.default_rng(s))
    return run, W.cls


def nested(ctx, rng):
    """user functions that run other filters inside a call"""
    from filterpy.kalman import (ExtendedKalmanFilter, UnscentedKalmanFilter, CubatureKalmanFilter, EnsembleKalmanFilter)
    from .. import zoo
    from .c02 import _model
    kind = str(rng.choice(['ekf', 'ukf', 'ckf', 'enkf']))
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    f, h, J = _model(rng, n, m)
    P0, Q, R, x0 = gen.spd(rng, n, .1, 2), gen.spd(rng, n, .01, 1), gen.spd(rng, m, .1, 2), rng.standard_normal(n)
    run, icls = _inner(rng, kind)
    seed = int(rng.integers(2 ** 31))
    T = int(rng.integers(1, 4))
    zs = rng.standard_normal((T, m)) * 2
    ctx.describe(kind=kind, inner=icls, n=n, m=m, T=T)
    # the user's function filters with its own instance of the very same kind
    same_kind = rng.random() < .5
    pk = zoo.points(rng, n, ('julier', 'simplex'))[1]

    def build(nest):
        def w(fn):
            if not nest:
                return fn

            def g(*a):
                st = np.random.get_state()
                if same_kind:
                    twin(a[0])
                else:
                    run()
                ctx.event('nested')
                np.random.set_state(st)
                return fn(*a)
            return g

        def twin(x):
            o = make(lambda q, dt: f(q, dt) * .5, lambda q: h(q) + 1, lambda q: J(q) * 2)
            o.predict()
            if kind == 'ekf':
                o.update(np.ones(m), lambda q: J(q) * 2, lambda q: h(q) + 1)
            else:
                o.update(np.ones(m))

        def make(fx, hx, HJ):
            if kind == 'ekf':
                k = ExtendedKalmanFilter(n, m)
                k.F = np.eye(n) * .9
            elif kind == 'ukf':
                k = UnscentedKalmanFilter(n, m, .3, hx, fx, pk)
            elif kind == 'ckf':
                k = CubatureKalmanFilter(n, m, .3, hx, fx)
            else:
                k = EnsembleKalmanFilter(x0.copy(), P0, m, .3, 5, hx, fx)
            if kind != 'enkf':
                k.x, k.P = x0.copy(), P0.copy()
            k.Q, k.R = Q.copy(), R.copy()
            return k
        fx, hx, HJ = w(f), w(h), w(J)
        return make(fx, hx, HJ), hx, HJ
    out = []
    for nest in (False, True):
        np.random.seed(seed)
        k, hx, HJ = build(nest)
        r = []
        for i in range(T):
            k.predict()
            r.append((k.x.copy(), k.P.copy()))
            if kind == 'ekf':
                k.update(zs[i].copy(), HJ, hx)
            else:
                k.update(zs[i].copy())
            r.append((k.x.copy(), k.P.copy(), k.y.copy() if kind != 'enkf' else 0, np.array(k.S)))
        out.append(r)
        ctx.event('run', nest=nest)
    for p, q in zip(*out):
        for a, b in zip(p, q):
            ctx.close('filtering inside a user function changes nothing outside', b, a, 1e-9, max(1e-3, float(np.max(np.abs(a)))))


def threads(ctx, rng):
    """histories in parallel threads equal the same histories run alone"""
    k = int(rng.integers(2, 5))
    first = DETERMINISTIC[int(rng.integers(0, len(DETERMINISTIC)))]
    Ws = [first if rng.random() < .7 else DETERMINISTIC[int(rng.integers(0, len(DETERMINISTIC)))] for _ in range(k)]
    T = int(rng.integers(2, 9))
    sb = seeds(rng, k)
    if rng.random() < .7:                                     # the same sizes everywhere: shared scratch space would be of one shape
        src = Ws[0].source(Ws[0], rng) if len(set(Ws)) == 1 else None
    else:
        src = None
    ops = [seeds(rng, T) for _ in range(k)]
    ctx.describe(cls=[w.cls for w in Ws], T=T, same=src is not None)
    want = [alone(Ws[i], sb[i], ops[i], copy.deepcopy(src)) for i in range(k)]
    objs = [Ws[i](np.random.default_rng(sb[i]), world.Handed(), copy.deepcopy(src)) for i in range(k)]
    got = [None] * k
    log = []
    gate = threading.Barrier(k)

    def work(i):
        out = []
        try:
            gate.wait(10)
            for s in ops[i]:
                log.append(i)
                r = objs[i].act(np.random.default_rng(s))
                out.append((copy.deepcopy(r), world.snap(objs[i].obj)))
                log.append(i)
            got[i] = out
        except Exception as e:                                # noqa
            got[i] = e
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(k)]
    si = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(si)
    ctx.event('threads', switches=sum(a != b for a, b in zip(log, log[1:])))
    for i in range(k):
        if isinstance(got[i], Exception):
            ctx.fail('works in a thread as it does alone', '%s: %r' % (Ws[i].cls, got[i]))
        for (wr, ws), (r, s) in zip(want[i], got[i]):
            ctx.event('operate')
            same(ctx, 'results in a thread', {'r': wr}, {'r': r}, Ws[i].cls)
            same(ctx, 'state in a thread', ws, s, Ws[i].cls)


SCENARIOS = [(operations, 1500, 40000), (functions, 800, 20000), (nested, 800, 20000), (threads, 1200, 30000)]
