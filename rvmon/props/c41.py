"""C41: changes of the model take effect at the next call"""
import copy
import numpy as np
from .. import gen, world
from ..gen import col
from .c31 import seeds, same
from .c36 import visible, sane, rebuild, pick, start, put, STATE, BANKS

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'IMM', 'mmae', 'fixed_lag_smoother')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py']
RULE = ('Live objects of every class under random histories; at random points parts of the model or the state are assigned, or edited in place '
        '(whole, one element, scaled): what was set must read back, and what follows must equal what a new object built with the edited '
        'model computes, and what an object computes that was given the same numbers by assignment.')

# attributes whose arrays are the filter's own working model; the others hand out computed copies
COMPUTED = {'SquareRootKalmanFilter': ('P', 'Q', 'R'), 'HInfinityFilter': ('V',)}
MODEL = dict((k, v[1]) for k, v in STATE.items())
MODEL['FixedLagSmoother'] = ('F', 'H', 'Q', 'R', 'B')
MODEL['HInfinityFilter'] = MODEL['HInfinityFilter'] + ('gamma',)
SYM = ('P', 'Q', 'R', 'R_inv', 'P_inv', 'W', 'V')
CALLED = ('UnscentedKalmanFilter', 'CubatureKalmanFilter', 'EnsembleKalmanFilter')


def attributes(w):
    o, c = w.obj, w.cls
    out = [a for a in MODEL[c] if hasattr(o, a)]
    if c != 'EnsembleKalmanFilter':
        out += [a for a in STATE.get(c, (('x', 'P'), ()))[0] if a not in ('n', 'K')]
    return [a for a in out if not (a == 'B' and not w.src.du)]


def own(o, attrs, cls):
    """the attributes refer to arrays of their own, as after an assignment by the user"""
    for a in attrs:
        v = getattr(o, a)
        if isinstance(v, np.ndarray) and a not in COMPUTED.get(cls, ()):
            setattr(o, a, np.array(v, float))


def fresh(rng, a, v, cls):
    """new numbers for attribute a, which has value v"""
    if np.isscalar(v) or np.ndim(v) == 0:
        v = float(v)
        if a == 'alpha':
            return float(rng.uniform(1, 1.2))
        if a in ('g', 'h', 'k', 'beta'):
            return float(rng.uniform(.05, .7))
        if a in ('dt', 'sigma'):
            return float(rng.uniform(.2, 2))
        if a == 'gamma':
            return v * float(rng.uniform(.5, 1))
        return v + float(rng.standard_normal())
    if cls == 'HInfinityFilter' and a in ('P', 'Q', 'W'):
        return v * float(rng.uniform(.4, 1))
    if a in SYM:
        return gen.spd(rng, len(v), .3, 3.)
    if a == 'F':
        if rng.random() < .1:
            return np.eye(len(v))
        return v + .2 * rng.standard_normal(v.shape) if np.linalg.cond(v) < 5 else np.eye(len(v)) + .1 * rng.standard_normal(v.shape)
    if a == 'M':
        return .03 * rng.standard_normal(v.shape)
    return rng.standard_normal(v.shape)


def edit(rng, o, a, cls, how):
    """changes attribute a of o; the same generator state does the same to any object of the class"""
    v = getattr(o, a)
    new = fresh(rng, a, v, cls)
    k = int(rng.integers(0, 4))
    c = float(rng.uniform(.6, 1.4))
    if not isinstance(v, np.ndarray) or v.ndim == 0 or not v.size or a in COMPUTED.get(cls, ()):
        setattr(o, a, new)
        return np.array(new, float)
    i = tuple(int(rng.integers(0, q)) for q in v.shape)
    want = np.array(v, float)
    if k == 0 or a in ('F', 'M') and k == 2:
        want[...] = new
    elif k == 1:
        if a in SYM:
            i = (i[0], i[0])
        want[i] = want[i] * 1.5 + (.01 if a in SYM else .3)
    elif k == 2:
        want *= c
    else:
        want[i[0]] = want[i[0]] if a in SYM else new[i[0]]
        if a in SYM:
            want += np.diag(np.full(len(want), .1 * abs(want[i[0], i[0]])))
    if a == 'M':
        want[...] = new
        k = 0
    if how == 'assign':
        setattr(o, a, want.copy())
    elif k == 1:
        v[i] = want[i]
    elif k == 2 and a not in ('F', 'M'):
        v *= c
    else:
        v[...] = want
    return want


def go(w, rng):
    """an operation; False where the edits have led to a covariance that is none"""
    try:
        w.act(rng)
    except (np.linalg.LinAlgError, ValueError):
        for f in getattr(w.obj, 'filters', [w.obj]):
            P = np.atleast_2d(np.array(getattr(f, 'P', 1.), float))
            if not np.all(np.isfinite(P)) or np.min(np.linalg.eigvalsh((P + P.T) / 2)) < 1e-9:
                return False
        raise
    return w.cls == 'FixedLagSmoother' or sane(w)


def chosen(rng, w):
    a = attributes(w)
    return [a[i] for i in sorted(rng.choice(len(a), size=int(rng.integers(1, len(a) + 1)) if rng.random() < .4 else 1, replace=False))]


def change(ctx, rng, w, how):
    """changes something of the model or the state"""
    if w.cls in BANKS:
        if rng.random() < .5 and len(w.obj.filters):
            f = w.obj.filters[int(rng.integers(0, len(w.obj.filters)))]
            at = [a for a in ('F', 'H', 'Q', 'R', 'x', 'P', 'alpha')]
            for a in [at[i] for i in rng.choice(len(at), size=int(rng.integers(1, 4)), replace=False)]:
                want = edit(rng, f, a, 'KalmanFilter', how)
                same(ctx, 'what was set reads back', {a: want}, {a: np.array(getattr(f, a), float)}, w.cls)
                ctx.event(how, cls=w.cls + ' member', attr=a)
            return
        n = len(w.obj.filters)
        names = ('mu', 'M') if w.cls == 'IMMEstimator' else ('p',) if w.obj.H is None else ('p', 'H')
        a = names[int(rng.integers(0, len(names)))]
        want = rng.standard_normal(w.obj.H.shape) if a == 'H' else np.array([rng.dirichlet(np.ones(n) * 3) for _ in range(n)])
        if a in ('mu', 'p'):
            want = want[0]
        if how == 'assign':
            setattr(w.obj, a, want.copy())
        else:
            getattr(w.obj, a)[...] = want
        same(ctx, 'what was set reads back', {a: want}, {a: np.array(getattr(w.obj, a), float)}, w.cls)
        ctx.event(how, cls=w.cls, attr=a)
        return
    for a in chosen(rng, w):
        want = edit(rng, w.obj, a, w.cls, how)
        same(ctx, 'what was set reads back', {a: want}, {a: np.array(getattr(w.obj, a), float)}, w.cls)
        ctx.event(how, cls=w.cls, attr=a)


def owned(w):
    if w.cls in BANKS:
        for f in w.obj.filters:
            own(f, ('F', 'H', 'Q', 'R', 'x', 'P', 'B'), 'KalmanFilter')
        own(w.obj, ('mu', 'M') if w.cls == 'IMMEstimator' else ('p', 'H'), w.cls)
    else:
        own(w.obj, attributes(w), w.cls)


def constructed(w, sb, src):
    """a new object built with the present model; parameters of the constructor are handed to the constructor"""
    o = w.obj
    if w.cls in ('GHFilter', 'GHKFilter', 'GHFilterOrder', 'FadingMemoryFilter', 'LeastSquaresFilter', 'HInfinityFilter'):
        v = type(w)(np.random.default_rng(sb), world.Handed(), copy.deepcopy(src))
        c = copy.deepcopy
        if w.cls == 'GHFilter':
            v.obj = type(o)(c(o.x), c(o.dx), o.dt, o.g, o.h)
        elif w.cls == 'GHKFilter':
            v.obj = type(o)(c(o.x), c(o.dx), c(o.ddx), o.dt, o.g, o.h, o.k)
        elif w.cls == 'GHFilterOrder':
            v.obj = type(o)(c(o.x), o.dt, o.order, o.g, o.h, o.k)
        elif w.cls == 'FadingMemoryFilter':
            v.obj = type(o)(c(o.x), o.dt, o.order, o.beta)
        elif w.cls == 'LeastSquaresFilter':
            v.obj = type(o)(o.dt, w.src.order, o.sigma)
            put(v.obj, o, STATE[w.cls][0])
        else:
            v.obj = type(o)(o.dim_x, o.dim_z, o.dim_u, o.gamma)
            put(v.obj, o, STATE[w.cls][1] + STATE[w.cls][0])
        return v
    return rebuild(w, sb, src)


def special(rng, w):
    """start with matrices of special form, which code may treat specially"""
    o = w.obj
    for f in getattr(o, 'filters', [o]):
        for a in ('F', 'H', 'Q', 'R', 'R_inv', 'M', 'P', 'P_inv', 'W', 'B'):
            if rng.random() > .35 or not isinstance(getattr(f, a, None), np.ndarray):
                continue
            if a == 'B' and (w.cls in BANKS or not w.src.du) or a == 'M' or (
                    a == 'P' and w.cls == 'InformationFilter'):
                continue
            v = getattr(f, a)
            k = int(rng.integers(0, 3))
            if a in ('H', 'M', 'B'):
                new = np.zeros(v.shape) if k == 0 else np.eye(*v.shape) if k == 1 else np.ones(v.shape)
            elif a == 'F':
                new = np.eye(len(v)) if k < 2 else np.diag(rng.uniform(.5, 1, len(v)))
            elif w.cls == 'HInfinityFilter' and a in ('P', 'Q', 'W'):
                new = np.diag(np.diag(v)) * .5
            else:
                new = np.eye(len(v)) if k == 0 else np.diag(rng.uniform(.5, 2, len(v))) if k == 1 or a != 'Q' or \
                    w.cls in CALLED + ('SquareRootKalmanFilter',) else np.zeros(v.shape)
            setattr(f, a, new)


def edited(ctx, rng):
    """a new object built with the edited model continues alike"""
    W = pick(rng, tuple(STATE) + BANKS)
    w, sb, src = start(rng, W)
    if rng.random() < .5:
        special(rng, w)
    owned(w)
    how = ('assign', 'in place')[int(rng.integers(0, 2))]
    rounds = int(rng.integers(1, 4))
    ctx.describe(cls=W.cls, how=how, rounds=rounds, n=np.size(w.obj.x), m=w.src.m)
    for _ in range(rounds):
        for _ in range(int(rng.integers(0, 6))):
            if not go(w, rng):
                return
        change(ctx, rng, w, how)
        if not sane(w):
            return
        v = constructed(w, sb, src)
        for s in seeds(rng, int(rng.integers(1, 4))):
            if not go(w, np.random.default_rng(s)):
                return
            v.act(np.random.default_rng(s))
            ctx.event('operate', cls=w.cls)
            same(ctx, 'the edited object computes with the model it has now', visible(w), visible(v), w.cls)


def seen(w):
    d = visible(w) if w.cls != 'FixedLagSmoother' else {'x': np.array(w.obj.x, float), 'P': np.array(w.obj.P, float)}
    if w.cls == 'FixedLagSmoother':
        d['smooth'] = np.array([np.ravel(v) for v in w.obj.xSmooth], float)
    return d


def twins(ctx, rng):
    """assignment and editing in place have the same effect, throughout a history"""
    W = pick(rng, tuple(STATE) + BANKS + ('FixedLagSmoother',))
    w, sb, src = start(rng, W)
    v = W(np.random.default_rng(sb), world.Handed(), copy.deepcopy(src))
    if rng.random() < .5:
        q = seeds(rng, 1)[0]
        special(np.random.default_rng(q), w)
        special(np.random.default_rng(q), v)
    owned(w)
    owned(v)
    T = int(rng.integers(2, 12))
    ctx.describe(cls=W.cls, T=T)
    for _ in range(T):
        if rng.random() < .4:
            s = seeds(rng, 1)[0]
            change(ctx, np.random.default_rng(s), w, 'in place')
            change(ctx, np.random.default_rng(s), v, 'assign')
        s = seeds(rng, 1)[0]
        if not go(w, np.random.default_rng(s)):
            return
        v.act(np.random.default_rng(s))
        ctx.event('operate', cls=w.cls)
        a = seen(w)
        if any(not np.all(np.isfinite(q)) or q.size and np.max(np.abs(q)) > 1e6 for q in a.values()):
            return
        same(ctx, 'an edit in place acts like an assignment', a, seen(v), w.cls)


def functions(ctx, rng):
    """user functions replaced on a live object act like those given to the constructor"""
    from filterpy.kalman import (UnscentedKalmanFilter, CubatureKalmanFilter, EnsembleKalmanFilter, MerweScaledSigmaPoints,
                                 JulierSigmaPoints)
    s = gen.WellSys(rng, int(rng.integers(1, 4)), int(rng.integers(1, 3)), scale=1.)
    cls = CALLED[int(rng.integers(0, 3))]
    merwe = bool(rng.random() < .5)
    kap = float(rng.uniform(0, 2))

    def fns(q):
        F, H, b = q.standard_normal((s.n, s.n)) * .4 + np.eye(s.n), q.standard_normal((s.m, s.n)), q.standard_normal(s.n)
        turn = float(q.uniform(20, 40))
        wrap = lambda d: d - turn * np.round(d / turn)        # noqa
        mean = lambda sig, *wm: wm[0] @ sig if wm else np.mean(sig, axis=0)    # noqa
        c = float(q.uniform(.9, 1.1))
        low = q.random() < .5
        root = (lambda A: np.linalg.cholesky(A).T) if low else (lambda A: np.linalg.cholesky(A[::-1, ::-1])[::-1, ::-1].T)
        return dict(fx=lambda x, dt: F @ x + b * dt, hx=lambda x: H @ x + b[0], x_mean=lambda *a: mean(*a) * c, z_mean=lambda *a: mean(*a) * c,
                    residual_x=lambda a, b: wrap(np.subtract(a, b)), residual_z=lambda a, b: wrap(np.subtract(a, b)),
                    state_add=lambda a, b: np.add(a, b) * c, msqrt=root)

    def make(k):
        pts = MerweScaledSigmaPoints(s.n, .8, 2., kap) if merwe else JulierSigmaPoints(s.n, kap)
        np.random.seed(7)
        if cls == 'UnscentedKalmanFilter':
            f = UnscentedKalmanFilter(s.n, s.m, .5, k['hx'], k['fx'], pts, sqrt_fn=k['msqrt'], x_mean_fn=k['x_mean'], z_mean_fn=k['z_mean'],
                                      residual_x=k['residual_x'], residual_z=k['residual_z'], state_add=k['state_add'])
        elif cls == 'CubatureKalmanFilter':
            f = CubatureKalmanFilter(s.n, s.m, .5, k['hx'], k['fx'], x_mean_fn=k['x_mean'], z_mean_fn=k['z_mean'],
                                     residual_x=k['residual_x'], residual_z=k['residual_z'])
        else:
            f = EnsembleKalmanFilter(s.x0.copy(), s.P0.copy(), s.m, .5, 8, k['hx'], k['fx'])
        if cls != 'EnsembleKalmanFilter':
            f.x, f.P = s.x0.copy(), s.P0.copy()
        f.Q, f.R = s.Q.copy(), s.R.copy()
        return f
    f0 = fns(rng)
    use = list(f0)
    if cls == 'CubatureKalmanFilter':
        use = use[:6]
    if cls == 'EnsembleKalmanFilter':
        use = use[:2]
    f = make(f0)
    k = int(rng.integers(0, 4))
    ctx.describe(cls=cls, n=s.n, m=s.m, k=k)

    def step(o, q):
        z = q.standard_normal(s.m)
        np.random.seed(int(q.integers(0, 2 ** 31)))
        o.predict()
        if q.random() < .8:
            o.update(z)
    def fine():
        return np.all(np.isfinite(f.P)) and np.max(np.abs(f.P)) < 1e6 and np.max(np.abs(f.x)) < 1e6 and (
            cls == 'EnsembleKalmanFilter' or np.min(np.linalg.eigvalsh(f.P)) > 1e-6)
    for _ in range(k):
        step(f, rng)
        if not fine():
            return
    f1 = dict(f0)
    new = fns(rng)
    for a in rng.choice(use, size=int(rng.integers(1, len(use) + 1)), replace=False):
        f1[a] = new[a]
        setattr(f, a, new[a])
        ctx.event('assign function', cls=cls, attr=str(a))
    g = make(f1)
    put(g, f, ('x', 'P') + (('sigmas',) if cls == 'EnsembleKalmanFilter' else ()))
    for v in seeds(rng, int(rng.integers(1, 4))):
        if not fine():
            return
        step(f, np.random.default_rng(v))
        step(g, np.random.default_rng(v))
        ctx.event('operate', cls=cls)
        same(ctx, 'functions assigned later act like functions given at construction', dict(x=f.x, P=f.P), dict(x=g.x, P=g.P), cls)


def inverse(ctx, rng):
    """the inverse function chosen by the user is the one that is used"""
    from filterpy.kalman import KalmanFilter, UnscentedKalmanFilter, EnsembleKalmanFilter, JulierSigmaPoints, InformationFilter
    s = gen.WellSys(rng, int(rng.integers(2, 4)), 1, scale=1.)
    h = rng.standard_normal((1, s.n))
    H = np.vstack([h, 2 * h])                                 # two sensors without noise reporting the same thing
    c = int(rng.integers(0, 3))
    ctx.describe(c=c, n=s.n)
    calls = []

    def inv(A):
        calls.append(np.array(A, float))
        return np.linalg.pinv(A, rcond=1e-9)
    if c == 0:
        f = KalmanFilter(s.n, 2)
        f.x, f.H, f.F = col(s.x0), H, s.F
    elif c == 1:
        f = UnscentedKalmanFilter(s.n, 2, 1., lambda x: H @ x, lambda x, dt: s.F @ x, JulierSigmaPoints(s.n, 1.))
        f.x = s.x0
    else:
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        f = EnsembleKalmanFilter(s.x0, s.P0, 2, 1., 10, lambda x: H @ x, lambda x, dt: s.F @ x)
    f.P = s.P0
    f.Q = s.Q
    f.R = np.zeros((2, 2))
    if rng.random() < .5:
        f.predict()
    f.inv = inv
    if c == 1:
        f.predict()
    elif c == 2 and rng.random() < .5:
        f.predict()
    x0, P0 = np.ravel(f.x).copy(), np.array(f.P)
    z = np.array([1., 2.]) * float(rng.standard_normal())
    f.update(col(z) if c == 0 else z)
    ctx.event('singular', cls=type(f).__name__)
    ctx.true('the inverse function set by the user is used', len(calls) > 0, 'never called')
    ctx.close('gain with the pseudo inverse', f.SI, np.linalg.pinv(f.S, rcond=1e-9), tol=1e-6)
    if c < 2:
        K = P0 @ H.T @ np.linalg.pinv(H @ P0 @ H.T, rcond=1e-9)
        ctx.close('estimate with the pseudo inverse', np.ravel(f.x), x0 + K @ (z - H @ x0), tol=1e-6)
        ctx.close('covariance with the pseudo inverse', f.P, P0 - K @ H @ P0, tol=1e-6, scale=float(np.max(np.abs(P0))))


SCENARIOS = [(edited, 12000, 150000), (twins, 5000, 60000), (functions, 3000, 50000), (inverse, 800, 15000)]
