"""C36: a filter's future depends on its visible state and on nothing else"""
import copy
import pickle
import numpy as np
from .. import gen, world
from .c31 import seeds, same

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'IMM', 'mmae', 'fixed_lag_smoother', 'sigma_points')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py']
RULE = ('Live objects of every class under random histories: at a random point the object is rebuilt from scratch from its public state and '
        'model, or pickled and restored, and both continue under the same calls; two objects with different pasts brought to the same '
        'public state are driven alike.')
TOL = 1e-7
KFM = ('F', 'H', 'Q', 'R', 'B')

# what makes the state of each kind of object: state attributes, model attributes
STATE = {
    'KalmanFilter': (('x', 'P'), KFM + ('M', 'alpha')),
    'KalmanFilter steady state': (('x', 'K'), KFM),
    'KalmanFilter sequential': (('x', 'P'), KFM),
    'SquareRootKalmanFilter': (('x', 'P'), KFM),
    'InformationFilter': (('x', 'P_inv'), ('F', 'H', 'Q', 'R_inv', 'B')),
    'FadingKalmanFilter': (('x', 'P'), KFM),
    'ExtendedKalmanFilter': (('x', 'P'), ('F', 'Q', 'R', 'B')),
    'UnscentedKalmanFilter': (('x', 'P'), ('Q', 'R')),
    'CubatureKalmanFilter': (('x', 'P'), ('Q', 'R')),
    'EnsembleKalmanFilter': (('x', 'P', 'sigmas'), ('Q', 'R')),
    'HInfinityFilter': (('x', 'P'), ('F', 'H', 'Q', 'W', 'V', 'B')),
    'GHFilter': (('x', 'dx'), ('dt', 'g', 'h')),
    'GHKFilter': (('x', 'dx', 'ddx'), ('dt', 'g', 'h', 'k')),
    'GHFilterOrder': (('x',), ('dt', 'g', 'h', 'k')),
    'FadingMemoryFilter': (('x',), ('dt', 'beta')),
    'LeastSquaresFilter': (('x', 'n'), ('dt', 'sigma')),
}
BANKS = ('IMMEstimator', 'MMAEFilterBank')


def put(dst, src, names):
    for a in names:
        if hasattr(src, a):
            v = getattr(src, a)
            if a == 'B' and np.isscalar(v):
                continue
            setattr(dst, a, copy.deepcopy(v))


def visible(w):
    """the state that the later results are made of"""
    o = w.obj
    if w.cls in BANKS:
        d = {'x': o.x, 'P': o.P, 'p': o.mu if w.cls == 'IMMEstimator' else o.p}
        d.update(('x%d' % i, f.x) for i, f in enumerate(o.filters))
        d.update(('P%d' % i, f.P) for i, f in enumerate(o.filters))
    else:
        d = {a: getattr(o, a) for a in STATE[w.cls][0]}
    return {k: np.array(v, float) for k, v in d.items()}


def sane(w):
    for v in visible(w).values():
        if not np.all(np.isfinite(v)) or v.size and np.max(np.abs(v)) > 1e6:
            return False
    return True


def rebuild(w, sb, src):
    """a new object given the public state and model of w's object"""
    v = type(w)(np.random.default_rng(sb), world.Handed(), copy.deepcopy(src))
    o = w.obj
    if w.cls in BANKS:
        for f, q in zip(v.obj.filters, o.filters):
            put(f, q, ('x', 'P') + KFM + ('M', 'alpha'))
        fs = v.obj.filters
        if w.cls == 'IMMEstimator':
            v.obj = type(o)(fs, np.array(o.mu, float), np.array(o.M))
        else:
            v.obj = type(o)(fs, np.array(o.p, float), w.src.n, copy.deepcopy(o.H))
        return v
    st, mo = STATE[w.cls]
    put(v.obj, o, mo)
    put(v.obj, o, st)
    return v


def drive(ctx, what, w, v, ops):
    for s in ops:
        w.act(np.random.default_rng(s))
        if not sane(w):
            return
        v.act(np.random.default_rng(s))
        ctx.event('operate', cls=w.cls)
        same(ctx, what, visible(w), visible(v), w.cls)


def pick(rng, names):
    c = [W for W in world.ALL if W.cls in names]
    return c[int(rng.integers(0, len(c)))]


def start(rng, W):
    sb = seeds(rng, 1)[0]
    src = W.source(W, np.random.default_rng(sb + 1))
    w = W(np.random.default_rng(sb), world.Handed(), copy.deepcopy(src))
    return w, sb, src


def resume(ctx, rng):
    """rebuilt from the public state at a random point"""
    W = pick(rng, tuple(STATE) + BANKS)
    w, sb, src = start(rng, W)
    k = int(rng.integers(0, 12))
    ctx.describe(cls=W.cls, k=k, n=np.size(w.obj.x), m=w.src.m, du=w.src.du)
    for _ in range(k):
        w.act(rng)
    if not sane(w):
        return
    v = rebuild(w, sb, src)
    ctx.event('rebuild', cls=W.cls)
    if W.cls not in BANKS:                                   # a bank's combined estimate is formed by its next call
        same(ctx, 'rebuilt object shows the state it was given', visible(w), visible(v), W.cls)
    drive(ctx, 'a rebuilt object continues like the original', w, v, seeds(rng, int(rng.integers(1, 7))))


def pasts(ctx, rng):
    """two objects with different pasts, brought to the same public state"""
    W = pick(rng, tuple(STATE))
    w, sb, src = start(rng, W)
    v = W(np.random.default_rng(sb), world.Handed(), copy.deepcopy(src))
    ctx.describe(cls=W.cls)
    for o in (w, v):
        for _ in range(int(rng.integers(0, 8))):
            o.act(rng)
    if not sane(w):
        return
    st, mo = STATE[W.cls]
    put(v.obj, w.obj, mo)
    put(v.obj, w.obj, st)
    ctx.event('align', cls=W.cls)
    drive(ctx, 'the past matters only through the public state', w, v, seeds(rng, int(rng.integers(1, 7))))


class Lin(object):
    """a linear model that can be pickled"""

    def __init__(self, A):
        self.A = A

    def __call__(self, x, dt=None, c=1.):
        return self.A @ x * c


def pickled(ctx, rng):
    """stored to bytes and restored at a random point"""
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    w, sb, src = start(rng, W)
    if W.cls in ('UnscentedKalmanFilter', 'CubatureKalmanFilter', 'EnsembleKalmanFilter'):
        w.obj.fx, w.obj.hx = Lin(w.src.F), Lin(w.src.H)
    k = int(rng.integers(0, 10))
    ctx.describe(cls=W.cls, k=k, n=np.size(w.obj.x), m=w.src.m, du=w.src.du)
    for _ in range(k):
        w.act(rng)
    frozen = world.snap(w.obj)
    b = pickle.dumps(w.obj, int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1)))
    same(ctx, 'storing changes nothing', frozen, world.snap(w.obj), W.cls)
    v = copy.copy(w)
    v.obj = pickle.loads(b)
    ctx.event('pickle', cls=W.cls)
    drop = lambda d: {q: r for q, r in d.items() if q not in ('fx', 'hx')}     # noqa
    same(ctx, 'a restored object equals the stored one', drop(frozen), drop(world.snap(v.obj)), W.cls)
    for s in seeds(rng, int(rng.integers(1, 6))):
        r = w.act(np.random.default_rng(s))
        q = v.act(np.random.default_rng(s))
        ctx.event('operate', cls=W.cls)
        same(ctx, 'a restored object continues like the stored one', drop(world.snap(w.obj)), drop(world.snap(v.obj)), W.cls)
        same(ctx, 'results of a restored object', {'r': r}, {'r': q}, W.cls)


SCENARIOS = [(resume, 4000, 120000), (pasts, 4000, 120000), (pickled, 2000, 60000)]
