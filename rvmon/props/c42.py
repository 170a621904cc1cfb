"""C42: memory and work do not grow with the length of the run"""
import functools
import gc
import sys
import tracemalloc
import types
import weakref
import numpy as np
from .. import gen, world
from .c31 import seeds
from .c37 import library

ANCHORS = ['filterpy/kalman/%s.py' % m for m in (
    'kalman_filter', 'EKF', 'UKF', 'CubatureKalmanFilter', 'ensemble_kalman_filter', 'square_root', 'information_filter',
    'fading_memory', 'fixed_lag_smoother', 'IMM', 'mmae', 'sigma_points', 'unscented_transform')] + [
    'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/memory/fading_memory.py',
    'filterpy/leastsq/least_squares.py', 'filterpy/stats/stats.py', 'filterpy/common/helpers.py']
RULE = ('Long runs of every class, and many calls of the library functions: size of the object and of the modules of the library, memory '
        'allocated by library code, lines executed per step and data kept alive are measured early and late in the run; discarded objects '
        'must be released.')
ATOM = (int, float, complex, str, bytes, bool, type(None), np.generic, np.dtype, np.ufunc)
RESULT = {'FixedLagSmoother': ('xSmooth',)}                   # documented to hold the whole history


def size(root, skip=()):
    """(number of objects, numbers held) reachable from root without leaving through modules or classes"""
    seen, n, q = set(), 0, 0
    stack = [root]
    first = True
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        if isinstance(v, ATOM):
            n += 1
            continue
        seen.add(id(v))
        n += 1
        if isinstance(v, np.ndarray):
            q += v.size
            if v.base is not None:
                stack.append(v.base)
            if v.dtype == object:
                stack.extend(v.ravel().tolist())
        elif isinstance(v, dict):
            stack.extend(v.keys())
            stack.extend(v.values())
        elif isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == 'deque':
            stack.extend(v)
        elif isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, types.ModuleType)):
            if isinstance(v, types.FunctionType) and (v.__module__ or '').startswith('filterpy'):
                stack.extend(v.__defaults__ or ())
                stack.extend((v.__kwdefaults__ or {}).values())
                stack.extend(v.__dict__.values())
                for c in v.__closure__ or ():
                    try:
                        stack.append(c.cell_contents)
                    except ValueError:
                        pass
        elif hasattr(v, 'cache_info'):
            n += v.cache_info().currsize
        elif isinstance(v, functools.partial):
            stack.extend([v.func, v.args, v.keywords])
        elif hasattr(v, '__dict__'):
            d = vars(v)
            stack.extend(k for k in d)
            stack.extend(d[k] for k in d if not (first and k in skip))
        first = False
    return n, q


def modules():
    """everything kept by the modules and classes of the library"""
    out = []
    for k, m in sorted(sys.modules.items()):
        if k.split('.')[0] != 'filterpy' or m is None or '.tests' in k:
            continue
        for a, v in sorted(vars(m).items()):
            if a.startswith('__') and a != '__warningregistry__' or isinstance(v, types.ModuleType):
                continue
            out.append(v)
            if isinstance(v, type) and (v.__module__ or '').startswith('filterpy'):
                for b, u in sorted(vars(v).items()):
                    if b in ('__dict__', '__weakref__', '__doc__'):
                        continue
                    out.append(u.fget if isinstance(u, property) else u.__func__ if isinstance(u, (staticmethod, classmethod)) else u)
    return out


class Refs(world.Handed):
    """remembers what is handed over without keeping it alive"""

    def __init__(self):
        self.items = []
        self.refs = []

    def __call__(self, v, label='argument'):
        if isinstance(v, np.ndarray):
            v = v.copy()
            self.refs.append(weakref.ref(v))
        elif isinstance(v, list):
            return [self(i, label) for i in v]
        return v

    def alive(self, upto):
        self.refs[:upto] = [r for r in self.refs[:upto] if r() is not None]


def sane(w):
    for k in ('x', 'P'):
        v = getattr(w.obj, k, 0.)
        a = np.asarray(v, float)
        if not np.all(np.isfinite(a)) or a.size and np.max(np.abs(a)) > 1e9:
            return False
    return True


def act(w, rng):
    """an operation; calling it may fail only where the run has left the range in which it is well defined"""
    w.act(rng)
    return sane(w)


def lines(f):
    """lines of library code executed by f"""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if 'filterpy' in frame.f_code.co_filename and event == 'call' else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        f()
    finally:
        sys.settrace(old)
    return n[0]


def pick(rng):
    return world.ALL[int(rng.integers(0, len(world.ALL)))]


EARLY, LATE = 40, 80


def longrun(ctx, rng):
    """size of the object, of the library and of what it keeps, early and late in a long run"""
    W = pick(rng)
    g = Refs()
    w = W(rng, g)
    ctx.describe(cls=W.cls, n=np.size(w.obj.x), m=w.src.m, du=w.src.du)
    skip = RESULT.get(W.cls, ())
    top = {}
    for phase in ('early', 'late'):
        best = [0, 0, 0, 0]
        for i in range(EARLY if phase == 'early' else LATE):
            if not act(w, rng):
                return
            ctx.event('operate', cls=W.cls)
            a = size(w.obj, skip)
            best = [max(best[0], a[0]), max(best[1], a[1])] + best[2:]
        b = size(modules())
        best[2], best[3] = b
        top[phase] = best
        if phase == 'early':
            old = len(g.refs)
    e, l = top['early'], top['late']
    ctx.true('the object does not grow', l[0] <= e[0] + 25 and l[1] <= e[1] + 40, lambda: '%s: objects %d -> %d, numbers %d -> %d after %d more '
             'operations' % (W.cls, e[0], l[0], e[1], l[1], LATE))
    ctx.true('the library does not grow', l[2] <= e[2] + 25 and l[3] <= e[3] + 40, lambda: '%s: objects %d -> %d, numbers %d -> %d after %d more '
             'operations' % (W.cls, e[2], l[2], e[3], l[3], LATE))
    gc.collect()
    if not skip:
        n = len(g.refs)
        late = sum(r() is not None for r in g.refs[max(n - 1, 0) - (n - old) // 2:])
        keep = sum(r() is not None for r in g.refs)
        ctx.true('data handed over are not hoarded', keep <= 24, lambda: '%s: %d of %d arrays handed over are kept alive (%d recent)'
                 % (W.cls, keep, n, late))


def work(ctx, rng):
    """the same operation costs the same work early and late"""
    W = pick(rng)
    w = W(rng, Refs())
    ctx.describe(cls=W.cls, n=np.size(w.obj.x), m=w.src.m)
    s = seeds(rng, 4)

    def cost():
        out = []
        for v in s:
            out.append(lines(lambda: w.act(np.random.default_rng(v))))
            if not sane(w):
                return None
        return out
    for _ in range(3):
        if not act(w, rng):
            return
    a = cost()
    if a is None:
        return
    for _ in range(60):
        if not act(w, rng):
            return
    b = cost()
    if b is None:
        return
    ctx.event('measure', cls=W.cls, early=a, late=b)
    for p, q in zip(a, b):
        ctx.true('the work of a step does not grow', q <= 1.5 * p + 40, lambda: '%s: %d lines of library code early, %d after 60 more operations'
                 % (W.cls, p, q))


def released(ctx, rng):
    """discarded objects are released, and what was handed to them"""
    W = pick(rng)
    g = Refs()
    w = W(rng, g)
    k = int(rng.integers(0, 10))
    ctx.describe(cls=W.cls, k=k)
    for _ in range(k):
        if not act(w, rng):
            return
    repr(w.obj)
    if rng.random() < .3:
        from filterpy.common import Saver
        s = Saver(w.obj)
        s.save()
        del s
    r = weakref.ref(w.obj)
    inner = [weakref.ref(f) for f in getattr(w.obj, 'filters', [])]
    w.src = None
    del w
    gc.collect()
    ctx.event('discard', cls=W.cls)
    ctx.true('a discarded object is released', r() is None and all(i() is None for i in inner), W.cls)
    ctx.true('data handed to a discarded object are released', not any(q() is not None for q in g.refs), W.cls)


def traced(ctx, rng):
    """memory allocated by library code during a long run and not released"""
    W = pick(rng)
    w = W(rng, Refs())
    ctx.describe(cls=W.cls)
    if RESULT.get(W.cls):
        return
    T = 80
    for _ in range(10):
        if not act(w, rng):
            return
    flt = [tracemalloc.Filter(True, '*/filterpy/*', all_frames=True)]
    tracemalloc.start(12)
    try:
        for _ in range(T // 2):
            if not act(w, rng):
                return
        gc.collect()
        a = sum(s.size for s in tracemalloc.take_snapshot().filter_traces(flt).statistics('filename'))
        for _ in range(T):
            if not act(w, rng):
                return
        gc.collect()
        b = sum(s.size for s in tracemalloc.take_snapshot().filter_traces(flt).statistics('filename'))
    finally:
        tracemalloc.stop()
    ctx.event('trace', cls=W.cls, early=a, late=b)
    ctx.true('memory allocated by library code does not grow', b <= a + 32 * T, lambda: '%s: %d bytes after %d operations, %d after %d'
             % (W.cls, a, T // 2, b, T // 2 + T))


def calls(ctx, rng):
    """many calls of library functions leave the library as large as it was"""
    import warnings
    T = 60
    ctx.describe(T=T)

    def run():
        for _ in range(T):
            quiet, noisy, _ = library(rng)
            fs = quiet + noisy
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for k in rng.permutation(len(fs))[:10]:
                    fs[k][1]()
                    ctx.event('call')
    run()
    a = size(modules())
    run()
    run()
    b = size(modules())
    ctx.true('library functions keep nothing of what they are called with', b[0] <= a[0] + 60 and b[1] <= a[1] + 100,
             lambda: 'objects %d -> %d, numbers %d -> %d after %d calls' % (a[0], b[0], a[1], b[1], 20 * T))


SCENARIOS = [(longrun, 500, 12000), (work, 500, 12000), (released, 900, 20000), (traced, 200, 4000), (calls, 24, 400)]
