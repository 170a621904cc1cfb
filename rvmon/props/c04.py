"""C04: batch filtering equals the loop of single steps"""
import copy
import warnings
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay
from ..gen import col

ANCHORS = ['filterpy/kalman/kalman_filter.py', 'filterpy/kalman/fading_memory.py', 'filterpy/kalman/UKF.py',
           'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py']
RULE = ('A batch call on one filter and a loop of single steps on a twin, with random subsets of per-step '
        'matrices, controls, missing measurements and both orders; every returned array and the final state compared, '
        'and a recording stand-in counts and inspects every save().')


class Rec(object):
    """recorder stand-in: notes the state at every save()"""

    def __init__(self, obj=None):
        self.obj, self.log = obj, []

    def save(self):
        o = self.obj
        self.log.append(None if o is None else (np.array(o.x, float), np.array(o.P, float)))


def _maybe(rng, p=.5):
    return rng.random() < p


def _draws(rng, new, n):
    """n per-step values; the list sometimes repeats the very same objects, as [R]*n does"""
    if n > 1 and rng.random() < .3:
        pool = [new() for _ in range(int(rng.integers(1, 3)))]
        return [pool[int(rng.integers(len(pool)))] for _ in range(n)]
    return [new() for _ in range(n)]


def _seq(rng, items):
    """a per-step argument as list, tuple or (if stackable) array"""
    k = rng.random()
    if k < .6:
        return items
    if k < .75:
        return tuple(items)
    try:
        a = np.array(items, dtype=float)
    except (ValueError, TypeError):
        return items
    return a


def linear(ctx, rng):
    """KalmanFilter.batch_filter"""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    a = make_kf(s, nd)
    if _maybe(rng, .2):
        a.alpha = 1.1
    b = copy.deepcopy(a)
    n = gen.far(rng, gen.length(rng, 1, 9, 40))
    uf = _maybe(rng)
    kw = {}
    per = {k: [None] * n for k in ('F', 'Q', 'H', 'R', 'B', 'u')}
    for k in ('F', 'Q', 'R', 'B', 'H'):
        if k == 'B' and not s.du:
            continue
        if _maybe(rng, .45):
            per[k] = _draws(rng, getattr(s, 'new' + k), n)
            kw[k + 's'] = _seq(rng, copy.deepcopy(per[k]))
    if s.du and _maybe(rng, .6):
        per['u'] = _draws(rng, lambda: lay(s.newu(), nd), n)
        if _maybe(rng, .2):
            per['u'][rng.integers(n)] = None
        kw['us'] = copy.deepcopy(per['u'])
    zs, loop = [], []
    const = _maybe(rng, .1) and 'Hs' not in kw
    for i in range(n):
        if const and zs and zs[-1] is not None:
            zs.append(zs[-1])                                              # one reading object in every slot
            loop.append(copy.deepcopy(zs[-1]))
            continue
        s.step()
        if _maybe(rng, .2):
            zs.append(None)
            loop.append(None)
            continue
        H = s.H if per['H'][i] is None else per['H'][i]
        z = s.z(H)
        if per['H'][i] is not None:
            v = lay(z, nd)
        else:
            v = gen.zform(rng, z)[1]
        zs.append(v)
        loop.append(copy.deepcopy(v))
    rec = Rec(a) if _maybe(rng) else None
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, N=n, uf=uf, per=sorted(kw), none=sum(z is None for z in zs))
    if rec is not None:
        kw['saver'] = rec
    if uf or _maybe(rng):
        kw['update_first'] = uf
    M, C, Mp, Cp = gen.call(rng, a.batch_filter, ['Fs', 'Qs', 'Hs', 'Rs', 'Bs', 'us', 'update_first', 'saver'], kw,
                            (zs,), {'update_first': False})
    ctx.event('batch', N=n)
    shp = (n, s.n) if nd == 1 else (n, s.n, 1)
    for what, v, w in (('means', M, shp), ('prior means', Mp, shp), ('covariances', C, (n, s.n, s.n)),
                       ('prior covariances', Cp, (n, s.n, s.n))):
        ctx.shape(what + ' shape', v, w)

    def pr(i):
        k = {q: per[q][i] for q in 'FQB' if per[q][i] is not None}
        b.predict(per['u'][i], **k)

    def up(i):
        k = {q: per[q][i] for q in 'RH' if per[q][i] is not None}
        b.update(loop[i], **k)
    for i in range(n):
        if uf:
            up(i)
            x, P = b.x.copy(), b.P.copy()
            pr(i)
            xp, Pp = b.x.copy(), b.P.copy()
        else:
            pr(i)
            xp, Pp = b.x.copy(), b.P.copy()
            up(i)
            x, P = b.x.copy(), b.P.copy()
        ctx.event('step', z=loop[i] is not None)
        sc = max(1e-6, float(np.max(np.abs(x))), float(np.max(np.abs(xp))))
        ctx.close('mean', M[i], x, 1e-9, sc)
        ctx.close('prior mean', Mp[i], xp, 1e-9, sc)
        ctx.close('covariance', C[i], P, 1e-9)
        ctx.close('prior covariance', Cp[i], Pp, 1e-9)
        if rec is not None and i < len(rec.log):
            ctx.close('recorded state', rec.log[i][0], b.x, 1e-9, sc)
            ctx.close('recorded covariance', rec.log[i][1], b.P, 1e-9)
    if rec is not None:
        ctx.true('recorder triggered once per epoch', len(rec.log) == n, len(rec.log))
    for k in ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'K', 'S'):
        w = getattr(b, k)
        ctx.close('final ' + k, getattr(a, k), w, 1e-8, max(1e-6, float(np.max(np.abs(w))), s.s if k == 'y' else 0),
                  flat=k == 'y')
    for k in ('F', 'Q', 'H', 'R', 'B'):
        v, w = getattr(a, k), getattr(b, k)
        ctx.true('model attributes untouched', (v is None and w is None) or np.array_equal(v, w), k)


def real_saver(ctx, rng):
    """the library's own recorder in batch calls of the linear and unscented filters"""
    from filterpy.common import Saver
    s = gen.WellSys(rng, n=gen.dim(rng, 4), du=0)
    kind = str(rng.choice(['kf', 'ukf', 'hinf']))
    n = int(rng.integers(1, 8))
    ctx.describe(kind=kind, n=s.n, m=s.m, N=n)
    if kind == 'hinf':
        a = _hinf(rng, s)
        zs = [None if _maybe(rng, .15) else col(s.z()) for _ in range(n)]
    elif kind == 'kf':
        a = make_kf(s, int(rng.choice([1, 2])))
        zs = [None if _maybe(rng, .15) else s.z() for _ in range(n)]
    else:
        a = zoo.UKF(rng, s).f
        zs = [None if _maybe(rng, .15) else s.z() for _ in range(n)]
    sv = Saver(a)
    if kind == 'hinf':
        out = a.batch_filter(zs, saver=sv)
    else:
        out = a.batch_filter(zs, saver=sv)
    ctx.event('batch')
    ctx.true('one record per epoch', len(sv) == n and len(sv.x) == n and len(sv.P) == n, len(sv))
    for i in range(n):
        ctx.close('recorded mean', sv.x[i], out[0][i], 1e-12, max(1e-6, float(np.max(np.abs(out[0][i])))))
        ctx.close('recorded covariance', sv.P[i], out[1][i], 1e-12)


def procedural(ctx, rng):
    """module-level batch_filter against a loop of the stateless functions"""
    from filterpy.kalman import kalman_filter as K
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    n = gen.far(rng, gen.length(rng, 1, 9, 40))
    uf = _maybe(rng)
    Fs, Qs, Hs, Rs = (_draws(rng, getattr(s, 'new' + k), n) for k in 'FQHR')
    kw, us, Bs = {}, [0.] * n, [0.] * n
    if s.du and _maybe(rng, .6):
        us = _draws(rng, lambda: lay(s.newu(), nd), n)
        Bs = _draws(rng, s.newB, n)
        kw = dict(us=copy.deepcopy(us), Bs=copy.deepcopy(Bs))
    zs = []
    for i in range(n):
        s.step()
        zs.append(None if _maybe(rng, .2) else gen.zform(rng, s.z(Hs[i]))[1])
    rec = Rec() if _maybe(rng) else None
    if rec is not None:
        kw['saver'] = rec
    x, P = lay(s.x0, nd), s.P0.copy()
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, N=n, uf=uf, u='us' in kw, none=sum(z is None for z in zs))
    M, C, Mp, Cp = K.batch_filter(x.copy(), P.copy(), *copy.deepcopy([zs, Fs, Qs, Hs, Rs]), update_first=uf, **kw)
    ctx.event('batch', N=n)
    ctx.shape('means shape', M, (n, s.n) if nd == 1 else (n, s.n, 1))
    ctx.shape('prior means shape', Mp, (n, s.n) if nd == 1 else (n, s.n, 1))
    for i in range(n):
        def up(x, P):
            return K.update(x, P, zs[i], Rs[i], Hs[i])

        def pr(x, P):
            return K.predict(x, P, Fs[i], Qs[i], us[i], Bs[i])
        if uf:
            x, P = up(x, P)
            xe, Pe = x, P
            x, P = pr(x, P)
            xp, Pp = x, P
        else:
            x, P = pr(x, P)
            xp, Pp = x, P
            x, P = up(x, P)
            xe, Pe = x, P
        ctx.event('step', z=zs[i] is not None)
        sc = max(1e-6, float(np.max(np.abs(xe))), float(np.max(np.abs(xp))))
        ctx.close('mean', M[i], xe, 1e-9, sc)
        ctx.close('prior mean', Mp[i], xp, 1e-9, sc)
        ctx.close('covariance', C[i], Pe, 1e-9)
        ctx.close('prior covariance', Cp[i], Pp, 1e-9)
    if rec is not None:
        ctx.true('recorder triggered once per epoch', len(rec.log) == n, len(rec.log))


def fading(ctx, rng):
    """FadingKalmanFilter.batch_filter"""
    from filterpy.kalman import FadingKalmanFilter
    s = gen.LinSys(rng, n=gen.dim(rng, 5), du=0)
    al = float(rng.choice([1., 1.02, 1.3]))
    fs = []
    for i in range(2):
        f = FadingKalmanFilter(al, s.n, s.m)
        f.x, f.P, f.F, f.Q, f.H, f.R = (col(s.x0), s.P0.copy(), s.F.copy(), s.Q.copy(), s.H.copy(), s.R.copy())
        fs.append(f)
    a, b = fs
    n = gen.far(rng, gen.length(rng, 1, 9, 40))
    uf = _maybe(rng)
    Rs = _draws(rng, lambda: None if _maybe(rng, .2) else s.newR() if _maybe(rng, .7) else gen.logu(rng, .1, 2) * s.s ** 2,
                n) if _maybe(rng) else None
    zs = []
    for i in range(n):
        s.step()
        zs.append(None if _maybe(rng, .2) else col(s.z()) if s.m > 1 or _maybe(rng) else float(s.z()[0]))
    ctx.describe(n=s.n, m=s.m, N=n, uf=uf, Rs=Rs is not None, alpha=al)
    M, C, Mp, Cp = a.batch_filter(copy.deepcopy(zs), Rs=copy.deepcopy(Rs), update_first=uf)
    ctx.event('batch', N=n)
    ctx.shape('means shape', M, (n, s.n, 1))
    for i in range(n):
        if not uf:
            b.predict()
            xp, Pp = b.x.copy(), b.P.copy()
        b.update(zs[i], None if Rs is None else Rs[i])
        x, P = b.x.copy(), b.P.copy()
        if uf:
            b.predict()
            xp, Pp = b.x.copy(), b.P.copy()
        ctx.event('step')
        sc = max(1e-6, float(np.max(np.abs(x))), float(np.max(np.abs(xp))))
        ctx.close('mean', M[i], x, 1e-9, sc)
        ctx.close('prior mean', Mp[i], xp, 1e-9, sc)
        ctx.close('covariance', C[i], P, 1e-9)
        ctx.close('prior covariance', Cp[i], Pp, 1e-9)
    ctx.close('final state', a.x, b.x, 1e-9, sc)
    ctx.close('final covariance', a.P, b.P, 1e-9)


def unscented(ctx, rng):
    """UnscentedKalmanFilter.batch_filter on nonlinear models"""
    from filterpy.kalman import UnscentedKalmanFilter, unscented_transform
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A, Cm = gen.trans_inv(rng, n), rng.standard_normal((m, n))
    fx = lambda x, dt: A @ x + dt * .5 * np.sin(x)                   # noqa
    hx = lambda x: Cm @ x + .2 * np.cos(Cm @ x)                      # noqa
    _, pts = zoo.points(rng, n, ('julier', 'simplex', 'merwe'))
    P0, Q, R = gen.spd(rng, n, .1, 2), gen.spd(rng, n, .05, 1), gen.spd(rng, m, .1, 2)
    x0 = rng.standard_normal(n)
    fs = []
    for i in range(2):
        f = UnscentedKalmanFilter(n, m, .5, hx, fx, pts)
        f.x, f.P, f.Q, f.R = x0.copy(), P0.copy(), Q.copy(), R.copy()
        fs.append(f)
    a, b = fs
    N = gen.far(rng, gen.length(rng, 1, 9, 20), 30, 120)
    kw, Rs, dts = {}, [None] * N, [None] * N
    if _maybe(rng):
        Rs = _draws(rng, lambda: gen.spd(rng, m, .1, 2) if _maybe(rng, .7) else gen.logu(rng, .1, 2), N)
        kw['Rs'] = copy.deepcopy(Rs)
    d = rng.random()
    if d < .4:
        dts = [gen.dtv(rng, .05, 1.5) for _ in range(N)]
        kw['dts'] = list(dts)
    elif d < .6:
        dts = [gen.dtv(rng, .05, 1.5)] * N
        kw['dts'] = dts[0]
    calls = []
    if _maybe(rng, .2):
        def ut(*a_, **k_):
            calls.append(1)
            return unscented_transform(*a_, **k_)
        kw['UT'] = ut
    zs = []
    for i in range(N):
        z = hx(x0 + rng.standard_normal(n)) + rng.standard_normal(m)
        zs.append(None if _maybe(rng, .2) else (float(z[0]) if m == 1 and _maybe(rng) else z))
    if m == 1 and not all(np.ndim(z) == 0 or z is None for z in zs):
        zs = [None if z is None else np.atleast_1d(z) for z in zs]
    rec = Rec(a) if _maybe(rng) else None
    if rec is not None:
        kw['saver'] = rec
    ctx.describe(n=n, m=m, N=N, kw=sorted(kw), none=[z is None for z in zs], pts=type(pts).__name__)
    M, C = gen.call(rng, a.batch_filter, ['Rs', 'dts', 'UT', 'saver'], kw, (copy.deepcopy(zs),))
    ctx.event('batch', N=N)
    ctx.shape('means shape', M, (N, n))
    ctx.shape('covariances shape', C, (N, n, n))
    for i in range(N):
        b.predict(dt=dts[i])
        b.update(zs[i], R=Rs[i])
        ctx.event('step', z=zs[i] is not None)
        sc = max(1., float(np.max(np.abs(b.x))))
        ctx.close('mean', M[i], b.x, 1e-8, sc)
        ctx.close('covariance', C[i], b.P, 1e-8)
        if rec is not None and i < len(rec.log):
            ctx.close('recorded state', rec.log[i][0], b.x, 1e-8, sc)
    if rec is not None:
        ctx.true('recorder triggered once per epoch', len(rec.log) == N, len(rec.log))
    if 'UT' in kw:
        ctx.true('custom transform used', len(calls) == N + sum(z is not None for z in zs), len(calls))
    ctx.close('final state', a.x, b.x, 1e-8, sc)
    ctx.close('final covariance', a.P, b.P, 1e-8)


def _hinf(rng, s):
    from filterpy.hinfinity import HInfinityFilter
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = HInfinityFilter(s.n, s.m, 0, gamma=float(rng.choice([.001, .01])))
    f.x, f.F, f.H = col(s.x0), s.F.copy(), s.H.copy()
    f.P = gen.spd(rng, s.n, .1, 1)
    f.Q = gen.spd(rng, s.n, .01, .1)
    f.W = gen.spd(rng, s.n, .01, .1)
    f.V = float(rng.uniform(1., 5.)) if s.m == 1 and rng.random() < .5 else gen.spd(rng, s.m, 1., 5.)
    return f


def hinfinity(ctx, rng):
    """HInfinityFilter.batch_filter"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4), m=int(rng.integers(1, 3)), du=0, scale=1.)
    a = _hinf(rng, s)
    b = copy.deepcopy(a)
    n = gen.length(rng, 1, 6, 12)
    uf = _maybe(rng)
    zs = [None if _maybe(rng, .2) else col(s.z()) if s.m > 1 or _maybe(rng) else float(s.z()[0]) for _ in range(n)]
    rec = Rec(a) if _maybe(rng) else None
    ctx.describe(n=s.n, m=s.m, N=n, uf=uf, none=[z is None for z in zs])
    kw = {} if rec is None else {'saver': rec}
    M, C = a.batch_filter(copy.deepcopy(zs), update_first=uf, **kw)
    ctx.event('batch', N=n)
    ctx.shape('means shape', M, (n, s.n, 1))
    for i in range(n):
        if not uf:
            b.predict()
        b.update(zs[i])
        x, P = b.x.copy(), b.P.copy()
        if uf:
            b.predict()
        ctx.event('step')
        if not np.all(np.isfinite(P)) or np.max(np.abs(P)) > 1e8:
            return
        sc = max(1., float(np.max(np.abs(x))))
        ctx.close('mean', M[i], x, 1e-8, sc)
        ctx.close('covariance', C[i], P, 1e-8)
        if rec is not None and i < len(rec.log):
            ctx.close('recorded state', rec.log[i][0], b.x, 1e-8, sc)
    if rec is not None:
        ctx.true('recorder triggered once per epoch', len(rec.log) == n, len(rec.log))
    ctx.close('final state', a.x, b.x, 1e-8, sc)
    ctx.close('final covariance', a.P, b.P, 1e-8)


def gh(ctx, rng):
    """g-h and g-h-k batch calls"""
    from filterpy.gh import GHFilter, GHKFilter
    k3 = _maybe(rng)
    g, h, k = rng.uniform(.05, .9), rng.uniform(.01, .5), rng.uniform(.005, .2)
    dt = gen.logu(rng, .05, 5)
    x, dx, ddx = (float(v) for v in rng.standard_normal(3) * 5)
    if k3:
        a, b = GHKFilter(x, dx, ddx, dt, g, h, k), GHKFilter(x, dx, ddx, dt, g, h, k)
    else:
        a, b = GHFilter(x, dx, dt, g, h), GHFilter(x, dx, dt, g, h)
    n = gen.length(rng, 1, 12, 80)
    data = [float(v) for v in np.cumsum(rng.standard_normal(n)) * 3]
    arg = data if _maybe(rng) else np.array(data)
    sp = _maybe(rng)
    pub = lambda o: dict((k_, copy.deepcopy(v)) for k_, v in vars(o).items() if k_[0] != '_')   # noqa
    before = pub(a)
    ctx.describe(ghk=k3, N=n, sp=sp)
    rec = Rec() if not k3 and _maybe(rng) else None
    out = a.batch_filter(arg, save_predictions=sp, **({} if rec is None else {'saver': rec}))
    ctx.event('batch', N=n)
    res, pred = out if sp else (out, None)
    ctx.shape('results shape', res, (n + 1, 2))
    sc = 1 + np.max(np.abs(data)) + abs(x) + abs(dx) * dt
    ctx.close('initial value returned first', res[0], [x, dx], 1e-14, max(abs(x), abs(dx)))
    if sp:
        ctx.shape('predictions shape', pred, (n,))
    for i, z in enumerate(data):
        b.update(z)
        sx = max(sc, abs(b.x), abs(b.x_prediction))
        ctx.close('position', res[i + 1, 0], b.x, 1e-9, sx)
        ctx.close('velocity', res[i + 1, 1], b.dx, 1e-9, max(abs(b.dx), sx / dt))
        if sp:
            ctx.close('prediction', pred[i], b.x_prediction, 1e-9, sx)
        ctx.event('step')
    after = pub(a)
    ctx.true('filter not modified', sorted(before) == sorted(after) and
             all(np.array_equal(before[k_], after[k_]) for k_ in before))
    if rec is not None:
        ctx.true('recorder triggered once per epoch', len(rec.log) == n)


SCENARIOS = [(linear, 4500, 100000), (real_saver, 750, 10000), (procedural, 3000, 60000), (fading, 2250, 40000),
             (unscented, 1800, 30000), (hinfinity, 1200, 20000), (gh, 2250, 40000)]
