"""C12: the fixed-lag smoother returns the estimate of step k-N given data up to step k"""
import numpy as np
from .. import gen
from ..drive import lay
from ..refs import ls_posterior, RefKF

ANCHORS = ['filterpy/kalman/fixed_lag_smoother.py']
RULE = ('Random asymmetric models with controls; after random prefixes of the record every stored smoothed estimate is '
        'compared with solving the whole least-squares problem of the data it may depend on.')


def _make(s, N, nd):
    from filterpy.kalman import FixedLagSmoother
    f = FixedLagSmoother(s.n, s.m, N=N)
    f.x, f.P, f.F, f.Q, f.H, f.R = lay(s.x0, nd), s.P0.copy(), s.F.copy(), s.Q.copy(), s.H.copy(), s.R.copy()
    if s.du:
        f.B = s.B.copy()
    return f


def _record(rng, s, T, nd, control):
    zs, us, steps = [], [], []
    for _ in range(T):
        Bu, u = np.zeros(s.n), None
        if control:
            u = s.newu()
            Bu = s.B @ u
        s.step(s.F, Bu)
        z = s.z()
        zs.append(z)
        us.append(u)
        steps += [('p', s.F, s.Q, Bu), ('u', s.H, s.R, z)]
    return zs, us, steps


def _expect(s, steps, T, N):
    """estimate of every state i<T given measurements up to min(T-1, i+N)"""
    cache, out = {}, []
    for i in range(T):
        j = min(T - 1, i + N)
        if j not in cache:
            cache[j] = ls_posterior(steps[:2 * (j + 1)], s.x0, s.P0)
        out.append(cache[j][i + 1][0])
    return out


def online(ctx, rng):
    """one measurement at a time"""
    s = gen.WellSys(rng, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)))
    nd = int(rng.choice([1, 2]))
    N = int(rng.integers(0, 8)) if rng.random() < .9 else int(rng.integers(8, 20))
    T = gen.length(rng, 1, 14, 30)
    control = s.du > 0 and rng.random() < .6
    f = _make(s, N, nd)
    zs, us, steps = _record(rng, s, T, nd, control)
    ref = RefKF(s.x0, s.P0)
    ctx.describe(n=s.n, m=s.m, nd=nd, N=N, T=T, control=control)
    look = set(int(v) for v in rng.integers(1, T + 1, 3)) | {T}
    mag = max(1e-6, float(np.max(np.abs(s.x0))))
    old, kept = None, None
    for k in range(T):
        z = zs[k]
        arg = lay(z, nd) if s.m > 1 or rng.random() < .5 else float(z[0])
        if control:
            f.smooth(arg, u=lay(us[k], nd))
        else:
            f.smooth(arg)
        ctx.event('smooth')
        ref.predict(s.F, s.Q, steps[2 * k][3])
        c = ref.update(s.H, s.R, z)
        mag = max(mag, float(np.max(np.abs(ref.x))), float(np.max(np.abs(z))))
        ctx.close('filtered state', f.x, ref.x, 1e-7, mag, flat=True)
        ctx.shape('state layout', f.x, (s.n,) if nd == 1 else (s.n, 1))
        ctx.close('filtered covariance', f.P, ref.P, 1e-7)
        ctx.close('innovation covariance', f.S, c['S'], 1e-7)
        ctx.close('residual', f.y, c['y'], 1e-7, mag * s.n * (1 + np.abs(s.H).max()), flat=True)
        ctx.true('one smoothed state per step', len(f.xSmooth) == k + 1, len(f.xSmooth))
        if k + 1 in look:
            exp = _expect(s, steps, k + 1, N)
            for i in range(k + 1):
                ctx.close('smoothed state [%s]' % ('final' if i + N <= k else 'recent'), f.xSmooth[i], exp[i], 1e-6,
                          mag, flat=True)
                ctx.shape('smoothed state layout', f.xSmooth[i], (s.n,) if nd == 1 else (s.n, 1))
        if old is not None and k - N - 1 >= 0 and k - N - 1 < len(old):
            i = k - N - 1
            ctx.true('estimates older than the lag are final', np.array_equal(f.xSmooth[i], old[i]))
        old = [np.array(v) for v in f.xSmooth]


def batch(ctx, rng):
    """a whole batch equals the theory and the step-by-step use"""
    s = gen.WellSys(rng, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)))
    nd = int(rng.choice([1, 2]))
    N = int(rng.integers(0, 8)) if rng.random() < .9 else int(rng.integers(8, 20))
    T = gen.length(rng, 1, 14, 30)
    control = s.du > 0 and rng.random() < .6
    zs, us, steps = _record(rng, s, T, nd, control)
    a = _make(s, N if rng.random() < .5 else None, nd)
    b = _make(s, N, nd)
    ctx.describe(n=s.n, m=s.m, nd=nd, N=N, T=T, control=control)
    args = [lay(z, nd) if s.m > 1 or rng.random() < .5 else float(z[0]) for z in zs]
    kw = {'us': [lay(u, nd) for u in us]} if control else {}
    xs, xhat = a.smooth_batch(args, N, **kw)
    ctx.event('batch', N=N, T=T)
    shp = (T, s.n) if nd == 1 else (T, s.n, 1)
    ctx.shape('smoothed shape', xs, shp)
    ctx.shape('filtered shape', xhat, shp)
    exp = _expect(s, steps, T, N)
    ref = RefKF(s.x0, s.P0)
    mag = max(1e-6, float(np.max(np.abs(s.x0))), max(float(np.max(np.abs(z))) for z in zs),
              float(np.max(np.abs(xhat))))
    for k in range(T):
        ref.predict(s.F, s.Q, steps[2 * k][3])
        ref.update(s.H, s.R, zs[k])
        ctx.close('filtered state', xhat[k], ref.x, 1e-7, mag, flat=True)
        ctx.close('smoothed state', xs[k], exp[k], 1e-6, mag, flat=True)
        b.smooth(lay(zs[k], nd), **({'u': lay(us[k], nd)} if control else {}))
    for k in range(T):
        ctx.close('batch equals step by step', xs[k], b.xSmooth[k], 1e-9, mag)


def longlag(ctx, rng):
    """lags and records of dozens of steps"""
    s = gen.WellSys(rng, n=int(rng.integers(1, 4)), m=int(rng.integers(1, 3)))
    nd = int(rng.choice([1, 2]))
    N = int(rng.integers(20, 70)) if rng.random() < .8 else int(rng.integers(70, 200))
    T = int(rng.integers(25, 110))
    f = _make(s, N, nd)
    g = _make(s, None, nd)
    zs, us, steps = _record(rng, s, T, nd, s.du > 0)
    ctx.describe(n=s.n, m=s.m, nd=nd, N=N // 10, T=T // 10)
    mag = max(1e-6, float(np.max(np.abs(s.x0))), max(float(np.max(np.abs(z))) for z in zs))
    for z, u in zip(zs, us):
        f.smooth(lay(z, nd), u=None if u is None else lay(u, nd))
    ctx.event('smooth', N=N, T=T)
    xs, xh = g.smooth_batch([lay(z, nd) for z in zs], N, us=[lay(u, nd) for u in us] if s.du else None)
    mag = max(mag, float(np.max(np.abs(xh))))
    ctx.true('one smoothed state per step', len(f.xSmooth) == len(xs) == T, len(f.xSmooth))
    for i in {0, T - 1, *(int(v) for v in rng.integers(0, T, 2))}:
        j = min(T - 1, i + N)
        want = ls_posterior(steps[:2 * (j + 1)], s.x0, s.P0)[i + 1][0]
        ctx.close('smoothed state', f.xSmooth[i], want, 1e-6, mag, flat=True)
        ctx.close('smoothed state [batch]', xs[i], want, 1e-6, mag, flat=True)


SCENARIOS = [(longlag, 80, 2000), (online, 1800, 30000), (batch, 1800, 30000)]
