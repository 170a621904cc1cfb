"""C07: independent measurements fused jointly, one by one, in any order"""
import copy
import numpy as np
import scipy.linalg as sla
from .. import gen, zoo
from ..drive import make_kf, lay
from ..gen import col
from ..refs import condition

ANCHORS = ['filterpy/kalman/%s.py' % f for f in ('kalman_filter', 'square_root', 'information_filter', 'EKF')]
RULE = ('A set of measurement groups with mutually independent noise is fused in one stacked update, in several random '
        'orders and partitions, and by the sequential update; all results are compared with one another and with '
        'dense Gaussian conditioning.')


def _groups(rng, s):
    """random block structure: list of (H_i, R_i, z_i)"""
    k = int(rng.integers(1, 5))
    out = []
    for _ in range(k):
        m = int(rng.integers(1, 4))
        H = s.newH(m)
        R = s.newR(m)
        out.append((H, R, s.z(H, R)))
    return out


def _stack(gs):
    return (np.vstack([g[0] for g in gs]), sla.block_diag(*[g[1] for g in gs]), np.concatenate([g[2] for g in gs]))


def _scale(s, gs):
    return max(1e-6, float(np.max(np.abs(s.x0))), max(float(np.max(np.abs(g[2]))) for g in gs),
               float(np.sqrt(np.max(s.P0))))


def _merge(rng, gs):
    """random order, neighbours randomly stacked"""
    gs = [gs[i] for i in rng.permutation(len(gs))]
    out = [[gs[0]]]
    for g in gs[1:]:
        (out[-1].append(g) if rng.random() < .4 else out.append([g]))
    return [_stack(b) for b in out]


def overrides(ctx, rng):
    """KalmanFilter.update with H and R overrides in any partition and order; stateless update likewise"""
    from filterpy.kalman import update
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    s.step()
    gs = _groups(rng, s)
    H, R, z = _stack(gs)
    a = make_kf(s, nd)
    a.predict()
    pre = copy.deepcopy(a)
    a.update(lay(z, nd), R=R, H=H)
    c = condition(pre.x, pre.P, H, R, z)
    sc = _scale(s, gs)
    ctx.describe(n=s.n, nd=nd, groups=[len(g[2]) for g in gs])
    ctx.close('joint update: state', a.x, c['x'], 1e-6, sc, flat=True)
    ctx.close('joint update: covariance', a.P, c['P'], 1e-6, np.max(np.abs(pre.P)))
    for _ in range(3):
        b = copy.deepcopy(pre)
        parts = _merge(rng, gs)
        x, P = pre.x.copy(), pre.P.copy()
        lls = 0.
        for Hi, Ri, zi in parts:
            b.update(lay(zi, nd), R=Ri.copy(), H=Hi.copy())
            lls += b.log_likelihood
            x, P = update(x, P, lay(zi, nd), Ri, Hi)
        ctx.event('order', parts=[len(p[2]) for p in parts])
        ctx.close('any order: state', b.x, a.x, 1e-6, sc, flat=True)
        ctx.close('any order: covariance', b.P, a.P, 1e-6, np.max(np.abs(pre.P)))
        ctx.close('any order: total log-likelihood', lls, a.log_likelihood, 1e-6, 10 + abs(a.log_likelihood))
        ctx.close('stateless, any order: state', x, a.x, 1e-6, sc, flat=True)
        ctx.close('stateless, any order: covariance', P, a.P, 1e-6, np.max(np.abs(pre.P)))


def attributes(ctx, rng):
    """same-size groups through every formulation, models switched by attributes"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4), m=int(rng.integers(1, 4)), du=0)
    cls = (zoo.KF, zoo.SR, zoo.Info, zoo.EKF)[rng.integers(4)]
    ad = cls(rng, s)
    ad.predict()
    s.step()
    x, P = ad.x.copy(), ad.P.copy()
    k = int(rng.integers(2, 5))
    gs = []
    for _ in range(k):
        H, R = s.newH(), s.newR()
        gs.append((H, R, s.z(H, R)))
    c = condition(x, P, *[_stack(gs)[i] for i in (0, 1, 2)])
    sc = _scale(s, gs)
    over = rng.random() < .4
    ctx.describe(filter=ad.name, n=s.n, m=s.m, k=k, over=over)
    for _ in range(2):
        b = copy.deepcopy(ad)
        for i in rng.permutation(k):
            H, R, z = gs[i]
            b.set('H', H)
            if over:
                b.update(z, R)
            else:
                b.set('R', R)
                b.update(z)
        ctx.event('order')
        ctx.close('any order: state', b.x, c['x'], 1e-6, sc)
        ctx.close('any order: covariance', b.P, c['P'], 1e-6, np.max(np.abs(P)))


def joint_forms(ctx, rng):
    """one stacked update of a wide filter equals its rows one by one in narrow filters"""
    n = gen.dim(rng, 4)
    M = int(rng.integers(2, 6))
    s = gen.WellSys(rng, n=n, m=M, du=0)
    s.R = np.diag(np.diag(s.R))
    cls = (zoo.KF, zoo.SR, zoo.Info, zoo.EKF)[rng.integers(4)]
    wide = cls(rng, s)
    wide.predict()
    s.step()
    z = s.z()
    x, P = wide.x.copy(), wide.P.copy()
    wide.update(z)
    t = copy.copy(s)
    t.m = 1
    ctx.describe(filter=wide.name, n=n, M=M)
    sc = max(1e-6, float(np.max(np.abs(x))), float(np.max(np.abs(z))))
    for _ in range(2):
        order = rng.permutation(M)
        t.H, t.R = s.H[:1], s.R[:1, :1]
        b = cls(rng, t)
        b.predict()
        for i in order:
            b.set('H', s.H[i:i + 1])
            b.set('R', s.R[i:i + 1, i:i + 1])
            b.update(z[i:i + 1])
        ctx.event('order')
        ctx.close('rows one by one: state', b.x, wide.x, 1e-6, sc)
        ctx.close('rows one by one: covariance', b.P, wide.P, 1e-6, np.max(np.abs(P)))


def sequential(ctx, rng):
    """update_sequential in consecutive slices equals the joint update"""
    k = int(rng.integers(1, 5))
    sizes = [int(rng.integers(1, 4)) for _ in range(k)]
    m = sum(sizes)
    s = gen.LinSys(rng, n=gen.dim(rng, 5), m=m)
    iso = [rng.random() < .3 for q in sizes]                               # blocks that are a variance times identity
    R = sla.block_diag(*[np.eye(q) * gen.logu(rng, .1, 3.) * s.s ** 2 if e else s.newR(q) for q, e in zip(sizes, iso)])
    s.R = R
    a = make_kf(s, 2)
    b = make_kf(s, 2)
    steps = int(rng.integers(1, 5))
    ctx.describe(n=s.n, sizes=sizes, steps=steps)
    for t in range(steps):
        s.step()
        a.predict()
        b.predict()
        P0 = a.P.copy()
        z = s.z(s.H, R)
        a.update(col(z))
        off = 0
        pos = np.concatenate([[0], np.cumsum(sizes)[:-1]])
        order = rng.permutation(k) if rng.random() < .4 else range(k)
        stop_x = None
        for j in order:
            o, q = int(pos[j]), sizes[j]
            zi = z[o:o + q]
            arg = [col(zi), zi.copy(), zi.tolist()][rng.integers(3)]
            if q == 1 and rng.random() < .5:
                arg = float(zi[0])
            kw = {}
            if rng.random() < .5:
                kw['R_i'] = R[o:o + q, o:o + q].copy()
                if (q == 1 or iso[j]) and rng.random() < .5:
                    kw['R_i'] = float(R[o, o])
            if rng.random() < .5:
                kw['H_i'] = s.H[o:o + q].copy()
                if q == 1 and rng.random() < .5:
                    kw['H_i'] = s.H[o].copy()
            xb, Pb = b.x.copy(), b.P.copy()
            r = condition(xb, Pb, s.H[o:o + q], R[o:o + q, o:o + q], zi)
            b.update_sequential(o, arg, **kw)
            sc = max(1e-6, float(np.max(np.abs(xb))), float(np.max(np.abs(z))))
            ctx.close('slice: state', b.x, r['x'], 1e-6, sc, flat=True)
            ctx.close('slice: residual', np.asarray(b.y, float)[o:o + q], r['y'], 1e-7, sc * s.n * 4, flat=True)
            ctx.close('slice: gain', b.K[:, o:o + q], r['K'], 1e-6)
            ctx.close('slice: measurement', np.asarray(b.z[o:o + q], float), zi, 1e-12, flat=True)
            ctx.close('slice: posterior copies', b.x_post, b.x, 0.)
            ctx.close('slice: posterior covariance copy', b.P_post, b.P, 0.)
            ctx.event('slice', start=o, length=q, kw=sorted(kw))
        sc = max(1e-6, float(np.max(np.abs(a.x))), float(np.max(np.abs(z))))
        ctx.close('sequential: state', b.x, a.x, 1e-6, sc)
        ctx.close('sequential: covariance', b.P, a.P, 1e-6, np.max(np.abs(P0)))
        ctx.close('sequential: all measurements recorded', np.asarray(b.z, float), z, 1e-12, flat=True)
        ctx.shape('state layout', b.x, (s.n, 1))
        b.x, b.P = a.x.copy(), a.P.copy()


SCENARIOS = [(overrides, 5000, 80000), (attributes, 4000, 60000), (joint_forms, 3000, 40000), (sequential, 5000, 60000)]
