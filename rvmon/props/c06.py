"""C06: queries tell the truth and change nothing"""
import copy
import re
import numpy as np
from .. import gen, zoo
from ..drive import make_kf, lay
from ..gen import col
from ..refs import condition, logpdf
from .c04 import _hinf

ANCHORS = ['filterpy/kalman/%s.py' % f for f in (
    'kalman_filter', 'square_root', 'fading_memory', 'EKF', 'information_filter', 'UKF', 'CubatureKalmanFilter',
    'IMM')] + ['filterpy/hinfinity/hinfinity_filter.py']
RULE = ('Twin filters run one history; one of them is queried at random points. Every query answer is compared with '
        'what the real operation then produces, and the twins are compared attribute by attribute after every step.')

PLAIN = ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'y', 'K', 'S', 'SI', 'F', 'Q', 'H', 'R', 'B', 'z', 'P_inv',
         'R_inv', 'mu', 'omega', 'cbar', 'sigmas_f', 'sigmas_h', 'P_inv_prior', 'P_inv_post', 'likelihood',
         'log_likelihood', 'mahalanobis', 'alpha', 'M', 'V', 'W')


def _get(o, k):
    try:
        return getattr(o, k)
    except Exception:                                                    # noqa
        return None


def _num(v):
    try:
        return np.asarray(v, float)
    except (TypeError, ValueError):
        return None


def same(ctx, a, b, what, tol=0.):
    """the queried filter and its never-queried twin agree in everything public"""
    for k in PLAIN:
        if k == 'mahalanobis' and getattr(a, 'y', None) is not None and np.ndim(getattr(a, 'S', 0)) == 0:
            continue
        v, w = _num(_get(a, k)), _num(_get(b, k))
        if v is None or w is None:
            ctx.true(what, (v is None) == (w is None), k)
            continue
        ok = v.shape == w.shape and (np.array_equal(v, w, equal_nan=True) or
                                     (tol and np.allclose(v, w, rtol=tol, atol=tol)))
        ctx.true(what, ok, lambda: '%s: %r / %r' % (k, v, w))


def told(ctx, o):
    """the printed form names the object's class and shows the values of the attributes it names"""
    from filterpy.common import pretty_str
    txt = repr(o)
    ctx.true('printable', isinstance(txt, str) and isinstance(str(o), str))
    ctx.true('printed form names the class', re.findall(r'\w+', txt)[:1] == [type(o).__name__], lambda: txt[:60])
    flat = ' '.join(txt.split())
    for ln in txt.split('\n'):
        m = re.match(r'(\w+)(\[\d+\])? = ', ln)
        if not m:
            continue
        try:
            v = getattr(o, m.group(1))
        except AttributeError:
            continue
        w = ' '.join(pretty_str(m.group(1), v).split())
        ctx.true('printed values are those of the attributes', w in flat, lambda: 'printed %r, attribute %r' % (ln, w))


def linear(ctx, rng):
    """KalmanFilter: get_prediction, get_update, residual_of, ..."""
    s = gen.LinSys(rng, n=gen.dim(rng, 5))
    nd = int(rng.choice([1, 2]))
    a = make_kf(s, nd)
    if rng.random() < .3:
        a.alpha = 1.1
    b = copy.deepcopy(a)
    steps = int(rng.integers(1, 12))
    ctx.describe(n=s.n, m=s.m, du=s.du, nd=nd, steps=steps)
    hasup = False
    for i in range(steps):
        for _ in range(int(rng.integers(0, 5))):
            _query(ctx, rng, s, a, nd, hasup)
        # a prediction exactly as asked for
        kw, u = {}, None
        for k in 'FQB':
            if rng.random() < .3 and (k != 'B' or s.du):
                kw[k] = getattr(s, 'new' + k)()
        if 'Q' in kw and rng.random() < .3:
            kw['Q'] = gen.logu(rng, .1, 2)
        if s.du and rng.random() < .6:
            u = lay(s.newu(), nd)
        s.step()
        if rng.random() < .6:
            q = a.get_prediction(u, **kw)
            same(ctx, a, b, 'query changes nothing')
            a.predict(u, **kw)
            b.predict(u, **kw)
            sc = max(1e-6, float(np.max(np.abs(a.x))))
            ctx.close('get_prediction: state', q[0], a.x, 1e-10, sc)
            ctx.close('get_prediction: covariance', q[1], a.P, 1e-10)
            ctx.event('predict')
            same(ctx, a, b, 'twin after predict')
        if rng.random() < .7:
            z = gen.zform(rng, s.z())[1] if rng.random() > .12 else None
            fresh = np.array_equal(a.x, a.x_prior)
            q = a.get_update(copy.deepcopy(z))
            q = (np.array(q[0]), np.array(q[1]))
            r = a.residual_of(copy.deepcopy(z)) if z is not None else None
            same(ctx, a, b, 'query changes nothing')
            a.update(copy.deepcopy(z))
            b.update(z)
            hasup = hasup or z is not None
            sc = max(1e-6, float(np.max(np.abs(a.x))))
            if z is not None:
                sc = max(sc, float(np.max(np.abs(np.asarray(z, float)))))
            ctx.close('get_update: state', q[0], a.x, 1e-10, sc)
            ctx.close('get_update: covariance', q[1], a.P, 1e-10)
            if r is not None and fresh:
                ctx.close('residual_of', r, a.y, 1e-10, sc * s.n * 3 * (1 + np.abs(s.H).max()))
                if np.size(a.y) == s.m:
                    ctx.close('residual_of after the update', a.residual_of(np.array(a.z)), a.y, 1e-10,
                              sc * s.n * 3 * (1 + np.abs(s.H).max()))
            ctx.event('update', z=z)
            same(ctx, a, b, 'twin after update')


def _query(ctx, rng, s, f, nd, hasup):
    k = int(rng.integers(0, 9))
    if k == 0:
        f.get_prediction(lay(s.newu(), nd) if s.du else None)
    elif k == 1:
        f.get_update(gen.zform(rng, s.z())[1])
    elif k == 2:
        f.residual_of(gen.zform(rng, s.z())[1])
    elif k == 3:
        x = rng.standard_normal(s.n)
        ctx.close('measurement_of_state', f.measurement_of_state(lay(x, nd)), lay(f.H @ x, nd), 1e-12, 10 * s.n)
    elif k == 4 and hasup:
        z = s.z()
        v = f.log_likelihood_of(gen.zform(rng, z)[1])
        w = logpdf(z - f.H @ np.reshape(f.x, -1), f.S)
        ctx.close('log_likelihood_of', v, w, 1e-6, 1 + abs(w))
        f.log_likelihood_of(None)
    elif k == 5:
        told(ctx, f)
    elif k == 6 and hasup:
        f.likelihood, f.log_likelihood, f.mahalanobis
    elif k == 7:
        f.test_matrix_dimensions()
        f.alpha
    else:
        f.get_update(None)
        f.get_update()
    ctx.event('query%d' % k)


def others(ctx, rng):
    """square-root, fading, H-infinity: queries; all filters: reading properties and printing"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4), scale=1.)
    cls = (zoo.SR, zoo.Fading, zoo.Fading, zoo.EKF, zoo.Info, zoo.UKF, zoo.CKF)[rng.integers(7)]
    ad = cls(rng, s)
    bd = copy.deepcopy(ad)
    a, b = ad.f, bd.f
    steps = int(rng.integers(1, 10))
    ctx.describe(filter=ad.name, n=s.n, m=s.m, du=s.du, steps=steps)
    hasup = False
    for i in range(steps):
        _oquery(ctx, rng, s, ad, hasup)
        u = s.newu() if s.du and rng.random() < .6 else None
        s.step()
        q = a.get_prediction(*(() if u is None else (col(u),))) if isinstance(ad, zoo.Fading) else None
        ad.predict(u)
        bd.predict(u)
        ctx.event('predict')
        if q is not None:
            ctx.close('get_prediction: state', q[0], a.x, 1e-10, max(1., np.max(np.abs(a.x))))
            ctx.close('get_prediction: covariance', q[1], a.P, 1e-10)
        same(ctx, a, b, 'twin after predict', 1e-12)
        _oquery(ctx, rng, s, ad, hasup)
        if rng.random() < .12:
            ad.none()
            bd.none()
        else:
            z = s.z()
            q = a.residual_of(col(z)) if isinstance(ad, (zoo.SR, zoo.Fading)) else None
            st = rng.bit_generator.state
            ad.update(z)
            rng.bit_generator.state = st
            bd.rng = rng
            bd.update(z)
            hasup = True
            if q is not None:
                ctx.close('residual_of', q, a.y, 1e-10, 100 * s.n)
        ctx.event('update')
        same(ctx, a, b, 'twin after update', 1e-12)


def _oquery(ctx, rng, s, ad, hasup):
    f = ad.f
    for _ in range(int(rng.integers(0, 5))):
        k = int(rng.integers(0, 7))
        if k == 0 and isinstance(ad, zoo.Fading):
            f.get_prediction(col(s.newu())) if s.du else f.get_prediction()
        elif k == 1 and isinstance(ad, (zoo.SR, zoo.Fading)):
            f.residual_of(col(s.z()))
        elif k == 2 and isinstance(ad, (zoo.SR, zoo.Fading)):
            x = rng.standard_normal(s.n)
            ctx.close('measurement_of_state', f.measurement_of_state(col(x)), col(f.H @ x), 1e-12, 10 * s.n)
        elif k == 3:
            told(ctx, f)
        elif k == 4 and hasup:
            for p in ('likelihood', 'log_likelihood', 'mahalanobis'):
                if hasattr(type(f), p) or p in vars(f):
                    getattr(f, p)
        elif k == 5:
            for p in ('P', 'S', 'SI', 'Q', 'R', 'P_prior', 'P_post', 'F', 'alpha', 'P1_2', 'Q1_2', 'R1_2'):
                if hasattr(f, p):
                    getattr(f, p)
        elif k == 6 and isinstance(ad, zoo.UKF):
            f.points_fn.sigma_points(f.x, f.P)
            f.points_fn.num_sigmas()
            f.cross_variance(f.x, f.H @ f.x if hasattr(f, 'H') else np.zeros(s.m), f.sigmas_f,
                             np.zeros((len(f.sigmas_f), s.m)))
        ctx.event('query%d' % k)


def hinf(ctx, rng):
    """H-infinity filter queries"""
    s = gen.WellSys(rng, n=gen.dim(rng, 4), m=int(rng.integers(1, 3)), du=int(rng.integers(0, 3)), scale=1.)
    a = _hinf(rng, s)
    if s.du:
        a.B = s.B.copy()
    b = copy.deepcopy(a)
    ctx.describe(n=s.n, m=s.m, du=s.du)
    for i in range(int(rng.integers(1, 6))):
        u = col(s.newu()) if s.du and rng.random() < .6 else None
        q = a.get_prediction(*(() if u is None else (u,)))
        x = rng.standard_normal(s.n)
        ctx.close('measurement_of_state', a.measurement_of_state(col(x)), col(s.H @ x), 1e-12, 10 * s.n)
        told(ctx, a)
        a.V
        same(ctx, a, b, 'query changes nothing')
        a.predict(*(() if u is None else (u,)))
        b.predict(*(() if u is None else (u,)))
        q = q[0] if isinstance(q, tuple) else q
        ctx.close('get_prediction: state', q, a.x, 1e-10, max(1., np.max(np.abs(a.x))))
        z = col(s.z())
        r = a.residual_of(z)
        same(ctx, a, b, 'query changes nothing')
        a.update(z)
        b.update(z)
        if not np.all(np.isfinite(a.P)) or np.max(np.abs(a.P)) > 1e8:
            return
        ctx.close('residual_of', r, a.y, 1e-10, 100 * s.n)
        same(ctx, a, b, 'twin after update')
        ctx.event('step')


def gh_ls(ctx, rng):
    """variance-reduction factors, bias, standard deviations and printing of the g-h, memory and least-squares filters"""
    from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
    from filterpy.leastsq import LeastSquaresFilter
    from filterpy.memory import FadingMemoryFilter
    o = int(rng.integers(0, 3))
    kind = str(rng.choice(['gh', 'ghk', 'order', 'ls', 'mem']))
    dt = gen.logu(rng, .1, 3)
    mk = {'gh': lambda: GHFilter(1., 2., dt, .5, .2), 'ghk': lambda: GHKFilter(1., 2., .1, dt, .5, .2, .05),
          'order': lambda: GHFilterOrder(1., dt, o, .5, .2, .05),
          'ls': lambda: LeastSquaresFilter(dt, o, 1.5), 'mem': lambda: FadingMemoryFilter(1., dt, o, .8)}[kind]
    a, b = mk(), mk()
    ctx.describe(kind=kind, order=o)
    for i in range(int(rng.integers(1, 15))):
        for _ in range(int(rng.integers(0, 4))):
            if kind in ('gh', 'ghk'):
                a.VRF()
                a.VRF_prediction()
            if kind == 'ghk':
                a.bias_error(1.)
            if kind == 'ls':
                a.errors()
            repr(a)
        z = float(rng.standard_normal() * 5)
        a.update(z)
        b.update(z)
        ctx.event('update')
        for k, v in vars(b).items():
            if k[0] != '_':
                w = getattr(a, k)
                ctx.true('query changes nothing', np.array_equal(np.asarray(v, object), np.asarray(w, object)), k)
        told(ctx, a)


def banks(ctx, rng):
    """IMM and filter bank: printing changes nothing"""
    from filterpy.kalman import IMMEstimator, MMAEFilterBank
    s = gen.LinSys(rng, n=int(rng.integers(1, 4)), m=int(rng.integers(1, 3)), du=0, scale=1.)
    fs = []
    for i in range(int(rng.integers(2, 4))):
        k = make_kf(s, 2)
        k.F, k.Q = s.newF(), s.newQ()
        fs.append(k)
    N = len(fs)
    mu = rng.dirichlet(np.ones(N))
    imm = rng.random() < .6
    a = IMMEstimator(fs, mu, rng.dirichlet(np.ones(N), size=N)) if imm else MMAEFilterBank(fs, list(mu), s.n, s.H)
    b = copy.deepcopy(a)
    ctx.describe(imm=imm, n=s.n, m=s.m, N=N)
    for i in range(int(rng.integers(1, 8))):
        for op in ('predict', 'update'):
            told(ctx, a)
            for f in a.filters:
                repr(f)
                f.likelihood, f.mahalanobis if i else None
                f.get_prediction(), f.get_update(col(s.z()))
            args = () if op == 'predict' else (col(s.z()),)
            getattr(a, op)(*args)
            getattr(b, op)(*copy.deepcopy(args))
            ctx.event(op)
            same(ctx, a, b, 'twin after ' + op)
            for f, g in zip(a.filters, b.filters):
                same(ctx, f, g, 'member twin after ' + op)
        s.step()


def printed(ctx, rng):
    """objects no other scenario prints, before and after use"""
    from filterpy.kalman import (EnsembleKalmanFilter, FixedLagSmoother, MerweScaledSigmaPoints, JulierSigmaPoints,
                                 SimplexSigmaPoints)
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    H = rng.standard_normal((m, n))
    kind = str(rng.choice(['enkf', 'lag', 'points']))
    ctx.describe(kind=kind, n=n, m=m)
    if kind == 'points':
        for o in (MerweScaledSigmaPoints(n, .3, 2., 3. - n), JulierSigmaPoints(n, 3. - n), SimplexSigmaPoints(n)):
            told(ctx, o)
        return
    if kind == 'enkf':
        f = EnsembleKalmanFilter(rng.standard_normal(n), np.eye(n), m, .5, int(rng.integers(2, 8)), lambda x: H @ x,
                                 lambda x, dt: .9 * x)
        step = [f.predict, lambda: f.update(rng.standard_normal(m))]
    else:
        f = FixedLagSmoother(n, m, N=int(rng.integers(1, 5)))
        f.F, f.H = gen.trans_inv(rng, n), H
        step = [lambda: f.smooth(rng.standard_normal((m, 1)))]
    told(ctx, f)
    for _ in range(int(rng.integers(1, 6))):
        for s in step:
            s()
            told(ctx, f)
            ctx.event('step')


SCENARIOS = [(printed, 300, 3000), (linear, 1500, 40000), (others, 1500, 40000), (hinf, 500, 10000), (gh_ls, 600, 10000), (banks, 300, 8000)]
