"""C34: plotting helpers draw what they are asked to draw"""
import math
import warnings
import numpy as np
from .. import gen

ANCHORS = ['filterpy/stats/stats.py']
RULE = ('Random distributions, covariances, deviation lists, limits, labels, colours, given and current axes; the drawn artists are read back '
        'from matplotlib (Agg) and compared with closed forms.')
_plt = None


def plt():
    global _plt
    if _plt is None:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as p
        from scipy.special import ndtr, ndtri     # noqa
        warnings.filterwarnings('ignore', module='mpl_toolkits')
        _plt = p
    return _plt


def canvas(rng, three=False):
    """a figure with two axes; returns (axes to pass or None, axes that must be drawn on, axes that must stay empty)"""
    p = plt()
    p.close('all')
    f = p.figure()
    kw = {'projection': '3d'} if three else {}
    a, b = f.add_subplot(121, **kw), f.add_subplot(122, **kw)
    if rng.random() < .5:
        p.sca(b)
        return a, a, b
    p.sca(a)
    return None, a, b


def untouched(ctx, b):
    ctx.true('other axes are left alone', not b.lines and not b.patches and not b.collections and b.get_title() == '' and
             b.get_xlabel() == '' and b.get_ylabel() == '')


def words(rng, *names):
    kw = {}
    for n in names:
        if rng.random() < .5:
            kw[n] = '%s%d' % (n[0], int(rng.integers(0, 999)))
    return kw


def labels(ctx, ax, kw, line=None):
    if 'xlabel' in kw:
        ctx.true('x label', ax.get_xlabel() == kw['xlabel'], ax.get_xlabel())
    if 'ylabel' in kw:
        ctx.true('y label', ax.get_ylabel() == kw['ylabel'], ax.get_ylabel())
    if 'title' in kw:
        ctx.true('title', ax.get_title() == kw['title'], ax.get_title())
    if 'label' in kw and line is not None:
        ctx.true('curve label', line.get_label() == kw['label'], line.get_label())


def limits(rng, lo, hi):
    w = hi - lo
    a, b = lo + w * rng.uniform(-.3, .3), hi + w * rng.uniform(-.3, .3)
    return (float(a), float(b)) if rng.random() < .6 else [float(a), float(b)]


def curve(ctx, rng):
    """density and cumulative curves of a Gaussian"""
    import filterpy.stats as st
    from scipy.special import ndtr
    cdf = rng.random() < .4
    old = not cdf and rng.random() < .2
    arg, ax, other = canvas(rng)
    mu, sd = float(rng.normal() * gen.logu(rng, 1e-2, 1e3)), gen.logu(rng, 1e-2, 1e3)
    if rng.random() < .2:
        mu, sd = int(rng.integers(-9, 9)), int(rng.integers(1, 5))
    kw = words(rng, 'xlabel', 'ylabel', 'label')
    if arg is not None:
        kw['ax'] = arg
    if rng.random() < .4:
        kw['xlim'] = limits(rng, mu - 3 * sd, mu + 3 * sd)
    if rng.random() < .4:
        kw['ylim'] = (float(rng.uniform(-.2, 0)), float(rng.uniform(.5, 1.5)))
    pos = ()
    if cdf or old or rng.random() < .5:
        if rng.random() < .3 and 'ax' not in kw:
            pos = (mu, sd * sd)
        else:
            kw['mean'], kw['variance'] = mu, sd * sd
    else:
        kw['mean'], kw['variance'], kw['std'] = mu, None, sd
    if not cdf and rng.random() < .4:
        kw['mean_line'] = True
    if not cdf and rng.random() < .1:
        for k in ('mean', 'variance', 'std'):
            kw.pop(k, None)
        kw.pop('xlim', None)
        pos, mu, sd = (), 0., 1.
    f = st.plot_gaussian_cdf if cdf else st.plot_gaussian if old else st.plot_gaussian_pdf
    ctx.describe(fn=f.__name__, keys=sorted(kw))
    ctx.event('curve', fn=f.__name__)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = f(*pos, **kw)
    ctx.true('the axes drawn on are returned', r is ax)
    untouched(ctx, other)
    lines = [q for q in ax.lines if len(q.get_xdata()) > 2]
    ctx.true('one curve', len(lines) == 1, len(lines))
    x, y = np.asarray(lines[0].get_xdata(), float), np.asarray(lines[0].get_ydata(), float)
    u = (x - mu) / sd
    ctx.close('curve ordinates', y, ndtr(u) if cdf else np.exp(-u * u / 2) / sd / math.sqrt(2 * math.pi), 1e-9,
              1. if cdf else 1. / sd)
    lo, hi = kw['xlim'] if 'xlim' in kw else (mu - 3.0902323061678132 * sd, mu + 3.0902323061678132 * sd)
    w = hi - lo
    ctx.true('curve covers the range', abs(x.min() - lo) <= .01 * w and abs(x.max() - hi) <= .01 * w and len(x) >= 100 and
             np.all(np.diff(x) > 0) and np.max(np.diff(x)) <= .02 * w, (x.min(), x.max(), lo, hi))
    ctx.close('x limits', ax.get_xlim(), (lo, hi), 1e-9, abs(lo) + abs(hi))
    if 'ylim' in kw:
        ctx.close('y limits', ax.get_ylim(), kw['ylim'], 1e-12, 2.)
    elif cdf:
        ctx.close('y limits', ax.get_ylim(), (0., 1.), 1e-12, 2.)
    labels(ctx, ax, kw, lines[0])
    v = [q for q in ax.lines if q is not lines[0]]
    if kw.get('mean_line'):
        ctx.true('mean line', len(v) == 1 and np.allclose(v[0].get_xdata(), mu, rtol=1e-12, atol=0) and
                 len(set(np.ravel(v[0].get_ydata()))) > 1, v)
    else:
        ctx.true('nothing else drawn', not v, v)


def contradict(ctx, rng):
    """contradictory or missing arguments"""
    import filterpy.stats as st
    arg, ax, other = canvas(rng)
    v, s = gen.logu(rng, .1, 10), gen.logu(rng, .1, 10)
    C, e = np.diag([2., 1.]), (0.3, 2., 1.)
    k = int(rng.integers(0, 8))
    ctx.describe(k=k)
    ctx.event('contradiction')
    what = 'contradictory arguments are refused'
    if k == 0:
        ctx.raises(what, ValueError, st.plot_gaussian_pdf, 0., v, s, ax=arg)
    elif k == 1:
        ctx.raises(what, ValueError, st.plot_gaussian_pdf, 0., None, None, ax=arg)
    elif k == 2:
        ctx.raises(what, ValueError, st.plot_covariance, (0, 0), cov=C, ellipse=e)
    elif k == 3:
        ctx.raises(what, ValueError, st.plot_covariance, (0, 0))
    elif k == 4:
        bad = [np.zeros(2), np.zeros(4), np.zeros((2, 3)), np.zeros((3, 3)), 1.][int(rng.integers(0, 5))]
        ctx.raises('bad mean is refused', ValueError, st.plot_3d_covariance, bad, np.eye(3))
    elif k == 5:
        bad = [np.eye(2), np.eye(4), np.ones((3, 2)), np.ones((2, 3))][int(rng.integers(0, 4))]
        ctx.raises('bad covariance is refused', ValueError, st.plot_3d_covariance, np.zeros(3), bad)
    elif k == 6:
        Q = np.linalg.qr(rng.standard_normal((3, 3)))[0]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.raises('indefinite covariance is refused', ValueError, st.plot_3d_covariance, np.zeros(3),
                       Q @ np.diag([1., 2., -gen.logu(rng, 1e-2, 10.)]) @ Q.T)
    else:
        ctx.raises(what, ValueError, st.plot_covariance, (0, 0), cov=C, variance=None)
    untouched(ctx, other)


def discrete(ctx, rng):
    """cumulative curve of a discrete distribution"""
    from filterpy.stats import plot_discrete_cdf
    arg, ax, other = canvas(rng)
    n = int(rng.integers(2, 40))
    p = rng.random(n)
    p /= p.sum()
    xs = None if rng.random() < .4 else np.sort(rng.standard_normal(n) * 10)
    if xs is not None and rng.random() < .4:
        xs = xs.tolist()
    ys = p.tolist() if rng.random() < .4 else p
    kw = words(rng, 'xlabel', 'ylabel', 'label')
    if arg is not None:
        kw['ax'] = arg
    keep = p.copy()
    ctx.describe(n=n, xs=xs is None, keys=sorted(kw))
    ctx.event('curve', fn='plot_discrete_cdf')
    r = plot_discrete_cdf(xs, ys, **kw) if rng.random() < .5 else plot_discrete_cdf(ys=ys, xs=xs, **kw)
    ctx.true('the axes drawn on are returned', r is ax)
    untouched(ctx, other)
    ctx.true('one curve', len(ax.lines) == 1)
    q = ax.lines[0]
    ctx.close('abscissas', np.asarray(q.get_xdata(), float), np.arange(n) if xs is None else np.asarray(xs), 1e-12, 10.)
    w, t = [], 0.
    for v in keep:
        t += v
        w.append(t)
    ctx.close('cumulative probabilities', np.asarray(q.get_ydata(), float), w, 1e-12)
    ctx.true('probabilities unchanged', np.array_equal(np.asarray(ys), keep))
    labels(ctx, ax, kw, q)


COLORS = ['red', 'none', '#102030', (0.1, .2, .3), 'k', (.5, .25, .125, .5)]


def ellipse(ctx, rng):
    """covariance ellipses in the plane"""
    import filterpy.stats as st
    from matplotlib.patches import Ellipse
    from matplotlib.colors import to_rgba
    from scipy.special import ndtri
    _, ax, other = canvas(rng)
    plt().sca(ax)
    mean = rng.standard_normal(2) * gen.logu(rng, .1, 100.)
    th = float(rng.uniform(-4, 4))
    r2 = gen.logu(rng, .05, 20.)
    r1 = r2 * gen.logu(rng, 1.001, 10.)
    kw = {}
    U = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
    C = U @ np.diag([r1 * r1, r2 * r2]) @ U.T
    C = (C + C.T) / 2
    if rng.random() < .6:
        if rng.random() < .15:
            C = np.eye(2) * r1 * r1
        elif rng.random() < .15:
            C = np.diag([r1 * r1, r2 * r2][::int(rng.choice([1, -1]))])
        kw['cov'] = C if rng.random() < .7 else C.tolist()
    else:
        if rng.random() < .3:
            r1, r2 = r2, r1
            C = U @ np.diag([r1 * r1, r2 * r2]) @ U.T
        kw['ellipse'] = (th, r1, r2)
    m = int(rng.integers(0, 7))
    s = np.array([gen.logu(rng, .2, 4.) for _ in range(int(rng.integers(1, 4)))])
    form = [lambda v: v, lambda v: v.tolist(), lambda v: tuple(v.tolist())][int(rng.integers(0, 3))]
    if m == 0:
        s = np.ones(1)
    elif m == 1:
        s = s[:1]
        kw['std'] = float(s[0])
    elif m == 2:
        kw['std'] = form(s)
    elif m == 3:
        s = s[:1]
        kw['variance'] = float(s[0] ** 2)
    elif m == 4:
        kw['variance'] = form(s ** 2)
    else:
        c = rng.uniform(.01, .99, len(s))
        if m == 5:
            c = c[:1]
        s = ndtri((1 + c) / 2)
        kw['interval'] = float(c[0]) if m == 5 else form(c)
    if m in (1, 2) and rng.random() < .4:
        kw['variance'] = 17.            # ignored when std is given
    kw.update(words(rng, 'title'))
    fc, ec, al = to_rgba('none'), to_rgba('#004080'), 1.
    k = COLORS[int(rng.integers(0, 6))]
    al = float(rng.uniform(.1, 1)) if rng.random() < .4 else 1.
    if al != 1.:
        kw['alpha'] = al
    if rng.random() < .4:
        fc = k
        kw['fc' if rng.random() < .5 else 'facecolor'] = k
        if 'facecolor' in kw and rng.random() < .3:
            kw['fc'] = 'green'
    if rng.random() < .4:
        ec = COLORS[int(rng.integers(0, 6))]
        kw['ec' if rng.random() < .5 else 'edgecolor'] = ec
    if rng.random() < .3:
        kw['ls'] = ['solid', 'dashed', '--', 'dotted'][int(rng.integers(0, 4))]
    if rng.random() < .25:
        kw['xlim'] = limits(rng, mean[0] - 9 * r1, mean[0] + 9 * r1)
    if rng.random() < .25:
        kw['ylim'] = limits(rng, mean[1] - 9 * r1, mean[1] + 9 * r1)
    equal = True
    if rng.random() < .4:
        equal = bool(rng.random() < .5)
        kw['axis_equal'] = equal
    centre = True
    semi = False
    old = rng.random() < .15 and 'interval' not in kw
    if not old and rng.random() < .5:
        centre = bool(rng.random() < .3)
        kw['show_center'] = centre
    if rng.random() < .3:
        semi = True
        kw['show_semiaxis'] = True
    pm = [mean, mean, tuple(mean.tolist()), mean.tolist(), mean.reshape(2, 1)][int(rng.integers(0, 5))]
    keepm, keepc = np.array(pm), C.copy()
    ctx.describe(keys=sorted(kw), old=old)
    ctx.event('ellipse', n=len(s))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (st.plot_covariance_ellipse if old else st.plot_covariance)(pm, **kw)
    untouched(ctx, other)
    ctx.true('arguments unchanged', np.array_equal(pm, keepm) and ('cov' not in kw or np.array_equal(kw['cov'], keepc) or C is not kw['cov']))
    es = [q for q in ax.patches if isinstance(q, Ellipse)]
    ctx.true('one ellipse per deviation', len(es) == len(s) and len(ax.patches) == len(es), '%d for %d' % (len(es), len(s)))
    Ci = np.linalg.inv(C)
    for d, q in zip(s, es):
        V = q.get_patch_transform().transform(np.array([[math.cos(t), math.sin(t)] for t in np.linspace(0, 6.2, 13)])) - mean
        ctx.close('ellipse is the set at the given deviation', np.sqrt(np.einsum('ij,jk,ik->i', V, Ci, V)), np.full(13, d), 1e-6,
                  d * (1 + 1e-9 * np.max(np.abs(mean)) / r2))
        ctx.true('drawn around', abs(np.prod([q.width, q.height]) / 4 - d * d * r1 * r2) <= 1e-6 * d * d * r1 * r1 or
                 'cov' in kw and abs(q.width * q.height / 4 - d * d * math.sqrt(np.linalg.det(C))) <= 1e-6 * d * d * r1 * r1)
        ctx.close('centre', np.ravel(q.get_center()), mean, 1e-12, np.max(np.abs(mean)))
        want = to_rgba(fc, al) if fc != 'none' and not (isinstance(fc, tuple) and fc[3:] == (0,)) else None
        if want is not None and fc != to_rgba('none'):
            ctx.close('face colour', q.get_facecolor(), want, 1e-6)
        elif fc == 'none' or fc == to_rgba('none'):
            ctx.true('no fill', q.get_facecolor()[3] == 0, q.get_facecolor())
        if ec != 'none' and ec != to_rgba('none'):
            ctx.close('edge colour', q.get_edgecolor(), to_rgba(ec, al), 1e-6)
        ctx.true('transparency', q.get_alpha() == al or (al == 1. and q.get_alpha() is None), q.get_alpha())
        if 'ls' in kw:
            z = Ellipse((0, 0), 1, 1, ls=kw['ls'])
            ctx.true('line style', q.get_linestyle() == z.get_linestyle(), q.get_linestyle())
    pts = [np.asarray(c.get_offsets(), float).reshape(-1, 2) for c in ax.collections] + \
          [np.asarray(l.get_xydata(), float) for l in ax.lines if len(l.get_xdata()) == 1]
    at = [p for p in pts if len(p) == 1 and np.allclose(p[0], mean, rtol=1e-12, atol=1e-300)]
    ctx.true('centre mark', (len(at) == 1) == centre and len(pts) == len(at), (centre, pts))
    seg = [np.asarray(l.get_xydata(), float) for l in ax.lines if len(l.get_xdata()) > 1]
    ctx.true('semiaxes only on request', len(seg) == (2 if semi else 0), len(seg))
    if semi:
        D = []
        for g in seg:
            ctx.close('semiaxes start at the centre', g[0], mean, 1e-9, np.max(np.abs(mean)))
            D.append(g[1] - g[0])
        n0, n1 = np.linalg.norm(D[0]), np.linalg.norm(D[1])
        ctx.true('semiaxes have length', n0 > 0 and n1 > 0)
        E = C * (1. / np.max(np.abs(C)))
        slack = 1e-6 + 1e-9 * np.max(np.abs(mean)) / min(n0, n1)
        for d, n in ((D[0], n0), (D[1], n1)):
            d = d / n
            ctx.close('semiaxes lie along the principal axes', E @ d, (d @ E @ d) * d, slack, 1.)
        ctx.true('semiaxes are perpendicular', abs(D[0] @ D[1]) <= slack * n0 * n1 * 2)
        ctx.close('semiaxes in proportion', max(n0, n1) / min(n0, n1), math.sqrt(np.linalg.cond(C)), slack * 10, 1 + math.sqrt(np.linalg.cond(C)))
    labels(ctx, ax, kw)
    for k, g in (('xlim', ax.get_xlim), ('ylim', ax.get_ylim)):
        if k in kw:
            ctx.close('%s as requested' % k, g(), kw[k], 1e-12, np.max(np.abs(kw[k])))
    if equal is True:
        ctx.true('equal aspect', ax.get_aspect() in ('equal', 1, 1.), ax.get_aspect())
    else:
        ctx.true('aspect left alone', ax.get_aspect() == 'auto', ax.get_aspect())
    if 'xlim' not in kw and 'ylim' not in kw:
        h = np.max(s) * np.sqrt(np.diag(C))
        for i, (lo, hi) in enumerate((ax.get_xlim(), ax.get_ylim())):
            ctx.true('the ellipses are in view', lo <= mean[i] - h[i] * (1 - 1e-3) and hi >= mean[i] + h[i] * (1 - 1e-3),
                     lambda: 'limits %s %s, ellipse %s +- %s' % (lo, hi, mean[i], h[i]))


def ellipsoid(ctx, rng):
    """covariance ellipsoids in space"""
    from filterpy.stats import plot_3d_covariance
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    arg, ax, other = canvas(rng, True)
    mean = rng.standard_normal(3) * gen.logu(rng, .1, 100.)
    r = np.array([gen.logu(rng, .1, 10.) for _ in range(3)])
    if rng.random() < .2:
        r[:] = r[0]
    Q = np.linalg.qr(rng.standard_normal((3, 3)))[0] if rng.random() < .8 else np.eye(3)
    C = Q @ np.diag(r * r) @ Q.T
    C = (C + C.T) / 2
    std = 1.
    kw = words(rng, 'title')
    if rng.random() < .6:
        kw['std'] = std = gen.logu(rng, .2, 5.)
    if arg is not None:
        kw['ax'] = arg
    N = 60
    if rng.random() < .8:
        kw['N'] = N = int(rng.integers(12, 40))
    for k in ('label_xyz', 'limit_xyz', 'shade'):
        if rng.random() < .4:
            kw[k] = bool(rng.random() < .5)
    if rng.random() < .3:
        kw['color'] = 'red'
    if rng.random() < .3:
        kw['alpha'] = .5
    pm = [mean, mean.reshape(3, 1), mean.reshape(1, 3), mean.tolist()][int(rng.integers(0, 4))]
    pc = C if rng.random() < .7 else C.tolist()
    before = [o() for o in (ax.get_xlim, ax.get_ylim, ax.get_zlim)]
    if arg is None:
        plt().close('all')
        f = plt().figure()
    keep = C.copy()
    ctx.describe(keys=sorted(kw))
    ctx.event('ellipsoid')
    got = plot_3d_covariance(pm, pc, **kw)
    if arg is not None:
        ctx.true('the axes drawn on are returned', got is ax)
        untouched(ctx, other)
    else:
        ctx.true('new axes are in the current figure', got in f.axes)
        ax = got
    ctx.true('covariance unchanged', np.array_equal(C, keep))
    cs = [c for c in ax.collections if isinstance(c, Poly3DCollection)]
    ctx.true('one surface', len(cs) == 1, len(cs))
    V = np.asarray(cs[0]._vec)[:3].T - mean
    Ci = np.linalg.inv(C)
    scale = std * (1 + 1e-9 * np.max(np.abs(mean)) / r.min())
    ctx.close('surface is the set at the given deviation', np.sqrt(np.einsum('ij,jk,ik->i', V, Ci, V)), np.full(len(V), std), 1e-6, scale)
    # the surface goes all the way round: every direction is approached
    W = V @ Q / (r * std) if not np.allclose(r, r[0]) else V / (r[0] * std)
    g = 2 * math.pi / (N - 1) * 3
    D = rng.standard_normal((20, 3))
    D /= np.linalg.norm(D, axis=1)[:, None]
    gap = np.arccos(np.clip((D @ W.T).max(axis=1), -1, 1))
    ctx.true('surface is closed', gap.max() <= g + .05, lambda: '%s > %s' % (gap.max(), g))
    if kw.get('label_xyz', True):
        ctx.true('axis names', (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()) == ('X', 'Y', 'Z'))
    else:
        ctx.true('no axis names', (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()) == ('', '', ''))
    if kw.get('limit_xyz', True):
        h = std * np.sqrt(np.diag(C))
        for i, fn in enumerate((ax.get_xlim, ax.get_ylim, ax.get_zlim)):
            lo, hi = fn()
            ctx.true('limits fit the ellipsoid', lo <= mean[i] - h[i] * .999 and hi >= mean[i] + h[i] * .999 and
                     hi - lo <= 4 * std * r.max() + 1e-9, lambda: '%s: %s %s, %s +- %s' % (i, lo, hi, mean[i], h[i]))
    labels(ctx, ax, kw)
    if kw.get('alpha'):
        ctx.true('transparency', cs[0].get_alpha() == .5, cs[0].get_alpha())
    del before


SCENARIOS = [(curve, 500, 8000), (contradict, 200, 3000), (discrete, 300, 5000), (ellipse, 700, 10000), (ellipsoid, 240, 3000)]
