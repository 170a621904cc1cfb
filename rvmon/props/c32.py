"""C32: numerical helper functions compute what they document"""
import copy
import io
import re
from collections import deque
from contextlib import redirect_stdout
import numpy as np
from .. import gen, world

ANCHORS = ['filterpy/common/helpers.py']
RULE = ('Runge-Kutta steps on polynomial, linear and nonlinear equations; random matrices and every measurement layout for the numeric '
        'helpers; comparison, state copying and printing on live objects of every class in random histories.')


# -- Runge-Kutta ----------------------------------------------------------------
def runge(ctx, rng):
    """one step: exactness, stability polynomial, order"""
    from filterpy.common import runge_kutta4 as rk
    k = int(rng.integers(0, 4))
    x0, h = float(rng.normal() * 2), gen.logu(rng, 1e-3, 2.) * float(rng.choice([1, 1, -1]))
    if rng.random() < .02:
        x0 = 0.
    ctx.describe(kind=k, h=round(np.log10(abs(h)), 1))
    ctx.event('step', kind=k)
    if k == 0:                     # dy/dx a cubic in x: the solution is a polynomial of degree four
        c = rng.standard_normal(4)
        p = np.polynomial.Polynomial(c)
        P = p.integ()
        y0 = float(rng.normal())
        got = rk(y0, x0, h, lambda y, x: p(x)) if rng.random() < .5 else rk(y=y0, x=x0, dx=h, f=lambda y, x: p(x))
        ctx.close('exact for polynomials', got, y0 + P(x0 + h) - P(x0), 1e-12, 1 + abs(y0) + np.sum(np.abs(c)) * (abs(x0) + 2) ** 4)
    elif k == 1:                   # linear equation: the order-four stability polynomial
        lam = float(rng.normal() * 1.5)
        y0 = float(rng.normal()) if rng.random() < .6 else rng.standard_normal(int(rng.integers(1, 4)))
        z = lam * h
        got = rk(y0, x0, h, lambda y, x: lam * y)
        ctx.close('linear equation', got, np.asarray(y0) * (1 + z + z * z / 2 + z ** 3 / 6 + z ** 4 / 24), 1e-12,
                  (1 + abs(z)) ** 4 * (np.max(np.abs(y0)) + 1e-9))
    elif k == 2:                   # linear system
        n = gen.dim(rng, 5)
        A = rng.standard_normal((n, n)) / max(1., n / 3)
        y0 = rng.standard_normal(n)
        Z = A * h
        W = np.eye(n)
        T = np.eye(n)
        for j in range(1, 5):
            T = T @ Z / j
            W = W + T
        keep = y0.copy()
        got = rk(y0, x0, h, lambda y, x: A @ y)
        ctx.close('linear system', got, W @ keep, 1e-12, (1 + np.linalg.norm(Z)) ** 4 * 10)
        ctx.true('start unchanged', np.array_equal(y0, keep))
    else:                          # nonlinear: halving the step divides the error by about 2**4
        a, b = rng.uniform(.3, 1.5), rng.uniform(-1, 1)
        # y = a + sin(x + b) solves y' = cos(x+b) + (y - a - sin(x+b)) * (1 + y*y)
        f = lambda y, x: np.cos(x + b) + (np.sin(x + b) + a - y) * (1 + .1 * y * y)      # noqa
        e = []
        for n in (8, 16, 32, 64, 128):
            y, x, d, worst = a + np.sin(x0 + b), x0, 1.5 / n, 0.
            for _ in range(n):
                y = rk(y, x, d, f)
                x += d
                worst = max(worst, abs(y - a - np.sin(x + b)))
            e.append(worst)
        ctx.event('convergence')
        ctx.true('fourth order convergence', e[4] <= max(e[1], e[2] * 16) / 64 + 1e-12 and e[4] < 1e-6, e)


def small(ctx, rng):
    """diagonal inverse and sum of outer products"""
    from filterpy.common import inv_diagonal, outer_product_sum
    n = int(rng.integers(1, 8))
    d = np.array([gen.logu(rng, 1e-6, 1e6) for _ in range(n)]) * rng.choice([1, -1], n)
    S = np.diag(d)
    if rng.random() < .2:
        d = rng.integers(1, 9, n)
        S = np.diag(d)
    if rng.random() < .2:
        S = S.tolist()
    ctx.describe(n=n)
    ctx.event('inv_diagonal')
    got = inv_diagonal(S)
    ctx.shape('diagonal inverse', got, (n, n))
    ctx.close('diagonal inverse', np.diag(np.asarray(got)) * d, np.ones(n), 1e-14)
    ctx.true('diagonal inverse is diagonal', np.count_nonzero(got) == n)
    M, N, K = int(rng.integers(1, 9)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    A, B = rng.standard_normal((M, N)), rng.standard_normal((M, K))
    ctx.event('outer_product_sum')
    W = np.zeros((N, N))
    for r in A:
        W += np.outer(r, r)
    ctx.close('sum of outer products', outer_product_sum(A) if rng.random() < .5 else outer_product_sum(A, None), W, 1e-12)
    if rng.random() < .5:
        B = rng.standard_normal((M, N))
    W = np.zeros((N, B.shape[1]))
    for r, q in zip(A, B):
        W += np.outer(r, q)
    ctx.close('sum of outer products of two', outer_product_sum(A, B), W, 1e-12, np.sum(np.abs(A)) * np.max(np.abs(B)))


def reshape(ctx, rng):
    """measurement reshaping accepts exactly the convertible shapes"""
    from filterpy.common import reshape_z
    dz = int(rng.integers(1, 6))
    nd = int(rng.integers(1, 3)) if dz > 1 or rng.random() < .7 else 0
    v = rng.standard_normal(dz)
    forms = [v, v.reshape(-1, 1), v.reshape(1, -1), v.tolist(), tuple(v), v.reshape(-1, 1).tolist(), [v.tolist()]]
    if dz == 1:
        forms += [float(v[0]), np.float64(v[0]), np.array(v[0])]
    z = forms[int(rng.integers(0, len(forms)))]
    ctx.describe(dz=dz, nd=nd, form=str(np.shape(z)) + type(z).__name__)
    ctx.event('reshape')
    got = reshape_z(z, dz, nd)
    want = v.reshape(-1, 1) if nd == 2 else v if nd == 1 else v[0]
    ctx.shape('reshaped measurement', got, np.shape(want))
    ctx.close('reshaped measurement', got, want, 0., 1.)
    k = int(rng.integers(1, 7))
    while k == dz:
        k = int(rng.integers(1, 7))
    bad = [rng.standard_normal(k), rng.standard_normal((k, 1)), rng.standard_normal((1, k)), rng.standard_normal((k, dz)),
           rng.standard_normal((dz, k)), rng.standard_normal((dz + 1, dz + 1))]
    if dz > 1:
        bad += [1.5, rng.standard_normal((dz, dz)), [float(v[0])]]
    else:
        bad = [b for b in bad if np.size(b) != 1]
    b = bad[int(rng.integers(0, len(bad)))]
    if np.size(b) == dz and 1 in np.shape(b) and dz in np.shape(b):
        return
    ctx.event('refuse')
    ctx.raises('inconvertible measurement refused', ValueError, reshape_z, b, dz, nd)


# -- comparing and copying ------------------------------------------------------------
class Bag(object):
    pass


def compare(ctx, rng):
    """comparing two objects lists exactly the attributes that differ"""
    from filterpy.common.helpers import compare_kf
    if rng.random() < .6:
        W = [world.KFw, world.SRw, world.Infw, world.Fadw, world.EKFw, world.HInfw][int(rng.integers(0, 6))]
        w = W(rng, world.Handed())
        for _ in range(int(rng.integers(0, 4))):
            w.act(rng)
        a = w.obj
        b = copy.deepcopy(a)
        name = W.cls
    else:
        a, name = Bag(), 'Bag'
        for i in range(int(rng.integers(1, 8))):
            v = [rng.standard_normal((2, 2)), float(rng.normal()), int(rng.integers(0, 9)), None, 'text', rng.standard_normal(3).tolist(),
                 np.eye(2)][int(rng.integers(0, 7))]
            setattr(a, 'a%d' % i, v)
        a._hidden = 1.
        b = copy.deepcopy(a)
        b._hidden = 2.
    keys = [k for k in vars(a) if not k.startswith('_')]
    numeric = [k for k in keys if isinstance(vars(a)[k], (np.ndarray, float, int, list)) and
               not isinstance(vars(a)[k], bool) and np.asarray(vars(a)[k]).dtype.kind in 'fi' and np.all(np.isfinite(vars(a)[k]))]
    other = [k for k in keys if vars(a)[k] is None or isinstance(vars(a)[k], str)]
    rng.shuffle(numeric)
    diff = set(numeric[:int(rng.integers(0, 4))])
    if other and rng.random() < .4:
        diff.add(other[int(rng.integers(0, len(other)))])
    for k in diff:
        v = vars(a)[k]
        if k in other:
            b.__dict__[k] = 'other text' if rng.random() < .5 else 3.
        elif isinstance(v, list):
            q = list(v)
            q[-1] = np.asarray(q[-1]) * 1.1 + 1.
            b.__dict__[k] = q
        elif isinstance(v, np.ndarray) and v.size > 1 and rng.random() < .7:
            q = v.astype(float)
            i = int(rng.integers(0, v.size))
            q.flat[i] += 1e-2 * (1 + np.abs(v.flat[i]))
            b.__dict__[k] = q
        else:
            b.__dict__[k] = v * (1.1 if np.all(np.asarray(v) >= 0) else .5) + 1. * (np.max(np.abs(v)) < 1.)
    if rng.random() < .3:
        b.extra = 3.
    if rng.random() < .3:
        a.more = 3.
    log = bool(rng.random() < .5)
    ctx.describe(cls=name, diff=len(diff), log=log)
    ctx.event('compare', diff=sorted(diff))
    sa, sb = copy.deepcopy(vars(a)), copy.deepcopy(vars(b))
    out = io.StringIO()
    with redirect_stdout(out):
        r = compare_kf(a, b, log=log) if not log or rng.random() < .5 else compare_kf(a, b)
    if diff:
        ctx.true('differing attributes listed', r is not None and sorted(r) == sorted(diff), lambda: '%s, expected %s' % (r, sorted(diff)))
    else:
        ctx.true('equal objects compare equal', r is None, r)
    t = out.getvalue()
    if log:
        ctx.true('the report names every difference', all(k in t for k in diff), t)
    if not log or not diff:
        ctx.true('no report otherwise', t.strip() == '', t)
    ctx.true('comparing alters nothing', world.equal(sa, vars(a)) and world.equal(sb, vars(b)))
    with redirect_stdout(out):
        r2 = compare_kf(b, a, log=False)
    ctx.true('comparison is symmetric', (r2 is None) == (r is None) and sorted(r2 or []) == sorted(r or []))
    if numeric:
        k = numeric[0]
        c = copy.deepcopy(a)
        v = np.asarray(vars(a)[k], float)
        c.__dict__[k] = v + 1e-3 * (1 + np.abs(v))
        ctx.event('tolerance')
        ctx.true('tolerances are passed on', compare_kf(a, c, log=False, rtol=.1, atol=.1) is None)
        ctx.true('tolerances are passed on (strict)', compare_kf(a, c, log=False, rtol=1e-9, atol=0) == [k])


def copying(ctx, rng):
    """copying the state of one object to another"""
    from filterpy.common.helpers import copy_states
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    src = W.source(W, rng)
    a, b = W(rng, world.Handed(), src), W(rng, world.Handed(), src)
    for w in (a, b):
        for _ in range(int(rng.integers(0, 4))):
            w.act(rng)
    ctx.describe(cls=W.cls)
    frozen = world.snap(a.obj)
    copy_states(b.obj, a.obj)
    ctx.event('copy', cls=W.cls)
    ctx.true('the source is not altered', world.equal(frozen, world.snap(a.obj)))
    st = world.snap(b.obj)
    bad = [k for k in frozen if not world.equal(frozen[k], st.get(k))]
    ctx.true('the destination holds the state of the source', not bad, bad)
    shared = [k for k, v in vars(a.obj).items() for q in [vars(b.obj).get(k)]
              if isinstance(v, np.ndarray) and isinstance(q, np.ndarray) and v.size and np.shares_memory(v, q)]
    ctx.true('the destination shares no data with the source', not shared, shared)
    # both continue alike, and do not touch each other
    ops = [int(v) for v in rng.integers(0, 2 ** 31, int(rng.integers(1, 5)))]
    if W in (world.UKFw,) or hasattr(b, 'n'):
        b.n = getattr(a, 'n', None)
    res = []
    for s in ops:
        b.act(np.random.default_rng(s))
        res.append(world.snap(b.obj))
    ctx.true('running the destination leaves the source', world.equal(frozen, world.snap(a.obj)))
    for s, want in zip(ops, res):
        a.act(np.random.default_rng(s))
        got = world.snap(a.obj)
        bad = [k for k in want if not world.equal(want[k], got.get(k), 1e-7)]
        ctx.true('the destination behaves like the source', not bad, lambda: [(k, want[k], got.get(k)) for k in bad[:3]])
    # partly different kinds: only what they have in common is copied
    p, q = Bag(), Bag()
    p.x, p.only_p, q.x, q.only_q = np.zeros(2), 1., np.ones(2), 2.
    p.f, q.f = (lambda: 1), (lambda: 2)
    pf = p.f
    copy_states(p, q)
    ctx.true('only common attributes are copied', np.array_equal(p.x, [1., 1.]) and p.only_p == 1. and not hasattr(p, 'only_q') and p.f is pf)


# -- printing ---------------------------------------------------------------------------
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)')
CORE = {'KalmanFilter': 'x P x_prior P_prior x_post P_post F Q R H K y S SI M B z likelihood mahalanobis alpha',
        'SquareRootKalmanFilter': 'x P F Q R H K y S', 'InformationFilter': 'x P_inv F Q R_inv H K y z S B',
        'FadingKalmanFilter': 'x P F Q R H K y S B alpha', 'ExtendedKalmanFilter': 'x P x_prior P_prior F Q R K y S likelihood',
        'UnscentedKalmanFilter': 'x P x_prior P_prior Q R S K y sigmas_f Wm Wc likelihood', 'CubatureKalmanFilter': 'x P Q R K y',
        'EnsembleKalmanFilter': 'x P x_prior P_prior Q R K S sigmas', 'HInfinityFilter': 'gamma x P F Q V W K y',
        'FixedLagSmoother': 'x P F Q R H K y S B', 'IMMEstimator': 'x P mu M cbar likelihood omega N', 'MMAEFilterBank': 'x P',
        'GHFilter': 'x dx dt g h y', 'GHKFilter': 'x dx ddx dt g h k y', 'GHFilterOrder': 'x dt order g h k y z',
        'FadingMemoryFilter': 'x dt order beta', 'LeastSquaresFilter': 'x dt sigma'}
ALIAS = {'log-likelihood': 'log_likelihood', 'h': 'sigmas_h', 'PI': 'P_inv'}


def shows(text, label, val):
    """does the text show `label = val`?"""
    i = -1
    key = label + ' = '
    want = NUM.findall(str(val))
    while True:
        i = text.find(key, i + 1)
        if i < 0:
            return False
        if i and text[i - 1] != '\n':
            continue
        rest = text[i + len(key):]
        m = re.search(r'\n[A-Za-z_][\w\-\[\]]* = ', rest)
        body = rest[:m.start()] if m else rest
        if not want:
            if isinstance(val, np.ndarray) and val.ndim == 2 and val.shape[1] == 1:
                val = val.T
            if ''.join(str(val).split())[:20] in ''.join(body.split()):
                return True
        elif NUM.findall(body) == (NUM.findall(str(val.T)) if isinstance(val, np.ndarray) and val.ndim == 2 and
                                   val.shape[1] == 1 and val.shape[0] > 1 else want):
            return True


def printing(ctx, rng):
    """printed objects show what they hold"""
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    w = W(rng, world.Handed())
    for _ in range(int(rng.integers(0, 4))):
        w.act(rng)
    o = w.obj
    ctx.describe(cls=W.cls)
    before = world.snap(o)
    r = repr(o)
    ctx.event('repr', cls=W.cls)
    ctx.true('printing does not alter the object', world.equal(before, world.snap(o)))
    name = type(o).__name__
    ctx.true('printed form names the class', name in r.split('\n')[0], r[:80])
    for k in CORE[name].split():
        if not hasattr(o, k):
            continue
        ctx.true('printed form shows [%s]' % k, re.search(r'(^|\n)%s(\[\d+\])* = ' % re.escape(k), r) is not None or
                 any(ALIAS.get(a) == k and ('\n' + a + ' = ') in r for a in ALIAS), lambda: name + '\n' + r)
    for m in re.finditer(r'(?:^|\n)([A-Za-z_][\w\-]*) = ', r):
        a = m.group(1)
        k = a if hasattr(o, a) else ALIAS.get(a)
        if k is None or not hasattr(o, k):
            continue
        v = getattr(o, k)
        if isinstance(v, (list, tuple, deque)) and len(v):
            continue
        ctx.true('printed value is the value held', shows(r, a, v), lambda: '%s.%s = %r not shown in\n%s' % (name, k, v, r))
    if rng.random() < .3:
        ctx.true('the same object prints the same', repr(o) == r)


def pretty(ctx, rng):
    """pretty printing of arrays, lists and scalars"""
    from filterpy.common import pretty_str, pprint
    from filterpy.common.helpers import repr_string
    k = int(rng.integers(0, 9))
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    v = [lambda: rng.standard_normal((n, m)), lambda: rng.standard_normal((n, 1)), lambda: rng.standard_normal(n), lambda: float(rng.normal()),
         lambda: [rng.standard_normal((n, m)) for _ in range(3)], lambda: (1, 2., 'a'), lambda: deque([1.5, 2]), lambda: 'text',
         lambda: [[], (), deque(), {}][int(rng.integers(0, 4))]][k]()
    label = ['x', 'P_prior', '', 'cov'][int(rng.integers(0, 4))]
    ctx.describe(k=k, n=n, m=m, label=label)
    ctx.event('pretty_str')
    s = pretty_str(label, v)
    ctx.true('pretty printing gives text', isinstance(s, str))
    out = io.StringIO()
    with redirect_stdout(out):
        pprint(label, v)
    ctx.true('printing prints the same text', out.getvalue() == s + '\n', lambda: repr((out.getvalue(), s)))
    out2 = io.StringIO()
    pprint(label, v, file=out2, end='!')
    ctx.true('print arguments are passed on', out2.getvalue() == s + '!')
    if isinstance(v, np.ndarray):
        head = label + ' = ' if label else ''
        ctx.true('label first', s.startswith(head), s)
        body = s[len(head):]
        if v.ndim == 2 and v.shape[1] == 1 and v.shape[0] > 1:
            ctx.true('columns are shown as transposed rows', body.endswith('.T') and '\n' not in body and
                     NUM.findall(body) == NUM.findall(str(v.T)), s)
        else:
            ln = s.split('\n')
            ctx.true('rows are aligned under the first', all(q[:len(head)].strip() == '' for q in ln[1:]) and
                     [q[len(head):] for q in ln] == str(v).split('\n'), s)
    elif k in (4, 5, 6):
        for i, q in enumerate(v):
            ctx.true('items are shown with their index', (pretty_str('%s[%d]' % (label, i), q)) in s, s)
        ctx.true('items in order', s == '\n'.join(pretty_str('%s[%d]' % (label, i), q) for i, q in enumerate(v)), s)
    elif k == 8:
        ctx.true('empty containers', s == label + ' = ' + str(v), s)
    else:
        ctx.true('scalars', s == (label + ' = ' if label else '') + str(v), s)
    b = Bag()
    b.a, b._b = rng.standard_normal((2, 2)), 3.25
    for priv in (True, False):
        t = repr_string(b, priv) if rng.random() < .5 or not priv else repr_string(b)
        ctx.true('generic printable form', t.startswith('Bag object') and shows(t, 'a', b.a) and (('_b = 3.25' in t) == priv), t)


SCENARIOS = [(runge, 4500, 40000), (small, 4500, 40000), (reshape, 9000, 60000), (compare, 4500, 40000), (copying, 3000, 25000),
             (printing, 3000, 25000), (pretty, 4500, 30000)]
