"""C29: a recorder keeps an exact, independent copy of every recorded step"""
import copy
import numpy as np
from .. import gen, world

ANCHORS = ['filterpy/common/helpers.py']
RULE = ('Recorders on live objects of every filter class and on synthetic objects with properties, private and callable attributes, '
        'nested mutable data and attributes that appear late; after random histories of operations, in-place mutation and recording the '
        'whole record is compared with independently taken copies.')


def values(obj):
    """every attribute and property of the object, copied"""
    p = {k: copy.deepcopy(getattr(obj, k)) for k in world.props_of(obj)}    # first: may fill private caches
    d = {k: copy.deepcopy(v) for k, v in vars(obj).items()}
    d.update(p)
    return d


def wanted(obj, priv, call, ignore):
    props = world.props_of(obj)
    out = {}
    for k, v in values(obj).items():
        if k in ignore:
            continue
        if k not in props:
            if priv and k.startswith('_'):
                continue
            if call and callable(v):
                continue
        out[k] = v
    return out


def compare(ctx, sv, rec, n, api='both'):
    ctx.true('as many records as recordings', len(sv) == n, lambda: '%d, expected %d' % (len(sv), n))
    ctx.true('keys of the record', sorted(sv.keys) == sorted(rec), lambda: sorted(set(sv.keys) ^ set(rec)))
    for k, want in rec.items():
        got = sv[k]
        ctx.true('one value per recording', len(got) == len(want), lambda: '%s: %d, expected %d' % (k, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.true('recorded value', world.equal(a, b), lambda: '%s[%d] = %r, expected %r' % (k, i, a, b))
        at = getattr(sv, k)
        ctx.true('attribute access gives the record', len(at) == len(want) and all(world.equal(a, b) for a, b in zip(at, want)),
                 lambda: k)


def mutate(rng, obj):
    """change the watched object's data in place, behind the recorder's back"""
    for k, v in vars(obj).items():
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable and rng.random() < .5:
            v += 1e3
        elif isinstance(v, list) and v and rng.random() < .5:
            v.append(v[-1])


def filters(ctx, rng):
    """recorders on live filters of every class"""
    from filterpy.common import Saver
    W = world.ALL[int(rng.integers(0, len(world.ALL)))]
    w = W(rng, world.Handed())
    obj = w.obj
    priv, call = bool(rng.random() < .4), bool(rng.random() < .4)
    names = sorted(values(obj))
    ign = tuple(str(v) for v in rng.choice(names, int(rng.integers(0, 3)), replace=False)) if rng.random() < .5 else ()
    if rng.random() < .1:
        ign = ign + ('no_such_attribute',)
    if rng.random() < .3:
        ign = list(ign)
    cur = bool(rng.random() < .5)
    kw = {}
    for a, v, d in (('save_current', cur, False), ('skip_private', priv, False), ('skip_callable', call, False)):
        if v != d or rng.random() < .3:
            kw[a] = v
    if len(ign) or rng.random() < .3:
        kw['ignore'] = ign
    ctx.describe(cls=w.cls, priv=priv, call=call, ign=len(ign), cur=cur)
    rec, n = {}, 0
    shape = {}

    def note():
        for k, v in wanted(obj, priv, call, ign).items():
            rec.setdefault(k, []).append(v)
            shape.setdefault(k, set()).add(np.shape(v) if isinstance(v, np.ndarray) else type(v))
    if cur:
        note()
        n += 1
    before = world.snap(obj)
    sv = Saver(obj, **kw)
    ctx.event('recorder', cls=w.cls)
    ctx.true('creating a recorder does not alter the object', world.equal(before, world.snap(obj)))
    for _ in range(int(rng.integers(1, 8))):
        if rng.random() < .75:
            w.act(rng)
            ctx.event('operate')
        if rng.random() < .8 or not n:
            before = values(obj)
            pub = world.snap(obj)
            note()
            sv.save()
            n += 1
            ctx.event('record')
            ctx.true('recording does not alter the object', world.equal(before, values(obj)) and world.equal(pub, world.snap(obj)),
                     lambda: [k for k, v in values(obj).items() if not world.equal(before.get(k), v)])
    compare(ctx, sv, rec, n)
    final = world.snap(obj)
    # writing into the record does not reach the object
    for k in sv.keys:
        v = sv[k][-1]
        if isinstance(v, np.ndarray) and v.size and v.dtype.kind == 'f' and v.flags.writeable:
            keep = v.copy()
            v += 5.
            ctx.true('the object does not share data with the record', world.equal(final, world.snap(obj)), k)
            v[...] = keep
    if rng.random() < .6:
        mutate(rng, obj)
        compare(ctx, sv, rec, n)
    arrays(ctx, rng, sv, rec)


def stackable(v):
    try:
        np.array(v)
        return True
    except Exception:                                         # noqa
        return False


def arrays(ctx, rng, sv, rec):
    """conversion and flattening of the whole record"""
    ok = all(stackable(v) for v in rec.values())
    flatten = bool(rng.random() < .5)
    if not ok:
        try:
            sv.to_array(flatten)
            ctx.fail('conversion of ragged data', 'did not raise')
        except ValueError:
            ctx.event('ragged')
        compare(ctx, sv, rec, len(sv))
        return
    sv.to_array(flatten) if flatten else sv.to_array()
    ctx.event('to_array')
    if flatten is False and rng.random() < .5:
        flatten = True
        sv.flatten()
    for k, want in rec.items():
        W = np.array(want)
        if flatten and W.ndim == 3 and W.shape[2] == 1:
            W = W.reshape(W.shape[:2])
            if W.shape[1] == 1:
                W = W.ravel()
        elif flatten and W.ndim > 3:
            continue
        got = getattr(sv, k)
        ctx.true('converted record is an array', isinstance(got, np.ndarray), k)
        ctx.true('converted record: shape', got.shape == W.shape, lambda: '%s: %s, expected %s' % (k, got.shape, W.shape))
        ctx.true('converted record: values', world.equal(list(got.ravel()), list(W.ravel())) if W.dtype == object else world.equal(got, W),
                 lambda: '%s: %r, expected %r' % (k, got, W))


class Thing(object):
    klass = 7                                                # a class attribute is not data of the object

    def __init__(self, rng):
        self.rng = rng
        self.a = rng.standard_normal((2, 1))
        self.b = float(rng.random())
        self.n = 3
        self._p = [1., 2.]
        self.fn = lambda: 4
        self.d = {'k': [1, 2, np.arange(3.)]}
        self.s = 'text'
        self.none = None
        self._v = 1.
        self.__dict__['with space'] = 5

    @property
    def twice(self):
        return self.b * 2

    @property
    def alias(self):
        return self.a

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, value):
        self._v = value

    def step(self, rng):
        k = int(rng.integers(0, 6))
        if k == 0:
            self.a[int(rng.integers(0, 2)), 0] = rng.random()        # in place
        elif k == 1:
            self.b = float(rng.random())
        elif k == 2:
            self.d['k'][2][1] += 1
            self.d['k'].append(int(rng.integers(0, 9)))
        elif k == 3:
            self._p.append(float(rng.random()))
        elif k == 4:
            self.v = float(rng.random())
        else:
            self.n += 1

    def act(self, rng):
        self.step(rng)


class Sub(Thing):
    @property
    def thrice(self):
        return self.b * 3


def values_thing(t):
    d = {k: copy.deepcopy(v) for k, v in vars(t).items() if k != 'rng'}
    return d


def synthetic(ctx, rng):
    """objects with every kind of attribute; two recorders on one object; late attributes"""
    from filterpy.common import Saver
    t = (Thing if rng.random() < .5 else Sub)(rng)
    del t.rng
    opts = []
    for _ in range(2):
        names = sorted(values(t))
        opts.append((bool(rng.random() < .5), bool(rng.random() < .5),
                     tuple(str(v) for v in rng.choice(names, int(rng.integers(0, 4)), replace=False))))
    ctx.describe(cls=type(t).__name__, opts=opts)
    svs = [Saver(t, False, *o) if rng.random() < .3 else Saver(t, skip_private=o[0], skip_callable=o[1], ignore=o[2]) for o in opts]
    recs = [{}, {}]
    ns = [0, 0]
    late = False
    for i in range(int(rng.integers(1, 12))):
        t.step(rng)
        if not late and i > 3 and rng.random() < .2:
            late = True
            t.late = rng.standard_normal(2)
        j = int(rng.integers(0, 2))
        for k, v in wanted(t, *opts[j]).items():
            recs[j].setdefault(k, []).append(v)
        svs[j].save()
        ns[j] += 1
        ctx.event('record')
        if rng.random() < .15:
            try:
                svs[j].to_array()
            except ValueError:
                pass
            ctx.event('convert midway')
    for j in (0, 1):
        if ns[j] and rng.random() < .7:
            compare_lists(ctx, svs[j], recs[j], ns[j])
        else:
            ctx.true('as many records as recordings', len(svs[j]) == ns[j])
    j = int(rng.integers(0, 2))
    if ns[j] and 'b' in svs[j].keys:
        svs[j]['b'] = [9.]
        ctx.event('set')
        ctx.true('a replaced record is the one given', svs[j]['b'] == [9.] and list(svs[j].b) == [9.])
    r = repr(svs[j])
    ctx.true('printable form names every key', all(k in r for k in svs[j].keys), r)


def compare_lists(ctx, sv, rec, n):
    ctx.true('as many records as recordings', len(sv) == n)
    ctx.true('keys of the record', sorted(sv.keys) == sorted(rec), lambda: sorted(set(sv.keys) ^ set(rec)))
    for k, want in rec.items():
        got = sv[k]
        ctx.true('one value per recording', len(got) == len(want), k)
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.true('recorded value', world.equal(a, b), lambda: '%s[%d] = %r, expected %r' % (k, i, a, b))


def flat(ctx, rng):
    """flattening turns columns into rows and leaves everything else alone"""
    from filterpy.common import Saver

    class Rec(object):
        pass
    o = Rec()
    m, p = int(rng.integers(1, 5)), int(rng.integers(2, 4))
    N = int(rng.integers(1, 6))
    ctx.describe(m=m, p=p, N=N)
    sv = Saver(o)
    keep = {k: [] for k in ('col', 'one', 'mat', 'vec', 'sc', 'txt', 'nest')}
    for _ in range(N):
        o.col = rng.standard_normal((m, 1))
        o.one = rng.standard_normal((1, 1))
        o.mat = rng.standard_normal((m, p))
        o.vec = rng.standard_normal(m)
        o.sc = float(rng.standard_normal())
        o.txt = 'abc'
        o.nest = [1, [2, 3][0]]
        for k in keep:
            keep[k].append(copy.deepcopy(getattr(o, k)))
        sv.save()
        ctx.event('record')
    if rng.random() < .5:
        sv.to_array(True)
    else:
        sv.to_array(flatten=False)
        ctx.true('columns before flattening', sv.col.shape == (N, m, 1))
        sv.flatten()
    W = {k: np.array(v) for k, v in keep.items()}
    W['col'] = W['col'].reshape(N, m) if m > 1 else W['col'].ravel()
    W['one'] = W['one'].ravel()
    for k in W:
        got = getattr(sv, k)
        ctx.true('flattened shape', np.shape(got) == W[k].shape, lambda: '%s %s %s' % (k, np.shape(got), W[k].shape))
        ctx.true('flattened values', np.array_equal(got, W[k]), k)
    ctx.true('lists stay available by key', all(world.equal(list(sv[k]), keep[k]) for k in keep))


SCENARIOS = [(filters, 4500, 50000), (synthetic, 4500, 40000), (flat, 2400, 20000)]
