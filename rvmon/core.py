"""Runtime-monitoring core: case scheduling, event recording, oracles' verdicts,
reach measurement, evidence and replay files.

A *scenario* is a function  fn(ctx, rng)  that drives the real filterpy code
with one generated workload and lets oracles judge what was observed.
Every case is reproducible from (property, scenario name, case seed).
"""
from __future__ import annotations
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RVMON_REPO', '/repo')
TARGET = os.path.join(REPO, 'filterpy') + os.sep

import numpy as np  # noqa: E402


class Violation(Exception):
    """the oracle observed behaviour outside the property"""

    def __init__(self, what, detail=''):
        super().__init__('%s: %s' % (what, detail))
        self.what = what
        self.detail = detail


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _short(v, n=400):
    try:
        if isinstance(v, np.ndarray):
            s = np.array2string(v, precision=6, threshold=40, separator=',')
        else:
            s = repr(v)
    except Exception as e:                                    # noqa
        s = '<unprintable %s>' % type(e).__name__
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


class Reach(object):
    """Which functions and lines of the code under test really executed
    (sys.monitoring, one event per line, then disabled: cheap)."""

    def __init__(self):
        self.lines = set()
        self.funcs = set()
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(m.COVERAGE_ID, 'rvmon')
        except ValueError:
            return

        def line(code, no):
            if code.co_filename.startswith(TARGET) and '/tests/' not in code.co_filename:
                self.lines.add((code.co_filename[len(TARGET):], no))
            return m.DISABLE

        def start(code, off):
            if code.co_filename.startswith(TARGET) and '/tests/' not in code.co_filename:
                self.funcs.add((code.co_filename[len(TARGET):], code.co_qualname))
            return m.DISABLE

        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.register_callback(m.COVERAGE_ID, m.events.PY_START, start)
        m.set_events(m.COVERAGE_ID, m.events.LINE | m.events.PY_START)
        self.on = True

    def stop(self):
        if self.on:
            m = sys.monitoring
            m.set_events(m.COVERAGE_ID, 0)
            m.free_tool_id(m.COVERAGE_ID)
            self.on = False


class Ctx(object):
    """What a scenario gets: event recording and verdicts."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.counts = {}          # event kind -> n
        self.verdicts = 0         # oracle comparisons that were decided
        self.verdict_kinds = {}
        self.sigs = set()         # signatures of nontrivial cases
        self.evals = 0
        self.samples = []
        self.max_err = {}
        self._begin()

    def _begin(self):
        self.trace = []
        self.desc = {}
        self._nv = self.verdicts
        self.sig = []

    # -- recording ---------------------------------------------------------
    def describe(self, **kw):
        """shape of this case: goes in the signature used for distinctness"""
        self.desc.update(kw)

    def event(self, kind, /, **data):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if len(self.trace) < 400:
            self.trace.append((kind, {k: _short(v, 160) for k, v in data.items()}))
        self.sig.append(kind)

    # -- verdicts ----------------------------------------------------------
    def _decided(self, what):
        self.verdicts += 1
        k = what.split(' [')[0]
        self.verdict_kinds[k] = self.verdict_kinds.get(k, 0) + 1

    def fail(self, what, detail=''):
        raise Violation(what, detail)

    def true(self, what, cond, detail=''):
        self._decided(what)
        if not bool(cond):
            raise Violation(what, detail() if callable(detail) else detail)

    def close(self, what, got, want, tol=1e-7, scale=None, shape=None, flat=False):
        """|got-want| <= tol*scale elementwise (scale defaults to max|want|,
        so that cancellation inside one array is tolerated)."""
        self._decided(what)
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation(what, 'not numeric: %s' % _short(got))
        w = np.asarray(want, dtype=float)
        if flat:
            g = g.reshape(-1) if g.size == w.size else g
            w = w.reshape(-1)
        if shape is not None and g.shape != tuple(shape):
            raise Violation(what, 'shape %s, expected %s' % (g.shape, tuple(shape)))
        if g.shape != w.shape:
            raise Violation(what, 'shape %s, expected %s' % (g.shape, w.shape))
        if g.size == 0:
            return
        if not np.all(np.isfinite(w)):
            raise HarnessError('reference not finite for %s' % what)
        if not np.all(np.isfinite(g)):
            raise Violation(what, 'not finite: got %s want %s' % (_short(g), _short(w)))
        s = float(np.max(np.abs(w))) if scale is None else float(scale)
        s = max(s, 1e-300)
        err = float(np.max(np.abs(g - w))) / s
        k = what.split(' [')[0]
        if err > self.max_err.get(k, 0.0):
            self.max_err[k] = err
        if not err <= tol:
            raise Violation(what, 'relative error %.3g > %.1g; got %s want %s'
                            % (err, tol, _short(g), _short(w)))

    def shape(self, what, got, shape):
        self._decided(what)
        if np.shape(got) != tuple(shape):
            raise Violation(what, 'shape %s, expected %s' % (np.shape(got), tuple(shape)))

    def raises(self, what, exc, fn, *a, **kw):
        self._decided(what)
        try:
            r = fn(*a, **kw)
        except exc:
            return
        except (CaseTimeout, KeyboardInterrupt):
            raise
        except Exception as e:                                # noqa
            raise Violation(what, 'raised %s instead of %s' % (type(e).__name__, exc))
        raise Violation(what, 'did not raise; returned %s' % _short(r))


def case_seed(prop, scen, base, i):
    h = hashlib.sha256(('%s|%s|%d|%d' % (prop, scen, base, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def run_case(ctx, scen, seed, limit):
    """run one case; returns None or a violation record"""
    ctx._begin()
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    import random
    random.seed(seed)
    ctx.evals += 1
    before = ctx.verdicts

    def onalarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                scen(ctx, rng)
    except Violation as v:
        err = ('oracle', v.what, v.detail, '')
    except CaseTimeout:
        err = ('hang', 'no answer', 'case did not finish in %d s' % limit, '')
    except (HarnessError, MemoryError):
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:                                # noqa
        err = ('exception', type(e).__name__, str(e)[:600],
               ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if ctx.verdicts > before:
        s = hashlib.sha256(repr((scen.__name__, sorted(
            (k, str(v)) for k, v in ctx.desc.items()), ctx.sig[:200])).encode()).hexdigest()[:16]
        ctx.sigs.add(s)
    if len(ctx.samples) < 2 and ctx.verdicts > before:
        ctx.samples.append({'scenario': scen.__name__, 'seed': seed,
                            'case': {k: str(v) for k, v in ctx.desc.items()},
                            'events': [[k, d] for k, d in ctx.trace[:6]],
                            'verdicts': ctx.verdicts - before})
    if err is None:
        return None
    return {'scenario': scen.__name__, 'seed': seed, 'kind': err[0], 'what': err[1],
            'detail': err[2], 'traceback': err[3],
            'case': {k: str(v) for k, v in ctx.desc.items()},
            'events': [[k, d] for k, d in ctx.trace[-40:]]}


def _worker(prop, scens, tier, base, shard, nshards, deadline, limit, wfd):
    reach = Reach()
    ctx = Ctx(prop, tier)
    out = {'viol': [], 'scen': {}, 'harness': None, 'cut': False}
    try:
        reach.start()
        known = load_known(prop)
        for fn, count in scens:
            done = 0
            nv = 0
            v0 = ctx.verdicts
            for i in range(shard, count, nshards):
                if time.time() > deadline:
                    out['cut'] = True
                    break
                r = run_case(ctx, fn, case_seed(prop, fn.__name__, base, i), limit)
                done += 1
                if r is not None:
                    if match_known(known, r) is not None:
                        if len(out['viol']) < 50:
                            out['viol'].append(r)
                        continue
                    out['viol'].append(r)
                    nv += 1
                    if nv >= 3 or r['kind'] == 'hang':
                        break
            out['scen'][fn.__name__] = [done, ctx.verdicts - v0]
    except BaseException as e:                                # noqa
        out['harness'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        reach.stop()
    out.update(counts=ctx.counts, verdicts=ctx.verdicts, kinds=ctx.verdict_kinds,
               sigs=ctx.sigs, evals=ctx.evals, samples=ctx.samples, max_err=ctx.max_err,
               lines=reach.lines, funcs=reach.funcs)
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)


def run_sharded(prop, scens, tier, base, nproc, deadline, limit):
    kids = []
    for s in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                _worker(prop, scens, tier, base, s, nproc, deadline, limit, w)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    outs = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            outs.append({'harness': 'worker died, status %s' % st, 'viol': [], 'scen': {},
                         'counts': {}, 'verdicts': 0, 'kinds': {}, 'sigs': set(), 'evals': 0,
                         'samples': [], 'max_err': {}, 'lines': set(), 'funcs': set(),
                         'cut': False})
        else:
            outs.append(pickle.loads(data))
    return outs


def executable_lines(relfile):
    """line numbers with code, for the reach denominator"""
    path = TARGET + relfile
    try:
        with open(path) as f:
            top = compile(f.read(), path, 'exec')
    except (OSError, SyntaxError):
        return set()
    acc = set()
    stack = list(c for c in top.co_consts if hasattr(c, 'co_lines'))
    while stack:
        c = stack.pop()
        if c.co_name.startswith('test_') or c.co_name == '__repr__':
            continue
        acc.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
        stack.extend(k for k in c.co_consts if hasattr(k, 'co_lines'))
    return acc


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == prop]


def main(prop, scens, rule, anchors, assumptions=(), extra=None):
    """scens: list of (fn, quick_count, thorough_count[, limit])."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    only = None
    scale = float(os.environ.get('RVMON_SCALE', '1'))
    for a in sys.argv[1:]:
        if a.startswith('--only='):
            only = a[7:].split(',')
    if '--replay' in sys.argv:
        return replay(prop, scens, sys.argv[sys.argv.index('--replay') + 1])

    sl = []
    for s in scens:
        n = s[1] if tier == 'quick' else s[2]
        if only is None or s[0].__name__ in only:
            sl.append((s[0], max(1, int(n * scale))))
    nproc = int(os.environ.get('RVMON_PROCS', str(min(8, os.cpu_count() or 1))))
    deadline = t0 + (420 if tier == 'quick' else 3 * 3600)
    outs = run_sharded(prop, sl, tier, seed, nproc, deadline, 120 if tier == 'quick' else 900)

    counts, kinds, sigs, max_err, lines, funcs, scen = {}, {}, set(), {}, set(), set(), {}
    viol, samples, verdicts, evals = [], [], 0, 0
    harness = [o['harness'] for o in outs if o['harness']]
    for o in outs:
        for k, v in o['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in o['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in o['max_err'].items():
            max_err[k] = max(max_err.get(k, 0), v)
        for k, v in o['scen'].items():
            a = scen.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        sigs |= o['sigs']
        lines |= o['lines']
        funcs |= o['funcs']
        viol += o['viol']
        verdicts += o['verdicts']
        evals += o['evals']
        if len(samples) < 6:
            samples += o['samples'][:2]

    if os.environ.get('RVMON_LINES'):                       # campaign tooling: which lines were executed
        with open(os.environ['RVMON_LINES'], 'wb') as f:
            pickle.dump(lines, f)
    known = load_known(prop)
    fresh, hits = [], {}
    for v in viol:
        k = match_known(known, v)
        if k is None:
            fresh.append(v)
        else:
            hits.setdefault(k['id'], 0)
            hits[k['id']] += 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    reach = {}
    for f in anchors:
        f = f[len('filterpy/'):] if f.startswith('filterpy/') else f
        allL = executable_lines(f)
        got = {n for (ff, n) in lines if ff == f}
        reach[f] = {'lines_executed': len(got & allL) if allL else len(got),
                    'executable_lines': len(allL),
                    'functions_entered': sorted(q for (ff, q) in funcs if ff == f)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(sigs),
            'rule': rule + ' A case counts as distinct and non-trivial when its signature '
                    '(scenario, generated configuration, sequence of recorded event kinds) was not '
                    'seen before in this run and at least one oracle verdict was reached in it.',
            'samples': samples[:6],
            'oracle_verdicts': verdicts,
            'verdicts_by_kind': dict(sorted(kinds.items(), key=lambda kv: -kv[1])[:80]),
            'events_recorded': counts,
            'cases_and_verdicts_per_scenario': scen,
            'worst_relative_error_seen': {k: float('%.3g' % v) for k, v in sorted(
                max_err.items(), key=lambda kv: -kv[1])[:20]},
            'code_reached': reach,
            'known_findings_matched': hits,
            'stopped_by_deadline': any(o['cut'] for o in outs),
        },
        'assumptions': list(assumptions) + [
            'floating-point agreement is judged to a relative tolerance, stated per verdict in the harness',
            'the reference models in rvmon/refs.py are correct'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if extra:
        ev['coverage'].update(extra)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    if fresh:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        # one report per (scenario, what), the first is the headline
        seen = set()
        for v in fresh:
            key = (v['scenario'], v['what'])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(d, '%s-%s-%x.json' % (prop, v['scenario'], v['seed'] & 0xffffffff))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier), f, indent=1, default=_short)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   scenario=%s kind=%s what=%s :: %s' % (
                v['scenario'], v['kind'], v['what'], v['detail'][:500]))
            if v['traceback']:
                print('   ' + v['traceback'].strip().splitlines()[-1])
                for ln in v['traceback'].splitlines()[-12:]:
                    print('      ' + ln)
        if harness:
            print('note: also a harness error: ' + harness[0][-800:])
        return 1
    if harness:
        print('HARNESS ERROR: ' + harness[0])
        return 2
    dead = [f.__name__ for f, n in sl if scen.get(f.__name__, [0, 0])[1] == 0]
    if verdicts == 0 or dead:
        print('INCONCLUSIVE: no oracle verdict reached in %s' % (dead or 'any scenario'))
        return 3
    print('%s %s seed=%d: %d cases (%d distinct), %d verdicts, %d events, %.1fs: held' % (
        prop, tier, seed, evals, len(sigs), verdicts, sum(counts.values()), time.time() - t0))
    return 0


def match_known(known, v):
    for k in known:
        m = k['match']
        if m.get('scenario') and m['scenario'] != v['scenario']:
            continue
        if m.get('what') and m['what'] != v['what']:
            continue
        if m.get('detail_contains') and m['detail_contains'] not in v['detail']:
            continue
        if all(str(v['case'].get(a)) == str(b) for a, b in m.get('case', {}).items()):
            return k
    return None


def replay(prop, scens, path):
    with open(path) as f:
        r = json.load(f)
    fn = {s[0].__name__: s[0] for s in scens}[r['scenario']]
    ctx = Ctx(prop, r.get('tier', 'quick'))
    out = run_case(ctx, fn, r['seed'], 900)
    if out is None:
        print('replay of %s: not reproduced, %d verdicts' % (path, ctx.verdicts))
        return 0
    print('VIOLATION property=%s replay=%s' % (prop, path))
    print(json.dumps(out, indent=1)[:6000])
    return 1
