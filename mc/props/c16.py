"""C16: evaluating a problem is a pure, well-formed function; bounds take every documented form."""
import copy
import itertools
import math
import os
import pickle

import numpy as np
import niapy.problems as NP
import reference as RF
from engine import Out
from env import MAX, MIN
from niapy.problems import Problem
from niapy.task import Task
from niapy.util.array import full_array
from niapy.util.factory import get_problem
from names import PROBLEMS

ID, LEVEL = 'C16', 'model_checking'
BOUNDS = {'quick': 'every problem x dimensions 1..6, 8, 30, 64, 100 x parameter sets x lattice points x eight ways of calling; values compared with those of a process that evaluates nothing else, and the same points in the opposite order; every problem after every other one; 700 evaluations; all sequences of up to 4 evaluations over 3-4 instances of different parameters and dimensions x 2 points; all forms of bounds (7 scalar types, list/tuple/array of lengths 1..D+2) for D to 5; every combination of dimension/lower/upper for a task built from a problem name',
          'thorough': 'all sequences of up to 5 evaluations over 3 instances x 3 points, denser lattices, bounds for D to 8'}
ASSUMPTIONS = ['solutions are finite vectors inside the default domain']
RULE = 'a state is a (problem instance, history of evaluations) pair'


def classes():
    return [n for n in NP.__all__ if n != 'Problem' and isinstance(getattr(NP, n), type)]


def dims(name):
    if name in RF.TWO:
        return [2]
    lo = RF.REF[name][2] if name in RF.REF else 1
    return [d for d in (1, 2, 3, 4, 5, 6, 8, 30, 64, 100) if d >= lo and not (name == 'Perm' and d > 12) and (name not in RF.FOUR or d % 4 == 0)]


def build(name, D, kw):
    cls = getattr(NP, name)
    return cls(**kw) if name in RF.TWO else cls(dimension=D, **kw)


def points(name, D, n):
    p = build(name, D, {})
    lo, hi = np.asarray(p.lower, dtype=float), np.asarray(p.upper, dtype=float)
    out = []
    for k in range(n):
        fr = [RF.FR[(k * (i + 1) + 3 * i + k) % len(RF.FR)] for i in range(D)]
        if k == 0:
            fr = [0.0] * D
        elif k == 1:
            fr = [1.0] * D
        elif k == 2:
            fr = [0.5] * D
        out.append(lo + np.array(fr) * (hi - lo))
    for v in (0.0, 1.0, -1.0):
        x = np.clip(np.full(D, v), lo, hi)
        out.append(x)
    if n >= 14:
        # neighbours of one point: they differ in one component, by a relative 1e-7, 1e-12 or one float
        for i in (0, D - 1):
            for e in (1e-7, 1e-12, 0.0):
                x = out[5].copy()
                x[i] = x[i] * (1 + e) + e * (hi[i] - lo[i]) if e else np.nextafter(x[i], lo[i])
                out.append(np.clip(x, lo, hi))
    return out


def jobs(tier):
    out = []
    for n in classes():
        for D in dims(n):
            out.append(('pure', n, D, tier))
        out.append(('hist', n, 0, tier))
        out.append(('bounds', n, 0, tier))
        out.append(('task', n, 0, tier))
    for n in classes():
        out.append(('cross', n, 0, tier))
    for D in range(1, 7 if tier == 'quick' else 10):
        out.append(('array', '', D, tier))
    return out


def alone(fn):
    """Result of fn() in a forked child: what happens there leaves nothing behind here, and nothing was evaluated before it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fn())
            except BaseException as e:
                res = (False, '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError(res)
    return res


def real(v):
    if isinstance(v, (complex, np.complexfloating)):
        return 'complex value %r' % (v,)
    if np.ndim(v) != 0 or isinstance(v, (list, tuple)):
        return 'not a scalar: %r' % (v,)
    try:
        if not math.isfinite(float(v)):
            return 'value %r is not finite' % (v,)
    except Exception:
        return 'not a number: %r' % (v,)
    return None


def same(a, b):
    return float(a) == float(b)


def close(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def pure(o, name, D, tier, bad):
    pts = points(name, D, 14 if tier == 'quick' else 60)
    sets = [{}] + (RF.PARAMS.get(name, []) if D <= 8 else [])
    key = {c.__name__: k for k, c in registry().items()}.get(name)
    for kw in sets:
        fresh = alone(lambda: [build(name, D, kw).evaluate(x.copy()) for x in pts[::-1]][::-1])    # in the other order
        p = build(name, D, kw)
        lo0, hi0 = np.array(p.lower), np.array(p.upper)
        first = []
        for x in pts:
            x0 = x.copy()
            v = p.evaluate(x)
            o.trans += 1
            m = real(v)
            if m:
                bad('real', '%s at %s' % (m, x0), x0)
                return
            if not (x.shape == x0.shape and x.dtype == x0.dtype and np.array_equal(x, x0)):
                bad('solution', 'evaluation changed the solution from %s to %s' % (x0, x), x0)
                return
            w = fresh[len(first)]
            if not same(v, w) and not real(w):
                bad('others', 'with %s %r at %s, %r when nothing else has been evaluated before' % (kw, v, x0, w), x0)
                return
            first.append(v)
        if p.dimension != D or not np.array_equal(p.lower, lo0) or not np.array_equal(p.upper, hi0):
            bad('problem', 'evaluations changed the problem: dimension %r, bounds %s .. %s' % (p.dimension, p.lower, p.upper))
        for i, x in list(enumerate(pts))[::-1]:
            ro = x.copy()
            ro.flags.writeable = False
            strided = np.zeros((D, 3))
            strided[:, 1] = x
            rev = x[::-1].copy()[::-1]
            tasks = []
            for opt in (MIN, MAX):
                t = Task(problem=p, optimization_type=opt, max_evals=3)
                tasks.append((t, opt))
            ways = [('again', lambda: p.evaluate(x)), ('call', lambda: p(x)), ('read-only solution', lambda: p.evaluate(ro)), ('fresh instance', lambda: build(name, D, kw).evaluate(x)),
                    ('deep copy', lambda: copy.deepcopy(p).evaluate(x)), ('pickle', lambda: pickle.loads(pickle.dumps(p)).evaluate(x))]
            if key and name not in RF.TWO:
                ways.append(('by name', lambda: get_problem(key, dimension=D, **kw)(x)))
            for t, opt in tasks:
                ways.append(('task %s' % opt.name, lambda t=t, opt=opt: t.eval(x) * opt.value))
            loose = [('strided solution', lambda: p.evaluate(strided[:, 1])), ('reversed view', lambda: p(rev))]
            if np.all(x == np.floor(x)) and np.all(np.abs(x) < 1000):
                pass
            for eq, group in ((same, ways), (close, loose)):
                for wn, w in group:
                    o.trans += 1
                    try:
                        v = w()
                    except Exception as e:
                        bad('way', '%s raised %r at %s' % (wn, e, x), x)
                        return
                    if real(v) or not eq(v, first[i]):
                        bad('way', '%s gives %r, the first evaluation gave %r at %s' % (wn, v, first[i], x), x)
                        return
            o.states.add(hash((name, D, repr(kw), i)))
            o.outcomes.add(hash((name, D, float(first[i]))))
            o.execs += 1
        # wrong dimensions
        for d in sorted({0, 1, D - 1, D + 1, D + 4, 2 * D, 3 * D} - {D, -1}):
            for how, f in (('evaluate', p.evaluate), ('call', p)):
                o.trans += 1
                try:
                    v = f(np.full(d, 0.5))
                except Exception:
                    continue
                bad('dimension', '%s of a solution of length %d returned %r' % (how, d, v))
                return


def registry():
    """name -> class through the factory's own answers (public behaviour)."""
    out = {}
    for k, n in PROBLEMS.items():
        try:
            pr = get_problem(k)
        except Exception:
            continue
        if type(pr).__name__ == n and n not in [c.__name__ for c in out.values()]:
            out[k] = type(pr)
    return out


def hist(o, name, tier, bad):
    ds = [d for d in dims(name) if d <= 8][:3]
    insts = [(name, d, {}) for d in ds[1:3] or ds]
    insts += [(name, insts[0][1], k) for k in RF.PARAMS.get(name, [])[:2]]
    if len(insts) < 3:
        insts.append((name, insts[0][1], {}))
    if len(insts) < 3:
        insts.append(('Sphere', 2, {}))
    npt = 2 if tier == 'quick' else 3
    pts = {}
    want = {}
    for i, (n, d, kw) in enumerate(insts):
        pts[i] = points(n, d, 7)[3:3 + npt]
        want[i] = [alone(lambda x=x: build(n, d, kw).evaluate(x.copy())) for x in pts[i]]
    ops = [(i, j) for i in range(len(insts)) for j in range(npt)]
    L = 4 if tier == 'quick' else 5
    for seq in itertools.product(ops, repeat=L):
        ps = [build(*t) for t in insts]
        for k, (i, j) in enumerate(seq):
            v = ps[i].evaluate(pts[i][j])
            o.trans += 1
            if real(v) or not same(v, want[i][j]):
                bad('history', 'after evaluations %s instance %d gives %r instead of %r' % (seq[:k], i, v, want[i][j]), pts[i][j])
                return
        o.states.add(hash((name, seq)))
        o.execs += 1
    o.outcomes.add(hash((name, 'hist')))


def cross(o, name, tier, bad):
    """Another problem evaluated in between, of any class, at the same points; then hundreds of other points."""
    for D in [d for d in dims(name) if d <= 8][:2 if tier == 'quick' else 6]:
        pts = points(name, D, 8)[3:]
        want = [alone(lambda x=x: build(name, D, {}).evaluate(x.copy())) for x in pts]
        for other in classes():
            if D not in dims(other):
                continue
            a, b = build(name, D, {}), build(other, D, {})
            box = np.asarray(b.lower, dtype=float), np.asarray(b.upper, dtype=float)
            for k, x in enumerate(pts):
                b.evaluate(np.clip(x, *box))
                for p in (a, build(name, D, {})):
                    v = p.evaluate(x)
                    o.trans += 1
                    if real(v) or not same(v, want[k]):
                        bad('history', 'after an evaluation of %s %r instead of %r' % (other, v, want[k]), x)
                        return
            o.states.add(hash((name, D, other)))
            o.execs += 1
        a = build(name, D, {})
        lo, hi = np.asarray(a.lower, dtype=float), np.asarray(a.upper, dtype=float)
        for k in range(700 if tier == 'quick' else 5000):
            a.evaluate(lo + ((0.0137 * k + 0.381966 * np.arange(D)) % 1.0) * (hi - lo))
            o.trans += 1
            if k % 50 == 49:
                for x, w in zip(pts, want):
                    v = a.evaluate(x)
                    if real(v) or not same(v, w):
                        bad('history', 'after %d evaluations %r instead of %r' % (k + 1, v, w), x)
                        return
        o.execs += 1
    o.outcomes.add(hash((name, 'cross')))


def forms(D, base, tier):
    """(form, value, expected vector)"""
    out = []
    for conv in (float, np.float64, np.float32, int, np.int64, np.int32):
        v = conv(base)
        out.append((conv.__name__, v, np.full(D, float(v))))
    for n in range(1, D + 3):
        seq = [base + 0.5 * i for i in range(n)]
        exp = np.array([seq[i % n] for i in range(D)])
        out.append(('list%d' % n, list(seq), exp))
        out.append(('tuple%d' % n, tuple(seq), exp))
        out.append(('array%d' % n, np.array(seq), exp))
        iseq = [int(base) + i for i in range(n)]
        out.append(('ints%d' % n, iseq, np.array([float(iseq[i % n]) for i in range(D)])))
    return out


def okvec(a, exp):
    return isinstance(a, np.ndarray) and a.shape == exp.shape and np.array_equal(np.asarray(a, dtype=float), exp)


class User(Problem):
    def _evaluate(self, x):
        return float(np.sum(x))


def bounds(o, name, tier, bad):
    if name in ('Perm', 'Trid'):        # their bounds follow from the dimension
        return
    Ds = [d for d in dims(name) if d <= (5 if tier == 'quick' else 8)] or dims(name)[:1]
    for D in Ds:
        fl, fu = forms(D, -3.0, tier), forms(D, 4.0, tier)
        pairs = [(a, fu[(k * 7) % len(fu)]) for k, a in enumerate(fl)] + [(fl[(k * 5) % len(fl)], b) for k, b in enumerate(fu)]
        for (fn, lv, le), (gn, uv, ue) in pairs:
            keep = [copy.deepcopy(lv), copy.deepcopy(uv)]
            try:
                if name in RF.TWO:
                    p = getattr(NP, name)(lower=lv, upper=uv)
                else:
                    p = getattr(NP, name)(D, lv, uv)
            except Exception as e:
                bad('bounds', 'bounds given as %s / %s raised %r' % (fn, gn, e))
                return
            o.trans += 1
            o.execs += 1
            o.states.add(hash((name, D, fn, gn)))
            if not okvec(p.lower, le) or not okvec(p.upper, ue):
                bad('bounds', 'D=%d bounds %r / %r become %r / %r' % (D, lv, uv, p.lower, p.upper))
                return
            if not (np.array_equal(keep[0], lv) and np.array_equal(keep[1], uv)):
                bad('bounds', 'the bounds of the caller were changed')
                return
    o.outcomes.add(hash((name, 'b')))


def array(o, D, tier, bad):
    for base in (-3.0, 0.0, 4.0):
        for fn, v, exp in forms(D, base, tier):
            for who, got in (('full_array', lambda: full_array(v, D)), ('lower of a user problem', lambda: User(D, v, 99.0).lower), ('upper of a user problem', lambda: User(D, -99.0, v).upper)):
                o.trans += 1
                o.execs += 1
                o.states.add(hash((D, base, fn, who)))
                try:
                    a = got()
                except Exception as e:
                    bad('full_array', '%s(%r, %d) raised %r' % (who, v, D, e))
                    continue
                if not okvec(a, exp):
                    bad('full_array', '%s(%r, %d) gives %r' % (who, v, D, a))
    for v in (None, 'abc', {1.0: 2.0}, object()):
        try:
            a = full_array(v, D)
        except Exception:
            continue
        bad('full_array', 'full_array(%r, %d) gives %r instead of being rejected' % (v, D, a))
    for n in range(1, D + 3):
        # user problem: exactly solutions of its dimension are accepted
        for w in range(0, D + 4):
            p = User(D, -1.0, 1.0)
            try:
                v = p.evaluate(np.ones(w))
            except Exception:
                if w == D:
                    bad('dimension', 'a solution of the right length %d was rejected' % D)
                continue
            if w != D:
                bad('dimension', 'a solution of length %d was accepted in dimension %d' % (w, D))
            elif v != float(D):
                bad('value', 'user problem gives %r' % v)
    o.outcomes.add(hash(D))


def task(o, name, tier, bad):
    key = next((k for k, c in registry().items() if c.__name__ == name), None)
    if key is None:
        o.note('no factory name for %s' % name)
        return
    cls = getattr(NP, name)
    default = cls()
    ds = [None] if name in RF.TWO else [None] + [d for d in dims(name) if d <= 8]
    for d in ds:
        D = default.dimension if d is None else d
        los = [None, -2.0, [-2.0] * D, [-1.0, -3.0]]
        his = [None, 3, np.full(D, 3.0), (2.0, 5.0, 7.0)]
        for lo, hi in itertools.product(los, his):
            kw = {k: v for k, v in (('dimension', d), ('lower', lo), ('upper', hi)) if v is not None}
            try:
                want = cls(**kw)
            except TypeError:
                continue            # bounds derived from the dimension
            for nm in (key, key.upper()):
                o.trans += 1
                o.execs += 1
                o.states.add(hash((nm, repr(kw))))
                try:
                    t = Task(problem=nm, **kw)
                except Exception as e:
                    bad('task', 'Task(%r, %s) raised %r' % (nm, kw, e))
                    continue
                x = np.asarray(want.lower, dtype=float) * 0.25 + 0.75 * np.asarray(want.upper, dtype=float)
                try:
                    if not (type(t.problem) is cls and t.dimension == want.dimension and np.array_equal(t.lower, want.lower) and np.array_equal(t.upper, want.upper)
                            and np.array_equal(np.asarray(t.range, dtype=float), np.asarray(want.upper, dtype=float) - np.asarray(want.lower, dtype=float))):
                        bad('task', 'Task(%r, %s) has dimension %r, bounds %s .. %s, range %s' % (nm, kw, t.dimension, t.lower, t.upper, t.range))
                    a, b = t.eval(x), want.evaluate(x)
                    if not (a == b or (a != a and b != b)):
                        bad('task', 'Task(%r, %s).eval gives %r instead of %r' % (nm, kw, a, b))
                except Exception as e:
                    bad('task', 'Task(%r, %s): %r' % (nm, kw, e))
            # an instance wins over dimension and bounds
            t = Task(problem=want, dimension=want.dimension + 1, lower=-77.0, upper=77.0)
            if not (t.problem is want and t.dimension == want.dimension and np.array_equal(t.lower, want.lower) and np.array_equal(t.upper, want.upper)):
                bad('task', 'a problem instance does not determine the task: %r %s %s' % (t.dimension, t.lower, t.upper))
    for v in (None, 3, cls, [key]):
        try:
            Task(problem=v, dimension=2)
        except Exception:
            continue
        bad('task', 'Task(problem=%r) was accepted' % (v,))
    o.outcomes.add(hash((name, 'task')))


def run_job(job):
    return alone(lambda: one_job(job))          # every job starts without any evaluation made before


def one_job(job):
    kind, name, D, tier = job
    o = Out()

    def bad(facet, det, x=None):
        o.bad('%s/%s' % (name or 'bounds', facet), '%s [%s D=%s]' % (det, name, D), {'problem': name, 'dimension': D, 'kind': kind, 'x': None if x is None else [float(v) for v in x]})
    try:
        if kind == 'pure':
            pure(o, name, D, tier, bad)
        elif kind == 'hist':
            hist(o, name, tier, bad)
        elif kind == 'cross':
            cross(o, name, tier, bad)
        elif kind == 'bounds':
            bounds(o, name, tier, bad)
        elif kind == 'array':
            array(o, D, tier, bad)
        else:
            task(o, name, tier, bad)
    except Exception as e:
        import traceback
        bad('raise', 'raised %r (%s)' % (e, traceback.format_exc().strip().splitlines()[-3].strip()))
    o.samples.append('%s %s D=%s' % (kind, name, D))
    return o
