"""C15: repair methods on a complete lattice of values and bounds."""
import itertools

import numpy as np
from engine import Out
from env import MAX, MIN
from niapy.problems import Problem
from niapy.task import Task
from niapy.util import repair as R

ID, LEVEL = 'C15', 'model_checking'
BOUNDS = {'quick': '16 bound pairs (ordinary, degenerate, one-ulp wide, huge, tiny) x 31 values around them, all vectors of length 1 and 2, all length-3 vectors over 12 values and mixed bounds, all rotations of the values over vectors of 4 to 257 components, five outcomes of the random draw, independence of real draws, views of populations, through the functions and through Task.repair',
          'thorough': 'all length-3 vectors over 31 values, length-4 vectors over 8 values'}
ASSUMPTIONS = ['finite values and bounds, lower <= upper']
RULE = 'a state is a (method, bounds, vector) triple'
METHODS = ('limit', 'limit_inverse', 'wang', 'rand', 'reflect')
PAIRS = [(0.0, 1.0), (-1.0, 1.0), (2.0, 5.0), (-7.0, -3.0), (-5.12, 5.12), (0.1, 0.3), (-100.0, 100.0), (0.0, 0.0), (3.0, 3.0), (-2.0, -2.0),
         (1.0, np.nextafter(1.0, 2)), (-1e10, 1e10), (1e-300, 3e-300), (-0.75, 0.25), (0.0, 10.0), (-500.0, 0.0)]


def values(lo, hi, n=99):
    w = hi - lo
    na = np.nextafter
    v = [lo, hi, (lo + hi) / 2, na(lo, -np.inf), na(hi, np.inf), lo - 0.5 * w, hi + 0.5 * w, lo - 1.25 * w, hi + 1.75 * w, hi + 1e6, lo - 1e6, na(lo, np.inf), na(hi, -np.inf),
         lo + 0.25 * w, lo - w, hi + w, lo - 2 * w, hi + 2 * w, lo - 3.25 * w, hi + 3.3 * w, lo - 0.1, hi + 0.1, lo - 1.0, hi + 1.0, 0.0, -lo, -hi, hi + 1000.5 * w, lo - 1000.5 * w, 1e300, -1e300]
    return list(dict.fromkeys(float(x) for x in v))[:n]


class FixRNG(np.random.Generator):
    """Every draw lands at the same fraction of its range."""

    def __new__(cls, u):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, u):
        super().__init__(np.random.PCG64(0))
        self.u = u
        self.n = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        self.n += 1
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        r = lo + self.u * (hi - lo)
        return float(r) if np.ndim(r) == 0 and size is None else np.broadcast_to(r, np.shape(r) if size is None else size).copy()

    def random(self, size=None, dtype=np.float64, out=None):
        self.n += 1
        return self.u if size is None else np.full(size, self.u)


US = (0.0, 0.25, 0.5, 0.9, 1.0 - 2.0 ** -53)


def rule(method, x, lo, hi, u):
    """Reference per component; None: only the range is prescribed."""
    if lo <= x <= hi:
        return x
    below = x < lo
    if method == 'limit':
        return lo if below else hi
    if method == 'limit_inverse':
        return hi if below else lo
    if method == 'wang':
        return min(hi, 2 * lo - x) if below else max(lo, 2 * hi - x)
    if method == 'reflect':
        return lo if hi <= lo else min(lo + x % (hi - lo), hi)
    return lo + u * (hi - lo)


class P(Problem):
    def _evaluate(self, x):
        return 0.0


def check(o, method, xs, los, his, u, how, task=None):
    x0, lo, hi = np.array(xs), np.array(los), np.array(his)
    l0, h0 = lo.copy(), hi.copy()
    o.trans += 1
    rep = {'method': method, 'x': list(map(repr, xs)), 'lower': list(map(repr, los)), 'upper': list(map(repr, his)), 'u': u, 'via': how}

    def bad(facet, det):
        o.bad('%s/%s' % (method, facet), '%s [x=%s lower=%s upper=%s via %s]' % (det, list(xs), list(los), list(his), how), rep)

    def call(v):
        rng = FixRNG(u)
        if task is not None:
            return task.repair(v, rng=rng)
        return getattr(R, method)(v, lo, hi, rng=rng)
    try:
        y = np.asarray(call(x0.copy()))
    except Exception as e:
        bad('raise', 'raised %r' % e)
        return
    if y.shape != x0.shape:
        bad('shape', 'shape %s' % (y.shape,))
        return
    for i in range(len(xs)):
        if not (lo[i] <= y[i] <= hi[i]):
            bad('range', 'component %d became %r' % (i, y[i]))
            return
        if l0[i] <= x0[i] <= h0[i] and y[i] != x0[i]:
            bad('feasible', 'feasible component %d changed from %r to %r' % (i, x0[i], y[i]))
            return
        want = rule(method, x0[i], l0[i], h0[i], u)
        w = h0[i] - l0[i]
        if not abs(y[i] - want) <= 1e-9 * max(w, abs(l0[i]), abs(h0[i])) + (0 if method != 'reflect' else 1e-12 * w):
            # wrapping may come out on the other end of the range, which is the same point of the circle
            if not (method == 'reflect' and abs(abs(y[i] - want) - w) <= 1e-9 * max(w, abs(l0[i]))):
                bad('rule', 'component %d: %r became %r, rule gives %r' % (i, x0[i], y[i], want))
                return
    if not (np.array_equal(lo, l0) and np.array_equal(hi, h0)):
        bad('bounds', 'bounds were changed')
    try:
        z = np.asarray(call(y.copy()))
        if not np.array_equal(z, y):
            bad('idempotent', 'repairing again gives %s after %s' % (z, y))
    except Exception as e:
        bad('raise', 'second repair raised %r' % e)


def jobs(tier):
    out = []
    for m in METHODS:
        out.append(('one', m, tier, 0))
        out += [('two', m, tier, i) for i in range(len(PAIRS))]
        out += [('three', m, tier, i) for i in range(4)]
        out += [('long', m, tier, n) for n in (4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 257)]
    out.append(('feasible', '', tier, 0))
    out.append(('default', '', tier, 0))
    out.append(('draws', 'rand', tier, 0))
    out += [('views', m, tier, 0) for m in METHODS]
    return out


def us(m):
    return US if m == 'rand' else (0.5,)


def run_job(job):
    kind, m, tier, k = job
    o = Out()
    q = tier == 'quick'
    n = 0
    if kind == 'one':
        for lo, hi in PAIRS:
            t = Task(problem=P(1, lo, hi), repair_function=getattr(R, m))
            for x in values(lo, hi):
                for u in us(m):
                    check(o, m, (x,), (lo,), (hi,), u, 'function')
                    check(o, m, (x,), (lo,), (hi,), u, 'task', t)
                    n += 2
    elif kind == 'two':
        for j in range(len(PAIRS)):
            (a, b), (c, d) = PAIRS[k], PAIRS[j]
            t = Task(problem=P(2, [a, c], [b, d]), repair_function=getattr(R, m), optimization_type=MAX)
            for x in values(a, b, 20 if q else 99):
                for y in values(c, d, 20 if q else 99):
                    for u in us(m):
                        check(o, m, (x, y), (a, c), (b, d), u, 'task' if n % 2 else 'function', t if n % 2 else None)
                        n += 1
    elif kind == 'three':
        tri = [PAIRS[(3 * k + i) % len(PAIRS)] for i in (1, 4, 7)]
        lim = 12 if q else 31
        for xs in itertools.product(*[values(a, b, lim) for a, b in tri]):
            check(o, m, xs, [p[0] for p in tri], [p[1] for p in tri], 0.25, 'function')
            n += 1
    elif kind == 'long':
        # long vectors: every rotation of the value lists over the components, all / few / one component outside
        ps = [PAIRS[i % len(PAIRS)] for i in range(k)]
        los, his = [p[0] for p in ps], [p[1] for p in ps]
        vs = [values(a, b) for a, b in ps]
        t = Task(problem=P(k, los, his), repair_function=getattr(R, m))
        for r in range(31):
            for step, every in ((1, 1), (0, 1), (1, 3), (1, k)):
                xs = [vs[i][(r + step * i) % len(vs[i])] if i % every == r % every else (ps[i][0] + ps[i][1]) / 2 for i in range(k)]
                for u in us(m)[1:4] if m == 'rand' else us(m):
                    check(o, m, tuple(xs), los, his, u, 'task' if r % 2 else 'function', t if r % 2 else None)
                    n += 1
    elif kind == 'feasible':
        for (a, b), (c, d) in itertools.product(PAIRS[:10], PAIRS[:10]):
            t = Task(problem=P(2, [a, c], [b, d]))
            for x in values(a, b, 13):
                for y in values(c, d, 13):
                    want = a <= x <= b and c <= y <= d
                    got = t.is_feasible(np.array([x, y]))
                    n += 1
                    if bool(got) != want:
                        o.bad('is_feasible', 'is_feasible(%s) says %s for bounds %s' % ((x, y), got, ((a, c), (b, d))), {'x': (x, y), 'lower': (a, c), 'upper': (b, d)})
        o.trans += n
    elif kind == 'draws':
        # real generators: drawn components differ from each other and between calls, depend on the generator only, and use nothing else
        for L in (2, 3, 6, 20):
            for a, b in ((0.0, 1.0), (-7.0, -3.0), (-100.0, 100.0)):
                lo, hi = np.full(L, a), np.full(L, b)
                for side in range(2 ** min(L, 4)):
                    x = np.array([a - 1.0 if side >> (i % 4) & 1 else b + 1.0 for i in range(L)])
                    for seed in range(5):
                        n += 1
                        g, st = np.random.default_rng(seed), np.random.get_state()[1].tobytes()
                        y, z = R.rand(x.copy(), lo, hi, rng=g), R.rand(x.copy(), lo, hi, rng=g)
                        w = R.rand(x.copy(), lo, hi, rng=np.random.default_rng(seed))
                        rep = {'method': 'rand', 'x': x.tolist(), 'lower': a, 'upper': b, 'seed': seed}
                        if len(set(y.tolist()) | set(z.tolist())) != 2 * L:
                            o.bad('rand/independent', 'components or calls share draws: %s then %s [x=%s bounds %s..%s]' % (y, z, x, a, b), rep)
                        elif not np.array_equal(y, w) or np.random.get_state()[1].tobytes() != st:
                            o.bad('rand/generator', 'draws do not come from the given generator: %s and %s for the same state [x=%s]' % (y, w, x), rep)
        o.trans += n
    elif kind == 'views':
        # rows, columns and reversed views of populations
        f = getattr(R, m)
        for L in (1, 2, 3, 7):
            lo, hi = np.array([PAIRS[i % 7][0] for i in range(L)]), np.array([PAIRS[i % 7][1] for i in range(L)])
            vs = [values(a, b) for a, b in zip(lo, hi)]
            for r in range(31):
                x = np.array([vs[i][(r + 5 * i) % len(vs[i])] for i in range(L)])
                want = np.array(f(x.copy(), lo, hi, rng=FixRNG(0.5)))
                pop = np.tile(x, (3, 1))
                col = np.tile(x[:, None], (1, 3)).copy()
                ways = {'row': lambda: f(pop[1], lo, hi, rng=FixRNG(0.5)), 'column': lambda: f(col[:, 1], lo, hi, rng=FixRNG(0.5)), 'reversed': lambda: f(x[::-1].copy()[::-1], lo, hi, rng=FixRNG(0.5))}
                if m != 'rand':
                    ways['population'] = lambda: np.apply_along_axis(f, 1, np.tile(x, (4, 1)), lo, hi)[2]
                for w, call in ways.items():
                    n += 1
                    try:
                        y = np.asarray(call())
                    except Exception as e:
                        y = repr(e)
                    if isinstance(y, str) or not np.array_equal(y, want):
                        o.bad('%s/view' % m, '%s of a population becomes %s, a vector of its own %s [x=%s]' % (w, y, want, x), {'method': m, 'x': x.tolist(), 'way': w})
                if not np.array_equal(pop[0], x) or not np.array_equal(pop[2], x) or not np.array_equal(col[:, 0], x):
                    o.bad('%s/view' % m, 'repairing one member changed another', {'method': m, 'x': x.tolist()})
        o.trans += n
    else:
        # the repair of a task that was not told how to repair is clipping
        for a, b in PAIRS:
            t = Task(problem=P(1, a, b))
            for x in values(a, b):
                check(o, 'limit', (x,), (a,), (b,), 0.5, 'task default', t)
                n += 1
    o.execs += n
    o.states = set(range(n))
    o.outcomes = set(range(n))
    o.samples.append('%s %s %s: %d vectors' % (kind, m, k, n))
    return o
