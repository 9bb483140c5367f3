"""C21: individuals are pairs of position and fitness; all operation sequences against a model."""
import itertools

import numpy as np
from engine import Out
from env import MAX, MIN, Obj, REPAIRS
from niapy.algorithms import Individual
from niapy.algorithms.algorithm import default_individual_init
from niapy.task import Task
from niapy.util.array import objects_to_array

ID, LEVEL = 'C21', 'model_checking'
BOUNDS = {'quick': 'all sequences of 5 operations on two individuals (16 operations: three ways of creation, evaluate, copy either way, change components, feasible and infeasible, replace position) x both directions x two repairs (and one that returns a new vector) x budgets; dimensions to 100; each class of individuals with sequences of 4 operations; all pairs for equality; population creation to size 7',
          'thorough': 'sequences of 6 operations, subclasses with 5'}
ASSUMPTIONS = ['positions are float vectors; the array given at creation is not used by the caller afterwards']
RULE = 'a state is a pair of (position, fitness) model values reached by some sequence'
LO, HI = np.array([-1.0, 0.5]), np.array([2.0, 0.75])


def classes():
    from niapy.algorithms.basic import abc, ca, de, es, fss, loa, mke
    from niapy.algorithms.modified import hde, ilshade, jde, shade
    out = {'Individual': (Individual, {})}
    for m, n, kw in ((jde, 'SolutionJDE', {}), (shade, 'SolutionSHADE', {}), (ilshade, 'SolutionILSHADE', {}), (hde, 'MtsIndividual', {}), (loa, 'Lion', {}), (mke, 'MkeSolution', {}),
                     (ca, 'Camel', {'endurance_init': 1.0, 'supply_init': 1.0}), (abc, 'SolutionABC', {}), (es, 'IndividualES', {}), (fss, 'Fish', {'weight': 1.0}), (de, 'AgingIndividual', {})):
        c = getattr(m, n, None)
        if c is not None:
            out[n] = (c, kw)
    return out


def f(x):
    return float(3.0 * x[0] + 7.0 * x[1] - 1.0)


def fix(x, rep):
    if rep in ('limit', 'copying'):
        return [min(max(v, l), h) for v, l, h in zip(x, LO, HI)]
    out = []
    for v, l, h in zip(x, LO, HI):        # limit_inverse
        out.append(h if v < l else l if v > h else v)
    return out


POS = {'new feasible': [0.25, 0.625], 'new infeasible': [-4.0, 3.0], 'new list': [1.5, 0.5]}
OPS = ['A new feasible', 'A new infeasible', 'A new list', 'B new eval', 'B new', 'A eval', 'B eval', 'B=copy A', 'A=copy B', 'A[0]=5', 'A[1]=.7', 'B[0]=-.5', 'B.x=', 'A gen', 'A f=', 'A other task']


class World:
    def __init__(self, cls, kw, opt, rep, budget):
        self.cls, self.kw, self.opt, self.rep = cls, kw, opt, rep
        self.prob = Obj(2, LO, HI, f)
        self.task = Task(problem=self.prob, optimization_type=opt, repair_function=REPAIRS[rep], max_evals=budget)
        self.prob2 = Obj(2, LO, HI, lambda x: 100.0 - f(x))
        self.task2 = Task(problem=self.prob2, optimization_type=opt, repair_function=REPAIRS[rep])
        self.budget = budget
        self.used = 0
        self.ind = {'A': None, 'B': None}
        self.mod = {'A': None, 'B': None}     # [position, fitness]
        self.exp_xs = []
        self.rng = np.random.default_rng(3)

    def val(self, x):
        """Model of an evaluation."""
        if self.used >= self.budget:
            return np.inf
        self.used += 1
        self.exp_xs.append(list(x))
        return f(x) * self.opt.value

    def do(self, op):
        """Returns a complaint or None; 'skip' if not applicable."""
        i, m = self.ind, self.mod
        n = op[0]
        if op in ('A new feasible', 'A new infeasible'):
            p = POS[op[2:]]
            i['A'] = self.cls(x=np.array(p), e=False, **self.kw)
            m['A'] = [list(p), np.inf]
        elif op == 'A new list':
            i['A'] = self.cls(x=list(POS['new list']), **self.kw)
            m['A'] = [list(POS['new list']), np.inf]
        elif op == 'B new eval':
            p = [0.0, 9.0]
            i['B'] = self.cls(x=np.array(p), task=self.task, rng=self.rng, **self.kw)
            q = fix(p, self.rep)
            m['B'] = [q, self.val(q)]
        elif op == 'B new':
            p = [1.0, 0.6]
            i['B'] = self.cls(x=np.array(p), task=self.task, e=False, **self.kw)
            m['B'] = [p, np.inf]
        elif op == 'A gen':
            i['A'] = self.cls(task=self.task, rng=np.random.default_rng(5), **self.kw)
            x = [float(v) for v in i['A'].x]
            if len(x) != 2 or not all(l <= v <= h for v, l, h in zip(x, LO, HI)):
                return 'generated position %s is not feasible' % x
            m['A'] = [x, self.val(x)]
        elif i[n if op != 'B=copy A' and op != 'A=copy B' else op[-1]] is None:
            return 'skip'
        elif op.endswith(' eval'):
            i[n].evaluate(self.task, rng=self.rng)
            q = fix(m[n][0], self.rep)
            m[n] = [q, self.val(q)]
        elif op == 'A other task':
            i['A'].evaluate(self.task2)
            q = fix(m['A'][0], self.rep)
            m['A'] = [q, (100.0 - f(q)) * self.opt.value]
        elif '=copy' in op:
            s = op[-1]
            c = i[s].copy()
            if c is i[s]:
                return 'copy returned the individual itself'
            i[n] = c
            m[n] = [list(m[s][0]), m[s][1]]
        elif op == 'A[0]=5':
            i['A'][0] = 5.0
            m['A'][0][0] = 5.0
        elif op == 'A[1]=.7':
            i['A'][1] = 0.7
            m['A'][0][1] = 0.7
        elif op == 'B[0]=-.5':
            i['B'][0] = -0.5
            m['B'][0][0] = -0.5
        elif op == 'B.x=':
            i['B'].x = np.array([0.125, 0.5])
            m['B'][0] = [0.125, 0.5]
        elif op == 'A f=':
            i['A'].f = -2.5
            m['A'][1] = -2.5
        return None

    def check(self):
        for n in 'AB':
            a, m = self.ind[n], self.mod[n]
            if a is None:
                continue
            if [float(v) for v in a.x] != m[0]:
                return 'position', '%s has position %s, expected %s' % (n, a.x, m[0])
            if not float(a.f) == m[1]:
                return 'fitness', '%s at %s has fitness %r, expected %r' % (n, a.x, a.f, m[1])
            if len(a) != 2 or float(a[0]) != m[0][0] or float(a[1]) != m[0][1] or float(a[-1]) != m[0][1]:
                return 'index', '%s: length %d, components %s %s' % (n, len(a), a[0], a[1])
        a, b = self.ind['A'], self.ind['B']
        if a is not None and b is not None:
            eq = self.mod['A'] == self.mod['B']
            if bool(a == b) != eq or bool(b == a) != eq or bool(a != b) == eq:
                return 'equal', '== gives %r for %s and %s' % (a == b, self.mod['A'], self.mod['B'])
            if not a == a or not b == b:
                return 'equal', 'an individual differs from itself'
            arr = objects_to_array([b])
            far = type(b)(x=np.array([99.0, 99.0]), e=False, **self.kw)
            if bool(a == arr) != eq or bool(a == objects_to_array([far, far, b])) != eq or bool(a == objects_to_array([b, far])) != eq or a == objects_to_array([far]):
                return 'equal', 'membership gives %r for %s in [%s]' % (a == arr, self.mod['A'], self.mod['B'])
        if len(self.prob.xs) != len(self.exp_xs) or any(list(x) != y for x, y in zip(self.prob.xs, self.exp_xs)):
            return 'evaluations', 'evaluated %s, expected %s' % ([list(x) for x in self.prob.xs], self.exp_xs)
        if self.task.evals != len(self.exp_xs):
            return 'evaluations', 'task counts %d evaluations, %d expected' % (self.task.evals, len(self.exp_xs))
        return None

    def key(self):
        return tuple((tuple(m[0]), m[1]) if m else None for m in self.mod.values()) + (self.used,)


WORLDS = [(o, r, b) for o in ('MINIMIZATION', 'MAXIMIZATION') for r in ('limit', 'limit_inverse') for b in (99, 2)] + [('MINIMIZATION', 'copying', 99), ('MAXIMIZATION', 'copying', 1)]


def jobs(tier):
    out = []
    for w in range(len(WORLDS)):
        for first in range(len(OPS)):
            if OPS[first][2:5] in ('new', 'gen'):
                for second in range(len(OPS)):
                    out.append(('seq', 'Individual', w, (first, second), 5 if tier == 'quick' else 6))
    for n in classes():
        if n != 'Individual':
            for w in range(len(WORLDS)):
                out.append(('seq', n, w, (), 4 if tier == 'quick' else 5))
    out += [(k, n, 0, (), 0) for n in classes() for k in ('init', 'eq', 'dims')]
    return out


def equal(o, cn, cls, kw, bad):
    """All pairs over positions and fitness values that are equal, nearly equal or different."""
    up = lambda v: float(np.nextafter(v, np.inf))
    vals = (0.25, up(0.25), 0.25 + 1e-9, 0.5, -0.25, 0.0)
    pts = [(a, b) for a in vals for b in (1.0, up(1.0), -1.0)] + [(0.25,), (1e-12,), (2e-12,), (0.25, 1.0, 1.0)]
    fs = (1.0, up(1.0), 1.0 + 1e-9, -1.0, 1e-12, 2e-12, np.inf)
    for p, q in itertools.product(pts, pts):
        if len(p) != len(q) and cn != 'Individual':
            continue
        for f, g in (itertools.product(fs, fs) if p == q or p[:1] == q[:1] else ((1.0, 1.0), (1.0, -1.0))):
            a = cls(x=np.array(p), e=False, f=f, **kw)
            b = cls(x=np.array(q), e=False, f=g, **kw)
            want = p == q and a.f == b.f
            o.execs += 1
            o.trans += 1
            o.states.add(hash((p, q, f, g)))
            if bool(a == b) != want or bool(b == a) != want:
                bad('equal', '== gives %r for (%s, %r) and (%s, %r)' % (a == b, p, a.f, q, b.f), ())
                return
    o.outcomes.add(1)


def many(o, cn, cls, kw, bad):
    """Every dimension: create, evaluate, slice, copy, change either, evaluate again."""
    for D in (1, 2, 3, 5, 9, 17, 40, 100):
        lo, hi = np.arange(D) - 2.0, np.arange(D) + 0.5
        g = lambda x: float(np.sum(np.asarray(x) * (1.0 + np.arange(D))))
        for opt in (MIN, MAX):
            for rep in ('limit', 'copying', 'limit_inverse', 'reflect', 'wang'):
                for off in range(D):
                    if off > 3 and off < D - 2:
                        continue
                    task = Task(problem=Obj(D, lo, hi, g), optimization_type=opt, repair_function=REPAIRS[rep])
                    x = (lo + hi) / 2
                    x[off] = hi[off] + 0.75
                    a = cls(x=x.copy(), task=task, **kw)
                    want = np.asarray(REPAIRS[rep](x.copy(), lo, hi))
                    o.execs += 1
                    o.trans += 1
                    o.states.add(hash((D, opt.name, rep, off)))
                    if not np.array_equal(a.x, want) or a.f != g(want) * opt.value:
                        bad('dimension', 'D=%d: created at %s with fitness %r, expected %s' % (D, a.x, a.f, want), ())
                        return
                    if len(a) != D or not np.array_equal(a[1:], want[1:]) or not np.array_equal(a[::-1], want[::-1]) or not np.array_equal(a[np.arange(D) % 2 == 0], want[::2]) or list(a) != list(want):
                        bad('dimension', 'D=%d: indexing differs from the position' % D, ())
                        return
                    b = a.copy()
                    if not (a == b and b.f == a.f):
                        bad('dimension', 'D=%d: a copy differs' % D, ())
                        return
                    b[off] = lo[off] + 0.125
                    if a[off] != want[off] or a == b or b == a:
                        bad('dimension', 'D=%d: copy and original share component %d or still count as equal' % (D, off), ())
                        return
                    a[:] = (lo + hi) / 2 + 0.0625
                    if np.array_equal(a.x, b.x) or not np.array_equal(a.x, (lo + hi) / 2 + 0.0625) or a.f != g(want) * opt.value:
                        bad('dimension', 'D=%d: changing all components' % D, ())
                        return
                    a.evaluate(task)
                    if a.f != g(a.x) * opt.value or task.evals != 2:
                        bad('dimension', 'D=%d: second evaluation gives %r' % (D, a.f), ())
                        return
    o.outcomes.add(1)


def run_job(job):
    kind, cn, w, prefix, L = job
    o = Out()
    cls, kw = classes()[cn]

    def bad(facet, det, seq):
        o.bad('%s/%s' % (cn, facet), '%s [%s, operations %s]' % (det, WORLDS[w], seq), {'class': cn, 'world': WORLDS[w], 'operations': list(seq)})
    if kind == 'init':
        init(o, cn, cls, kw, bad)
        return o
    if kind == 'dims':
        many(o, cn, cls, kw, bad)
        return o
    if kind == 'eq':
        equal(o, cn, cls, kw, bad)
        return o
    opt, rep, budget = WORLDS[w]
    opt = MIN if opt == 'MINIMIZATION' else MAX
    n = len(OPS)
    starts = [k for k in range(n) if OPS[k][2:5] in ('new', 'gen')]
    rest = itertools.product(*([starts] if not prefix else []), *[range(n)] * (L - max(1, len(prefix)) if not prefix else L - len(prefix)))
    for tail in rest:
        seq = tuple(OPS[k] for k in tuple(prefix) + tuple(tail))
        wd = World(cls, kw, opt, rep, budget)
        skip = False
        for k, op in enumerate(seq):
            o.trans += 1
            try:
                c = wd.do(op)
            except Exception as e:
                bad('raise', 'raised %r' % e, seq[:k + 1])
                return o
            if c == 'skip':
                skip = True
                break
            if c:
                bad('operation', c, seq[:k + 1])
                return o
            if k < L - 2 and k < len(prefix):
                continue
            c = wd.check()
            if c:
                bad(c[0], c[1], seq[:k + 1])
                return o
            o.states.add(hash(wd.key()))
        if not skip:
            o.execs += 1
            o.outcomes.add(hash(wd.key()))
    o.samples.append('%s %s %s: all sequences of %d operations' % (cn, WORLDS[w], [OPS[p] for p in prefix], L))
    return o


def init(o, cn, cls, kw, bad):
    """Populations of individuals: aligned, feasible, every member evaluated once."""
    from functools import partial
    T = partial(cls, **kw) if kw else cls
    for opt in (MIN, MAX):
        for size in range(1, 8):
            for budget in (99, size, max(1, size - 2)):
                prob = Obj(2, LO, HI, f)
                task = Task(problem=prob, optimization_type=opt, max_evals=budget)
                try:
                    pop, fp = default_individual_init(task=task, population_size=size, rng=np.random.default_rng(size), individual_type=T)
                except Exception as e:
                    bad('init', 'raised %r' % e, ())
                    return
                o.execs += 1
                o.trans += size
                o.states.add(hash((cn, opt.name, size, budget)))
                if len(pop) != size or len(fp) != size:
                    bad('init', '%d individuals and %d fitness values, requested %d' % (len(pop), len(fp), size), ())
                    return
                if len(prob.xs) != min(size, budget):
                    bad('init', '%d evaluations for %d individuals' % (len(prob.xs), size), ())
                    return
                for k, p in enumerate(pop):
                    want = f(p.x) * opt.value if k < budget else np.inf
                    if not (np.all(p.x >= LO) and np.all(p.x <= HI)) or not float(p.f) == want or not float(fp[k]) == want:
                        bad('init', 'member %d at %s has fitness %r / %r, expected %r' % (k, p.x, p.f, fp[k], want), ())
                        return
                ids = {id(p) for p in pop}
                pop[0][0] = -77.0
                if len(ids) != size or (size > 1 and float(pop[1][0]) == -77.0):
                    bad('init', 'members share their position', ())
                    return
    o.outcomes.add(hash(cn))
