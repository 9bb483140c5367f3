"""C20: the runner performs exactly the requested grid and exports it faithfully (in a scratch folder)."""
import glob
import itertools
import json
import logging
import os
import shutil
import tempfile

import numpy as np
from engine import Out
from env import CtlRNG, arm, disarm
from niapy import Runner
from niapy.algorithms import Algorithm
from niapy.problems import Problem, Sphere
from niapy.task import Task

ID, LEVEL = 'C20', 'model_checking'
BOUNDS = {'quick': 'all grids of 1..3 algorithms x 1..3 problems x 0..3 repetitions x every mixture of names and objects (export format rotating through all) + 60 grids in every format, verbose on and off; histories of up to three runs on one or two runners, changed settings and working directories in between; seven large grids (120 repetitions, 3000 evaluations, 100 dimensions); unsupported formats and names',
          'thorough': 'every grid in every format, both verbosities, four runs per history'}
ASSUMPTIONS = ['algorithms and problems of one grid have different class names', 'the working directory is a scratch folder of the check']
RULE = 'a state is a (grid, position of the run within the grid) pair'


class Log:
    """What really happened, in order."""

    def __init__(self):
        self.runs = []


class Spy(Algorithm):
    """User-written algorithm: spends the whole budget on a few points and records the run."""
    log = None
    step = 0.1

    def run(self, task):
        r = super().run(task)
        self.log.runs.append((type(self).__name__, task, task.problem, task.dimension, task.max_evals, task.evals, r))
        return r

    def init_population(self, task):
        if task.evals or task.iters:
            self.log.runs.append(('dirty', task, None, None, None, None, None))
        x = task.lower + task.range * self.rng.random((2, task.dimension))
        return x, np.array([task.eval(v) for v in x]), {}

    def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
        x = task.lower + task.range * self.rng.random((2, task.dimension))
        f = np.array([task.eval(v) for v in x])
        best_x, best_fitness = self.get_best(x, f, best_x, best_fitness)
        return x, f, best_x, best_fitness, {}


class SpyA(Spy):
    pass


class SpyB(Spy):
    pass


class SpyC(Spy):
    pass


class Count(Problem):
    def __init__(self, dimension, lower=-3.0, upper=4.0):
        super().__init__(dimension, lower, upper)
        self.fs = []

    def _evaluate(self, x):
        v = float(np.sum((x - 0.5) ** 2))
        self.fs.append((np.array(x), v))
        return v


class ProbA(Count):
    pass


class ProbB(Count):
    pass


class ProbC(Count):
    pass


ALGS = [('DifferentialEvolution', SpyA), ('GreyWolfOptimizer', SpyB), ('RandomSearch', SpyC)]
PROBS = [('griewank', ProbA), ('Sphere', ProbB), ('rastrigin', ProbC)]
EXP = ('dataframe', 'json', 'excel')
EXT = {'dataframe': 'pkl', 'json': 'json', 'excel': 'xlsx'}


def grids(tier):
    out = []
    n = 0
    for na, np_, runs in itertools.product((1, 2, 3), (1, 2, 3), (0, 1, 2, 3)):
        for ka in itertools.product((0, 1), repeat=na):
            for kp in itertools.product((0, 1), repeat=np_):
                n += 1
                if tier == 'quick':
                    out.append((ka, kp, runs, EXP[n % 3], bool(n % 2)))
                    if n % 13 == 0:
                        out += [(ka, kp, runs, e, bool(n % 2)) for e in EXP if e != EXP[n % 3]]
                else:
                    out += [(ka, kp, runs, e, v) for e in EXP for v in (False, True)]
    return out


# (algorithms, problems, repetitions, dimension, budget)
LARGE = [((1, 1, 1), (1, 1, 1), 12, 2, 5), ((0, 1), (1, 0), 25, 1, 1), ((1, 0, 1), (0, 1, 1), 4, 30, 40), ((1,), (1,), 120, 3, 2), ((1, 0), (1, 1), 2, 5, 600), ((1,), (1, 1), 2, 2, 3000), ((1, 1), (1,), 11, 100, 3)]


def jobs(tier):
    n = len(grids(tier))
    return [('grid', tier, i, min(n, i + 24)) for i in range(0, n, 24)] + [('hist', tier, i, 4) for i in range(4)] + [('misc', tier, 0, 0), ('cwd', tier, 0, 0)] + [('large', tier, i, 0) for i in range(len(LARGE))]


def build(ka, kp, runs, dim=3, budget=7, log=None, via=0):
    algs = []
    for i, k in enumerate(ka):
        if k:
            a = ALGS[i][1](seed=11 + i)
            a.log = log
            algs.append(a)
        else:
            algs.append(ALGS[i][0])
    probs = [PROBS[i][1](dim) if k else PROBS[i][0] for i, k in enumerate(kp)]
    a, p = algs, probs
    if via and len(algs) == 1 and isinstance(algs[0], str):
        a = algs[0]
    if via and len(probs) == 1 and isinstance(probs[0], str):
        p = probs[0]
    r = Runner(dim, budget, runs, a, p) if not via else Runner(dimension=dim, max_evals=budget, runs=runs, algorithms=a, problems=p)
    return r, algs, probs


def nm(z):
    return z if isinstance(z, str) else type(z).__name__


def okres(r, dim):
    try:
        x, f = r
        return np.shape(x) == (dim,) and np.isfinite(float(f))
    except Exception:
        return False


def eqres(a, b):
    return np.array_equal(np.asarray(a[0]), np.asarray(b[0])) and float(a[1]) == float(b[1])


def judge(o, res, algs, probs, runs, dim, budget, log, before, bad):
    names = [nm(a) for a in algs]
    pn = [nm(p) for p in probs]
    if list(res) != names:
        bad('algorithms', 'results are for %s, requested %s' % (list(res), names))
        return
    spy = iter(log.runs)
    if any(r[0] == 'dirty' for r in log.runs):
        bad('task', 'a run started with a used task')
        return
    tasks = set()
    k = {id(p): before.get(id(p), 0) for p in probs if not isinstance(p, str)}
    for a in algs:
        if list(res[nm(a)]) != pn:
            bad('problems', 'results of %s are for %s, requested %s' % (nm(a), list(res[nm(a)]), pn))
            return
        for p in probs:
            cell = res[nm(a)][nm(p)]
            if not isinstance(cell, list) or len(cell) != runs:
                bad('runs', '%s on %s: %s results, %d runs requested' % (nm(a), nm(p), len(cell) if hasattr(cell, '__len__') else cell, runs))
                return
            for r in cell:
                o.trans += 1
                if not okres(r, dim):
                    bad('result', '%s on %s: result %r is not a solution of dimension %d with its value' % (nm(a), nm(p), r, dim))
                    return
                if not isinstance(a, str):
                    e = next(spy, None)
                    if e is None or e[0] != nm(a) or nm(e[2]).lower() != nm(p).lower() or (not isinstance(p, str) and e[2] is not p):
                        bad('order', 'expected a run of %s on %s, executed %s' % (nm(a), nm(p), e and (e[0], nm(e[2]))))
                        return
                    if id(e[1]) in tasks:
                        bad('task', 'a task is used for two runs')
                        return
                    tasks.add(id(e[1]))
                    if e[3] != dim or e[4] != budget or e[5] != budget:
                        bad('task', 'run with dimension %s, budget %s and %s evaluations, requested %s and %s' % (e[3], e[4], e[5], dim, budget))
                        return
                    if not eqres(e[6], r):
                        bad('result', '%s on %s: stored %r, the run returned %r' % (nm(a), nm(p), r, e[6]))
                        return
                if not isinstance(p, str):
                    seg = p.fs[k[id(p)]:k[id(p)] + budget]
                    k[id(p)] += budget
                    if len(seg) != budget:
                        bad('budget', '%s on %s used %d evaluations of %d' % (nm(a), nm(p), len(seg), budget))
                        return
                    best = min(v for _, v in seg)
                    if not (float(r[1]) == best and any(v == best and np.array_equal(x, np.asarray(r[0])) for x, v in seg)):
                        bad('result', '%s on %s: stored value %r, the best of its run is %r' % (nm(a), nm(p), r[1], best))
                        return
    if next(spy, None) is not None:
        bad('order', 'more runs were executed than requested')
    for p in probs:
        if not isinstance(p, str) and len(p.fs) != k[id(p)]:
            bad('budget', 'problem %s was evaluated %d times, requested %d' % (nm(p), len(p.fs), k[id(p)]))


def exported(path, fmt, res, runs, bad):
    import pandas as pd
    try:
        if fmt == 'dataframe':
            d = pd.read_pickle(path)
            cols, rows = list(d.columns), list(d.index)
        elif fmt == 'json':
            with open(path) as fh:
                d = json.load(fh)
            cols = list(d)
            rows = list(d[cols[0]]) if cols else []
        else:
            d = pd.read_excel(path, index_col=0)
            cols, rows = list(d.columns), list(d.index)
    except Exception as e:
        bad('export', 'the exported %s file cannot be read: %r' % (fmt, e))
        return
    if cols != list(res) or rows != list(next(iter(res.values()))):
        bad('export', 'exported table is for %s x %s, results are for %s x %s' % (cols, rows, list(res), list(next(iter(res.values())))))
        return
    for a in cols:
        for p in rows:
            want = res[a][p]
            if fmt == 'dataframe':
                got = d[a][p]
                ok = len(got) == len(want) and all(eqres(g, w) for g, w in zip(got, want))
            elif fmt == 'json':
                got = d[a][p]
                ok = len(got) == len(want) and all(np.allclose(g[0], w[0], rtol=1e-8, atol=1e-8) and np.isclose(g[1], float(w[1]), rtol=1e-8, atol=1e-8) for g, w in zip(got, want))
            else:
                got = d[a][p]
                ok = str(got) == str(want)
            if not ok:
                bad('export', 'exported %s for %s on %s is %s, results are %s' % (fmt, a, p, str(got)[:200], str(want)[:200]))
                return


def files():
    return sorted(glob.glob('**/*', recursive=True))


def call(r, **kw):
    arm(60)
    try:
        return r.run(**kw)
    finally:
        disarm()


def once(o, r, algs, probs, runs, dim, budget, log, fmt, verbose, bad):
    seen = set(f for f in files() if os.path.isfile(f))
    before = {id(p): len(p.fs) for p in probs if not isinstance(p, str)}
    log.runs.clear()
    try:
        res = call(r, export=fmt, verbose=verbose) if fmt != 'dataframe' or verbose else call(r)
    except Exception as e:
        bad('raise', 'run(%r) raised %r' % (fmt, e))
        return None
    o.execs += 1
    if not isinstance(res, dict):
        bad('result', 'run returned %r' % (res,))
        return None
    judge(o, res, algs, probs, runs, dim, budget, log, before, bad)
    new = [f for f in files() if os.path.isfile(f) and f not in seen]
    if len(new) != 1 or os.path.dirname(new[0]) != 'export' or not new[0].endswith('.' + EXT[fmt]):
        bad('file', 'exporting %s wrote %s' % (fmt, new))
    elif o.nviol == 0:
        exported(new[0], fmt, res, runs, bad)
    return res


def snap(res):
    return {a: {p: [(np.array(x, copy=True), float(f)) for x, f in c] for p, c in d.items()} for a, d in res.items()}


def eqsnap(res, s):
    return list(res) == list(s) and all(list(res[a]) == list(s[a]) and all(len(res[a][p]) == len(s[a][p]) and all(eqres(x, y) for x, y in zip(res[a][p], s[a][p])) for p in s[a]) for a in s)


def run_job(job):
    o = Out()
    kind, tier, i, j = job
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc-c20-')
    os.chdir(tmp)
    logging.disable(logging.CRITICAL)
    try:
        if kind == 'grid':
            for g in grids(tier)[i:j]:
                ka, kp, runs, fmt, verbose = g
                log = Log()

                def bad(facet, det):
                    o.bad('grid/' + facet, '%s [algorithms %s problems %s runs %d export %s]' % (det, ka, kp, runs, fmt), {'grid': g})
                dim, budget = (2, 9) if sum(ka) % 2 else (4, 12)
                r, algs, probs = build(ka, kp, runs, dim, budget, log, via=(i + runs) % 2)
                once(o, r, algs, probs, runs, dim, budget, log, fmt, verbose, bad)
                o.states.update(hash((g, k)) for k in range(len(ka) * len(kp) * max(runs, 1)))
                o.outcomes.add(hash(g))
        elif kind == 'large':
            ka, kp, runs, dim, budget = LARGE[i]
            for n, fmt in enumerate(EXP):
                log = Log()

                def bad(facet, det):
                    o.bad('large/' + facet, '%s [%s export %s]' % (det, LARGE[i], fmt), {'large': LARGE[i], 'export': fmt})
                r, algs, probs = build(ka, kp, runs, dim, budget, log, via=n % 2)
                once(o, r, algs, probs, runs, dim, budget, log, fmt, False, bad)
                o.states.update(hash((i, fmt, k)) for k in range(len(ka) * len(kp) * runs))
                o.outcomes.add(hash((i, fmt)))
        elif kind == 'cwd':
            # the working directory changes between runs of the same and of other runners
            for seq in itertools.product((0, 1, 2), repeat=3):
                log = Log()

                def bad(facet, det):
                    o.bad('cwd/' + facet, '%s [working directories %s]' % (det, seq), {'directories': seq})
                rs = [build((1,), (1,), 1, 2, 4, log), build((1,), (1,), 2, 3, 4, log)]
                for k, d in enumerate(seq):
                    os.makedirs(os.path.join(tmp, 'd%d' % d), exist_ok=True)
                    os.chdir(os.path.join(tmp, 'd%d' % d))
                    r, algs, probs = rs[k % 2]
                    once(o, r, algs, probs, 1 + k % 2, 2 + k % 2, 4, log, EXP[(k + seq[0]) % 3], False, bad)
                    o.states.add(hash((seq, k)))
                o.outcomes.add(hash(seq))
            os.chdir(tmp)
        elif kind == 'hist':
            history(o, tier, i)
        else:
            misc(o)
    finally:
        os.chdir(home)
        shutil.rmtree(tmp, ignore_errors=True)
    o.samples.append(str(job))
    return o


def history(o, tier, part):
    """Several runs of one or two runners; every operation sequence."""
    ops = ('run1', 'run2', 'export1', 'runs+1', 'budget+2', 'bad')
    L = 3 if tier == 'quick' else 4
    n = 0
    for seq in itertools.product(ops, repeat=L):
        n += 1
        if n % 4 != part:
            continue
        log = Log()
        rs = [build((1, 0), (1, 0), 1, 2, 5, log), build((1,), (0, 1), 2, 3, 4, log)]
        par = [[1, 2, 5], [2, 3, 4]]
        kept = []

        def bad(facet, det):
            o.bad('history/' + facet, '%s [history %s]' % (det, seq), {'history': seq})
        for k, op in enumerate(seq):
            o.trans += 1
            if op in ('run1', 'run2', 'export1'):
                w = 1 if op == 'run2' else 0
                r, algs, probs = rs[w]
                res = once(o, r, algs, probs, par[w][0], par[w][1], par[w][2], log, 'json' if op == 'export1' else 'dataframe', False, bad)
                if res is None:
                    return
                kept.append((res, snap(res), k))
            elif op == 'runs+1':
                rs[0][0].runs += 1
                par[0][0] += 1
            elif op == 'budget+2':
                rs[0][0].max_evals += 2
                par[0][2] += 2
            else:
                seen = files()
                try:
                    call(rs[1][0], export='csv')
                    bad('format', 'an unsupported export format was accepted')
                except TypeError:
                    pass
                except Exception as e:
                    bad('format', 'an unsupported export format raised %r' % e)
                if [f for f in files() if f not in seen and os.path.isfile(f)]:
                    bad('format', 'an unsupported export format wrote a file')
            for res, s, kk in kept:
                if not eqsnap(res, s):
                    bad('kept', 'the results returned by operation %d changed at operation %d' % (kk, k))
                    return
            if o.nviol:
                return
        o.states.add(hash(seq))
    o.outcomes.add(part)


def misc(o):
    def bad(facet, det):
        o.bad('misc/' + facet, det, {})
    for fmt in ('pandas', '', 'csv', 'JSON', 'xlsx', 'pkl', None, 3):
        r, algs, probs = build((0,), (0,), 1)
        o.execs += 1
        o.trans += 1
        try:
            call(r, export=fmt)
            bad('format', 'export=%r was accepted' % (fmt,))
        except TypeError:
            pass
        except Exception as e:
            bad('format', 'export=%r raised %r' % (fmt, e))
    for kw, err in ((dict(algorithms=['NoSuchAlgorithm'], problems=['sphere']), KeyError), (dict(algorithms=['RandomSearch'], problems=['no_such_problem']), KeyError)):
        o.execs += 1
        try:
            call(Runner(dimension=2, max_evals=3, runs=1, **kw))
            bad('name', '%s was accepted' % kw)
        except err:
            pass
        except Exception as e:
            bad('name', '%s raised %r' % (kw, e))
    # the folder may already exist, also with files in it
    os.makedirs('export', exist_ok=True)
    with open('export/keep.txt', 'w') as fh:
        fh.write('x')
    for fmt in EXP:
        log = Log()
        r, algs, probs = build((1, 0), (1,), 2, 2, 6, log)
        once(o, r, algs, probs, 2, 2, 6, log, fmt, False, bad)
    if open('export/keep.txt').read() != 'x':
        bad('file', 'an unrelated file of the export folder was changed')
    # defaults
    try:
        r = Runner()
        if (r.dimension, r.max_evals, r.runs) != (10, 1000000, 1):
            bad('default', 'defaults are %r' % ((r.dimension, r.max_evals, r.runs),))
        r.max_evals = 30
        res = call(r)
        if {k.lower() for k in res} != {'artificialbeecolonyalgorithm'} or [k.lower() for k in next(iter(res.values()))] != ['ackley']:
            bad('default', 'default grid gives %s' % list(res))
        t = r.task_factory('sphere')
        if not isinstance(t, Task) or t.dimension != 10 or t.max_evals != 30 or not isinstance(t.problem, Sphere) or r.task_factory('sphere') is t:
            bad('task', 'task_factory gives %r' % (t,))
    except Exception as e:
        bad('default', 'the default runner raised %r' % e)
    o.states.update(range(20))
    o.outcomes.add(1)
