"""C24: observing a run never changes it; what observers were told stays true."""
import io
import itertools
import logging

import numpy as np
import algos
from engine import Out
from env import CtlRNG, Hang, Individual, MAX, MIN, arm, disarm, make
from niapy.callbacks import Callback
from niapy.task import Task
from runprop import ASSUME

ID, LEVEL = 'C24', 'model_checking'
OBS = ('callback', 'second callback', 'logging', 'queries at evaluations', 'settings reads')
BOUNDS = {'quick': 'all 32 subsets of five kinds of observer x 5 worlds (6 stopping criteria, both directions) x 132 configurations + defaults; convergence graph drawn in the middle of a run of every class; runs of 1200 evaluations',
          'thorough': 'the same x 16 worlds and budgets to 200'}
ASSUMPTIONS = ASSUME + ['observers only read: they change neither the objects they receive nor the task or algorithm']
RULE = 'a state is a prefix of the evaluation history'


class Reader(Callback):
    """Reads everything it is given and asks the task for everything, keeps references and copies."""

    def __init__(self, task, alg_reads=False):
        super().__init__()
        self.task, self.alg_reads = task, alg_reads
        self.kept = []

    def look(self, population=None, fitness=None, best_x=None, best_fitness=None, **params):
        if population is not None:
            for p in population if not isinstance(population, Individual) else [population]:
                (p.x.copy(), p.f, str(p)) if isinstance(p, Individual) else np.array(p)
            np.sort(np.ravel(np.asarray(fitness, dtype=float)))
            b = best_x.x if isinstance(best_x, Individual) else best_x
            self.kept.append((b, np.array(b, dtype=float)))
        for k in sorted(params):
            repr(type(params[k]))
        query(self.task, self.kept, best_x)
        if self.alg_reads:
            reads(self.algorithm)

    def before_run(self):
        self.look()

    def after_run(self):
        self.look()

    def before_iteration(self, population, fitness, best_x, best_fitness, **params):
        self.look(population, fitness, best_x, best_fitness, **params)

    def after_iteration(self, population, fitness, best_x, best_fitness, **params):
        self.look(population, fitness, best_x, best_fitness, **params)


def query(task, kept, x=None):
    task.stopping_condition()
    for ax in ('evals', 'iters'):
        for a in task.convergence_data(x_axis=ax):
            kept.append((a, np.array(a)))
    (task.x_f, task.evals, task.iters, task.max_evals, task.max_iters, task.cutoff_value, task.optimization_type, task.dimension)
    for a in (task.lower, task.upper, task.range, task.problem.lower, task.problem.upper):
        np.array(a)
    if x is not None:
        xx = x.x if isinstance(x, Individual) else x
        if np.shape(xx) == (task.dimension,):
            task.is_feasible(xx)


def reads(alg):
    str(alg)
    repr(alg)
    try:
        alg.get_parameters()
    except Exception:
        pass                        # judged by C19
    type(alg).info()
    alg.bad_run()
    alg.name if not hasattr(alg, 'Name') else alg.Name


def specs(c, tier):
    d = max(2, c.mindim)
    out = [dict(dim=d, box='rect', land='chaos', max_evals=37), dict(dim=d, box='sym', land='bowl', max_iters=3),
           dict(dim=d, box='sym', land='slope', cutoff=0.4, max_evals=90, opt=MAX, repair='rand'),
           dict(dim=d, box='wide', land='plateau', max_evals=64, max_iters=4, repair='reflect'), dict(dim=c.mindim, box='off', land='chaosn', max_evals=9, opt=MAX)]
    if tier != 'quick':
        out += [dict(dim=dd, box=b, land=l, opt=o, max_evals=200) for dd in (d, 3) for b, l, o in (('neg', 'chaosn', MIN), ('rect', 'neg', MAX), ('sym', 'flat0', MIN), ('wide', 'bowl', MIN))]
        out += [dict(dim=d, box='sym', land='chaos', max_iters=n) for n in (0, 1, 9)]
    return out


def defs(c, tier):
    return [dict(dim=3, box='rect', land='chaos', max_evals=230), dict(dim=2 if tier == 'quick' else 6, box='sym', land='bowl', max_iters=2 if tier == 'quick' else 12, max_evals=400 if tier == 'quick' else 3000)]


def long(c, tier):
    m = 1 if tier == 'quick' else 3
    return [dict(dim=max(3, c.mindim), box='rect', land='bowl', max_evals=(500 if c.name == 'RandomSearch' else 1200) * m, max_iters=150 * m, few=True)]


def jobs(tier):
    return [(c.id, tier) for c in algos.DEFAULTS + algos.TABLE]


def plain(spec):
    """An ordinary Task: the monitoring one is an observer itself."""
    prob, mon = make(spec)
    kw = {}
    if 'max_evals' in spec:
        kw['max_evals'] = spec['max_evals']
    if 'max_iters' in spec:
        kw['max_iters'] = spec['max_iters']
    if 'cutoff' in spec:
        kw['cutoff_value'] = spec['cutoff']
    prob.cap = 5000
    return prob, lambda log: Task(problem=prob, optimization_type=mon.optimization_type, repair_function=mon.repair_function, enable_logging=log, **kw)


def run(c, spec, sub, plot=False):
    prob, mk = plain(spec)
    task = mk(bool(sub[2]))
    kept = []
    lg = logging.getLogger('niapy')
    h = logging.StreamHandler(io.StringIO())
    arm()
    try:
        try:
            cbs = [Reader(task, sub[4]) for _ in range(sub[0] + sub[1])]
            alg = c.build(callbacks=cbs, seed=7) if cbs else c.build(seed=7)
            alg.rng = CtlRNG(7)
            if sub[2]:
                logging.disable(logging.NOTSET)
                lg.addHandler(h)
                lg.setLevel(logging.DEBUG)
                lg.propagate = False

            def hook(k, x):
                if sub[3]:
                    query(task, kept if k % 3 == 0 else [], x)
                if sub[4] and (k <= 6 or k % 9 == 0):
                    reads(alg)
                if plot and k in (2, 9, 20):
                    import matplotlib.pyplot as plt
                    for ax in ('iters', 'evals'):
                        task.plot_convergence(x_axis=ax)
                        plt.close('all')
            prob.hook = hook if sub[3] or sub[4] or plot else None
            x, f = alg.run(task)
        finally:
            disarm()
            if sub[2]:
                lg.removeHandler(h)
                logging.disable(logging.CRITICAL)
    except (Hang, Exception) as e:
        return {'failed': '%s: %s' % (type(e).__name__, e)}, prob, []
    for cb in cbs:
        kept += cb.kept
    conv = [tuple(map(float, a)) for ax in ('iters', 'evals') for a in task.convergence_data(x_axis=ax)]
    return {'evaluations': [(v.tobytes(), float(w)) for v, w in zip(prob.xs, prob.fs)],
            'result': (np.asarray(getattr(x, 'x', x), dtype=float).tobytes(), float(f)),
            'state of the task': (task.evals, task.iters, float(task.x_f)), 'convergence data': conv,
            'random draws': alg.rng.n}, prob, kept


def run_job(job):
    cid, tier = job
    c = algos.get(cid)
    o = Out()
    sp = (defs if cid.endswith('/default') else specs)(c, tier) + long(c, tier)
    for si, spec in enumerate(sp):
        base, p0, _ = run(c, spec, (0, 0, 0, 0, 0))
        subs = [s for s in itertools.product((0, 1), repeat=5) if any(s) and (not spec.get('few') or s in ((1, 0, 1, 0, 0), (1, 1, 0, 1, 1)))]
        for sub in subs + (['plot'] if si == 0 else []):
            plot = sub == 'plot'
            if plot and c.kw and cid != c.name:
                continue
            what = 'drawing the convergence graph' if plot else ' + '.join(n for n, s in zip(OBS, sub) if s)
            rep = {'config': cid, 'spec': spec, 'observers': what}
            got, p1, kept = run(c, spec, (0, 0, 0, 0, 0) if plot else sub, plot)
            o.execs += 1
            o.trans += len(p1.fs)
            h = hash(cid)
            for x, f in zip(p1.xs, p1.fs):
                h = hash((h, x.tobytes(), f))
                o.states.add(h)
            o.outcomes.add(hash((h, what)))
            if 'failed' in base or 'failed' in got:
                if ('failed' in base) != ('failed' in got):
                    o.bad('%s/fails' % c.name, '%s only %s [%s %s]' % (got.get('failed', base.get('failed')), 'with ' + what if 'failed' in got else 'without observers', cid, spec), rep)
                else:
                    o.note('runs that raised or hung (judged by C07)')
                continue
            for k in base:
                if base[k] != got[k]:
                    det = ''
                    if k == 'evaluations':
                        n = next((i for i, (a, b) in enumerate(zip(base[k], got[k])) if a != b), min(len(base[k]), len(got[k])))
                        det = ': first at evaluation %d, %d and %d evaluations' % (n + 1, len(base[k]), len(got[k]))
                    else:
                        det = ': %s / %s' % (str(base[k])[:120], str(got[k])[:120])
                    o.bad('%s/%s' % (c.name, k), 'with %s the run has other %s%s [%s %s]' % (what, k, det, cid, spec), rep)
                    break
            for a, b in kept:
                if not np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True):
                    o.bad('%s/kept' % c.name, 'an observer was given %s, which later became %s [%s %s]' % (b, a, cid, spec), rep)
                    break
    o.samples.append('%s under every subset of observers' % cid)
    return o
