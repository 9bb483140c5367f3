"""C22: the configured population size is honoured throughout a run."""
import numpy as np
import algos
import plans
from engine import Out
from env import MAX, MIN, execute
from runprop import ASSUME

ID, LEVEL = 'C22', 'model_checking'
BOUNDS = {'quick': 'configured sizes plus sizes 3..12 per configuration x 3 landscapes x 3 dimensions x budgets and iteration limits, at every iteration boundary; single random deviations; every setting varied; unusual boxes; long runs (to 5000 evaluations, 200 iterations, 30 dimensions)',
          'thorough': 'sizes 3..25, runs to 600 evaluations'}
ASSUMPTIONS = ASSUME + ['sizes an algorithm cannot run with are not judged']
RULE = 'a state is a prefix of the evaluation history of a run'

SINGLE = {'BareBonesFireworksAlgorithm', 'HillClimbAlgorithm', 'SimulatedAnnealing', 'RandomSearch', 'EvolutionStrategy1p1', 'EvolutionStrategyMp1'}
GROW = {'CoralReefsOptimization', 'ForestOptimizationAlgorithm'}


def kind(name):
    if name in SINGLE:
        return 'single'
    if name in GROW:
        return 'grow'
    if name.startswith('AgingNp'):
        return 'dynamic'
    if name.startswith('DynNp'):
        return 'halving'
    if 'Lpsr' in name:
        return 'linear'
    if name == 'NelderMeadMethod':
        return 'simplex'
    return 'fixed'


def expected_initial(c, size, dim):
    k = kind(c.name)
    if k == 'single':
        return 1
    if k == 'simplex':
        return max(size or 0, dim, 2)
    return size


def oracle(c, size, r):
    k = kind(c.name)
    seen = [(e['k'], len(e['fit'].reshape(-1)), len(e['pop']), e['evals'], e['iters']) for e in r.probe.log if e['k'] in ('bi', 'ai')]
    out = []
    if not seen:
        return out
    want = expected_initial(c, size, r.spec['dim'])
    if seen[0][2] != want:
        return [('initial', 'initial population has %d members, configured %d' % (seen[0][2], want))]
    prev = want
    for (kk, nf, n, ev, it) in seen:
        if k in ('fixed', 'single', 'simplex') and n != want:
            return [('size', 'population of %d at evaluation %d, configured %d' % (n, ev, want))]
        if n < 1:
            return [('empty', 'empty population at evaluation %d' % ev)]
        if k == 'halving' and n not in (prev, prev // 2):
            return [('halving', 'population went from %d to %d' % (prev, n))]
        if k == 'halving' and n < prev and prev <= 3:
            return [('minimum', 'population of %d was reduced to %d' % (prev, n))]
        if k == 'linear':
            if n > prev:
                return [('grows', 'population went from %d to %d' % (prev, n))]
            if n < min(4, want):
                return [('minimum', 'population of %d below the minimum of 4' % n)]
            if kk == 'ai' and 'max_evals' in r.spec:
                real = (4.0 - want) * ev / r.spec['max_evals'] + want
                low = max(4.0, real)
                if not (abs(n - low) <= 0.5 + 1e-9 or (n == prev and n <= low + 0.5)):
                    return [('schedule', 'population of %d at evaluation %d of %d, linear schedule gives %.2f' % (n, ev, r.spec['max_evals'], low))]
            elif 'max_evals' not in r.spec and n != want:
                return [('schedule', 'population reduced to %d without an evaluation budget' % n)]
        prev = n
    return out


def sizes(c, tier):
    if 'population_size' not in c.kw and not c.id.endswith('/default') and 'mu' not in c.kw:
        return [None]
    hi = 13 if tier == 'quick' else 26
    return [None] + list(range(3, hi))


def specs(c, tier, base):
    q = tier == 'quick'
    d0 = c.mindim
    out = []
    for d in plans.D(c, 1, 2, 5):
        for l in ('bowl', 'chaos', 'flat0'):
            out.append(dict(dim=d, box='rect', land=l, max_evals=90 if q else 600))
    out.append(dict(dim=max(2, d0), box='sym', land='chaosn', opt=MAX, max_evals=200 if q else 900))
    out.append(dict(dim=max(2, d0), box='sym', land='bowl', max_iters=5))
    if base:
        out += [dict(dim=max(2, d0), box='sym', land='chaos', max_evals=n) for n in range(2, 40 if q else 120)]
        out += [dict(dim=max(3, d0), box='off', land='slope', max_iters=n) for n in range(1, 8)]
        out += [s for s in plans.marathon(c, tier) if 'over' not in s]
    return out


def jobs(tier):
    out = [(c.id, tier, n) for c in algos.TABLE for n in sizes(c, tier)]
    out += [(c.id, tier, None) for c in algos.DEFAULTS]
    out += [(c.id, tier, 'dev') for c in algos.TABLE]
    out += [(c.id, tier, 'settings') for c in algos.TABLE]
    return out


def run_job(job):
    cid, tier, n = job
    c = algos.get(cid)
    o = Out()
    if n == 'settings':
        for spec in plans.settings(c, tier) + plans.odd(c, tier) + plans.answers(c, tier) + plans.used(c, tier) + [s for s in plans.marathon(c, tier) if 'over' in s]:
            over = spec.get('over', {})
            cf = algos.Cfg(c.name, c.cls, 'set', **dict(c.kw, **over))
            key = 'mu' if 'mu' in c.kw else 'population_size'
            r = execute(c, spec)
            if r.err is not None or r.hang is not None:
                o.note('runs that raised or hung (judged by C07)')
                continue
            o.trace(r, (cid, n, str(spec)))
            for facet, det in oracle(c, cf.kw.get(key, getattr(r.alg, 'population_size', 1)), r):
                o.bad('%s/%s' % (c.name, facet), '%s [%s %s]' % (det, cid, spec), {'config': cid, 'spec': spec})
        return o
    over = {}
    if n not in (None, 'dev'):
        over = {'mu': n} if 'mu' in c.kw else {'population_size': n}
    key = 'mu' if 'mu' in c.kw else 'population_size'

    def build():
        a = c.build(seed=7, **over)
        return a
    try:
        probe = build()
    except Exception:
        return o
    size = over.get(key, c.kw.get(key, getattr(probe, 'population_size', 1)))
    if cid.endswith('/default'):
        ss = [dict(dim=3, box='rect', land='chaos', max_evals=500), dict(dim=2, box='sym', land='bowl', max_iters=4), dict(dim=5, box='off', land='slope', max_evals=900)]
    elif n == 'dev':
        ss = [dict(dim=max(2, c.mindim), box='rect', land='chaos', max_evals=24 if tier == 'quick' else 60)]
    else:
        ss = specs(c, tier, n is None)
    cfg = c if not over else algos.Cfg(c.name, c.cls, 'n%s' % n, **dict(c.kw, **over))
    for spec in ss:
        def go(dev=None):
            r = execute(cfg, spec, dev=dev)
            if r.err is not None or r.hang is not None:
                o.note('runs that raised or hung (judged by C07)')
                return None
            o.trace(r, (cid, n, str(spec)))
            for facet, det in oracle(cfg, size, r):
                o.bad('%s/%s' % (c.name, facet), '%s [%s size=%s %s dev=%s]' % (det, cid, size, spec, dev), {'config': cid, 'size': size, 'spec': spec, 'dev': dev})
            return r
        r = go()
        if n == 'dev' and r is not None:
            for j, (_, m) in enumerate(r.points):
                for alt in range(1, m + 1):
                    go({j: alt})
    o.samples.append('%s size=%s' % (cid, size))
    return o
