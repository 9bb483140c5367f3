"""C11: the best solution reported during a run is real, the best so far, and is not touched later."""
import numpy as np
import oracles
import plans
from env import MAX, MIN, Individual
from runprop import ASSUME, RunProp


def oracle(r):
    out = oracles.iterations(r)
    for e in r.probe.log:
        if e['k'] in ('bi', 'ai') and e['live'] is not None:
            now = np.asarray(e['live'].x if isinstance(e['live'], Individual) else e['live'], dtype=float)
            if not np.array_equal(now, e['bx'], equal_nan=True):
                out.append(('modified', 'the best reported (%s at evaluation %d) was %s and later became %s' % (e['k'], e['evals'], e['bx'], now)))
                break
    for e in r.probe.log:
        if e['k'] in ('bi', 'ai') and e['evals']:
            sg = oracles.sign(r)
            best = min(v * sg for v in r.prob.fs[:e['evals']])
            if not e['xf'] * sg == best:
                out.append(('task', '%s at evaluation %d: task best %r, best evaluated %r' % (e['k'], e['evals'], e['xf'], best * sg)))
                break
    return out


def failing(r):
    return [f for f in oracle(r)] if r.err is None else []


FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=80 if t == 'quick' else 300, boxes=('sym', 'rect', 'neg'), dims=plans.D(c, 1, 2, 4)),
    'max': lambda c, t: plans.worlds(c, t, n=80 if t == 'quick' else 300, boxes=('rect',), opts=(MAX,)),
    'sizes': plans.sizes,
    'long': lambda c, t: plans.worlds(c, t, n=250 if t == 'quick' else 1200, boxes=('rect',), lands=('bowl', 'chaos', 'plateau'), dims=plans.D(c, 2, 3)),
    'iters': plans.iters,
    'waves': plans.waves,
    'script': lambda c, t: plans.scripts(c, t, upto=60 if t == 'quick' else 110, n=90 if t == 'quick' else 170, box='rect'),
    'script1': lambda c, t: plans.scripts(c, t, upto=30, n=60, kinds=('best',), dims=plans.D(c, 1), opts=(MAX,)),
    'stop': lambda c, t: plans.stops(c, t, lands=('chaos',)),
}
DEV = {'dev': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land='chaos', max_evals=30)] + ([] if t == 'quick' else [dict(dim=max(2, c.mindim), box='sym', land=l, max_evals=60) for l in ('bowl', 'plateau')])}


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=3, box='rect', land='chaos', max_iters=4 if tier == 'quick' else 30), dict(dim=1 if cfg.name != 'ForestOptimizationAlgorithm' else 2, box='off', land='plateau', max_evals=500)]


RunProp('C11', oracle, FAM, DEV, {'default': defs}).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, 8 landscapes x 3 boxes x dimensions 1,2,4 in both directions, special answers at 60 evaluation indices, single random deviations within 30 evaluations, 132 configurations + defaults',
                'thorough': 'runs to 1200 evaluations, special answers at 110 indices, deviations on three worlds to 60 evaluations'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
