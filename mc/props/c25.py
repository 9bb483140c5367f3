"""C25: populations with greedy selection never deteriorate."""
import numpy as np
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp

POSITIONAL = {  # member i is only ever replaced by something at least as good
    'DifferentialEvolution', 'MultiStrategyDifferentialEvolution', 'SelfAdaptiveDifferentialEvolution',
    'MultiStrategySelfAdaptiveDifferentialEvolution', 'FlowerPollinationAlgorithm'}
SORTED = {
    'BatAlgorithm', 'HybridBatAlgorithm', 'AdaptiveBatAlgorithm', 'SelfAdaptiveBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm', 'ParameterFreeBatAlgorithm',
    'CuckooSearch', 'SuccessHistoryAdaptiveDifferentialEvolution', 'HarmonySearch', 'HarmonySearchV1',
    'EvolutionStrategy1p1', 'EvolutionStrategyMp1', 'EvolutionStrategyMpL', 'MultipleTrajectorySearch', 'MultipleTrajectorySearchV1',
    'DifferentialEvolutionMTS', 'DifferentialEvolutionMTSv1', 'MultiStrategyDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTSv1',
    'BareBonesFireworksAlgorithm', 'ClonalSelectionAlgorithm'} | POSITIONAL
SHRINK = {  # a reduction keeps the better one of each pair
    'DynNpDifferentialEvolution', 'DynNpMultiStrategyDifferentialEvolution', 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1',
    'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1'}
WORST_OUT = {'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution'}  # a reduction removes the worst


def oracle(r):
    prev = None
    rank = type(r.alg).__name__ in WORST_OUT
    seen, n = {}, 0
    for e in r.probe.log:
        if e['k'] not in ('bi', 'ai'):
            continue
        fit = e['fit'].reshape(-1)
        if prev is not None and len(prev) == len(fit) or (prev is not None and rank and len(fit) < len(prev)):
            a, b = np.sort(prev)[:len(fit)], np.sort(fit)
            if np.any(b > a):
                k = int(np.argmax(b > a))
                return [('deteriorates', 'rank %d of the population went from %r to %r at evaluation %d' % (k + 1, a[k], b[k], e['evals']))]
        elif prev is not None and len(fit) < len(prev):
            m = 2 * len(fit)          # the better one of each pair (i, i + half) survives; an odd last member has no pair
            if m <= len(prev) and np.any(fit > np.minimum(prev[:len(fit)], prev[len(fit):m])):
                return [('deteriorates', 'a population with fitness %s was halved to %s' % (prev, fit))]
        prev = fit
        while n < e['evals']:
            seen[r.prob.xs[n].tobytes()] = 1
            n += 1
        if len(e['pop']) == len(fit):
            for (x, _), f in zip(e['pop'], fit):
                if np.isfinite(f) and x.tobytes() not in seen:
                    return [('unevaluated', 'member %s with fitness %r has never been evaluated' % (x, f))]
    return []


def keep(cfg):
    return cfg.name in SORTED | SHRINK | WORST_OUT


FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=90 if t == 'quick' else 300, boxes=('sym', 'rect', 'neg'), dims=plans.D(c, 1, 2, 4), opts=(MIN, MAX)),
    'sizes': plans.sizes,
    'long': lambda c, t: plans.worlds(c, t, n=400 if t == 'quick' else 2000, boxes=('rect',), lands=plans.LANDS, dims=plans.D(c, 2, 3)),
    'iters': lambda c, t: plans.iters(c, t, upto=6),
    'waves': plans.waves,
    'script': lambda c, t: plans.scripts(c, t, upto=70 if t == 'quick' else 140, n=100 if t == 'quick' else 200, box='rect'),
    'stop': lambda c, t: plans.stops(c, t, lands=('chaos', 'bowl'), upto=60),
    'seeds': lambda c, t: [dict(dim=2, box='rect', land=l, max_evals=120, seed=s) for l in ('bowl', 'chaos') for s in range(1, 40 if t == 'quick' else 200)],
}
DEV = {'dev': lambda c, t: [dict(dim=2, box='rect', land='chaos', max_evals=40 if t == 'quick' else 70), dict(dim=2, box='sym', land='bowl', max_evals=40 if t == 'quick' else 70)]}

RunProp('C25', oracle, FAM, DEV, {'default': plans.default_specs}, keep=keep).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, 8 landscapes x 3 boxes x dimensions 1,2,4 x both directions, special answers at 70 indices, every budget to 60, 39 seeds, single random deviations within 40 evaluations',
                'thorough': 'runs to 2000 evaluations, special answers at 140 indices, 199 seeds, deviations within 70 evaluations'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
