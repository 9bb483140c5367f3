"""C12: reported populations and fitness values belong together and are feasible."""
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp

FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=80 if t == 'quick' else 300, boxes=('sym', 'rect', 'neg', 'thin'), dims=plans.D(c, 1, 2, 4)),
    'repair': lambda c, t: plans.repairs(c, t, n=80 if t == 'quick' else 300, boxes=('rect', 'thin')),
    'max': lambda c, t: plans.worlds(c, t, n=80 if t == 'quick' else 300, boxes=('rect',), opts=(MAX,), lands=('slope', 'neg', 'chaos')),
    'sizes': plans.sizes,
    'long': lambda c, t: plans.worlds(c, t, n=300 if t == 'quick' else 1200, boxes=('rect',), lands=('slope', 'chaos', 'plateau'), dims=plans.D(c, 2, 3)),
    'iters': plans.iters,
    'waves': plans.waves,
    'script': lambda c, t: plans.scripts(c, t, upto=50 if t == 'quick' else 110, n=80 if t == 'quick' else 170, box='rect', kinds=('best', 'worst')),
    'stop': lambda c, t: plans.stops(c, t, lands=('chaos', 'slope')),
}
DEV = {'dev': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land='chaos', max_evals=28)] + ([] if t == 'quick' else [dict(dim=max(2, c.mindim), box='off', land=l, repair='reflect', max_evals=60) for l in ('slope', 'plateau')])}


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=3, box='rect', land='slope', max_iters=4 if tier == 'quick' else 30), dict(dim=4, box='off', repair='reflect', land='chaos', max_evals=500)]


RunProp('C12', oracles.population, FAM, DEV, {'default': defs}).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, 8 landscapes x 4 boxes x dimensions 1,2,4, 6 repairs, special answers at 50 evaluation indices, every budget to 40, single random deviations within 28 evaluations',
                'thorough': 'runs to 1200 evaluations, special answers at 110 indices, deviations on three worlds'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
