"""C05: the returned solution is the best one ever evaluated, at every stopping point."""
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp


def oracle(r):
    return oracles.result(r)


FAM = {
    'stop': lambda c, t: plans.stops(c, t, lands=('bowl', 'chaosn', 'plateau', 'chaos'), opts=(MIN, MAX) if t != 'quick' else (MIN,)),
    'stopmax': lambda c, t: plans.stops(c, t, lands=('slope',), opts=(MAX,), boxes=('thin',)),
    'stop1d': lambda c, t: plans.stops(c, t, lands=('chaos',), boxes=('off',), dims=plans.D(c, 1), upto=25),
    'stop4d': lambda c, t: plans.stops(c, t, lands=('chaosn',), boxes=('sym',), dims=plans.D(c, 4), upto=50),
    'cut': plans.cutoffs,
    'iters': lambda c, t: plans.iters(c, t, dims=plans.D(c, 1, 3)),
    'waves': plans.waves,
    'script': lambda c, t: plans.scripts(c, t, upto=60 if t == 'quick' else 110, n=70 if t == 'quick' else 130),
    'scriptmax': lambda c, t: plans.scripts(c, t, opts=(MAX,), box='rect', kinds=('best', 'worst')),
    'sizes': plans.sizes,
    'long': lambda c, t: plans.worlds(c, t, n=150 if t == 'quick' else 600, lands=('bowl', 'chaosn'), boxes=('rect',), dims=plans.D(c, 2, 6)),
}
DEV = {'dev': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land=l, max_evals=30 if t == 'quick' else 60)
                            for l in (('chaos',) if t == 'quick' else ('chaos', 'bowl', 'plateau'))]}


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=3, box='rect', land='chaos', max_evals=n, seed=s)
                                             for n in ((1, 2, 7, 31, 50, 51, 77, 101, 133, 200) if tier == 'quick' else range(1, 260)) for s in (3,)]


RunProp('C05', oracle, FAM, DEV, {'default': defs}).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, budgets 1..40 (each) x 4 landscapes, scripted best/tie/worst answer at each of 60 evaluation indices, every single random deviation within 30 evaluations, 132 configurations + all default configurations',
                'thorough': 'budgets 1..110 x 4 landscapes x both directions, scripts at 110 indices, deviations within 60 evaluations on 3 landscapes, default configurations at every budget to 260'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
