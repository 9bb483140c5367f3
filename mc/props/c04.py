"""C04: only feasible solutions are evaluated and returned."""
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp


def failing(r):
    return oracles.feasible(r, returned=False)


FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=50 if t == 'quick' else 150, dims=plans.D(c, 1, 2, 3, 6)),
    'worldmax': lambda c, t: plans.worlds(c, t, n=50 if t == 'quick' else 150, lands=('slope', 'chaos'), opts=(MAX,)),
    'repair': lambda c, t: plans.repairs(c, t, n=70 if t == 'quick' else 300),
    'script': lambda c, t: plans.scripts(c, t, kinds=('best', 'huge') if t == 'quick' else ('best', 'worst', 'tie', 'huge', 'zero'), box='rect'),
    'stop': lambda c, t: plans.stops(c, t, lands=('slope',), boxes=('thin',)),
    'sizes': plans.sizes, 'spent': plans.spent,
    'long': lambda c, t: plans.worlds(c, t, n=300 if t == 'quick' else 1500, lands=('slope', 'bowl', 'neg'), boxes=('off', 'rect'), dims=plans.D(c, 2, 4)),
}


def devs(c, t):
    out = []
    for b, l, rp in ((('rect', 'chaos', 'limit'), ('off', 'slope', 'reflect')) if t == 'quick' else
                     (('rect', 'chaos', 'limit'), ('off', 'slope', 'reflect'), ('thin', 'bowl', 'wang'), ('neg', 'neg', 'limit_inverse'), ('wide', 'plateau', 'rand'))):
        out.append(dict(dim=max(2, c.mindim), box=b, land=l, repair=rp, max_evals=26 if t == 'quick' else 60))
    return out


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=d, box=b, land=l, repair=rp, max_evals=350 if tier == 'quick' else 2500)
                                             for d, b, l, rp in ((2, 'rect', 'slope', 'limit'), (3, 'thin', 'chaos', 'reflect'), (5, 'off', 'slope', 'wang'), (2, 'neg', 'slope', 'limit_inverse'))]


RunProp('C04', oracles.feasible, FAM, {'dev': devs}, {'default': defs}, failing=failing).export(
    globals(), {'quick': '8 landscapes x 6 boxes x dimensions 1,2,3,6 at 50 evaluations, 6 repairs x 3 boxes, every single extreme random answer within 26 evaluations on two worlds, scripted answers, 132 configurations + defaults',
                'thorough': 'the same at 150 evaluations, five worlds of deviations within 60 evaluations, long runs of 1500 evaluations'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
