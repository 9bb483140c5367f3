"""C07: every run terminates with a solution and raises nothing."""
import numpy as np
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp
from env import where


def oracle(r):
    if r.task.evals and (r.x is None or r.f is None):
        return [('none', 'run returned %r' % ((r.x, r.f),))]
    if r.alg.bad_run():
        return [('badrun', 'bad_run() after a run without failure')]
    return []


def failing(r):
    if r.hang is not None:
        return [('hang', 'run did not come back: %s' % r.hang)]
    return [('raise-%s' % type(r.err).__name__, 'run raised %s: %s at %s' % (type(r.err).__name__, r.err, where(r)))]


KINDS = ('best', 'worst', 'tie', 'zero', 'huge', 'hugeneg')
FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=60 if t == 'quick' else 200, dims=plans.D(c, 1, 2, 3, 7)),
    'flat': lambda c, t: plans.worlds(c, t, n=200 if t == 'quick' else 1200, lands=('flat0', 'flat7', 'plateau', 'neg'), boxes=('sym', 'thin'), dims=plans.D(c, 1, 2)),
    'repair': lambda c, t: plans.repairs(c, t, n=60 if t == 'quick' else 300),
    'stop': lambda c, t: plans.stops(c, t, lands=('flat0', 'chaos'), boxes=('rect',)),
    'stop1': lambda c, t: plans.stops(c, t, lands=('bowl',), boxes=('sym',), dims=plans.D(c, 1), upto=25),
    'iters': lambda c, t: plans.iters(c, t, dims=plans.D(c, 1, 2), boxes=('sym', 'thin')),
    'waves': plans.waves,
    'script': lambda c, t: plans.scripts(c, t, upto=24 if t == 'quick' else 60, kinds=KINDS),
    'scriptflat': lambda c, t: plans.scripts(c, t, upto=20 if t == 'quick' else 60, kinds=('best', 'worst', 'zero', 'huge'), land='flat7', box='rect'),
    'npf': lambda c, t: [dict(s, npf=True) for s in plans.worlds(c, t, n=60, lands=('bowl', 'flat0', 'chaosn'), boxes=('sym',))],
    'sizes': plans.sizes, 'spent': plans.spent,
    'cut': plans.cutoffs,
    'none': lambda c, t: [dict(dim=d, box='rect', land='chaos', opt=o, **k) for d in plans.D(c, 1, 2) for o in (MIN, MAX) for k in (dict(max_evals=0), dict(max_iters=0), dict(max_iters=0, max_evals=20))],
}


def devs(c, t):
    d = max(2, c.mindim)
    out = [dict(dim=d, box='rect', land='chaos', max_evals=24), dict(dim=d, box='sym', land='flat0', max_evals=18)]
    if c.mindim == 1:
        out.append(dict(dim=1, box='off', land='bowl', max_evals=16))
    if t != 'quick':
        out += [dict(dim=d, box='thin', land=l, max_evals=60) for l in ('chaosn', 'plateau', 'slope')]
    return out


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=d, box=b, land=l, max_evals=300 if tier == 'quick' else 4000)
                                             for d, b, l in ((1, 'sym', 'bowl'), (2, 'thin', 'flat0'), (1, 'rect', 'chaosn'), (3, 'wide', 'neg'), (20, 'sym', 'slope'))
                                             if d >= (2 if cfg.name == 'ForestOptimizationAlgorithm' else 1)] + \
        [dict(dim=3, land='chaos', max_evals=n) for n in (1, 2, 19, 60)]


RunProp('C07', oracle, FAM, {'dev': devs}, {'default': defs}, failing=failing).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, 8 landscapes x 6 boxes x dimensions 1,2,3,7; six kinds of scripted answers at 24 evaluation indices; every single extreme random answer on three worlds; every budget to 40; 132 configurations + defaults',
                'thorough': 'the same to 200 evaluations, scripts at 60 indices, six worlds of deviations, flat landscapes to 1200 evaluations, defaults to 4000'},
    ASSUME + ['a run is judged endless after 120000 evaluation requests, 60000 requests after the stop, 400000 random draws or 20 s of wall clock time'],
    'a state is a prefix of the evaluation history of a run')
