"""Finite families of runs shared by the algorithm-level properties.

A family is a list of spec dicts for env.execute; every family is enumerated completely.  Bounds
are stated per tier; nothing is sampled.
"""
import itertools

from algos import DEFAULTS, TABLE
from env import ANSWERS, MAX, MIN

LANDS = ('bowl', 'neg', 'slope', 'flat0', 'flat7', 'plateau', 'chaos', 'chaosn')
BOXN = ('sym', 'off', 'neg', 'wide', 'rect', 'thin')
REPN = ('limit', 'limit_inverse', 'wang', 'rand', 'reflect', 'copying')


def D(cfg, *dims):
    return [d for d in dims if d >= cfg.mindim]


def stops(cfg, tier, lands=('bowl', 'chaosn'), upto=None, boxes=('rect',), opts=(MIN,), dims=None):
    """Every evaluation budget from one upwards."""
    upto = upto or (40 if tier == 'quick' else 110)
    out = []
    for d in dims or D(cfg, 2):
        for b, l, o in itertools.product(boxes, lands, opts):
            for n in range(1, upto + 1):
                out.append(dict(dim=d, box=b, land=l, opt=o, max_evals=n))
    return out


def iters(cfg, tier, lands=LANDS, upto=None, dims=None, opts=(MIN, MAX), boxes=('sym', 'rect')):
    upto = upto or (3 if tier == 'quick' else 8)
    dims = dims or D(cfg, 1, 2, 3)
    return [dict(dim=d, box=b, land=l, opt=o, max_iters=upto)
            for d, b, l, o in itertools.product(dims, boxes, lands, opts)]


def worlds(cfg, tier, n=60, lands=LANDS, boxes=BOXN, dims=None, opts=(MIN,), repairs=('limit',)):
    """Landscape x box x repair x dimension x direction at one budget."""
    dims = dims or D(cfg, 1, 2, 3, 5)
    return [dict(dim=d, box=b, land=l, opt=o, repair=r, max_evals=n)
            for d, b, l, o, r in itertools.product(dims, boxes, lands, opts, repairs)]


def repairs(cfg, tier, n=60, lands=('slope', 'chaos'), boxes=('rect', 'thin', 'wide')):
    return [dict(dim=d, box=b, land=l, repair=r, max_evals=n)
            for d in D(cfg, 2, 3) for b in boxes for l in lands for r in REPN]


def cutoffs(cfg, tier):
    out = []
    for l, cs in (('bowl', (0.5, 0.05)), ('neg', (-999.6,)), ('slope', (0.0, -1.2)), ('chaos', (1.0, 0.2)), ('flat7', (7.0, 8.0))):
        for c in cs:
            for d in D(cfg, 1, 2):
                out.append(dict(dim=d, box='sym', land=l, cutoff=c, max_evals=200))
                out.append(dict(dim=d, box='sym', land=l, cutoff=-c, opt=MAX, flip=True, max_evals=200))
    return out


# scripted answers: at evaluation k the objective returns something special, pure afterwards (memo)
def scripted(kind, k0, base, neg=False):
    s = -1.0 if neg else 1.0

    def answer(k, x, prob):
        if kind.startswith('wave'):      # blocks of steadily improving answers between blocks of worse ones
            return s * (-float(k) if (k + k0) // int(kind[4:]) % 2 else float(k))
        v = base(x)
        if k == k0:
            return s * {'best': -1e6, 'worst': 1e6, 'zero': 0.0, 'huge': 1e300, 'hugeneg': -1e300,
                        'tie': min(s * f for f in prob.fs) if prob.fs else s * v}[kind]
        return v
    return answer


def scripts(cfg, tier, upto=None, kinds=('best', 'tie', 'worst'), land='chaos', box='sym', opts=(MIN,), n=None, dims=None):
    """At every evaluation index k a special answer; the rest follows the landscape."""
    upto = upto or (36 if tier == 'quick' else 90)
    out = []
    for d in dims or D(cfg, 2)[:1] or [cfg.mindim]:
        for o in opts:
            for kind in kinds:
                for k in range(1, upto + 1):
                    out.append(dict(dim=d, box=box, land=land, opt=o, script=(kind, k), max_evals=n or upto + 6))
    return out


def waves(cfg, tier, n=90, opts=(MIN,), box='rect'):
    """Blocks of b evaluations each better than all before alternate with blocks that are worse, at every phase."""
    bs = range(1, 8) if tier == 'quick' else range(1, 16)
    ps = [(b, k) for b in bs for k in range(2 * b)] + [(10 ** 6, 0), (10 ** 6, 10 ** 6)]
    return [dict(dim=max(2 + b % 3, cfg.mindim), box=box, land='chaos', opt=o, script=('wave%d' % b, k), max_evals=n if tier == 'quick' else 3 * n)
            for o in opts for b, k in ps]


# smallest population an algorithm can work with (its published rule needs that many members)
MINPOP = {'GreyWolfOptimizer': 3, 'MonarchButterflyOptimization': 4, 'SuccessHistoryAdaptiveDifferentialEvolution': 3,
          'LpsrSuccessHistoryAdaptiveDifferentialEvolution': 3, 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': 3,
          'LionOptimizationAlgorithm': 3}


def minpop(cfg):
    kw = cfg.kw
    if cfg.name == 'GeneticAlgorithm':
        return 5
    if cfg.name == 'BeesAlgorithm':
        return kw.get('m', 5)
    if cfg.name == 'ClonalSelectionAlgorithm':
        return 4
    return MINPOP.get(cfg.name, 2)


def sizes(cfg, tier, n=70, lands=('bowl', 'chaosn'), lo=None):
    """Population sizes, even and odd, from the smallest possible to beyond the configured one."""
    lo = minpop(cfg) if lo is None else lo
    key = 'mu' if 'mu' in cfg.kw else 'population_size' if 'population_size' in cfg.kw else None
    if key is None:
        return []
    return [dict(dim=d, box='rect', land=l, max_evals=e, over={key: k}) for k in range(lo, 13 if tier == 'quick' else 22)
            for d in D(cfg, 1, 3) for l in lands for e in ((n,) if tier == 'quick' else (k + 1, n, 4 * n))]


def marathon(cfg, tier):
    """Few but long runs: thousands of evaluations, hundreds of iterations, many dimensions."""
    m = 1 if tier == 'quick' else 4
    d = max(2, cfg.mindim)
    out = [dict(dim=d, box='rect', land='bowl', max_evals=5000 * m),
           dict(dim=3, box='sym', land='chaosn', opt=MAX, max_iters=200 * m, max_evals=15000 * m),
           dict(dim=30, box='wide', land='bowl', max_evals=1000 * m),
           dict(dim=12, box='rect', land='slope', repair='reflect', max_evals=1500 * m),
           dict(dim=10, box='off', land='neg', max_iters=60 * m, max_evals=6000 * m),
           dict(dim=d, box='sym', land='bowl', cutoff=1e-3, max_evals=4000 * m)]
    out.append(dict(dim=100, box='rect', land='chaosn', max_evals=300 * m))
    key = 'mu' if 'mu' in cfg.kw else 'population_size' if 'population_size' in cfg.kw else None
    if key:
        out.append(dict(dim=d, box='rect', land='chaos', max_evals=800 * m, over={key: 127}))
    if cfg.mindim <= 1:
        out.append(dict(dim=1, box='sym', land='plateau', max_evals=2500 * m))
    if cfg.name == 'RandomSearch':      # looks through all its candidates for every new one
        out = [dict(s, max_evals=1000) for s in out]
    return [dict(s, alarm=90) for s in out]


ODD = ('zlo', 'zhi', 'vast', 'tiny', 'pair', 'point', 'int')


def odd(cfg, tier):
    """Unusual legal boxes: a single point, two neighbouring floats, an end at zero, integers, a billion wide."""
    n = 60 if tier == 'quick' else 250
    return [dict(dim=d, box=b, land=l, repair=rp, alarm=10, **({'max_evals': n} if k else {'max_iters': 3 if tier == 'quick' else 10, 'max_evals': 3000}))
            for b in ODD for d in D(cfg, 1, 3)
            for l, rp, k in (('bowl', 'limit', 1), ('chaosn', 'reflect', 1), ('slope', 'rand', 0), ('flat0', 'wang', 1))]


ILLEGAL = {('AgingNpDifferentialEvolution', 'min_lifetime', 1), ('ClonalSelectionAlgorithm', 'clone_factor', 0.0), ('ClonalSelectionAlgorithm', 'clone_factor', 0.15),
           ('ForestOptimizationAlgorithm', 'global_seeding_changes', 3), ('ForestOptimizationAlgorithm', 'local_seeding_changes', 3),
           ('GravitationalSearchAlgorithm', 'epsilon', 0.0), ('LionOptimizationAlgorithm', 'nomad_ratio', 1.0), ('MonarchButterflyOptimization', 'partition', 1.0)}


def values(cfg):
    """Every setting x every other legal value: neighbouring ones, both ends of ratios, the other functions."""
    from props import c19
    if cfg.name not in c19.SET or cfg.id.endswith('/default'):
        return []
    out = []
    for k, v in c19.full(cfg).items():
        vs = list(c19.alts(k, v)) + ([0.0, 1.0] if isinstance(v, float) and 0 <= v <= 1 else [])
        for i, x in enumerate(vs):
            if isinstance(x, float) and x in vs[:i] or isinstance(x, (int, float)) and (cfg.name, k, x) in ILLEGAL:
                continue
            out.append((k, x))
    return out


def settings(cfg, tier):
    """Every configuration with one setting changed."""
    out = []
    ls = ('bowl', 'chaosn') if tier == 'quick' else ('bowl', 'chaosn', 'flat0', 'slope')
    for k, v in values(cfg):
        for j, l in enumerate(ls):
            d = max(2 + j % 2, cfg.mindim)
            out.append(dict(dim=d, box='rect', land=l, over={k: v}, alarm=10, **({'max_evals': 90 if tier == 'quick' else 400} if j % 2 == 0 else {'max_iters': 4 if tier == 'quick' else 12, 'max_evals': 4000})))
    return out


def answers(cfg, tier):
    """Objectives that answer with other kinds of numbers or other magnitudes."""
    n = 80 if tier == 'quick' else 300
    return [dict(dim=d, box='rect', land=l, opt=o, alarm=10, **({'max_evals': n} if d == 1 or o is MIN else {'max_iters': 3 if tier == 'quick' else 10, 'max_evals': 3000}))
            for l in ANSWERS for d, o in ((2, MIN), (3, MAX), (1, MAX)) if d >= cfg.mindim]


def used(cfg, tier):
    """Tasks of which a part was used up before the run, by other evaluations and iterations."""
    d = max(2, cfg.mindim)
    out = [dict(dim=d, box='rect', land=l, opt=o, pre=(a, b), alarm=10, **k) for a, b in ((1, 0), (5, 0), (0, 1), (3, 2), (17, 1))
           for l, o, k in (('bowl', MIN, dict(max_evals=40)), ('chaos', MAX, dict(max_evals=18)), ('slope', MIN, dict(max_iters=b + 3, max_evals=3000)), ('bowl', MIN, dict(max_iters=b + 2)), ('chaos', MIN, dict(max_evals=60, cutoff=0.05)))]
    return out


def spent(cfg, tier):
    """Tasks that have nothing left when the run starts."""
    return [dict(dim=d, box='rect', land='bowl', opt=o, pre=p, alarm=10, **k) for d in D(cfg, 1, 2) for o in (MIN, MAX)
            for p, k in (((4, 0), dict(max_evals=4)), ((3, 2), dict(max_iters=2)), ((0, 1), dict(max_iters=1, max_evals=9)), ((2, 0), dict(max_evals=50, cutoff=2e6 if o is MIN else -2e6)))]


def default_specs(cfg, tier):
    """What a user runs: default settings, real population sizes, several iterations."""
    n = 400 if tier == 'quick' else 1000 if cfg.name == 'RandomSearch' else 3000
    out = [dict(dim=d, box=b, land=l, opt=o, max_evals=n)
           for d, b, l, o in ((10, 'wide', 'bowl', MIN), (3, 'rect', 'chaosn', MIN), (4, 'sym', 'bowl', MAX), (2, 'off', 'plateau', MIN))]
    out += [dict(dim=5, box='sym', land='bowl', max_iters=4 if tier == 'quick' else 25, **({} if tier == 'quick' else {'max_evals': 60000})),
            dict(dim=2, box='neg', land='slope', opt=MAX, max_iters=3 if tier == 'quick' else 12, **({} if tier == 'quick' else {'max_evals': 60000}))]
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def all_cfgs():
    return TABLE + DEFAULTS
