"""C06: exact budgets and iteration limits, nothing after the stop."""
import numpy as np
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp


def reached(r):
    t, s = r.task, r.spec
    if 'cutoff' not in s or not r.prob.fs:
        return False
    sg = t.optimization_type.value
    return min(v * sg for v in r.prob.fs) <= s['cutoff'] * sg


def oracle(r):
    out = oracles.budget(r)
    s, t = r.spec, r.task
    n = len(r.prob.fs)
    me, mi, cut = s.get('max_evals'), s.get('max_iters'), s.get('cutoff')
    hit = reached(r)
    # nothing after the criterion that stopped it
    if cut is not None and hit:
        sg = t.optimization_type.value
        first = next(i for i, v in enumerate(r.prob.fs) if v * sg <= cut * sg) + 1
        if n != first:
            out.append(('past-cutoff', 'cutoff reached at evaluation %d but the objective was called %d times' % (first, n)))
    if me is not None and mi is None and not hit and n != me:
        out.append(('short', 'stopped after %d of %d evaluations' % (n, me)))
    if mi is not None:
        if t.iters > mi:
            out.append(('iters-over', '%d iterations, limit %d' % (t.iters, mi)))
        if me is None and not hit and t.iters != mi:
            out.append(('iters', '%d iterations, limit %d' % (t.iters, mi)))
        if me is not None and not hit and t.iters != mi and n != me:
            out.append(('neither', 'stopped with %d evaluations of %s and %d iterations of %s' % (n, me, t.iters, mi)))
    if r.probe is not None:
        pairs = sum(1 for e in r.probe.log if e['k'] == 'ai')
        begun = sum(1 for e in r.probe.log if e['k'] == 'bi')
        before = (s.get('pre') or (0, 0))
        if pairs != t.iters - before[1]:
            out.append(('iters-count', 'task counts %d iterations, %d were performed' % (t.iters - before[1], pairs)))
        late = next((e for e in r.probe.log if e['k'] == 'bi' and ((me is not None and e['evals'] >= me) or (cut is not None and hit and e['evals'] >= first))), None)
        if late is not None:
            out.append(('begun-late', 'an iteration was started after %d evaluations, when a criterion already held' % late['evals']))
        last = [e for e in r.probe.log if e['k'] == 'ai']
        if mi is not None and t.iters >= mi and n != (last[-1]['evals'] if last else before[0]):
            out.append(('past-limit', 'objective called %d times, %d when the iteration limit %d was reached' % (n, last[-1]['evals'] if last else 0, mi)))
        if mi is not None and begun > mi:
            out.append(('begun', '%d iterations started, limit %d' % (begun, mi)))
        ea = [e['evals'] for e in r.probe.log]
        if any(b < a for a, b in zip(ea, ea[1:])):
            out.append(('evals-drop', 'evaluation counter went back: %s' % ea))
    return out


def both(c, t):
    return [dict(dim=d, box='sym', land='bowl', max_evals=e, max_iters=i) for d in plans.D(c, 2)
            for e in (0, 1, 3, 7, 12, 20, 33) for i in (0, 1, 2, 4)] + [dict(dim=d, box='sym', land='bowl', max_evals=0, opt=o) for d in plans.D(c, 1, 2) for o in (MIN, MAX)]


def combo(c, t):
    return [dict(dim=d, box='rect', land='chaos', max_evals=e, max_iters=i, cutoff=k) for d in plans.D(c, 2)
            for e in (5, 13, 29) for i in (1, 3) for k in (0.2, 2.0, -1.0)]


FAM = {
    'stop': lambda c, t: plans.stops(c, t, lands=('bowl', 'chaos', 'plateau'), upto=60 if t == 'quick' else 200),
    'stopd': lambda c, t: plans.stops(c, t, lands=('slope',), dims=plans.D(c, 1, 3, 5), boxes=('sym',), upto=40 if t == 'quick' else 120, opts=(MAX,)),
    'flat': lambda c, t: plans.stops(c, t, lands=('flat0', 'flat7', 'neg'), boxes=('thin',), upto=30 if t == 'quick' else 90),
    'it0': lambda c, t: [dict(dim=d, land='bowl', max_iters=n) for d in plans.D(c, 1, 2, 3) for n in range(0, 8 if t == 'quick' else 16)],
    'iters': plans.iters,
    'both': both, 'combo': combo, 'cut': plans.cutoffs,
    'cutscript': lambda c, t: [dict(dim=max(2, c.mindim), land='bowl', cutoff=-1e6, max_evals=60, script=('best', k), box='rect') for k in range(1, 50)],
    'sizes': plans.sizes, 'spent': plans.spent,
    'script': lambda c, t: plans.scripts(c, t, upto=40, n=60, kinds=('worst', 'tie')),
}
DEV = {'dev': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land='chaos', max_evals=23)] + ([] if t == 'quick' else [dict(dim=max(2, c.mindim), box='sym', land='bowl', max_iters=2)])}


def defs(cfg, tier):
    return plans.default_specs(cfg, tier) + [dict(dim=3, box='rect', land='bowl', max_evals=n) for n in ((1, 10, 49, 50, 73, 100, 101, 151, 260) if tier == 'quick' else range(1, 330))] + \
        [dict(dim=2, land='chaos', max_iters=n) for n in (0, 1, 2)] + [dict(dim=2, land='bowl', max_evals=120, max_iters=2), dict(dim=2, land='bowl', cutoff=0.02, max_evals=300)]


RunProp('C06', oracle, FAM, DEV, {'default': defs}).export(
    globals(), {'quick': 'budgets 1..60 (each) x 3 landscapes, dimensions 1,3,5, iteration limits 0..7, all combinations of limits and cutoffs, cutoff reached at each of 50 evaluation indices, single random deviations',
                'thorough': 'budgets to 200, limits to 15, default configurations at every budget to 329'},
    ASSUME, 'a state is a prefix of the evaluation history of a run')
