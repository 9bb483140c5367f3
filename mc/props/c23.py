"""C23: variation and selection operators for every outcome of their random draws."""
import itertools
import math

import numpy as np
from engine import Out
from enumrng import Prune, explore
from env import CtlRNG, Hang, MAX, MIN, Obj, Probe, arm, disarm
from niapy.algorithms import Algorithm, Individual
from niapy.algorithms.basic import DifferentialEvolution, MultiStrategyDifferentialEvolution
from niapy.algorithms.basic import de as DE, ga as GA
from niapy.algorithms.other import SimulatedAnnealing, sa as SA
from niapy.task import Task
from niapy.util.array import objects_to_array

ID, LEVEL = 'C23', 'model_checking'
BOUNDS = {'quick': 'six differential strategies x populations of 1 to 3 more than needed x all targets x 4 dimensions x crossover rates 0, 0.5, 1 x weights: all outcomes of all draws (index tuples, forced component, side of every threshold); current-to-pbest with all archive fillings likewise; genetic operators likewise; populations to 60 and 12 components under every single deviation of several streams; annealing: all sequences of 5 objective values from 4 x 5 draws x 3 temperatures x 2 coolings x both directions, and long coolings; differential runs decoded trial by trial under every single deviation of the generator',
          'thorough': 'populations to 4 more than needed, dimension 5, annealing sequences of 7, 60 seeds and deviations in both directions'}
ASSUMPTIONS = ['continuous draws are represented by one value on each side of every threshold', 'differential strategies are judged on populations larger than the number of members they combine']
RULE = 'a state is an outcome vector of the random draws of one operator application'

# strategy: (number of random members, function(target, best, members, weight) -> mutant)
STRAT = {
    'cross_rand1': (3, lambda t, b, r, f: r[0] + f * (r[1] - r[2])),
    'cross_best1': (2, lambda t, b, r, f: b + f * (r[0] - r[1])),
    'cross_rand2': (5, lambda t, b, r, f: r[0] + f * (r[1] - r[2]) + f * (r[3] - r[4])),
    'cross_best2': (4, lambda t, b, r, f: b + f * (r[0] - r[1]) + f * (r[2] - r[3])),
    'cross_curr2rand1': (4, lambda t, b, r, f: t + f * (r[0] - r[1]) + f * (r[2] - r[3])),
    'cross_curr2best1': (3, lambda t, b, r, f: t + f * (b - r[0]) + f * (r[1] - r[2])),
}


def members(n, D):
    """Generic positions: sums and differences identify their members."""
    g = [[math.sqrt(p) * (1 + 0.37 * d) + 0.001 * (k + 1) ** 3 * (d + 1) for d in range(D)] for k, p in enumerate((2, 3, 5, 7, 11, 13, 17, 19, 23)[:n])]
    return np.array(g)


def pop_of(X, fs=None):
    return objects_to_array([Individual(x=np.array(x), e=False, f=(fs[i] if fs else float(i))) for i, x in enumerate(X)])


def us_for(c):
    return [0.5] if c in (0, 1) else [c * 0.5, (1 + c) / 2]


def jobs(tier):
    out = []
    tier = {'quick': 'thorough', 'thorough': 'deep'}[tier]
    extra = (1, 2, 3) if tier == 'thorough' else (1, 2, 3, 4)
    for s, (k, _) in STRAT.items():
        for e in extra:
            if (k >= 5 and e >= 3) or (k >= 4 and e >= 4):
                continue
            for D in ((1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3, 4, 5)):
                if (k >= 4 and e > 1 and D > 2) or (e > 2 and D > 4):
                    continue
                out.append(('de', s, k + e, D, tier))
        out.append(('derun', s, 0, 0, tier))
    out.append(('multi', '', 0, 0, tier))
    out += [('ga', n, 0, 0, tier) for n in ('tournament', 'roulette', 'uniform_crossover', 'two_point_crossover', 'multi_point_crossover', 'crossover_uros', 'uniform_mutation', 'creep_mutation', 'mutation_uros')]
    for opt in ('MIN', 'MAX'):
        for t0 in (0.5, 2.0, 2000.0):
            for cool in ('cool_delta', 'cool_linear'):
                out.append(('sa', opt, t0, cool, tier))
    out.append(('skip', '', 0, 0, tier))
    out += [('pbest', 'cross_curr2pbest1', n, D, tier) for n in ((3, 4, 5) if tier == 'thorough' else (3, 4, 5, 6)) for D in (1, 2)]
    for s, (k, _) in STRAT.items():
        for n, D in BIG[k]:
            out.append(('big', s, n, D, tier))
            out.append(('bigreach', s, n, 1, tier))
    out += [('gabig', n, 0, 0, tier) for n in ('tournament', 'uniform_crossover', 'two_point_crossover', 'multi_point_crossover', 'crossover_uros', 'uniform_mutation', 'creep_mutation', 'mutation_uros')]
    for opt in ('MIN', 'MAX'):
        for cool in ('cool_delta', 'cool_linear'):
            out.append(('salong', opt, 0, cool, tier))
    return out


def pbest(o, n, D, tier, bad):
    """Current-to-pbest: pbest among the first p, r1 another member, r2 another member or one of the filled archive places;
    components beyond a bound become the middle of the bound and the parent."""
    from niapy.algorithms.modified.shade import cross_curr2pbest1 as fn, parent_medium as pm
    X = members(n, D)
    A = 50.0 + generic(6, D)
    for w in (1000.0, 6.0):
        lo, hi = np.full(D, -w), np.full(D, w) + 0.5 * np.arange(D)
        task = Task(problem=Obj(D, lo, hi, lambda x: 0.0))
        for p_num, cnt in itertools.product(sorted({1, 2, n}), (0, 1, 3)):
            for f, cr in ((0.7, 0.5), (1.3, 1.0), (0.7, 0.0)):
                for ic in range(n):
                    pop = pop_of(X)
                    arch = A.copy()
                    table = {}
                    for b in range(p_num):
                        for r1 in range(n):
                            for r2 in range(n + cnt):
                                if r1 != ic and r2 not in (ic, r1):
                                    table[b, r1, r2] = X[ic] + f * (X[b] - X[ic]) + f * (X[r1] - (X[r2] if r2 < n else A[r2 - n]))
                    keys = list(table)
                    V = np.array([table[q] for q in keys])
                    V = np.where(V < lo, (lo + X[ic]) / 2, np.where(V > hi, (hi + X[ic]) / 2, V))
                    T = np.where(X[ic] < lo, (lo + X[ic]) / 2, np.where(X[ic] > hi, (hi + X[ic]) / 2, X[ic]))
                    seen_m, seen_c = set(), set()
                    for script, r, nd in explore(lambda rng: fn(pop, ic, f, cr, rng, p_num, arch, cnt, task), us_for(cr)):
                        o.trans += nd
                        o.execs += 1
                        if r is Prune:
                            continue
                        t = np.asarray(getattr(r, 'x', r), dtype=float)
                        ctx = ('cross_curr2pbest1', n, D, ic, f, cr, script)
                        if t.shape != (D,):
                            bad('shape', 'trial %r' % (r,), *ctx)
                            return
                        fm = np.abs(V - t) <= 1e-9 * (1 + np.abs(V))
                        ft = np.abs(T - t) <= 1e-9 * (1 + np.abs(T))
                        ok = np.where(np.all(fm | ft, axis=1) & np.any(fm, axis=1))[0]
                        if not len(ok):
                            bad('trial', 'trial %s of target %s is no combination of one of the %d best, another member and another member or one of %d archived solutions' % (t, X[ic], p_num, cnt), *ctx)
                            return
                        mask = tuple(bool(z) for z in fm[ok[0]])
                        if (cr == 0.0 and min(int(sum(fm[q])) for q in ok) != 1) or (cr == 1.0 and not any(all(fm[q]) for q in ok)):
                            bad('rate', 'crossover rate %s takes components %s from the mutant' % (cr, mask), *ctx)
                            return
                        if all(mask):
                            seen_m.update(keys[q] for q in ok)
                        seen_c.add(mask)
                        o.states.add(hash((n, D, w, p_num, cnt, f, ic, script)))
                    if any(not np.array_equal(q.x, x) for q, x in zip(pop, X)) or not np.array_equal(arch, A):
                        bad('pure', 'the population or archive was changed', 'cross_curr2pbest1', n, D, ic, f, cr, ())
                        return
                    if cr == 1.0 and len(seen_m) != len(keys):
                        bad('reach', 'only %d of %d combinations of members can occur' % (len(seen_m), len(keys)), 'cross_curr2pbest1', n, D, ic, f, cr, ())
                        return
                    if w == 1000.0 and len(seen_c) != (D if cr == 0.0 else 1 if cr == 1.0 else 2 ** D - 1):
                        bad('reach', 'only component sets %s can come from the mutant' % sorted(seen_c), 'cross_curr2pbest1', n, D, ic, f, cr, ())
                        return
                    o.outcomes.add(hash((n, D, w, p_num, cnt, f, ic)))
    vals = (-9.0, -3.0, np.nextafter(-3.0, -9), -2.5, 0.0, 10.0, 12.0, np.nextafter(12.0, 99), 50.0)
    lo, hi = np.array([-3.0, 10.0])[:D], np.array([-2.0, 12.0])[:D]
    for x in itertools.product(vals, repeat=D):
        for par in ((-2.6, 10.5), (-3.0, 12.0), (-2.0, 10.0)):
            x0, p0 = np.array(x), np.array(par[:D])
            want = [x[i] if lo[i] <= x[i] <= hi[i] else ((lo[i] if x[i] < lo[i] else hi[i]) + par[i]) / 2 for i in range(D)]
            got = np.asarray(pm(x0.copy(), p0, lo, hi))
            o.trans += 1
            if not np.allclose(got, want, rtol=0, atol=1e-12):
                bad('repair', '%s with parent %s becomes %s' % (x, par, got), 'parent_medium', n, D, 0, 0, 0, ())
                return


# larger populations and dimensions: (members, components) by number of random members of the strategy
BIG = {2: [(10, 6), (25, 12), (60, 3)], 3: [(9, 7), (20, 12), (36, 2)], 4: [(9, 8), (12, 3)], 5: [(9, 5), (10, 2)]}


def generic(n, D):
    g = np.random.Generator(np.random.PCG64(20240))
    return g.uniform(-3.0, 3.0, (n, D)) + np.arange(D)


PERMS = {}


def decode(trial, X, ic, xb, f, strat, tol=1e-9):
    """Explanations of a trial by distinct members other than the target: rows of (possibly mutant, possibly target) masks."""
    k, mut = STRAT[strat]
    n = len(X)
    if (n, ic, k) not in PERMS:
        PERMS[n, ic, k] = np.array(list(itertools.permutations([i for i in range(n) if i != ic], k)))
    R = PERMS[n, ic, k]
    t = X[ic]
    M = mut(t[None, :], xb[None, :], [X[R[:, j]] for j in range(k)], f)
    fm = np.abs(M - trial) <= tol * (1 + np.abs(M))
    ft = np.abs(trial - t) <= tol * (1 + np.abs(t))
    ok = np.all(fm | ft, axis=1) & np.any(fm, axis=1)
    return fm[ok], ft


def de(o, s, n, D, tier, bad):
    X = members(n, D)
    xb = np.array([0.123 + 0.31 * d for d in range(D)])
    fn = getattr(DE, s)
    k, mut = STRAT[s]
    for f in (0.7,) if tier == 'quick' and k > 3 else (0.7, 1.3):
        for cr in (0.0, 0.5, 1.0):
            for ic in range(n):
                table = {}
                for r in itertools.permutations([i for i in range(n) if i != ic], k):
                    table[r] = mut(X[ic], xb, [X[i] for i in r], f)
                keys = list(table)
                M = np.array([table[r] for r in keys])
                seen_m, seen_c = set(), set()
                pop = pop_of(X)
                for script, res, nd in explore(lambda rng: fn(pop, ic, f, cr, rng, x_b=xb), us_for(cr)):
                    o.trans += nd
                    o.execs += 1
                    if res is Prune:
                        o.note('outcomes beyond the draw bound')
                        continue
                    t = np.asarray(getattr(res, 'x', res), dtype=float)
                    if t.shape != (D,):
                        bad('shape', 'trial %r' % (res,), s, n, D, ic, f, cr, script)
                        return
                    fm = np.abs(M - t) <= 1e-9 * (1 + np.abs(M))
                    ft = np.abs(X[ic] - t) <= 1e-9 * (1 + np.abs(X[ic]))
                    ok = np.where(np.all(fm | ft, axis=1) & np.any(fm, axis=1))[0]
                    if len(ok) == 0:
                        bad('trial', 'trial %s is no combination of target %s, best %s and distinct other members' % (t, X[ic], xb), s, n, D, ic, f, cr, script)
                        return
                    mask = tuple(bool(v) for v in fm[ok[0]])
                    if cr == 0.0 and sum(mask) != 1:
                        bad('rate', 'crossover rate 0 takes components %s from the mutant' % (mask,), s, n, D, ic, f, cr, script)
                        return
                    if cr == 1.0 and not all(mask):
                        bad('rate', 'crossover rate 1 takes only components %s from the mutant' % (mask,), s, n, D, ic, f, cr, script)
                        return
                    if all(mask):
                        seen_m.update(keys[i] for i in ok)
                    seen_c.add(mask)
                    o.states.add(hash((s, n, D, ic, f, cr, script)))
                for i in range(n):
                    if not np.array_equal(pop[i].x, X[i]) or pop[i].f != float(i):
                        bad('pure', 'the population was changed', s, n, D, ic, f, cr, ())
                        return
                if cr == 1.0 and len(seen_m) != len(keys):
                    bad('reach', 'only %d of %d combinations of members can occur' % (len(seen_m), len(keys)), s, n, D, ic, f, cr, ())
                    return
                want = D if cr == 0.0 else 1 if cr == 1.0 else 2 ** D - 1
                if len(seen_c) != want:
                    bad('reach', 'only %d of %d sets of components can come from the mutant' % (len(seen_c), want), s, n, D, ic, f, cr, ())
                    return
                o.outcomes.add(hash((s, n, D, ic, f, cr)))


def devs_of(call, seed):
    """The default stream of one seed and every single deviation from it."""
    rng = CtlRNG(seed)
    yield (), call(rng)
    for j, (_, na) in enumerate(list(rng.points)):
        for a in range(1, na + 1):
            yield (j, a), call(CtlRNG(seed, {j: a}))


def big(o, s, n, D, tier, bad):
    X = generic(n, D)
    xb = np.array([0.123 + 0.31 * d for d in range(D)])
    fn, pop = getattr(DE, s), pop_of(X)
    for ic in sorted({0, 1, n // 2, n - 2, n - 1}) if tier == 'thorough' else range(n):
        for f, cr in ((0.7, 0.9), (1.3, 0.0), (0.05, 1.0), (2.0, 0.2)):
            for seed in range(2):
                for script, res in devs_of(lambda rng: fn(pop, ic, f, cr, rng, x_b=xb), 17 * seed + ic):
                    o.execs += 1
                    o.trans += 1
                    t = np.asarray(getattr(res, 'x', res), dtype=float)
                    if t.shape != (D,):
                        bad('shape', 'trial %r' % (res,), s, n, D, ic, f, cr, script)
                        return
                    fm, ft = decode(t, X, ic, xb, f, s)
                    if not len(fm):
                        bad('trial', 'trial %s is no combination of target %s, best %s and distinct other members' % (t, X[ic], xb), s, n, D, ic, f, cr, script)
                        return
                    if cr == 0.0 and np.min(fm.sum(axis=1)) > 1:
                        bad('rate', 'crossover rate 0 takes several components from the mutant', s, n, D, ic, f, cr, script)
                        return
                    if cr == 1.0 and not np.any(np.all(fm, axis=1)):
                        bad('rate', 'crossover rate 1 keeps components of the target', s, n, D, ic, f, cr, script)
                        return
                    o.states.add(hash((s, n, D, ic, f, cr, seed, script)))
        if any(not np.array_equal(p.x, x) for p, x in zip(pop, X)):
            bad('pure', 'the population was changed', s, n, D, ic, 0, 0, ())
            return
        o.outcomes.add(hash((s, n, D, ic)))


def bigreach(o, s, n, D, tier, bad):
    """Every other member occurs at every place of the combination (with so many streams a missing one means it cannot)."""
    X = generic(n, 1)
    xb = np.array([0.123])
    fn, pop = getattr(DE, s), pop_of(X)
    k, mut = STRAT[s]
    for ic in (0, n - 1):
        rng = CtlRNG(99 + ic)
        seen = [set() for _ in range(k)]
        decode(X[0], X, ic, xb, 0.7, s)
        R = PERMS[n, ic, k]
        M = mut(X[ic][None, :], xb[None, :], [X[R[:, j]] for j in range(k)], 0.7)[:, 0]
        order = np.argsort(M)
        Ms = M[order]
        for _ in range(40 * n):
            t = float(np.ravel(np.asarray(getattr(r := fn(pop, ic, 0.7, 1.0, rng, x_b=xb), 'x', r), dtype=float))[0])
            o.execs += 1
            o.trans += 1
            a, b = np.searchsorted(Ms, [t - 1e-11, t + 1e-11])
            if a == b:
                bad('trial', 'trial %s is no combination of target %s, best %s and distinct other members' % (t, X[ic], xb), s, n, D, ic, 0.7, 1.0, ())
                return
            for q in order[a:b]:
                for j in range(k):
                    seen[j].add(int(R[q, j]))
        full = set(range(n)) - {ic}
        if any(z != full for z in seen):
            bad('reach', 'members %s never occur' % [sorted(full - z) for z in seen], s, n, D, ic, 0.7, 1.0, ())
            return
        o.states.add(hash((s, n, ic)))


def derun(o, s, tier, bad):
    """Whole runs: every evaluated trial decodes against the population it came from."""
    k = STRAT[s][0]
    n, D = k + 2, 2
    for f, cr in ((0.1, 0.0), (0.05, 0.5), (0.08, 1.0)):
        for seed in range(6 if tier == 'thorough' else 60):
            for opt in (MIN, MAX):
                base = one_run(o, s, n, D, f, cr, seed, None, opt, bad)
                if base is None:
                    return
                if (opt is MIN and seed == 0) or (tier == 'deep' and seed < 4):
                    for j, (_, na) in enumerate(base):
                        for a in range(1, na + 1):
                            if one_run(o, s, n, D, f, cr, seed, {j: a}, opt, bad) is None:
                                return


def one_run(o, s, n, D, f, cr, seed, dev, opt, bad):
    prob = Obj(D, np.full(D, -100.0), np.full(D, 100.0), lambda x: float(np.sum(np.abs(x - 3.0))))
    task = Task(problem=prob, optimization_type=opt, max_iters=3)
    pr = Probe(task)
    alg = DifferentialEvolution(population_size=n, differential_weight=f, crossover_probability=cr, strategy=getattr(DE, s), callbacks=[pr], seed=seed)
    rng = CtlRNG(seed, dev)
    alg.rng = rng
    arm()
    try:
        try:
            alg.run(task)
        finally:
            disarm()
    except (Hang, Exception) as e:
        o.note('runs that raised or hung (judged by C07)')
        return rng.points
    o.execs += 1
    bi = [e for e in pr.log if e['k'] == 'bi']
    ai = [e for e in pr.log if e['k'] == 'ai']
    for b, a in zip(bi, ai):
        X = np.array([p[0] for p in b['pop']])
        seg = prob.xs[b['evals']:a['evals']]
        if len(seg) != n or len(a['pop']) != n:
            bad('run', '%d trials for a population of %d' % (len(seg), n), s, n, D, seed, f, cr, dev)
            return None
        for i, t in enumerate(seg):
            o.trans += 1
            if np.any(np.abs(t) >= 100.0):
                continue                    # repaired
            if len({x.tobytes() for x in X}) < n:
                continue                    # a deviation made members coincide: not decodable
            fm, ft = decode(t, X, i, b['bx'], f, s)
            if not len(fm):
                bad('run', 'trial %s of target %d is no documented combination (weight %s, rate %s)' % (t, i, f, cr), s, n, D, i, f, cr, dev)
                return None
            if cr == 0.0 and np.sum(~ft) > 1:
                bad('run', 'crossover rate 0 takes several components from the mutant', s, n, D, i, f, cr, dev)
                return None
            if cr == 1.0 and not np.any(np.all(fm, axis=1)):
                bad('run', 'crossover rate 1 keeps components of the target', s, n, D, i, f, cr, dev)
                return None
            # greedy one-to-one survivor
            g = opt.value * prob.fs[b['evals'] + i]
            if g != b['fit'][i]:
                w = t if g < b['fit'][i] else X[i]
                if not np.array_equal(a['pop'][i][0], w):
                    bad('survivor', 'member %d (fitness %r) against trial (fitness %r): the wrong one survives' % (i, b['fit'][i], g), s, n, D, i, f, cr, dev)
                    return None
    o.states.add(hash((s, f, cr, seed, opt.name, repr(dev))))
    o.outcomes.add(hash((s, repr(dev), len(prob.xs))))
    return rng.points


def multi(o, tier, bad):
    names = ('cross_rand1', 'cross_best1', 'cross_curr2best1')
    D, n = 1, 4
    X = members(n, D)
    xb = np.array([0.123])
    for opt in (MIN, MAX):
        for ic in range(n):
            for strat in (names[:1], names[:2], names[1:], names if tier != 'quick' else names[::2]):
                def app(rng):
                    prob = Obj(D, np.full(D, -1000.0), np.full(D, 1000.0), lambda x: float(np.sum((x * 7.3) % 5.0)))
                    task = Task(problem=prob, optimization_type=opt)
                    r = DE.multi_mutations(pop_of(X), ic, xb, 0.7, 1.0, rng, task, Individual, [getattr(DE, z) for z in strat])
                    return prob, r
                for script, res, nd in explore(app, [0.5]):
                    o.trans += nd
                    o.execs += 1
                    if res is Prune:
                        continue
                    prob, r = res
                    vals = [opt.value * v for v in prob.fs]
                    o.states.add(hash((ic, strat, script)))
                    if len(prob.xs) != len(strat):
                        bad('multi', '%d evaluations for %d strategies' % (len(prob.xs), len(strat)), strat, n, D, ic, 0.7, 1.0, script)
                        return
                    for z, t in zip(strat, prob.xs):
                        if not np.any(np.all(decode(t, X, ic, xb, 0.7, z)[0], axis=1)):
                            bad('multi', 'trial %s is no combination of %s' % (t, z), strat, n, D, ic, 0.7, 1.0, script)
                            return
                    if not float(r.f) == min(vals) or not any(np.array_equal(r.x, x) and v == r.f for x, v in zip(prob.xs, vals)):
                        bad('multi', 'returned fitness %r, the trials have %s' % (r.f, vals), strat, n, D, ic, 0.7, 1.0, script)
                        return
    o.outcomes.add(1)


LOW, UPP = np.array([-3.0, 10.0, 50.0]), np.array([-2.0, 14.0, 80.0])


def ga(o, op, tier, bad):
    def run(fn, us, ctx, cap=60):
        for script, res, nd in explore(fn, us, cap=cap):
            o.trans += nd
            o.execs += 1
            o.states.add(hash((op, repr(ctx), script)))
            if res is Prune:
                o.note('outcomes beyond the draw bound')
                continue
            yield script, res
    if op == 'tournament':
        for n in ((2, 3, 4, 5, 6) if tier == 'thorough' else (2, 3, 4, 5, 6, 7)):
            for ts in range(1, n + 1):
                for perm in (list(range(n)), list(range(n))[::-1], [(3 * i + 1) % n for i in range(n)] if n % 3 else list(range(1, n)) + [0]):
                    fs = [float(p) - 1.5 for p in perm]
                    pop = pop_of(members(n, 2), fs)
                    seen = set()
                    for script, r in run(lambda rng: GA.tournament_selection(pop, 0, ts, pop[0].x, rng), [0.5], (n, ts, perm)):
                        rank = next((sorted(fs).index(m.f) for m in pop if r is m or (isinstance(r, np.ndarray) and np.array_equal(r, m.x))), None)
                        if rank is None:
                            bad('tournament', 'selected %r is not in the population' % r, op, n, 2, 0, ts, 0, script)
                            return
                        if rank > n - ts:
                            bad('tournament', 'the member of rank %d wins a tournament of %d among %d' % (rank + 1, ts, n), op, n, 2, 0, ts, 0, script)
                            return
                        seen.add(rank)
                    if seen != set(range(n - ts + 1)):
                        bad('tournament', 'only ranks %s can win a tournament of %d among %d' % (sorted(seen), ts, n), op, n, 2, 0, ts, 0, ())
                        return
                    o.outcomes.add(hash((n, ts, tuple(perm))))
        return
    D, n = 3, 4
    X = np.array([LOW + (UPP - LOW) * fr for fr in (0.11, 0.37, 0.58, 0.93)])
    prob = Obj(D, LOW, UPP, lambda x: 0.0)
    task = Task(problem=prob)
    xb = LOW + 0.77 * (UPP - LOW)
    for ic in range(n):
        if op == 'roulette':
            for fs in ([1.0, 2.0, 3.0, 4.0], [4.0, 0.5, 0.25, 8.0]):
                pop = pop_of(X, fs)
                for script, r in run(lambda rng: GA.roulette_selection(pop, ic, 2, xb, rng), [0.001, 0.3, 0.6, 0.999], (ic, fs)):
                    r = np.asarray(getattr(r, 'x', r), dtype=float)
                    if not (np.array_equal(r, xb) or any(np.array_equal(r, x) for x in X)):
                        bad('roulette', 'selected %s' % r, op, n, D, ic, 0, 0, script)
                        return
            o.outcomes.add(ic)
        elif 'crossover' in op:
            fn = getattr(GA, op)
            rates = (1,) if op == 'multi_point_crossover' else (0.0, 0.5, 1.0)
            for cr in rates:
                pop = pop_of(X)
                us = us_for(cr) if op != 'crossover_uros' else [0.1, 0.8]
                for script, r in run(lambda rng: fn(pop, ic, cr, rng), us, (ic, cr), cap=40):
                    r = np.asarray(getattr(r, 'x', r), dtype=float)
                    if r.shape != (D,):
                        bad(op, 'offspring %r' % r, op, n, D, ic, cr, 0, script)
                        return
                    if op == 'crossover_uros':
                        ok = any(all(blend(r[d], X[ic][d], X[io][d], cr) for d in range(D)) for io in range(n))
                    else:
                        ok = any(all(r[d] in (X[ic][d], X[io][d]) for d in range(D)) for io in range(n))
                    if not ok:
                        bad(op, 'offspring %s is no recombination of %s with one other member at the same positions' % (r, X[ic]), op, n, D, ic, cr, 0, script)
                        return
                    if not all(np.array_equal(p.x, x) for p, x in zip(pop, X)):
                        bad('pure', 'the parents were changed', op, n, D, ic, cr, 0, script)
                        return
                o.outcomes.add(hash((ic, cr)))
        else:
            fn = getattr(GA, op)
            for mr in (0.0, 0.4, 1.0):
                pop = pop_of(X)
                seen = set()
                us = [0.25, 0.8]
                for script, r in run(lambda rng: fn(pop, ic, mr, task, rng), us, (ic, mr)):
                    r = np.asarray(getattr(r, 'x', r), dtype=float)
                    if r.shape != (D,) or not (np.all(r >= LOW) and np.all(r <= UPP)):
                        bad(op, 'mutant %s is outside the bounds' % r, op, n, D, ic, mr, 0, script)
                        return
                    if op == 'mutation_uros':
                        if not all(any(abs(r[d] - min(max(X[ic][d] + z * mr * (UPP - LOW)[d], LOW[d]), UPP[d])) < 1e-9 for z in (-1.3, 0.4, 6.0)) for d in range(D)):
                            bad(op, 'mutant %s is no normal disturbance of %s' % (r, X[ic]), op, n, D, ic, mr, 0, script)
                            return
                        continue
                    masks = [tuple(r[d] != X[m][d] for d in range(D)) for m in ([ic] if op == 'uniform_mutation' else range(n))]
                    m = min(masks, key=sum)
                    seen.add(m)
                    if sum(m) == 0 or (mr == 0.0 and sum(m) != 1) or (mr == 1.0 and sum(m) != D):
                        bad(op, 'mutation rate %s changes components %s' % (mr, m), op, n, D, ic, mr, 0, script)
                        return
                if op != 'mutation_uros':
                    want = D if mr == 0.0 else 1 if mr == 1.0 else 2 ** D - 1
                    if len(seen) != want:
                        bad(op, 'only %d of %d sets of components can be mutated at rate %s' % (len(seen), want, mr), op, n, D, ic, mr, 0, ())
                        return
                if not all(np.array_equal(p.x, x) for p, x in zip(pop, X)):
                    bad('pure', 'the population was changed', op, n, D, ic, mr, 0, ())
                    return
                o.outcomes.add(hash((ic, mr)))


def gabig(o, op, tier, bad):
    n, D = 14, 9
    lo, hi = np.array([-3.0, 10.0, 50.0, -8.0, 0.0, 100.0, -500.0, 1.0, 20.0]), np.array([-2.0, 14.0, 80.0, -4.0, 1.0, 140.0, -300.0, 3.0, 22.0])
    X = lo + (hi - lo) * np.random.Generator(np.random.PCG64(5)).uniform(0.05, 0.95, (n, D))
    task = Task(problem=Obj(D, lo, hi, lambda x: 0.0))
    fs = [float((5 * i + 3) % n) - 4.5 for i in range(n)]
    seeds = range(6 if tier == 'thorough' else 40)
    for ic in range(n):
        if op == 'tournament':
            pop = pop_of(X, fs)
            for ts in range(1, n + 1):
                for seed in seeds:
                    for script, r in devs_of(lambda rng: GA.tournament_selection(pop, ic, ts, X[0], rng), seed * 50 + ic):
                        o.execs += 1
                        o.trans += 1
                        rank = next((sorted(fs).index(m.f) for m in pop if r is m or (isinstance(r, np.ndarray) and np.array_equal(r, m.x))), n)
                        if rank > n - ts:
                            bad('tournament', 'the member of rank %d wins a tournament of %d among %d' % (rank + 1, ts, n), op, n, D, ic, ts, 0, script)
                            return
                        o.states.add(hash((ic, ts, seed, script)))
            continue
        fn = getattr(GA, op)
        for rate in (1, 2, 4) if op == 'multi_point_crossover' else (0.0, 0.1, 0.5, 1.0):
            for seed in seeds:
                pop = pop_of(X)
                args = () if 'crossover' in op else (task,)
                for script, r in devs_of(lambda rng: fn(pop, ic, rate, *args, rng), seed * 50 + ic):
                    o.execs += 1
                    o.trans += 1
                    r = np.asarray(getattr(r, 'x', r), dtype=float)
                    ctx = (op, n, D, ic, rate, 0, script)
                    if r.shape != (D,):
                        bad(op, 'offspring %r' % r, *ctx)
                        return
                    if op == 'crossover_uros':
                        ok = any(all(blend(r[d], X[ic][d], X[io][d], rate) for d in range(D)) for io in range(n))
                    elif 'crossover' in op:
                        ok = any(all(r[d] in (X[ic][d], X[io][d]) for d in range(D)) for io in range(n))
                    else:
                        ok = np.all(r >= lo) and np.all(r <= hi)
                        if ok and op != 'mutation_uros':
                            c = min(int(np.sum(r != X[m])) for m in ([ic] if op == 'uniform_mutation' else range(n)))
                            ok = c >= 1 and (rate > 0 or c == 1) and (rate < 1 or c == D)
                    if not ok:
                        bad(op, '%s is no offspring of %s by definition' % (r, X[ic]), *ctx)
                        return
                    if any(not np.array_equal(p.x, x) for p, x in zip(pop, X)):
                        bad('pure', 'the parents were changed', *ctx)
                        return
                    o.states.add(hash((op, ic, rate, seed, script)))
        o.outcomes.add(ic)


def salong(o, optn, cool, tier, bad):
    """Long coolings over a deterministic landscape of values."""
    opt = MIN if optn == 'MIN' else MAX
    for L, t0, dT in ((40, 20.0, 0.5), (120, 100.0, 0.8), (60, 3.0, 0.05)):
        for ph in range(6 if tier == 'thorough' else 40):
            vals = [round(3.0 * math.sin(0.7 * ph + 1.3 * i) + 2.0 * math.cos(0.11 * (ph + 1) * i * i), 3) for i in range(L)]
            for u in (0.02, 0.2, 0.5, 0.8, 0.98):
                sa_one(o, opt, t0, dT, cool, L, vals, u, bad)


def blend(v, a, b, cr):
    if abs(a - b) < 1e-12:
        return abs(v - a) < 1e-9 * (1 + abs(a))
    al = (v - b) / (a - b)
    return cr - 1e-9 <= al <= 1 + 3 * cr + 1e-9


class ConstU(CtlRNG):
    """Single draws give a fixed value, vectors come from the stream."""
    u = 0.5

    def random(self, size=None, dtype=np.float64, out=None):
        r = np.random.Generator.random(self, size=size)
        if size is None or np.size(r) == 1:
            return self.u if size is None else np.full(np.shape(r), self.u)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        r = np.random.Generator.uniform(self, low, high, size)
        if np.ndim(r) == 0 and np.ndim(low) == 0 and np.ndim(high) == 0:
            return low + self.u * (high - low)
        return r


def sa(o, optn, t0, cool, tier, bad):
    opt = MIN if optn == 'MIN' else MAX
    L = 5 if tier == 'thorough' else 7
    dT = {0.5: 0.2, 2.0: 0.6, 2000.0: 0.8}[t0]
    for vals in itertools.product((0.0, 0.3, -0.5, 4.0), repeat=L):
        for u in (0.02, 0.2, 0.5, 0.8, 0.98):
            sa_one(o, opt, t0, dT, cool, L, vals, u, bad)


def sa_one(o, opt, t0, dT, cool, L, vals, u, bad):
    prob = Obj(2, np.full(2, -5.0), np.full(2, 5.0), None, answer=lambda k, x, p: opt.value * vals[(k - 1) % L])
    task = Task(problem=prob, optimization_type=opt, max_evals=L)
    pr = Probe(task)
    alg = SimulatedAnnealing(delta=0.5, starting_temperature=t0, delta_temperature=dT, cooling_method=getattr(SA, cool), callbacks=[pr], seed=1)
    alg.rng = ConstU(1)
    alg.rng.u = u
    arm()
    try:
        try:
            alg.run(task)
        finally:
            disarm()
    except (Hang, Exception):
        o.note('runs that raised or hung (judged by C07)')
        return
    o.execs += 1
    T, cur = t0, vals[0]
    ai = [e for e in pr.log if e['k'] == 'ai']
    for k, e in enumerate(ai):
        o.trans += 1
        if k + 1 >= L:
            break
        d = vals[k + 1] - cur
        got = float(np.ravel(e['fit'])[0])
        if d == 0:
            pass                       # either way the value is the same
        elif d < 0:
            cur = vals[k + 1]
        elif T > 0 and abs(u - math.exp(-d / T)) < 1e-9:
            cur = got                  # on the threshold up to rounding
        elif T > 0 and u < math.exp(-d / T):
            cur = vals[k + 1]
        if got != cur:
            bad('acceptance', 'iteration %d at temperature %s with draw %s: value %r after candidate %r, expected %r' % (k + 1, T, u, got, vals[k + 1], cur), cool, opt.name, t0, u, vals, '', '')
            return
        o.states.add(hash((opt.name, t0, cool, u, vals[:k + 2] if L < 10 else (tuple(vals[:3]), k))))
        T = T - (dT if cool == 'cool_delta' else t0 / L)
    o.outcomes.add(hash((tuple(vals), u)))


def skip(o, tier, bad):
    """Index drawing with exclusions."""
    for lo, hi in ((0, 2), (0, 4), (3, 6)):
        full = set(range(lo, hi))
        for r in range(0, hi - lo):
            for ex in itertools.combinations(sorted(full), r):
                for sk in ([None] if not ex else [list(ex), tuple(ex), np.array(ex)]):
                    alg = Algorithm(seed=1)
                    seen = set()

                    def app(rng):
                        alg.rng = rng
                        return alg.integers(lo, hi, skip=sk) if lo else alg.integers(hi, skip=sk)
                    for script, res, nd in explore(app, [0.5], cap=5):
                        o.execs += 1
                        o.trans += nd
                        o.states.add(hash((lo, hi, ex, script)))
                        if res is Prune:
                            continue
                        if int(res) not in full or int(res) in ex:
                            bad('index', 'index %r drawn from %d..%d without %s' % (res, lo, hi - 1, ex), 'integers', 0, 0, 0, 0, 0, script)
                            return
                        seen.add(int(res))
                    if seen != full - set(ex):
                        bad('index', 'only %s can be drawn from %d..%d without %s' % (sorted(seen), lo, hi - 1, ex), 'integers', 0, 0, 0, 0, 0, ())
                        return
    o.outcomes.add(1)


def run_job(job):
    o = Out()
    kind, a, b, c, tier = job

    def bad(facet, det, *ctx):
        o.bad('%s/%s' % (a or kind, facet), '%s [operator %s, population %s, dimension %s, target %s, weight %s, rate %s, draws %s]' % ((det,) + tuple(ctx)), {'job': list(job), 'context': [str(x) for x in ctx]})
    try:
        if kind == 'de':
            de(o, a, b, c, tier, bad)
        elif kind == 'derun':
            derun(o, a, tier, bad)
        elif kind == 'multi':
            multi(o, tier, bad)
        elif kind == 'ga':
            ga(o, a, tier, bad)
        elif kind == 'pbest':
            pbest(o, b, c, tier, bad)
        elif kind == 'big':
            big(o, a, b, c, tier, bad)
        elif kind == 'bigreach':
            bigreach(o, a, b, c, tier, bad)
        elif kind == 'gabig':
            gabig(o, a, tier, bad)
        elif kind == 'salong':
            salong(o, a, c, tier, bad)
        elif kind == 'sa':
            sa(o, a, b, c, tier, bad)
        else:
            skip(o, tier, bad)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any('niapy' in t.filename for t in tb):
            bad('raise', 'raised %r' % e, a, b, c, '', '', '', '')
        else:
            raise
    o.samples.append(str(job))
    return o
