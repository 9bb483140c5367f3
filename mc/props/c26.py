"""C26: what algorithms remember and adapt besides the population is true and stays in its limits.

Everything is read from what callbacks are given (``**params`` and the attributes of the members).
A name that is not reported is not judged.
"""
import numpy as np
import env
import oracles
import plans
from env import MAX, MIN
from runprop import ASSUME, RunProp

env.Probe.want = True

PSO = ('ParticleSwarmAlgorithm', 'ParticleSwarmOptimization', 'CenterParticleSwarmOptimization', 'MutatedParticleSwarmOptimization',
       'MutatedCenterParticleSwarmOptimization', 'MutatedCenterUnifiedParticleSwarmOptimization', 'ComprehensiveLearningParticleSwarmOptimizer',
       'OppositionVelocityClampingParticleSwarmOptimization')
# every member is evaluated exactly once in an iteration
OWN = ('ParticleSwarmAlgorithm', 'ParticleSwarmOptimization')
MTS = ('MultipleTrajectorySearch', 'MultipleTrajectorySearchV1')
# arrays with one entry per member of the population
PER_MEMBER = {'personal_best', 'personal_best_fitness', 'v', 'velocities', 'pulse_rates', 'luciferin', 'ranges', 'age', 'bitstrings', 'pti', 'enable',
              'improve', 'grades', 'search_range', 'solutions', 'flag', 'pc', 'cost', 'health', 'induced_speed', 'foraging_speed'}


def close(a, b, rel=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return bool(np.all((np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b)) + 1e-300) | (a == b)))


def oneof(a, choices):
    """Element by element one of the choices."""
    a = np.asarray(a, dtype=float)
    ok = np.zeros(a.shape, dtype=bool)
    for c in choices:
        c = np.broadcast_to(np.asarray(c, dtype=float), a.shape)
        ok |= (np.abs(a - c) <= 1e-9 * np.maximum(np.abs(a), np.abs(c))) | (a == c)
    return bool(np.all(ok))


def inside(a, lo, hi, slack=0.0):
    a = np.asarray(a, dtype=float)
    return bool(np.all(a >= lo - slack) and np.all(a <= hi + slack))


class Judge:
    def __init__(self, r):
        self.r, self.out, self.seen = r, [], set()
        self.alg, self.task, self.prob = r.alg, r.task, r.prob
        self.name = type(r.alg).__name__
        self.n = 0
        self.known = {}
        self.fresh = 'pre' not in r.spec
        self.s = oracles.sign(r)

    def rep(self, k, m):
        if k not in self.seen:
            self.seen.add(k)
            self.out.append((k, m))

    def upto(self, n):
        while self.n < min(n, len(self.prob.xs)):
            self.known[self.prob.xs[self.n].tobytes()] = float(self.prob.fs[self.n]) * self.s
            self.n += 1

    def real(self, key, x, f, e):
        """x was evaluated before, to f, and is feasible."""
        x = np.asarray(x, dtype=float).reshape(-1)
        f = float(f)
        if not np.isfinite(f):
            return            # nothing known about it: the budget was used up
        v = self.known.get(np.ascontiguousarray(x).tobytes())
        if v is None:
            self.rep(key + '/unevaluated', '%s: %s %s with fitness %r has never been evaluated' % (e['k'], key, x, f))
        elif v != f:
            self.rep(key + '/untrue', '%s: %s %s carries fitness %r but is worth %r' % (e['k'], key, x, f, v))
        if x.shape == (self.prob.dimension,) and not (np.all(x >= self.prob.lower) and np.all(x <= self.prob.upper)):
            self.rep(key + '/bounds', '%s: %s %s is outside the bounds' % (e['k'], key, x))

    def get(self, k, default=None):
        return getattr(self.alg, k, default)


# ---------------------------------------------------------------- remembered solutions
def memory(j, e, prev):
    p, fit = e['par'], e['fit'].reshape(-1)
    if 'personal_best' in p and 'personal_best_fitness' in p:
        pb, pf = p['personal_best'], np.asarray(p['personal_best_fitness'], dtype=float)
        for x, f in zip(pb, pf):
            j.real('personal_best', x, f, e)
        if len(pf) == len(fit) and not j.name.startswith('Comprehensive') and np.any(pf > fit):
            j.rep('personal_best/worse', '%s: personal best %s, members %s' % (e['k'], pf, fit))
        if e['k'] == 'ai' and prev is not None and 'personal_best_fitness' in prev['par'] and j.name in OWN and len(pf) == len(fit):
            want = np.fmin(np.asarray(prev['par']['personal_best_fitness'], dtype=float), fit)
            if not np.array_equal(pf, want):
                j.rep('personal_best/min', 'personal bests were %s, members have %s, personal bests are %s' % (prev['par']['personal_best_fitness'], fit, pf))
        if prev is not None and 'personal_best_fitness' in prev['par']:
            q = np.asarray(prev['par']['personal_best_fitness'], dtype=float)
            if len(q) == len(pf) and np.any(pf > q):
                j.rep('personal_best/worsens', 'personal best went from %s to %s' % (q, pf))
    if 'alpha_fitness' in p:
        fs = []
        for k in ('alpha', 'beta', 'delta'):
            if k in p and k + '_fitness' in p:
                j.real(k, p[k], p[k + '_fitness'], e)
                fs.append(float(p[k + '_fitness']))
                if prev is not None and k + '_fitness' in prev['par'] and not p[k + '_fitness'] <= prev['par'][k + '_fitness']:
                    j.rep(k + '/worsens', '%s went from %r to %r' % (k, prev['par'][k + '_fitness'], p[k + '_fitness']))
        if fs != sorted(fs):
            j.rep('leaders/order', '%s: leaders have fitness %s' % (e['k'], fs))
        if fs and fs[0] != float(e['bf']):
            j.rep('leaders/best', '%s: the first leader has %r, the best is %r' % (e['k'], fs[0], e['bf']))
    if 'archive' in p and 'arc_ind_cnt' in p:
        n = int(p['arc_ind_cnt'])
        if n > len(p['archive']):
            j.rep('archive/size', '%d archived solutions in an archive of %d' % (n, len(p['archive'])))
        rate = j.get('extern_arc_rate')
        if rate is not None and n > max(1, round(rate * len(fit))) and prev is not None:
            j.rep('archive/rate', '%d archived solutions for %d members at rate %r' % (n, len(fit), rate))
        if e['k'] == 'ai' and prev is not None and 'archive' in prev['par'] and len(prev['par']['archive']) == len(p['archive']):
            old = {np.ascontiguousarray(x, dtype=float).tobytes() for x, _ in prev['pop']}
            for x, y in zip(p['archive'][:n], prev['par']['archive'][:n]):
                if not np.array_equal(x, y) and np.ascontiguousarray(x, dtype=float).tobytes() not in old:
                    j.rep('archive/parents', 'archived %s was not a member before the iteration' % x)
        for x in p['archive'][:n]:
            if np.ascontiguousarray(x, dtype=float).tobytes() not in j.known:
                j.rep('archive/unevaluated', '%s: archived %s has never been evaluated' % (e['k'], x))
    for i, (a, (x, f)) in enumerate(zip(e['att'], e['pop'])):
        if 'x_pb' in a and 'f_pb' in a:
            j.real('x_pb', a['x_pb'], a['f_pb'], e)
            if e['k'] == 'ai' and prev is not None and len(prev['att']) == len(e['att']) and 'f_pb' in prev['att'][i] and a['f_pb'] != min(prev['att'][i]['f_pb'], f):
                j.rep('x_pb/min', 'personal best of member %d was %r, its fitness is %r, its personal best is %r' % (i, prev['att'][i]['f_pb'], f, a['f_pb']))
            if a['f_pb'] > f:
                j.rep('x_pb/worse', '%s: member %d has personal best %r, fitness %r' % (e['k'], i, a['f_pb'], f))
            if prev is not None and i < len(prev['att']) and len(prev['att']) == len(e['att']) and a['f_pb'] > prev['att'][i].get('f_pb', np.inf):
                j.rep('x_pb/worsens', 'personal best of member %d went from %r to %r' % (i, prev['att'][i]['f_pb'], a['f_pb']))
        if 'x_past' in a and 'f_past' in a:
            j.real('x_past', a['x_past'], a['f_past'], e)
        if 'current_x' in a and 'current_f' in a:
            j.real('current_x', a['current_x'], a['current_f'], e)
            if f is not None and f > a['current_f']:
                j.rep('current_x/best', '%s: member %d remembers %r as its best, stands at %r' % (e['k'], i, f, a['current_f']))
        if 'previous_iter_best_f' in a and e['k'] == 'ai' and f is not None and a['previous_iter_best_f'] < f:
            j.rep('previous/best', 'member %d: best %r, remembered best %r' % (i, f, a['previous_iter_best_f']))


# ---------------------------------------------------------------- sizes
def align(j, e, prev):
    n = len(e['pop'])
    if e['fit'].ndim == 0 or j.name.startswith(('BareBones',)):
        return
    for k in PER_MEMBER & set(e['par']):
        v = e['par'][k]
        if np.ndim(v) and len(v) != n:
            j.rep('size/' + k, '%s: %d members, %d entries of %s' % (e['k'], n, len(v), k))


def carried(j, e, prev):
    """Between two iterations nothing changes."""
    if e['k'] != 'bi' or prev is None:
        return
    for k, v in e['par'].items():
        if k not in prev['par']:
            j.rep('carried/' + k, '%s was not reported after the last iteration' % k)
            continue
        w = prev['par'][k]
        try:
            same = np.array_equal(np.asarray(v, dtype=float), np.asarray(w, dtype=float), equal_nan=True)
        except (TypeError, ValueError):
            continue
        if not same:
            j.rep('carried/' + k, '%s was %s after the iteration and is %s before the next' % (k, w, v))


# ---------------------------------------------------------------- limits and schedules: fn(j, e, prev, p, q)
# p: what is reported now, q: what was reported at the start of this iteration (None for the start of the run)
def velocity(j, e, prev, p, q):
    lo, hi = j.get('min_velocity'), j.get('max_velocity')
    if j.name.startswith('Opposition') or lo is None or hi is None or 'v' not in p:
        return
    if np.all(np.asarray(lo) <= 0) and np.all(np.asarray(hi) >= 0) and not inside(p['v'], lo, hi):
        j.rep('velocity', '%s: velocities %s outside [%s, %s]' % (e['k'], p['v'], lo, hi))
    for k in ('min_velocity', 'max_velocity', 'w'):
        if k in p and j.get(k) is not None and not oneof(p[k], [j.get(k)]):
            j.rep(k, '%s: %s is %s, configured %s' % (e['k'], k, p[k], j.get(k)))


def clpso(j, e, prev, p, q):
    if 'flag' in p and j.get('m') is not None and not inside(p['flag'], 0, max(1, j.get('m'))):
        j.rep('flag', '%s: refreshing gaps %s, limit %s' % (e['k'], p['flag'], j.get('m')))
    if 'pc' in p and not inside(p['pc'], 0, 1):
        j.rep('pc', '%s' % p['pc'])


def cats(j, e, prev, p, q):
    m = j.get('max_velocity')
    if 'velocities' in p and m is not None and not inside(p['velocities'], -m, m):
        j.rep('velocity', '%s: velocities %s beyond %s' % (e['k'], p['velocities'], m))


def bat(j, e, prev, p, q):
    if 'loudness' in p:
        if q is None:
            if e['k'] == 'bi' and not close(p['loudness'], j.get('loudness')):
                j.rep('loudness/start', 'starts with %r instead of %r' % (p['loudness'], j.get('loudness')))
        elif not close(p['loudness'], q['loudness'] * j.get('alpha')):
            j.rep('loudness', 'loudness went from %r to %r, alpha is %r' % (q['loudness'], p['loudness'], j.get('alpha')))


def aba(j, e, prev, p, q):
    if 'loudness' in p:
        s, a = j.get('starting_loudness'), j.get('alpha')
        ch = [s] if q is None else [q['loudness'], np.asarray(q['loudness']) * a, s]
        if not oneof(p['loudness'], ch):
            j.rep('loudness', 'loudness went from %s to %s, start %r, alpha %r' % (None if q is None else q['loudness'], p['loudness'], s, a))


def saba(j, e, prev, p, q):
    for k, start, lo, hi in (('loudness', 'starting_loudness', 'min_loudness', 'max_loudness'), ('pulse_rates', 'pulse_rate', 'min_pulse_rate', 'max_pulse_rate')):
        if k not in p:
            continue
        v = np.asarray(p[k], dtype=float)
        if q is None:
            if not oneof(v, [j.get(start)]):
                j.rep(k + '/start', 'starts with %s instead of %r' % (v, j.get(start)))
            continue
        a, b = sorted((j.get(lo), j.get(hi)))
        if np.any((v != np.asarray(q[k])) & ~((v >= a - 1e-12) & (v <= b + 1e-12))):
            j.rep(k, '%s went from %s to %s, limits [%r, %r]' % (k, q[k], v, a, b))


def times(key, start, factor):
    def rule(j, e, prev, p, q):
        if key not in p:
            return
        if q is None:
            if not close(p[key], j.get(start)):
                j.rep(key + '/start', 'starts with %r instead of %r' % (p[key], j.get(start)))
        else:
            f = factor if isinstance(factor, float) else j.get(factor)
            if not close(p[key], np.asarray(q[key]) * f):
                j.rep(key, '%s went from %r to %r, factor %r' % (key, q[key], p[key], f))
    return rule


def annealing(j, e, prev, p, q):
    k = 'current_temperature'
    if k not in p:
        return
    if q is None:
        if not close(p[k], j.get('starting_temperature')):
            j.rep('temperature/start', 'starts with %r' % p[k])
        return
    m = getattr(j.get('cooling_method'), '__name__', '')
    d = {'cool_delta': lambda: j.get('delta_temperature'), 'cool_linear': lambda: j.get('starting_temperature') / j.task.max_evals}.get(m)
    if d is not None and not abs(q[k] - d() - p[k]) <= 1e-9 * max(1.0, abs(q[k])):
        j.rep('temperature', 'temperature went from %r to %r with %s' % (q[k], p[k], m))


def bees(j, e, prev, p, q):
    if 'trials' in p and j.get('limit') is not None:
        t = np.asarray(p['trials'])
        if not inside(t, 0, max(0, j.get('limit') - 1)):
            j.rep('trials', 'trials %s, limit %r' % (t, j.get('limit')))
        if q is not None and len(q['trials']) == len(t):
            fit, old = e['fit'].reshape(-1), prev['fit'].reshape(-1)
            same = [i for i in range(len(t)) if np.array_equal(e['pop'][i][0], prev['pop'][i][0])]
            if any(t[i] <= q['trials'][i] and j.get('limit') > 1 for i in same if np.isfinite(fit[i]) and fit[i] == old[i] and not (t[i] == 0 and q['trials'][i] + 1 >= j.get('limit'))):
                j.rep('trials/count', 'an unchanged food source had %s trials and has %s' % (q['trials'], t))


def forest(j, e, prev, p, q):
    if 'age' in p and j.get('lifetime') is not None and not inside(p['age'], 0, j.get('lifetime')):
        j.rep('age', 'ages %s, lifetime %r' % (p['age'], j.get('lifetime')))
    if 'age' in p and q is not None:
        a = np.asarray(p['age'])
        if j.get('area_limit') is not None and int(np.sum(a > 0)) > j.get('area_limit'):
            j.rep('area', '%d old trees, area limit %r' % (int(np.sum(a > 0)), j.get('area_limit')))
        fit = e['fit'].reshape(-1)
        if len(a) == len(fit) and np.isfinite(fit).all() and not np.any(a[fit == fit.min()] == 0):
            j.rep('age/best', 'the best tree is %s old' % a[fit == fit.min()])
        old = {np.ascontiguousarray(x, dtype=float).tobytes(): int(t) for (x, _), t in zip(prev['pop'], q['age'])} if len(q['age']) == len(prev['pop']) else {}
        if len(old) == len(prev['pop']) and len({np.ascontiguousarray(x, dtype=float).tobytes() for x, _ in e['pop']}) == len(e['pop']):
            for (x, _), t in zip(e['pop'], a):
                was = old.get(np.ascontiguousarray(x, dtype=float).tobytes())
                if was is not None and t not in (0, was + 1):
                    j.rep('age/step', 'a tree aged from %d to %d' % (was, t))


def aging(j, e, prev, p, q):
    hi = max(j.get('max_lifetime'), j.get('min_lifetime')) + 1
    for a in e['att']:
        if 'age' in a and not 0 <= a['age'] <= hi:
            j.rep('age', 'age %r, maximal lifetime %r' % (a['age'], j.get('max_lifetime')))


def selfadaptive(j, e, prev, p, q):
    lo, hi = sorted((j.get('f_lower'), j.get('f_upper')))
    start = getattr(j, 'start', None)
    if start is None:
        start = j.start = [(a.get('differential_weight'), a.get('crossover_probability')) for a in e['att']]
    fs, cs = {s[0] for s in start}, {s[1] for s in start}
    for a in e['att']:
        f, c = a.get('differential_weight'), a.get('crossover_probability')
        if f is not None and f not in fs and not lo - 1e-12 <= f <= hi + 1e-12:
            j.rep('weight', 'differential weight %r outside [%r, %r]' % (f, lo, hi))
        if c is not None and c not in cs and not 0 <= c <= 1:
            j.rep('probability', 'crossover probability %r' % c)


def history(j, e, prev, p, q):
    for a in e['att']:
        for k in ('differential_weight', 'crossover_probability'):
            if k in a and not 0 <= a[k] <= 1:
                j.rep(k, '%r' % a[k])
    if 'h_mem_f' in p and not inside(p['h_mem_f'], 0, 1, 1e-12):
        j.rep('h_mem_f', 'history of weights %s' % p['h_mem_f'])
    if 'h_mem_cr' in p and not inside(p['h_mem_cr'], -1, 1, 1e-12):
        j.rep('h_mem_cr', 'history of probabilities %s' % p['h_mem_cr'])
    h = j.get('hist_mem_size')
    if 'k' in p and h is not None:
        if not 0 <= p['k'] < h:
            j.rep('k', 'position %r in a history of %r' % (p['k'], h))
        if q is not None:
            moved = (p['k'] - q['k']) % h
            if h > 1 and moved not in (0, 1):
                j.rep('k/step', 'position went from %r to %r of %r' % (q['k'], p['k'], h))
            for m in ('h_mem_f', 'h_mem_cr'):
                if m in p and any(p[m][i] != q[m][i] for i in range(len(p[m])) if i != q['k']):
                    j.rep(m + '/place', 'history went from %s to %s at position %r' % (q[m], p[m], q['k']))
            better = any(np.isfinite(f) and f < g for f, g in zip(np.sort(e['fit'].reshape(-1)), np.sort(prev['fit'].reshape(-1)))) and len(e['fit']) == len(prev['fit'])
            if better and h > 1 and moved == 0:
                j.rep('k/success', 'members improved but the history was not advanced')
    if 'pbest_factor' in p:
        a, b = sorted((j.get('pbest_start'), j.get('pbest_end')))
        if not a - 1e-12 <= p['pbest_factor'] <= b + 1e-12:
            j.rep('pbest_factor', '%r outside [%r, %r]' % (p['pbest_factor'], a, b))


def school(j, e, prev, p, q):
    for a in e['att']:
        if 'weight' in a and j.get('min_w') is not None and not min(j.get('min_w'), j.get('w_scale') / 2) <= a['weight'] <= j.get('w_scale'):
            j.rep('weight', 'weight %r outside [%r, %r]' % (a['weight'], j.get('min_w'), j.get('w_scale')))
    for k in ('step_individual', 'step_volitive'):
        if k not in p:
            continue
        a, b = j.get(k + '_init'), j.get(k + '_final')
        if q is None:
            if not close(p[k], a * j.task.range):
                j.rep(k + '/start', 'starts with %s' % p[k])
        elif np.isfinite(j.task.max_iters) and j.task.max_iters > 0:
            if not np.allclose(p[k], a - (e['iters'] + (1 if e['k'] == 'ai' else 0)) * (a - b) / j.task.max_iters, rtol=1e-9, atol=1e-12):
                j.rep(k, 'step %s after %d of %r iterations, from %r to %r' % (p[k], e['iters'], j.task.max_iters, a, b))
        elif not close(p[k], a):
            j.rep(k, 'step %s without iteration limit' % p[k])


def krill(j, e, prev, p, q):
    for k in ('w_neighbor', 'w_foraging'):
        if k in p and not oneof(p[k], [j.get(k)]):
            j.rep(k, '%s is %s, configured %r' % (k, p[k], j.get(k)))


def clonal(j, e, prev, p, q):
    if 'bitstrings' not in p:
        return
    b = np.asarray(p['bitstrings'])
    n = j.get('bits_per_param')
    if not np.all((b == 0) | (b == 1)) or b.shape[1:] != (j.prob.dimension, n):
        j.rep('bits', 'bitstrings of shape %s with values %s' % (b.shape, np.unique(b)))
        return
    z = np.array([[int(''.join('1' if t else '0' for t in row), 2) for row in m] for m in b.astype(int)], dtype=float)
    want = j.prob.lower + (j.prob.upper - j.prob.lower) * z / (2.0 ** n - 1)
    got = np.array([x for x, _ in e['pop']])
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-12):
        j.rep('decode', '%s: members are not what their bitstrings say' % e['k'])


def monkeys(j, e, prev, p, q):
    kings = [a.get('monkey_king') for a in e['att']]
    if kings and all(k is not None for k in kings):
        n = int(j.get('population_rate') * len(kings))
        if sum(map(bool, kings)) != n:
            j.rep('kings', '%s: %d monkey kings among %d, rate %r' % (e['k'], sum(map(bool, kings)), len(kings), j.get('population_rate')))
    if q is not None:
        for k in ('k', 'c'):
            if k in p and k in q and p[k] != q[k]:
                j.rep(k, '%s went from %r to %r' % (k, q[k], p[k]))


def trajectories(j, e, prev, p, q):
    if 'search_range' in p and not inside(p['search_range'], 0, j.task.range / 2):
        j.rep('search_range', 'search ranges %s, half of the box is %s' % (p['search_range'], j.task.range / 2))
    if 'grades' in p and not inside(p['grades'], 0, np.inf):
        j.rep('grades', 'grades %s' % p['grades'])
    if 'enable' in p and q is not None:
        n = min(j.get('num_enabled'), len(p['enable']))
        if int(np.sum(p['enable'])) != n:
            j.rep('enable', '%d enabled, configured %r' % (int(np.sum(p['enable'])), j.get('num_enabled')))


def hybrid(j, e, prev, p, q):
    for a in e['att']:
        if a.get('search_range') is not None and not inside(a['search_range'], 0, np.maximum(j.task.range * 0.4, j.task.range / 4)):
            j.rep('search_range', 'search range %s in a box of %s' % (a['search_range'], j.task.range))


def caravan(j, e, prev, p, q):
    for a in e['att']:
        if a.get('supply') is not None and not inside(a['supply'], 0, j.get('supply_init'), 1e-9):
            j.rep('supply', 'supply %r, initially %r' % (a['supply'], j.get('supply_init')))
        if a.get('temperature') is not None and not inside(a['temperature'], *sorted((j.get('min_temperature'), j.get('max_temperature')))):
            j.rep('temperature', 'temperature %r' % a['temperature'])
        if 'steps' in a and not 0 <= a['steps'] <= e['iters'] + (e['k'] == 'ai'):
            j.rep('steps', '%r steps in %r iterations' % (a['steps'], e['iters']))


def glow(j, e, prev, p, q):
    if 'sensing_range' in p and not close(p['sensing_range'], np.linalg.norm(j.task.range)):
        j.rep('sensing_range', '%r' % p['sensing_range'])
    if 'ranges' in p and not inside(p['ranges'], 0, np.linalg.norm(j.task.range) * (1 + 1e-12)):
        j.rep('ranges', 'decision ranges %s' % p['ranges'])
    if 'luciferin' in p:
        if q is None:
            if not oneof(p['luciferin'], [j.get('l0')]):
                j.rep('luciferin/start', '%s' % p['luciferin'])
        elif e['k'] == 'ai':
            f = prev['fit'].reshape(-1)
            if np.all(np.isfinite(f)):
                v = (1 - j.get('rho')) * np.asarray(q['luciferin'], dtype=float) + j.get('gamma') * f
                if j.name.endswith('V1'):
                    v = np.fmax(0.0, v)
                if not np.allclose(p['luciferin'], v, rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(f)))):
                    j.rep('luciferin', 'luciferin went from %s to %s with fitness %s' % (q['luciferin'], p['luciferin'], f))


def sparks(j, e, prev, p, q):
    if 'amplitude' in p:
        if q is None:
            if not close(p['amplitude'], j.task.range):
                j.rep('amplitude/start', '%s' % p['amplitude'])
        else:
            better = float(e['fit'].reshape(-1)[0]) < float(prev['fit'].reshape(-1)[0])
            f = j.get('amplification_coefficient') if better else j.get('reduction_coefficient')
            if not close(p['amplitude'], np.asarray(q['amplitude']) * f):
                j.rep('amplitude', 'amplitude went from %s to %s, improved: %s' % (q['amplitude'], p['amplitude'], better))
    if 'amplitude_cf' in p:
        if q is None:
            if not close(p['amplitude_cf'], j.task.range):
                j.rep('amplitude/start', '%s' % p['amplitude_cf'])
        elif not any(close(p['amplitude_cf'], np.asarray(q['amplitude_cf']) * f) for f in (j.get('amplification_coeff'), j.get('reduction_coeff'))):
            j.rep('amplitude', 'amplitude went from %s to %s' % (q['amplitude_cf'], p['amplitude_cf']))


def mantis(j, e, prev, p, q):
    if 'pti' in p and not np.all(np.isin(p['pti'], (1, 2, 3))):
        j.rep('pti', '%s' % p['pti'])


def society(j, e, prev, p, q):
    if q is not None:
        for k in ('alpha', 'gamma', 'theta', 'rs'):
            if k in p and k in q and not np.array_equal(p[k], q[k]):
                j.rep(k, '%s went from %s to %s' % (k, q[k], p[k]))


def strategies(j, e, prev, p, q):
    if 'ki' in p:
        mu = 1 if e['fit'].ndim == 0 or len(e['fit'].reshape(-1)) == 1 else len(e['fit'].reshape(-1))
        if not 0 <= p['ki'] <= mu * j.get('k'):
            j.rep('ki', '%r successes within %r iterations' % (p['ki'], j.get('k')))
        if q is not None:
            it = e['iters'] + 1
            reset = it % j.get('k') == 0
            better = e['fit'].ndim == 0 and float(e['fit']) < float(prev['fit'])
            if e['fit'].ndim == 0 and np.isfinite(e['fit']) and p['ki'] != (0 if reset else q['ki']) + better:
                j.rep('ki/count', 'successes went from %r to %r in iteration %d, k is %r, improved: %s' % (q['ki'], p['ki'], it, j.get('k'), better))
    for a in e['att']:
        if 'rho' in a and not (np.isfinite(a['rho']) and a['rho'] >= 0):
            j.rep('rho', 'step %r' % a['rho'])
    if q is not None and e['k'] == 'ai' and e['fit'].ndim == 0 and 'ki' in q and len(e['att']) == 1 == len(prev['att']) and 'rho' in e['att'][0]:
        a, b = prev['att'][0]['rho'], e['att'][0]['rho']
        it = e['iters'] + 1
        if it % j.get('k'):
            want = a
        else:
            phi = q['ki'] / j.get('k')
            want = a if phi == 0.2 else (j.get('c_r') if phi < 0.2 else j.get('c_a')) * a if a > j.get('epsilon') else 1
        if not close(b, want):
            j.rep('rho/rule', 'step went from %r to %r in iteration %d with %r successes in %r' % (a, b, it, q['ki'], j.get('k')))


def pride(j, e, prev, p, q):
    if 'pride_size' in p and 'gender_distribution' in p and e['att'] and 'pride' in e['att'][0]:
        s = np.asarray(p['pride_size'])
        if int(np.sum(s)) != len(e['att']):
            j.rep('prides', '%s: sizes %s for %d lions' % (e['k'], s, len(e['att'])))


RULES = {}


def rule(fn, *names):
    for n in names:
        RULES.setdefault(n, []).append(fn)


rule(velocity, *PSO)
rule(clpso, 'ComprehensiveLearningParticleSwarmOptimizer')
rule(cats, 'CatSwarmOptimization')
rule(bat, 'BatAlgorithm', 'HybridBatAlgorithm')
rule(aba, 'AdaptiveBatAlgorithm')
rule(saba, 'SelfAdaptiveBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm')
rule(times('alpha', 'alpha', 'theta'), 'FireflyAlgorithm')
rule(times('ngh', 'ngh', 0.95), 'BeesAlgorithm')
rule(annealing, 'SimulatedAnnealing')
def bacteria(j, e, prev, p, q):
    n = j.get('n_chemotactic')
    if 'health' in p and n and q is not None and j.fresh and (e['iters'] + 1) % n == 0 and np.any(np.asarray(p['health']) != 0):
        j.rep('health', 'health %s after reproduction' % p['health'])


rule(bacteria, 'BacterialForagingOptimization')
rule(bees, 'ArtificialBeeColonyAlgorithm')
rule(forest, 'ForestOptimizationAlgorithm')
rule(aging, 'AgingNpDifferentialEvolution')
rule(selfadaptive, 'SelfAdaptiveDifferentialEvolution')
rule(history, 'SuccessHistoryAdaptiveDifferentialEvolution', 'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution')
rule(school, 'FishSchoolSearch')
rule(krill, 'KrillHerd')
rule(clonal, 'ClonalSelectionAlgorithm')
rule(monkeys, 'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'MonkeyKingEvolutionV3')
rule(trajectories, *MTS)
rule(hybrid, 'DifferentialEvolutionMTS', 'DifferentialEvolutionMTSv1', 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1',
     'MultiStrategyDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTSv1', 'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1')
rule(caravan, 'CamelAlgorithm')
rule(glow, 'GlowwormSwarmOptimization', 'GlowwormSwarmOptimizationV1', 'GlowwormSwarmOptimizationV2', 'GlowwormSwarmOptimizationV3')
rule(sparks, 'BareBonesFireworksAlgorithm', 'DynamicFireworksAlgorithm', 'DynamicFireworksAlgorithmGauss')
rule(mantis, 'MantisSearchAlgorithm')
rule(society, 'AnarchicSocietyOptimization')
rule(strategies, 'EvolutionStrategy1p1', 'EvolutionStrategyMp1', 'EvolutionStrategyMpL')
rule(pride, 'LionOptimizationAlgorithm')
MEMORY = set(PSO) | {'GreyWolfOptimizer', 'AnarchicSocietyOptimization', 'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'BacterialForagingOptimization',
                     'FlowerPollinationAlgorithm', 'GravitationalSearchAlgorithm', 'ParameterFreeBatAlgorithm'}


def keep(cfg):
    return cfg.name in RULES or cfg.name in MEMORY


def oracle(r):
    j = Judge(r)
    prev = start = None
    for e in r.probe.log:
        if e['k'] not in ('bi', 'ai'):
            continue
        j.upto(e['evals'])
        memory(j, e, prev)
        align(j, e, prev)
        carried(j, e, prev)
        for fn in RULES.get(j.name, ()):
            try:
                if e['k'] == 'ai':
                    fn(j, e, start, e['par'], start['par'])
                elif prev is None:
                    fn(j, e, None, e['par'], None)
            except (TypeError, KeyError, AttributeError):
                pass          # a name this rule needs is not reported or configured under it
        if e['k'] == 'bi':
            start = e
        prev = e
    return j.out


FAM = {
    'world': lambda c, t: plans.worlds(c, t, n=90 if t == 'quick' else 300, boxes=('sym', 'rect', 'neg', 'thin'), dims=plans.D(c, 1, 2, 4)),
    'max': lambda c, t: plans.worlds(c, t, n=90 if t == 'quick' else 300, boxes=('rect',), opts=(MAX,), lands=('slope', 'neg', 'chaos')),
    'repair': lambda c, t: plans.repairs(c, t, n=80 if t == 'quick' else 300, boxes=('rect', 'thin')),
    'sizes': plans.sizes,
    'long': lambda c, t: plans.worlds(c, t, n=400 if t == 'quick' else 1500, boxes=('rect',), dims=plans.D(c, 2, 3)),
    'iters': lambda c, t: plans.iters(c, t, upto=6 if t == 'quick' else 20),
    'script': lambda c, t: plans.scripts(c, t, upto=60 if t == 'quick' else 120, n=100 if t == 'quick' else 200, box='rect'),
    'stop': lambda c, t: plans.stops(c, t, lands=('chaos', 'slope'), upto=50),
    'waves': plans.waves,
    'seeds': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land=l, max_evals=150, seed=s) for l in ('bowl', 'chaos') for s in range(1, 30 if t == 'quick' else 150)],
}
DEV = {'dev': lambda c, t: [dict(dim=max(2, c.mindim), box='rect', land='chaos', max_evals=40 if t == 'quick' else 70)] + ([] if t == 'quick' else [dict(dim=max(2, c.mindim), box='sym', land='bowl', max_evals=70)])}

RunProp('C26', oracle, FAM, DEV, {'default': plans.default_specs}, keep=keep).export(
    globals(), {'quick': 'alternating blocks of improving and worse answers of every length to 7 at every phase, 8 landscapes x 4 boxes x dimensions 1,2,4, maximisation, 6 repairs, special answers at 60 evaluation indices, every budget to 50, 29 seeds, single random deviations within 40 evaluations',
                'thorough': 'runs to 1500 evaluations, special answers at 120 indices, 149 seeds, deviations within 70 evaluations on two worlds'},
    ASSUME + ['names that callbacks are not given are not judged'], 'a state is a prefix of the evaluation history of a run')
