"""C27: the solutions a run evaluates are those of the published equations, for every answer of the generator."""
import hashlib
import itertools

import numpy as np
import niapy.algorithms.basic as basic
import niapy.algorithms.basic.de as dem
import niapy.algorithms.modified as modified
import niapy.algorithms.other as other
import stepmodel as M
from engine import Out
from env import Hang, MAX, MIN, MonTask, Obj, Probe, arm, box, disarm, landscape

ID, LEVEL = 'C27', 'model_checking'
BOUNDS = {'quick': '50 methods x two or three settings x dimensions 1,2,3 x 2 boxes x 4 landscapes x both directions x 9 uniform answers x 3 normal answers x 3 index answers x 2 initial populations, five or sixteen iterations; answers that change from iteration to iteration (all cycles of two of the nine, thirty cycles of three); and every single deviating uniform, normal, index or permutation answer within two iterations, to 1 or 2 other answers, as a set of traces',
          'thorough': 'dimensions to 5, 12 initial populations, 9 or 30 iterations, deviations to 4 other answers'}
ASSUMPTIONS = ['the random answers of one kind are equal but for one: the order in which a method asks for them is no part of the property',
               'evaluated solutions are compared with a relative tolerance of 1e-7']
RULE = 'a state is a prefix of the evaluated solutions of one run under one assignment of random answers'

# no round numbers: sums of answers and settings must not meet a threshold exactly
US = (1e-9, 0.0613, 0.2339, 0.4127, 0.4817, 0.5231, 0.6247, 0.8719, 1 - 1e-9)
ZS = (-1.7039, 0.3137, 2.0917)
KS = (0.0, 0.45, 0.99)


def sw(**k):
    return dict(dict(c1=1.7, c2=0.9), **k)


# name: (class, model, [settings], population sizes)
def de(how):
    return lambda s: (s['strategy'],) if how is None else how


W = dict(differential_weight=0.7, crossover_probability=0.45)
V = dict(differential_weight=1.1, crossover_probability=0.8)
MS = ('rand1', 'best1', 'curr2best1', 'rand2')
SH = dict(extern_arc_rate=2.6, pbest_factor=0.2, hist_mem_size=2)
SH2 = dict(extern_arc_rate=0.6, pbest_factor=0.5, hist_mem_size=3)
IL = dict(extern_arc_rate=1.5, pbest_start=0.6, pbest_end=0.2, hist_mem_size=3)
IL2 = dict(extern_arc_rate=0.5, pbest_start=0.3, pbest_end=0.7, hist_mem_size=2)
DES = {
    'DifferentialEvolution': (basic.DifferentialEvolution, lambda w, s: M.evolution(w, s, de(None)), [dict(W if i % 2 else V, strategy=h) for i, h in enumerate(sorted(M.DE))], 7),
    'DynNpDifferentialEvolution': (basic.DynNpDifferentialEvolution, lambda w, s: M.evolution(w, s, de(None), True), [dict(W, strategy='rand1', p_max=60, rp=2), dict(V, strategy='curr2best1', p_max=200, rp=2)], 10),
    'MultiStrategyDifferentialEvolution': (basic.MultiStrategyDifferentialEvolution, lambda w, s: M.evolution(w, s, lambda c: c.get('strategies', MS)), [dict(W), dict(V, strategies=('best2', 'curr2rand1'))], 7),
    'DynNpMultiStrategyDifferentialEvolution': (basic.DynNpMultiStrategyDifferentialEvolution, lambda w, s: M.evolution(w, s, lambda c: c.get('strategies', MS), True), [dict(W, p_max=60, rp=2)], 10),
    'AgingNpDifferentialEvolution': (basic.AgingNpDifferentialEvolution, M.ageing, [dict(W, age='proportional', min_lifetime=0, max_lifetime=4, delta_np=0.5, omega=0.4), dict(V, age='linear', min_lifetime=1, max_lifetime=5, delta_np=0.3, omega=0.7), dict(W, age='bilinear', min_lifetime=1, max_lifetime=6, delta_np=0.9, omega=0.9)], 6),
    'SuccessHistoryAdaptiveDifferentialEvolution': (modified.SuccessHistoryAdaptiveDifferentialEvolution, M.success_history, [SH, SH2], 6),
    'LpsrSuccessHistoryAdaptiveDifferentialEvolution': (modified.LpsrSuccessHistoryAdaptiveDifferentialEvolution, lambda w, s: M.success_history(w, s, True), [dict(SH, max_evals=100), dict(SH2, max_evals=100)], 10),
    'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution': (modified.ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution, lambda w, s: M.success_history(w, s, True, True), [dict(IL, max_evals=100), dict(IL2, max_evals=90)], 10),
}
HB = dict(loudness=0.9, pulse_rate=0.9, alpha=0.97, gamma=0.5, min_frequency=0.0, max_frequency=2.0)
HS = dict(starting_loudness=0.4, pulse_rate=0.3, min_frequency=0.3, max_frequency=1.2, min_loudness=0.7, max_loudness=1.1, min_pulse_rate=0.1, max_pulse_rate=0.8, tao_1=0.3, tao_2=0.5)
MORE = {
    'HybridBatAlgorithm': (modified.HybridBatAlgorithm, M.hybrid_bat, [dict(HB, **W, strategy='best1'), dict(dict(HB, loudness=0.3), **V, strategy='curr2rand1')], 6),
    'HybridSelfAdaptiveBatAlgorithm': (modified.HybridSelfAdaptiveBatAlgorithm, lambda w, s: M.hybrid_bat(w, s, True), [dict(HS, **W, strategy='best1'), dict(dict(HS, min_loudness=0.9, max_loudness=1.0), **V, strategy='rand1')], 6),
    'MonarchButterflyOptimization': (basic.MonarchButterflyOptimization, M.butterflies, [dict(partition=5 / 12, period=1.2), dict(partition=0.6, period=0.9)], 6),
    'BeesAlgorithm': (basic.BeesAlgorithm, M.dances, [dict(m=4, e=2, ngh=1, nep=3, nsp=2), dict(m=3, e=3, ngh=0.3, nep=2, nsp=5)], 6),
    'ClonalSelectionAlgorithm': (basic.ClonalSelectionAlgorithm, M.antibodies, [dict(clone_factor=0.4, mutation_factor=10.0, num_rand=1, bits_per_param=6), dict(clone_factor=0.7, mutation_factor=0.2, num_rand=2, bits_per_param=9), dict(clone_factor=0.4, mutation_factor=1.0, num_rand=0, bits_per_param=8)], 5),
    'CatSwarmOptimization': (basic.CatSwarmOptimization, M.cats, [dict(mixture_ratio=0.3, c1=2.05, smp=3, spc=True, cdc=0.85, srd=0.2, max_velocity=1.9), dict(mixture_ratio=0.6, c1=1.1, smp=2, spc=False, cdc=0.5, srd=0.4, max_velocity=0.7)], 5),
    'FireworksAlgorithm': (basic.FireworksAlgorithm, M.fireworks, [dict(num_sparks=9, a=0.15, b=0.5, max_amplitude=2, num_gaussian=2), dict(num_sparks=7, a=0.04, b=0.8, max_amplitude=40, num_gaussian=1)], 3),
    'EnhancedFireworksAlgorithm': (basic.EnhancedFireworksAlgorithm, lambda w, s: M.fireworks(w, s, True), [dict(num_sparks=9, a=0.15, b=0.5, max_amplitude=2, num_gaussian=2, amplitude_init=0.2, amplitude_final=0.01), dict(num_sparks=7, a=0.04, b=0.8, max_amplitude=1, num_gaussian=1, amplitude_init=0.9, amplitude_final=0.2, max_evals=200)], 3),
    'SelfAdaptiveDifferentialEvolution': (modified.SelfAdaptiveDifferentialEvolution, M.jde, [dict(f_lower=0.1, f_upper=0.9, tao1=0.5, tao2=0.3, strategy='rand1'), dict(f_lower=0.0, f_upper=1.0, tao1=0.4, tao2=0.9, strategy='best2')], 7),
    'MantisSearchAlgorithm': (basic.MantisSearchAlgorithm, M.mantises, [dict(k_value=0.3, use_reflection=True, normalize_space=False), dict(k_value=0.9, use_reflection=False, normalize_space=False), dict(k_value=0.3, use_reflection=True, normalize_space=True)], 5),
}
SLOW = ('EvolutionStrategy1p1', 'EvolutionStrategyMp1', 'EvolutionStrategyMpL', 'SimulatedAnnealing', 'HarmonySearch')    # few evaluations per iteration
LIVE = ('CatSwarmOptimization', 'MantisSearchAlgorithm')    # draw once more after the initial solutions
METHODS = {
    'ParticleSwarmAlgorithm': (basic.ParticleSwarmAlgorithm, M.swarm, [sw(w=0.6, min_velocity=-0.4, max_velocity=0.4), dict(c1=2.0, c2=2.0, w=0.7, min_velocity=-1.5, max_velocity=1.5), sw(w=0.9, min_velocity=-0.1, max_velocity=0.7)], 4),
    'ParticleSwarmOptimization': (basic.ParticleSwarmOptimization, M.swarm, [sw(), dict(c1=0.3, c2=1.1)], 4),
    'CenterParticleSwarmOptimization': (basic.CenterParticleSwarmOptimization, lambda w, s: M.swarm(w, s, center=True), [sw(w=0.7), sw(w=0.4)], 4),
    'MutatedParticleSwarmOptimization': (basic.MutatedParticleSwarmOptimization, lambda w, s: M.swarm(w, s, mutations=s['num_mutations']), [sw(w=0.7, num_mutations=3), sw(w=0.4, num_mutations=1)], 4),
    'MutatedCenterParticleSwarmOptimization': (basic.MutatedCenterParticleSwarmOptimization, lambda w, s: M.swarm(w, s, center=True, mutations=s['num_mutations']), [sw(w=0.7, num_mutations=3)], 4),
    'MutatedCenterUnifiedParticleSwarmOptimization': (basic.MutatedCenterUnifiedParticleSwarmOptimization, lambda w, s: M.swarm(w, s, center=True, mutations=s['num_mutations'], unified=True), [sw(w=0.7, num_mutations=2)], 4),
    'BatAlgorithm': (basic.BatAlgorithm, M.bat, [dict(loudness=1.0, pulse_rate=1.0, alpha=0.97, gamma=0.1, min_frequency=0.0, max_frequency=2.0), dict(loudness=0.5, pulse_rate=0.9, alpha=0.8, gamma=0.7, min_frequency=0.2, max_frequency=1.1)], 4),
    'GreyWolfOptimizer': (basic.GreyWolfOptimizer, M.wolves, [dict(), dict()], 5),
    'SineCosineAlgorithm': (basic.SineCosineAlgorithm, M.sine, [dict(a=3, r_min=0, r_max=2), dict(a=1.3, r_min=0.4, r_max=1.1)], 4),
    'FlowerPollinationAlgorithm': (basic.FlowerPollinationAlgorithm, M.flowers, [dict(p=0.8), dict(p=0.35)], 5),
    'FireflyAlgorithm': (basic.FireflyAlgorithm, M.fireflies, [dict(alpha=1, beta0=1, gamma=0.01, theta=0.97), dict(alpha=0.3, beta0=0.7, gamma=0.4, theta=0.8)], 4),
    'CuckooSearch': (basic.CuckooSearch, M.cuckoos, [dict(pa=0.25), dict(pa=0.7)], 4),
    'GravitationalSearchAlgorithm': (basic.GravitationalSearchAlgorithm, M.masses, [dict(g0=2.467, epsilon=1e-17), dict(g0=0.4, epsilon=0.05)], 4),
    'GlowwormSwarmOptimization': (basic.GlowwormSwarmOptimization, M.glowworms, [dict(l0=5, nt=5, rho=0.4, gamma=0.6, beta=0.08, s=0.03), dict(l0=2, nt=2, rho=0.7, gamma=0.3, beta=0.4, s=0.2)], 5),
    'GlowwormSwarmOptimizationV1': (basic.GlowwormSwarmOptimizationV1, lambda w, s: M.glowworms(w, s, 1), [dict(l0=5, nt=5, rho=0.4, gamma=0.6, beta=0.08, s=0.03), dict(l0=2, nt=2, rho=0.7, gamma=0.3, beta=4.0, s=0.2), dict(l0=3, nt=2, rho=0.5, gamma=0.6, beta=40.0, s=0.4)], 5),
    'GlowwormSwarmOptimizationV2': (basic.GlowwormSwarmOptimizationV2, lambda w, s: M.glowworms(w, s, 2), [dict(l0=5, nt=5, rho=0.4, gamma=0.6, beta=0.08, s=0.03, alpha=0.2), dict(l0=2, nt=2, rho=0.7, gamma=0.3, beta=0.9, s=0.2, alpha=0.1)], 5),
    'ArtificialBeeColonyAlgorithm': (basic.ArtificialBeeColonyAlgorithm, M.bees, [dict(limit=100), dict(limit=2)], 8),
    'MonkeyKingEvolutionV1': (basic.MonkeyKingEvolutionV1, M.monkeys, [dict(fluctuation_coeff=0.7, population_rate=0.3, c=3, fc=0.5), dict(fluctuation_coeff=0.3, population_rate=0.5, c=2, fc=0.9)], 4),
    'MonkeyKingEvolutionV2': (basic.MonkeyKingEvolutionV2, lambda w, s: M.monkeys(w, s, 2), [dict(fluctuation_coeff=0.7, population_rate=0.3, c=3, fc=0.5), dict(fluctuation_coeff=0.3, population_rate=0.5, c=2, fc=0.9)], 4),
    'AdaptiveBatAlgorithm': (modified.AdaptiveBatAlgorithm, M.adaptive_bat, [dict(starting_loudness=0.5, epsilon=0.001, alpha=1.0, pulse_rate=0.5, min_frequency=0.0, max_frequency=2.0), dict(starting_loudness=0.8, epsilon=0.2, alpha=0.7, pulse_rate=0.3, min_frequency=0.3, max_frequency=1.2)], 4),
    'SelfAdaptiveBatAlgorithm': (modified.SelfAdaptiveBatAlgorithm, lambda w, s: M.adaptive_bat(w, s, True), [dict(starting_loudness=0.5, epsilon=0.001, pulse_rate=0.5, min_frequency=0.0, max_frequency=2.0, min_loudness=0.9, max_loudness=1.0, min_pulse_rate=0.001, max_pulse_rate=0.1, tao_1=0.1, tao_2=0.1), dict(starting_loudness=0.4, epsilon=0.2, pulse_rate=0.3, min_frequency=0.3, max_frequency=1.2, min_loudness=0.7, max_loudness=1.1, min_pulse_rate=0.1, max_pulse_rate=0.8, tao_1=0.3, tao_2=0.5)], 4),
    'ParameterFreeBatAlgorithm': (modified.ParameterFreeBatAlgorithm, M.plain_bat, [dict()], None),
    'HarmonySearch': (basic.HarmonySearch, M.harmonies, [dict(r_accept=0.7, r_pa=0.35, b_range=1.42), dict(r_accept=0.5, r_pa=0.2, b_range=0.3)], 4),
    'EvolutionStrategy1p1': (basic.EvolutionStrategy1p1, M.one_parent, [dict(mu=1, k=2, c_a=1.1, c_r=0.5, epsilon=1e-20), dict(mu=3, k=4, c_a=1.3, c_r=0.6, epsilon=0.7), dict(mu=2, k=5, c_a=1.5, c_r=0.4, epsilon=1e-20)], None),
    'EvolutionStrategyMp1': (basic.EvolutionStrategyMp1, M.one_parent, [dict(mu=5, k=2, c_a=1.2, c_r=0.4, epsilon=1e-20)], None),
    'EvolutionStrategyMpL': (basic.EvolutionStrategyMpL, M.parents, [dict(mu=3, lam=4, k=2, c_a=1.1, c_r=0.5), dict(mu=4, lam=7, k=3, c_a=1.4, c_r=0.7), dict(mu=2, lam=3, k=5, c_a=1.5, c_r=0.6)], None),
    'EvolutionStrategyML': (basic.EvolutionStrategyML, lambda w, s: M.parents(w, s, False), [dict(mu=3, lam=4), dict(mu=2, lam=6)], None),
    'CamelAlgorithm': (basic.CamelAlgorithm, M.camels, [dict(burden_factor=0.25, death_rate=0.5, visibility=0.5, supply_init=10, endurance_init=10, min_temperature=-10, max_temperature=10), dict(burden_factor=0.6, death_rate=0.9, visibility=0.3, supply_init=3, endurance_init=5, min_temperature=-2, max_temperature=6)], 4),
    'NelderMeadMethod': (other.NelderMeadMethod, M.simplex, [dict(alpha=0.1, gamma=0.3, rho=-0.2, sigma=-0.2), dict(alpha=1.0, gamma=2.0, rho=-0.5, sigma=0.5), dict(alpha=1.3, gamma=1.1, rho=0.4, sigma=0.3)], 4),
    'SimulatedAnnealing': (other.SimulatedAnnealing, M.annealing, [dict(delta=0.5, starting_temperature=2000, delta_temperature=0.8), dict(delta=1.2, starting_temperature=1.0, delta_temperature=0.3), dict(delta=0.9, starting_temperature=2.0, linear=True)], None),
    'HillClimbAlgorithm': (other.HillClimbAlgorithm, M.climbing, [dict(delta=0.5), dict(delta=0.1)], None),
    'BareBonesFireworksAlgorithm': (basic.BareBonesFireworksAlgorithm, M.sparks, [dict(num_sparks=4, amplification_coefficient=1.5, reduction_coefficient=0.5), dict(num_sparks=3, amplification_coefficient=1.2, reduction_coefficient=0.9)], None),
}
for _n, _c in list(DES.items()) + list(MORE.items()):
    METHODS[_n] = _c
BUDGET = 1200


class Fixed(np.random.Generator):
    """The initial solutions come from a stream; afterwards every scalar answer comes from the given draws."""

    def __new__(cls, seed, draws):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, draws):
        super().__init__(np.random.PCG64(seed))
        self.d, self.live = draws, False

    def many(self, size, one):
        if size is None:
            return one()
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(v) for v in size)
        return np.array([one() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    def random(self, size=None, dtype=np.float64, out=None):
        return self.many(size, self.d.u) if self.live else super().random(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if not self.live:
            return super().uniform(low, high, size)
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        if size is None and lo.ndim == 0 and hi.ndim == 0:
            return float(lo + self.d.u() * (hi - lo))
        return lo + self.many(np.broadcast_shapes(lo.shape, hi.shape) if size is None else size, self.d.u) * (hi - lo)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.many(size, self.d.z)

    def normal(self, loc=0.0, scale=1.0, size=None):
        lo, sc = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        if size is None and lo.ndim == 0 and sc.ndim == 0:
            return float(lo + self.d.z() * sc)
        return lo + self.many(np.broadcast_shapes(lo.shape, sc.shape) if size is None else size, self.d.z) * sc

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        n = int(hi) - int(lo) + bool(endpoint)
        if size is None:
            return np.int64(int(lo) + self.d.index(n))
        return self.many(size, lambda: int(lo) + self.d.index(n)).astype(np.int64)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.ndim(a) == 0 else len(a)
        k = 1 if size is None else int(np.prod(size))
        o = self.d.order(n, out=() if p is None else [i for i in range(n) if p[i] <= 0], weights=None if p is None else [float(v) for v in p])
        if not replace and k > len(o):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        got = np.array([o[i % len(o)] for i in range(k)], dtype=np.int64)
        if np.ndim(a):
            got = np.asarray(a)[got]
        return got[0] if size is None else got.reshape((size,) if np.ndim(size) == 0 else size)

    def permutation(self, x, axis=0):
        n = int(x) if np.ndim(x) == 0 else len(x)
        o = np.array(self.d.order(n), dtype=np.int64)
        return o if np.ndim(x) == 0 else np.asarray(x)[o]

    def shuffle(self, x, axis=0):
        c = [x[i] for i in self.d.order(len(x))]
        for i, v in enumerate(c):
            x[i] = v


def settings(s, n):
    kw = {k: v for k, v in s.items() if k not in ('linear', 'max_evals')}
    if 'strategy' in s:
        kw['strategy'] = getattr(dem, 'cross_' + s['strategy'])
    if 'strategies' in s:
        kw['strategies'] = tuple(getattr(dem, 'cross_' + h) for h in s['strategies'])
    if 'age' in s:
        kw['age'] = getattr(dem, s['age'])
    if s.get('linear'):
        kw['cooling_method'] = other.sa.cool_linear
    if n is not None:
        kw['population_size'] = n
    return kw


def real(name, s, D, bx, land, opt, draws, seed, T, setter=False):
    """Evaluated solutions of the real code; (number of initial ones, solutions) or a failure."""
    cls, _, _, n = METHODS[name]
    lo, hi = box(bx, D)
    fn = landscape(land, D, lo, hi)
    sg = opt.value
    def value(x):
        if name in LIVE and len(prob.xs) + 1 >= n:
            rng.live = True
        return sg * fn(x)
    prob = Obj(D, lo, hi, value)
    task = MonTask(problem=prob, optimization_type=opt, max_iters=T, max_evals=s.get('max_evals', BUDGET))
    probe = Probe(task, deep=False)
    if setter:
        alg = cls(callbacks=[probe])
        alg.set_parameters(**settings(s, n))
    else:
        alg = cls(callbacks=[probe], **settings(s, n))
    rng = alg.rng = Fixed(seed, draws)
    first = []

    def hook(kind, idx):
        if kind == 'bi':
            draws.turn += 1
            if not first:
                first.append(task.evals)
                rng.live = True
    probe.hook = hook
    arm()
    try:
        alg.run(task)
    finally:
        disarm()
    if alg.exception is not None:       # a run in a worker process keeps its exception
        raise alg.exception
    if task.evals >= s.get('max_evals', BUDGET):
        raise M.Stop()
    return (first[0] if first else len(prob.xs)), prob.xs


def model(name, s, D, bx, land, draws, init, T):
    lo, hi = box(bx, D)
    fn = landscape(land, D, lo, hi)
    w = M.World(np.asarray(lo, dtype=float), np.asarray(hi, dtype=float), fn, init, draws, T, s.get('max_evals', BUDGET))
    try:
        METHODS[name][1](w, s)
        if len(w.xs) >= w.E:
            raise M.Stop()
    except M.Stop as e:
        e.xs = w.xs
        raise
    return w.xs


def differ(a, b, lo, hi):
    """First index at which two traces differ, or None."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or not np.all(np.abs(x - y) <= 1e-7 * (np.abs(y) + (hi - lo))):
            return i
    return None if len(a) == len(b) else min(len(a), len(b))


def close(xs, fn):
    """Two different solutions are equally good up to rounding: which one wins is not decided by the equations."""
    fs = np.array([fn(x) for x in xs])
    o = np.argsort(fs, kind='stable')
    for a, b in zip(o[:-1], o[1:]):
        if abs(fs[a] - fs[b]) <= 1e-9 * (1e-3 + abs(fs[a])) and xs[a].tobytes() != xs[b].tobytes():
            return True
    return False


def same(xs, ys, lo, hi, fn):
    """The traces agree, up to the first place where rounding decides."""
    i = differ(xs, ys, lo, hi)
    return i is None or close(xs[:i], fn) or close(ys[:i], fn)


def lands(name):
    return ('bowl', 'valley') if name == 'ArtificialBeeColonyAlgorithm' else ('bowl', 'slope', 'neg', 'valley')


def jobs(tier):
    dims = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    out = []
    for name, (_, _, ss, _) in METHODS.items():
        for si in range(len(ss)):
            for D in dims:
                out.append(('all', name, si, D, tier))
                out.append(('turn', name, si, D, tier))
            for D in (1, 2) if tier == 'quick' else (1, 2, 3):
                out.append(('one', name, si, D, tier))
    return out


def run_job(job):
    o = Out()
    kind, name, si, D, tier = job
    {'all': every, 'one': single, 'turn': turns}[kind](o, name, si, D, tier)
    o.samples.append(str(job))
    return o


def note(o, xs, salt):
    h = hash(salt)
    for x in xs:
        h = hash((h, x.tobytes()))
        o.states.add(h)
    o.outcomes.add(h)
    o.execs += 1
    o.trans += len(xs)


def failed(o, name, e, ctx):
    o.bad('%s/raise' % name, 'raised %r %s' % (e, ctx), {'context': str(ctx)})


def compare(o, name, si, D, bx, land, opt, u, z, k, seed, T):
    """One run against the model; which kinds of answers it asked for."""
    s = METHODS[name][2][si]
    ctx = '[%s %s dimension %d box %s landscape %s %s uniform %s normal %s index %s seed %d]' % (name, s, D, bx, land, opt.name, u, z, k, seed)
    d, m = M.Draws(u, z, k), M.Draws(u, z, k)
    try:
        n, xs = real(name, s, D, bx, land, opt, d, seed, T, setter=seed % 2 == 0)
    except (M.Stop, Hang, RecursionError):
        o.note('assignments without an end')
        return True, True, True
    except Exception as e:
        failed(o, name, e, ctx)
        return True, True, True
    lo, hi = box(bx, D)
    f = landscape(land, D, lo, hi)
    try:
        ys = model(name, s, D, bx, land, m, xs[:n], T)
    except M.Stop as e:
        if close(e.xs, f) or close(xs, f):
            o.note('undecided by rounding')
            return True, True, True
        o.bad('%s/ends' % name, 'the run ended, the model does not %s' % ctx, {'context': ctx})
        return True, True, True
    note(o, xs, (name, si, D, bx, land))
    i = differ(xs, ys, lo, hi)
    if i is not None and (close(ys[:i], f) or close(xs[:i], f)):
        o.note('undecided by rounding')
    elif i is not None:
        o.bad('%s/move' % name, 'evaluation %d of %d is at %s, the equations give %s of %d %s' % (
            i + 1, len(xs), xs[i] if i < len(xs) else None, ys[i] if i < len(ys) else None, len(ys), ctx), {'context': ctx})
    return bool(d.nu), bool(d.nz), bool(d.np or d.ni)


def length(name, tier):
    return (16 if name in SLOW else 5) if tier == 'quick' else (30 if name in SLOW else 9)


def every(o, name, si, D, tier):
    T = length(name, tier)
    for seed in range(1, 3 if tier == 'quick' else 13):
        for bx in ('sym', 'rect'):
            for land in lands(name):
                opt = MAX if (seed + len(land)) % 2 else MIN
                for u in US:
                    for z in ZS:
                        for k in KS:
                            nu, nz, ni = compare(o, name, si, D, bx, land, opt, u, z, k, seed, T)
                            if not ni:
                                break
                        if not nz:
                            break
                    if not nu:
                        break


def turns(o, name, si, D, tier):
    """Answers that change from iteration to iteration: all cycles of two, and cycles of three."""
    T = length(name, tier) + 4
    two = [(a, b) for a in US for b in US if a != b]
    three = [(a, b, c) for a, b, c in itertools.permutations(US[1:8], 3) if tier != 'quick' or (US.index(a) + 2 * US.index(b) + 3 * US.index(c)) % 7 == 0]
    zs = (ZS[1::-1], ZS[::-1])
    ks = (0.45, (0.0, 0.99))
    for seed in range(3, 4 if tier == 'quick' else 7):
        for j, u in enumerate(two + three):
            land = lands(name)[j % len(lands(name))]
            for z in zs:
                for k in ks:
                    nu, nz, ni = compare(o, name, si, D, ('sym', 'rect')[j % 2], land, MAX if j % 3 == 1 else MIN, u, z, k, seed, T)
                    if not ni:
                        break
                if not nz:
                    break
            if not nu:
                break


def single(o, name, si, D, tier):
    """Both sides under every single deviating answer: the same set of traces, whatever the order of asking."""
    s = METHODS[name][2][si]
    T = 2
    for seed in range(1, 2 if tier == 'quick' else 4):
        bx, lnd = 'rect', ('bowl', 'slope')[seed % 2] if name != 'ArtificialBeeColonyAlgorithm' else 'bowl'
        lo, hi = box(bx, D)
        for u, z in ((US[3], ZS[1]), (US[7], ZS[0])):
            for kind, alts in (('u', (0.0641, 0.7093) if tier == 'quick' else (0.0213, 0.3079, 0.7093, 0.9719)), ('z', (1.4159,) if tier == 'quick' else (-0.4271, 1.4159)),
                               ('i', (0.1, 0.8)), ('p', (1,) if tier == 'quick' else (1, 2))):
                for alt in alts:
                    got, want, init = [], [], None
                    ctx = '[%s %s dimension %d landscape %s uniform %g normal %g, one %s answer %g, seed %d]' % (name, s, D, lnd, u, z, kind, alt, seed)
                    try:
                        for side in (got, want):
                            i = 0
                            while True:
                                d = M.Draws(u, z, 0.45, dev=(kind, i, alt))
                                try:
                                    if side is got:
                                        n, xs = real(name, s, D, bx, lnd, MIN, d, seed, T)
                                        init = xs[:n]
                                        note(o, xs, (name, si, D, kind, alt))
                                    else:
                                        if init is None:
                                            raise M.Stop()
                                        xs = model(name, s, D, bx, lnd, d, init, T)
                                    side.append(xs)        # the last one is the run without a deviating answer
                                    if i >= d.count(kind):
                                        break
                                except (M.Stop, Hang, RecursionError):
                                    if i >= d.count(kind) or i > 400:
                                        break
                                i += 1
                    except Exception as e:
                        failed(o, name, e, ctx)
                        continue
                    f = landscape(lnd, D, lo, hi)
                    for ours, theirs, facet, text in ((got, want, 'one', 'a trace of the run is none of the equations'), (want, got, 'lost', 'a trace of the equations is none of the runs')):
                        for j, xs in enumerate(ours):
                            if theirs and not any(same(xs, ys, lo, hi, f) for ys in theirs[j:j + 1] + theirs):
                                o.bad('%s/%s' % (name, facet), '%s: %s %s' % (text, [x.tolist() for x in xs[n:n + 6]], ctx), {'context': ctx})
                                break
