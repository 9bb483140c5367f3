"""Every algorithm class of the library with small-population configurations that reach its branches."""
from niapy.algorithms import basic as B, modified as M, other as O
from niapy.algorithms.basic import de as DE, ga as GA, cro as CRO
from niapy.algorithms.other import aso as ASO


class Cfg:
    def __init__(self, name, cls, tag='', mindim=1, **kw):
        self.name, self.cls, self.kw = name, cls, kw
        self.mindim = mindim
        self.id = name + ('/' + tag if tag else '')

    def build(self, callbacks=None, seed=7, **over):
        kw = dict(self.kw)
        kw.update(over)
        return self.cls(callbacks=callbacks, seed=seed, **kw)

    def __repr__(self):
        return self.id


def _ns():
    ns = {}
    for mod in (B, M, O):
        for n in dir(mod):
            c = getattr(mod, n)
            if isinstance(c, type):
                ns.setdefault(n, c)
    return ns


NS = _ns()
TABLE = []


def add(name, tag='', **kw):
    if name in NS:
        TABLE.append(Cfg(name, NS[name], tag, **kw))


P = dict(population_size=5)
add('ArtificialBeeColonyAlgorithm', population_size=6)
add('ArtificialBeeColonyAlgorithm', 'limit1', population_size=6, limit=1)
add('BacterialForagingOptimization', population_size=4, n_chemotactic=2, n_swim=2, n_reproduction=2, n_elimination=2, prob_elimination=0.5)
add('BacterialForagingOptimization', 'noswarm', population_size=4, n_chemotactic=1, n_swim=1, n_reproduction=1, n_elimination=2, swarming=False)
add('BareBonesFireworksAlgorithm', num_sparks=4)
add('BatAlgorithm', **P)
add('BatAlgorithm', 'pulse', population_size=5, pulse_rate=0.5, loudness=0.6)
add('BeesAlgorithm', population_size=6, m=3, e=2, nep=2, nsp=1)
add('BeesAlgorithm', 'ngh', population_size=6, m=4, e=1, nep=3, nsp=2, ngh=3)
add('CamelAlgorithm', **P)
add('CamelAlgorithm', 'harsh', population_size=5, supply_init=2, endurance_init=2, visibility=0.9, death_rate=0.9)
add('CatSwarmOptimization', **P)
add('CatSwarmOptimization', 'seek', population_size=5, mixture_ratio=0.5, spc=False)
add('CatSwarmOptimization', 'seekspc', population_size=5, mixture_ratio=0.4, spc=True, cdc=0.5)
add('ClonalSelectionAlgorithm', population_size=5, clone_factor=0.4)
add('ClonalSelectionAlgorithm', 'rand3', population_size=6, clone_factor=0.3, num_rand=3, bits_per_param=4, mutation_factor=1.0)
add('CoralReefsOptimization', population_size=6, k=3)
add('CoralReefsOptimization', 'dep', population_size=6, k=1, phi=0.7, depredation_prob=0.9, asexual_reproduction_prob=0.3)
add('CoralReefsOptimization', 'brood', population_size=6, k=2, brooding=CRO.mutation_uniform if hasattr(CRO, 'mutation_uniform') else CRO.default_brooding)
add('CuckooSearch', **P)
add('CuckooSearch', 'pa', population_size=5, pa=0.6)
add('DifferentialEvolution', **P)
for s in ('cross_best1', 'cross_rand2', 'cross_best2', 'cross_curr2rand1', 'cross_curr2best1'):
    add('DifferentialEvolution', s[6:], population_size=6, strategy=getattr(DE, s))
add('MultiStrategyDifferentialEvolution', population_size=6)
add('DynNpDifferentialEvolution', population_size=8, p_max=3, rp=0)
add('DynNpDifferentialEvolution', 'rp2', population_size=6, p_max=5, rp=2)
add('DynNpMultiStrategyDifferentialEvolution', population_size=8, p_max=3, rp=1)
add('AgingNpDifferentialEvolution', **P)
add('AgingNpDifferentialEvolution', 'lin', population_size=5, age=DE.linear, max_lifetime=3, delta_np=0.8, omega=0.1)
add('AgingNpDifferentialEvolution', 'bilin', population_size=5, age=DE.bilinear, max_lifetime=2, delta_np=0.6)
add('AgingNpDifferentialEvolution', 'mass', population_size=6, max_lifetime=1, min_lifetime=0)
add('EvolutionStrategy1p1', k=2)
add('EvolutionStrategy1p1', 'mu3', mu=3, k=3)
add('EvolutionStrategyMp1', mu=4)
add('EvolutionStrategyMpL', mu=3, lam=5)
add('EvolutionStrategyMpL', 'k1', mu=3, lam=4, k=1)
add('EvolutionStrategyML', mu=3, lam=5)
add('FireflyAlgorithm', population_size=4)
add('ForestOptimizationAlgorithm', population_size=4, lifetime=2, area_limit=4, local_seeding_changes=1, global_seeding_changes=1, transfer_rate=0.5)
add('ForestOptimizationAlgorithm', 'wide', population_size=4, lifetime=1, area_limit=3, local_seeding_changes=2, global_seeding_changes=2, transfer_rate=0.9, mindim=2)
add('FlowerPollinationAlgorithm', **P)
add('FlowerPollinationAlgorithm', 'p3', population_size=4, p=0.3)
add('FishSchoolSearch', population_size=4)
add('FishSchoolSearch', 'w', population_size=4, w_scale=4.0, step_individual_init=0.6, step_volitive_init=0.5)
add('FireworksAlgorithm', population_size=3, num_sparks=5, num_gaussian=2)
add('EnhancedFireworksAlgorithm', population_size=3, num_sparks=5, num_gaussian=2)
add('DynamicFireworksAlgorithm', population_size=3, num_sparks=5, num_gaussian=2)
add('DynamicFireworksAlgorithmGauss', population_size=3, num_sparks=5, num_gaussian=2)
add('GeneticAlgorithm', **P)
add('GeneticAlgorithm', 'two', population_size=5, crossover=GA.two_point_crossover, crossover_rate=0.6)
add('GeneticAlgorithm', 'multi', population_size=5, crossover=GA.multi_point_crossover, crossover_rate=1)
add('GeneticAlgorithm', 'curos', population_size=6, crossover=GA.crossover_uros, crossover_rate=0.6)
for s in ('creep_mutation', 'mutation_uros'):
    add('GeneticAlgorithm', s, population_size=5, mutation=getattr(GA, s), mutation_rate=0.6)
if hasattr(GA, 'roulette_selection'):
    add('GeneticAlgorithm', 'roulette', population_size=5, selection=GA.roulette_selection)
add('GravitationalSearchAlgorithm', **P)
for v in ('', 'V1', 'V2', 'V3'):
    add('GlowwormSwarmOptimization' + v, population_size=4)
    add('GlowwormSwarmOptimization' + v, 'near', population_size=5, l0=2, nt=2, s=0.2)
add('GreyWolfOptimizer', **P)
add('HarrisHawksOptimization', population_size=4)
add('HarmonySearch', population_size=4)
add('HarmonySearch', 'rand', population_size=4, r_accept=0.3, r_pa=0.9)
add('HarmonySearchV1', population_size=4)
add('KrillHerd', population_size=4)
add('KrillHerd', 'gen', population_size=5, crossover_rate=0.8, mutation_rate=0.8, n_max=1.0, foraging_speed=1.0)
add('LionOptimizationAlgorithm', population_size=10, num_of_prides=2)
add('LionOptimizationAlgorithm', 'nomad', population_size=12, num_of_prides=2, nomad_ratio=0.4, mating_factor=0.8, roaming_factor=0.6)
add('MonarchButterflyOptimization', **P)
add('MonarchButterflyOptimization', 'p7', population_size=7, partition=0.3, period=2.0)
for v in ('V1', 'V2', 'V3'):
    add('MonkeyKingEvolution' + v, population_size=5, c=2)
    add('MonkeyKingEvolution' + v, 'r6', population_size=6, population_rate=0.6, c=1)
add('MothFlameOptimizer', **P)
add('MantisSearchAlgorithm', **P)
add('MantisSearchAlgorithm', 'noref', population_size=5, use_reflection=False, k_value=0.6)
add('MantisSearchAlgorithm', 'norm', population_size=5, normalize_space=True)
add('ParticleSwarmAlgorithm', **P)
add('ParticleSwarmOptimization', **P)
add('CenterParticleSwarmOptimization', **P)
add('MutatedParticleSwarmOptimization', population_size=4, num_mutations=3)
add('MutatedCenterParticleSwarmOptimization', population_size=4, num_mutations=3)
add('MutatedCenterUnifiedParticleSwarmOptimization', population_size=4, num_mutations=3)
add('ComprehensiveLearningParticleSwarmOptimizer', population_size=5)
add('ComprehensiveLearningParticleSwarmOptimizer', 'm1', population_size=5, m=1)
add('OppositionVelocityClampingParticleSwarmOptimization', population_size=4)
add('OppositionVelocityClampingParticleSwarmOptimization', 'p9', population_size=4, p0=0.9)
add('SineCosineAlgorithm', **P)
add('HybridBatAlgorithm', **P)
add('HybridBatAlgorithm', 'pulse', population_size=5, pulse_rate=0.5)
add('AdaptiveBatAlgorithm', **P)
add('SelfAdaptiveBatAlgorithm', **P)
add('HybridSelfAdaptiveBatAlgorithm', **P)
add('ParameterFreeBatAlgorithm')
for n in ('DifferentialEvolutionMTS', 'DifferentialEvolutionMTSv1', 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1',
          'MultiStrategyDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTSv1',
          'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1'):
    kw = dict(population_size=6, num_tests=1, num_searches=1, num_searches_best=1, num_enabled=2)
    if n.startswith('DynNp'):
        kw.update(p_max=3, rp=0)
    add(n, **kw)
add('SelfAdaptiveDifferentialEvolution', **P)
add('MultiStrategySelfAdaptiveDifferentialEvolution', population_size=6)
add('SuccessHistoryAdaptiveDifferentialEvolution', population_size=6, hist_mem_size=2)
add('LpsrSuccessHistoryAdaptiveDifferentialEvolution', population_size=8, hist_mem_size=2)
add('ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', population_size=8, hist_mem_size=2)
add('NelderMeadMethod', population_size=3)
add('NelderMeadMethod', 'std', population_size=4, alpha=1.0, gamma=2.0, rho=-0.5, sigma=0.5)
add('HillClimbAlgorithm')
add('HillClimbAlgorithm', 'd2', delta=0.1)
add('SimulatedAnnealing')
add('SimulatedAnnealing', 'cold', starting_temperature=2, delta_temperature=0.1)
add('MultipleTrajectorySearch', population_size=3, num_tests=1, num_searches=1, num_searches_best=1, num_enabled=2)
add('MultipleTrajectorySearch', 'n2', population_size=3, num_tests=2, num_searches=2, num_searches_best=2, num_enabled=1)
add('MultipleTrajectorySearchV1', population_size=3, num_tests=1, num_searches=1, num_enabled=2)
for c in ('elitism', 'sequential', 'crossover'):
    add('AnarchicSocietyOptimization', c if c != 'elitism' else '', population_size=5, combination=getattr(ASO, c))
add('RandomSearch')



def library_classes():
    """All concrete algorithm classes exported by the library (aliases removed)."""
    from niapy.algorithms import Algorithm
    out = {}
    for mod in (B, M, O):
        for n in getattr(mod, '__all__', dir(mod)):
            c = getattr(mod, n)
            if isinstance(c, type) and issubclass(c, Algorithm):
                out.setdefault(c, n)
    return out


def uncovered():
    known = {c.cls for c in TABLE}
    return [n for c, n in library_classes().items() if c not in known]


# every class with the parameters a user gets without asking for anything
DEFAULTS = [Cfg(n, c, 'default') for c, n in library_classes().items()]
BY_ID = {c.id: c for c in TABLE + DEFAULTS}


def get(cid):
    return BY_ID[cid]
