"""Names under which problems and algorithms are documented to be reachable (frozen, independent of the code)."""
PROBLEMS = {'ackley': 'Ackley',
 'alpine1': 'Alpine1',
 'alpine2': 'Alpine2',
 'bent_cigar': 'BentCigar',
 'chung_reynolds': 'ChungReynolds',
 'conditioned_elliptic': 'Elliptic',
 'cosine_mixture': 'CosineMixture',
 'csendes': 'Csendes',
 'discus': 'Discus',
 'dixon_price': 'DixonPrice',
 'elliptic': 'Elliptic',
 'expanded_griewank_plus_rosenbrock': 'ExpandedGriewankPlusRosenbrock',
 'expanded_schaffer': 'ExpandedSchaffer',
 'griewank': 'Griewank',
 'happy_cat': 'HappyCat',
 'hgbat': 'HGBat',
 'katsuura': 'Katsuura',
 'levy': 'Levy',
 'michalewicz': 'Michalewicz',
 'modified_schwefel': 'ModifiedSchwefel',
 'perm': 'Perm',
 'pinter': 'Pinter',
 'powell': 'Powell',
 'qing': 'Qing',
 'quintic': 'Quintic',
 'rastrigin': 'Rastrigin',
 'ridge': 'Ridge',
 'rosenbrock': 'Rosenbrock',
 'salomon': 'Salomon',
 'schaffer2': 'SchafferN2',
 'schaffer4': 'SchafferN4',
 'schumer_steiglitz': 'SchumerSteiglitz',
 'schwefel': 'Schwefel',
 'schwefel221': 'Schwefel221',
 'schwefel222': 'Schwefel222',
 'sphere': 'Sphere',
 'sphere2': 'Sphere2',
 'sphere3': 'Sphere3',
 'step': 'Step',
 'step2': 'Step2',
 'step3': 'Step3',
 'stepint': 'Stepint',
 'styblinski_tang': 'StyblinskiTang',
 'sum_squares': 'SumSquares',
 'trid': 'Trid',
 'weierstrass': 'Weierstrass',
 'whitley': 'Whitley',
 'zakharov': 'Zakharov'}
ALGORITHMS = ['AdaptiveBatAlgorithm', 'AgingNpDifferentialEvolution', 'AnarchicSocietyOptimization', 'ArtificialBeeColonyAlgorithm',
 'BacterialForagingOptimization', 'BareBonesFireworksAlgorithm', 'BatAlgorithm', 'BeesAlgorithm', 'CamelAlgorithm', 'CatSwarmOptimization',
 'CenterParticleSwarmOptimization', 'ClonalSelectionAlgorithm', 'ComprehensiveLearningParticleSwarmOptimizer', 'CoralReefsOptimization',
 'CuckooSearch', 'DifferentialEvolution', 'DifferentialEvolutionMTS', 'DifferentialEvolutionMTSv1', 'DynNpDifferentialEvolution',
 'DynNpDifferentialEvolutionMTS', 'DynNpDifferentialEvolutionMTSv1', 'DynNpMultiStrategyDifferentialEvolution',
 'DynNpMultiStrategyDifferentialEvolutionMTS', 'DynNpMultiStrategyDifferentialEvolutionMTSv1', 'DynamicFireworksAlgorithm',
 'DynamicFireworksAlgorithmGauss', 'EnhancedFireworksAlgorithm', 'EvolutionStrategy1p1', 'EvolutionStrategyML', 'EvolutionStrategyMp1',
 'EvolutionStrategyMpL', 'FireflyAlgorithm', 'FireworksAlgorithm', 'FishSchoolSearch', 'FlowerPollinationAlgorithm', 'ForestOptimizationAlgorithm',
 'GeneticAlgorithm', 'GlowwormSwarmOptimization', 'GlowwormSwarmOptimizationV1', 'GlowwormSwarmOptimizationV2', 'GlowwormSwarmOptimizationV3',
 'GravitationalSearchAlgorithm', 'GreyWolfOptimizer', 'HarmonySearch', 'HarmonySearchV1', 'HarrisHawksOptimization', 'HillClimbAlgorithm',
 'HybridBatAlgorithm', 'HybridSelfAdaptiveBatAlgorithm', 'ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution', 'KrillHerd',
 'LionOptimizationAlgorithm', 'LpsrSuccessHistoryAdaptiveDifferentialEvolution', 'MantisSearchAlgorithm', 'MonarchButterflyOptimization',
 'MonkeyKingEvolutionV1', 'MonkeyKingEvolutionV2', 'MonkeyKingEvolutionV3', 'MothFlameOptimizer', 'MultiStrategyDifferentialEvolution',
 'MultiStrategyDifferentialEvolutionMTS', 'MultiStrategyDifferentialEvolutionMTSv1', 'MultiStrategySelfAdaptiveDifferentialEvolution',
 'MultipleTrajectorySearch', 'MultipleTrajectorySearchV1', 'MutatedCenterParticleSwarmOptimization', 'MutatedCenterUnifiedParticleSwarmOptimization',
 'MutatedParticleSwarmOptimization', 'NelderMeadMethod', 'OppositionVelocityClampingParticleSwarmOptimization', 'ParameterFreeBatAlgorithm',
 'ParticleSwarmAlgorithm', 'ParticleSwarmOptimization', 'RandomSearch', 'SelfAdaptiveBatAlgorithm', 'SelfAdaptiveDifferentialEvolution',
 'SimulatedAnnealing', 'SineCosineAlgorithm', 'SuccessHistoryAdaptiveDifferentialEvolution']
