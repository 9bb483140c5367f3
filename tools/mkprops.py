"""Writes /verif/properties.jsonl (kept as a script so that wording stays in one place)."""
import json, os
A = 'src/niapy/algorithms/'
ALG = [A + 'algorithm.py', A + 'basic/', A + 'modified/', A + 'other/']
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


TASK_STATE = [('evals', 'objective evaluations spent'), ('iters', 'iterations finished'), ('x_f', 'best objective value so far'),
              ('n_evals / fitness_evals / fitness_iters', 'improvement and per-iteration history')]
p('C01', 'Task stop rule and evaluation counting hold for every operation history',
  'A task says stop exactly when its evaluation budget is used up, its iteration limit is reached, or its best value has reached the cutoff (in the direction being optimised), and not before. '
  'Every evaluation request made before the stop calls the objective exactly once and is counted once; every request after the stop returns the worst possible value without calling the objective or changing anything.',
  ['histories', 'configurations'],
  'All sequences of evaluate / finish-iteration / ask-stop operations over an alphabet of objective values, for every combination of budget, iteration limit, cutoff and optimisation direction.',
  'Tests run a handful of fixed sequences, nearly always minimising, with one limit at a time; ties with the cutoff, limits of zero, combined limits and calls after the stop are histories, not inputs.',
  ['src/niapy/task.py'], [('evaluation gate', 'Task.eval'), ('stop rule', 'Task.stopping_condition, Task.stopping_condition_iter'), ('iteration counter', 'Task.next_iter')], TASK_STATE)
p('C02', "A task's best value and convergence history match its evaluations exactly",
  'At every moment the best value held by a task is the best objective value it has evaluated, in the true sign of the objective whether minimising or maximising. '
  'The convergence data over evaluations gives, for each evaluation from the first improvement to the last improvement, the best value known at that evaluation; over iterations it gives the best value at the end of each iteration, and with logging switched on exactly the improvements are logged.',
  ['histories'],
  'All sequences of evaluations and iteration ends over an alphabet containing improvements, ties, regressions, zero, negative and infinitely bad values, in both optimisation directions.',
  'The existing tests look at the length of the data, or at one recorded curve for minimisation; gaps between improvements, ties and maximisation need all histories.',
  ['src/niapy/task.py'], [('best tracking', 'Task.eval'), ('convergence data', 'Task.convergence_data'), ('iteration history', 'Task.next_iter')], TASK_STATE)
p('C03', 'Maximising a function is the same search as minimising its negation',
  'For the same seed and settings, maximising f and minimising -f evaluate exactly the same points in the same order, stop at the same moment and return the same solution, with objective values that differ only in sign. '
  'This holds for every algorithm, every stopping criterion and for everything reported to callbacks and convergence data.',
  ['configurations', 'inputs'],
  'Every algorithm configuration x objective landscape (positive, negative, zero, tied values) x stopping point x direction.',
  'Tests almost never maximise, and never compare the two directions point by point; an algorithm that looks at raw objective values instead of the internal sign only differs on some landscapes and stop points.',
  ['src/niapy/task.py'] + ALG, [('sign handling', 'Task.eval, Task.stopping_condition, Algorithm.run'), ('direct uses of objective values', 'run_iteration of every algorithm')])
p('C04', 'Only feasible solutions are evaluated and returned',
  'Every solution an algorithm hands to the objective, and the solution it returns, is a finite vector of the dimension of the problem that lies inside the bounds. '
  'This holds for every algorithm, every built-in repair method, asymmetric and per-component bounds, bounds with equal ends, and whatever values the random generator produces.',
  ['inputs', 'configurations', 'histories'],
  'Every algorithm configuration x search box x repair method x landscape x dimension, and every single deviation of the random generator to an extreme but legal answer at each draw.',
  'Out-of-bounds evaluations need an extreme random draw or an unusual box at the one place where a repair is missing; tests only check the final solution of a few seeded runs on symmetric boxes.',
  ['src/niapy/util/repair.py', 'src/niapy/task.py'] + ALG, [('repair', 'Task.repair, niapy.util.repair'), ('initial population', 'default_numpy_init, default_individual_init, init_population overrides'), ('moves', 'run_iteration of every algorithm')])
p('C05', 'The returned solution is the best one ever evaluated, with its true value',
  'When a run ends, the returned objective value is the best among all objective values obtained during that run, and the returned solution is one that was actually evaluated to exactly that value. '
  'This holds wherever the run is stopped: after any number of evaluations, even in the middle of initialisation or of an iteration, after any number of iterations, or when the cutoff is reached.',
  ['crash_points', 'histories', 'inputs'],
  'Every algorithm configuration x every evaluation budget from one upwards x cutoffs x iteration limits x landscapes, and every evaluation index at which the objective answers with a new best, a tie or a very bad value.',
  'The best can be lost only when the stop falls between finding and recording it or when a solution is overwritten after evaluation; tests stop runs at one or two round budgets and do not keep the evaluated points.',
  [A + 'algorithm.py', 'src/niapy/task.py'] + ALG[1:], [('best bookkeeping', 'Algorithm.get_best, run_iteration of every algorithm'), ('result', 'Algorithm.run')])
p('C06', 'Runs use exactly the evaluations and iterations they were given',
  'A run never calls the objective more often than its evaluation budget, never starts another iteration after any stopping criterion holds, and makes no objective call after the criterion that stopped it is met. '
  'A run limited only by evaluations uses exactly that many, a run limited only by iterations performs exactly that many iterations, and the counters of the task equal the objective calls and iterations that really happened.',
  ['configurations', 'crash_points'],
  'Every algorithm configuration x evaluation budgets x iteration limits (including zero) x their combinations x cutoffs x dimensions.',
  'Tests check counters at one or two budgets per algorithm and cannot see objective calls after the stop; each algorithm has its own inner loops that must stop at any point.',
  ['src/niapy/task.py'] + ALG, [('gate', 'Task.eval, Task.stopping_condition'), ('main loop', 'Algorithm.run'), ('inner loops', 'run_iteration of every algorithm')], TASK_STATE)
p('C07', 'Every run terminates and never fails on legal inputs',
  'With a legal configuration, a finite stopping criterion and an objective that returns finite real numbers (up to 1e300 in magnitude, so that a few of them can still be added), every run comes back with a solution: it raises nothing and neither loops forever nor draws or evaluates without end. '
  'This holds for flat, tied, zero, negative and huge objective values, one-dimensional problems, components with equal bounds, every stopping point, and whatever values the random generator produces.',
  ['inputs', 'configurations', 'crash_points'],
  'Every algorithm configuration x landscape x stop point x dimension x box, scripted objective answers at every evaluation index, and every single deviation of the random generator to an extreme legal answer.',
  'Divisions by a zero fitness spread, empty selections, retry loops and ties show up only for particular combinations of landscape, budget and random draw.',
  ALG, [('main loop', 'Algorithm.run'), ('retry and inner loops, fitness normalisations', 'run_iteration of every algorithm')])
p('C08', 'Runs are reproducible: same seed and settings, same run',
  'Two runs with the same algorithm settings, seed and task settings evaluate the same points in the same order and return the same result, whatever ran before in the process, whatever the state of the global random generators, the clock or the hash seed is. '
  'All randomness of a run comes from the generator of the algorithm, and a run leaves the global random generators untouched.',
  ['histories', 'configurations'],
  'Every algorithm configuration x repair method x seed x preceding history (other runs, disturbed global generators, another process with another hash seed and clock).',
  'Tests compare at most the final results of two identical fresh runs; hidden sources of randomness or state depend on what happened before and on which repair or branch is used.',
  ALG + ['src/niapy/util/'], [('generator', 'Algorithm.__init__ (seed) and the random helpers'), ('repair', 'Task.repair, niapy.util.repair'), ('random walks', 'niapy.util.random')])
p('C09', 'Runs that overlap in time do not influence each other',
  'Algorithms running at the same time in different threads, or one inside the objective function of the other, each evaluate exactly the points and return exactly the result they would alone, for every interleaving at objective evaluations and callbacks. '
  'A run changes nothing it shares with others: problem, bounds, class-level and module-level state.',
  ['schedules'],
  'All interleavings of two runs at evaluation granularity up to a preemption bound, for every algorithm paired with itself and with relatives, with separate and with shared problem objects.',
  'No test runs two algorithms concurrently; leaked class attributes, mutable defaults, caches or module globals only show under particular interleavings.',
  ALG + ['src/niapy/task.py', 'src/niapy/problems/'], [('per-run state', 'init_population, params of run_iteration, attributes set during a run'), ('shared objects', 'Task, Problem, module-level helpers')])
p('C10', 'An algorithm object can be reused: no state leaks from earlier runs',
  'Running an algorithm object again behaves like running a freshly built one with the same settings and the same generator state, whatever tasks the object has run before, completely, stopped early or failed. '
  'Results returned by earlier runs do not change afterwards.',
  ['histories'],
  'Every algorithm configuration x histories of up to three earlier runs that differ in dimension, bounds, budget, direction, stopping point and failure.',
  'Tests build a new object for nearly every run, or reuse it without comparing with a fresh one; leftovers such as counters, shrunken populations or adapted step sizes need a history to show.',
  ALG, [('run state kept on the object', 'attributes assigned in init_population / run_iteration / run'), ('main loop', 'Algorithm.run')])
p('C11', 'The best solution reported during a run is real and never gets worse',
  'Before and after every iteration the reported best value equals the best of all evaluations made so far, belongs to the reported best solution, and never becomes worse from one report to the next. '
  'A best solution that has been reported is not modified afterwards.',
  ['histories', 'inputs'],
  'Every algorithm configuration x landscape x direction x dimension, at every iteration boundary, including scripted objective answers at every evaluation index and extreme random draws.',
  'Tests look only at the end of a run; a best that is lost and found again, or a reported array that is later overwritten in place, is invisible there.',
  [A + 'algorithm.py', 'src/niapy/callbacks.py'] + ALG[1:], [('best bookkeeping', 'Algorithm.get_best, run_iteration of every algorithm'), ('reporting', 'Algorithm.run, CallbackList')])
p('C12', 'Reported populations and fitness values belong together and are feasible',
  'At every iteration boundary the reported population and fitness values have the same length, every member is a feasible vector of the dimension of the problem, and its fitness is its true objective value (sign-adjusted), or infinite when the budget ran out before it was evaluated. '
  'Members that carry their own fitness agree with the reported one.',
  ['histories', 'inputs'],
  'Every algorithm configuration (only the particles of the comprehensive-learning swarm may leave the box, where by published design they keep their last fitness unevaluated) x landscape x box x repair x dimension x stop point, at every iteration boundary.',
  'Aliased or misaligned arrays, repairs applied to copies and fitness not refreshed after a move depend on which individuals are accepted; tests never compare the population with the objective.',
  ALG, [('population updates', 'run_iteration of every algorithm'), ('individuals', 'Individual.evaluate, Individual.copy'), ('arrays of individuals', 'niapy.util.array')])
p('C13', 'Callbacks see one well-formed run',
  'Every run notifies each callback, in registration order, exactly as: run start before any evaluation, then for every iteration one before and one after notification, and one run end after the last. '
  'All callbacks receive the same data, the number of iteration pairs equals the number of iterations of the task, and nothing is evaluated between an after notification and the next before notification.',
  ['histories', 'configurations'],
  'Every algorithm configuration x number and kind of registration of callbacks (at construction, later, container) x stopping criterion x reuse.',
  'The tests have one callback on one algorithm; order, nesting and count must hold for every loop and every stop.',
  ['src/niapy/callbacks.py', A + 'algorithm.py'], [('notification', 'CallbackList'), ('run loop', 'Algorithm.run')])
p('C14', 'A failing objective or callback is contained and reported, never swallowed',
  'When the objective or a callback raises at any point of a run, then in the main thread of the main process exactly that exception reaches the caller; in any other thread or process the run returns nothing as its result and the algorithm object reports a bad run and holds that exception. '
  'The task counts exactly the evaluations that were made, its best value is that of the successful ones, and a later run of the same object works normally and clears the error.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'Every algorithm configuration x every evaluation index and every callback notification as the failing point x several exception types x main or worker thread x following runs.',
  'Tests never inject a failure; an overly broad handler or a state update before the failing call matters only at particular failing points.',
  [A + 'algorithm.py', 'src/niapy/task.py'] + ALG[1:], [('exception policy', 'Algorithm.run, Algorithm.bad_run'), ('evaluation gate', 'Task.eval')])
p('C15', 'Repair methods always produce feasible points and leave feasible points alone',
  'Every built-in repair method returns, for any finite vector and any bounds, a vector inside the bounds, leaves components that already are inside unchanged, treats components independently, and is idempotent. '
  'Out-of-range components follow the rule of the method: clip to the violated bound, jump to the opposite bound, mirror at the violated bound (limited to the range), wrap into the range, or draw uniformly from the range with the given generator.',
  ['inputs'],
  'All combinations of component value and bounds from a lattice with interior, boundary, one-ulp-off, far and degenerate values; all mixed vectors up to length three.',
  'Tests use a few vectors with the same bounds in every component; one-ulp and degenerate cases and mixes of violations are a finite lattice that can be enumerated.',
  ['src/niapy/util/repair.py', 'src/niapy/task.py'], [('repair methods', 'limit, limit_inverse, wang, rand, reflect'), ('dispatch', 'Task.repair')])
p('C16', 'Evaluating a problem is a pure, well-formed function of the solution',
  'For every built-in problem, evaluating a solution returns one finite real number that depends only on the solution and the parameters of the problem, does not modify the solution, the problem or any other instance, and equals the value obtained through any other way of calling it. '
  'A solution of the wrong dimension is rejected, and bounds given as scalar, or as shorter, equal or longer sequence, become vectors of exactly the dimension of the problem.',
  ['inputs', 'histories'],
  'Every built-in problem x dimensions x lattice points x interleavings of evaluations on several instances x all forms of bounds.',
  'Tests evaluate each problem at one or two points on a fresh object; caching, in-place arithmetic and shape errors need repetition, other dimensions and other instances.',
  ['src/niapy/problems/', 'src/niapy/util/array.py'], [('evaluation', 'Problem.evaluate, Problem.__call__, every _evaluate'), ('bounds', 'full_array, Problem.__init__')])
p('C17', 'Benchmark problems compute their documented functions',
  'Every built-in problem computes its documented formula at every point of its domain, for every supported dimension and parameter, and uses its documented default domain. '
  'The documented global optimum is attained where documented and no point of the domain is better.',
  ['inputs'],
  'Every built-in problem x dimensions 1 to 6 (as far as defined) x parameters x all points of a lattice over the domain.',
  'Tests check one point per problem, usually the optimum, where most wrong terms vanish.',
  ['src/niapy/problems/'], [('formulas', '_evaluate of every problem'), ('domains', '__init__ of every problem')])
p('C18', 'Algorithms and problems are reachable by name; options are parsed faithfully',
  'Every exported algorithm and problem can be created by its documented name, through the factory functions or (problems) a task, the name gives exactly that class with the given arguments, each request gives a fresh independent object, and unknown names raise a key error. '
  'Parsed command-line options give back exactly the values typed, with the documented defaults and types, in any order and combination.',
  ['inputs', 'configurations', 'histories'],
  'All exported classes, all registered names (with letter case variants for problems), histories of repeated requests, and all combinations and orders of command-line options up to a bound.',
  'Tests request a few names once and parse a few option strings.',
  ['src/niapy/util/factory.py', 'src/niapy/util/argparser.py'], [('name tables', 'get_algorithm, get_problem'), ('parser', 'get_argparser, get_args, get_args_dict')])
p('C19', 'Algorithm settings mean the same however and whenever they are given',
  'Giving all settings to the constructor, or to the setter of an existing object, configured before in any other way, leads to the same run for the same seed. '
  'Reported settings equal the configured ones, a setting that is given is the one the run uses, and reading settings or running the algorithm does not change how later runs behave.',
  ['configurations', 'histories'],
  'Every algorithm configuration (each setting also varied on its own) x way of configuring x order of set / read / run operations up to a bound.',
  'Tests set each parameter once and read it back from the attribute; a setting dropped or mixed up by one of the two ways is only seen by comparing runs.',
  ALG, [('configuration', '__init__, set_parameters, get_parameters of every algorithm')])
p('C20', 'The runner performs exactly the requested grid and exports it faithfully',
  'A runner executes every algorithm on every problem exactly the requested number of times, each with a fresh task of the requested dimension and budget, and returns for every pair (algorithms and problems of different classes) the list of the results in execution order. '
  'The exported file holds the same results, is written inside the export folder of the working directory, an unsupported export format is rejected, and earlier results or other runners are not affected.',
  ['configurations', 'histories'],
  'All grids of up to three algorithms x three problems x three repetitions, given as names or objects, all export formats, and histories of repeated runs.',
  'Tests run one fixed grid per export format and never look at the exported data or at the number of runs.',
  ['src/niapy/runner.py'], [('grid', 'Runner.run, Runner.task_factory'), ('export', 'Runner export methods')])
p('C21', 'Individuals keep position and fitness together through every history',
  'Creating, evaluating, copying, changing and comparing individuals behaves like a pair of position and fitness: evaluation repairs the position first and stores the value of exactly the repaired position, a copy is equal and fully independent, indexing and length are those of the position, and an individual never evaluated counts as worst. '
  'Two individuals are equal exactly when position and fitness are equal.',
  ['histories'],
  'All sequences of create / evaluate / copy / set component / compare operations up to a bounded length over a small set of positions, including infeasible ones.',
  'Tests exercise single operations; aliasing between copies and stale fitness need sequences.',
  [A + 'algorithm.py', A + 'basic/de.py', A + 'basic/loa.py', A + 'basic/ca.py', A + 'basic/es.py', A + 'modified/jde.py'], [('individual', 'Individual and its subclasses')])
p('C22', 'The configured population size is honoured throughout a run',
  'The reported population has the configured size at every iteration boundary of every algorithm with a fixed population; algorithms that maintain a single solution report one. '
  'Algorithms that shrink their population never grow it and never fall below their documented minimum, and growing ones never report an empty population.',
  ['configurations', 'histories'],
  'Every algorithm configuration x population sizes x dimensions x stop points, at every iteration boundary.',
  'Tests use one population size per algorithm and do not look at the population during the run; off-by-one replacements and reductions depend on size parity, dimension and progress.',
  ALG, [('population updates', 'run_iteration of every algorithm'), ('reductions', 'dynamic and linear population reduction in differential evolution variants')])
p('C23', 'Variation and selection operators obey their definition for every outcome',
  'Differential mutation strategies build each trial from the target and the documented combination of base and pairwise distinct difference members other than the target, taking at least one component from the mutant; the genetic crossover and mutation operators only recombine components of parents at the same position or draw new ones inside the bounds; tournament selection returns the best of its contenders, and an index drawn with exclusions is never an excluded one. '
  'Simulated annealing always accepts better solutions and accepts a worse one exactly when the uniform draw is below the Boltzmann probability.',
  ['inputs'],
  'All outcomes of every random draw made by an operator (all permutations, indices and threshold sides) for small populations of distinguishable individuals (larger than the number of members a strategy combines), over all target indices and rates.',
  'Operators draw many random numbers; tests check types and lengths of one draw. Repeated indices or a shifted boundary occur only for specific outcomes.',
  [A + 'basic/de.py', A + 'basic/ga.py', A + 'other/sa.py'], [('difference strategies', 'cross_rand1 ... cross_curr2best1, multi_mutations'), ('genetic operators', 'crossovers, mutations and selections'), ('acceptance', 'SimulatedAnnealing')])
p('C24', 'Observing a run never changes it',
  'Attaching callbacks that only read, switching on logging, asking the task for its state or its convergence data at any time, or reading the settings of the algorithm during a run leaves the evaluated points and the result unchanged. '
  'What observers receive stays as it was when they were told, as far as the best solution and the values of the task are concerned.',
  ['configurations', 'histories'],
  'Every algorithm configuration x every subset of observers x stopping criterion.',
  'Tests never compare observed with unobserved runs.',
  ['src/niapy/task.py', 'src/niapy/callbacks.py'] + ALG, [('observers', 'CallbackList, Task.convergence_data, Task logging, get_parameters')])
p('C25', 'Greedy populations never deteriorate',
  'In algorithms whose published selection is greedy (differential evolution with fixed population, bat algorithms, cuckoo search, flower pollination, harmony search, elitist evolution strategies, multiple trajectory search), the k-th best fitness of the population never gets worse from one iteration boundary to the next, for every k. '
  'A member is replaced only by a solution that has been evaluated and is at least as good as a member it displaces; where such an algorithm halves its population the better one of each pair survives, and where it removes members step by step it removes the worst.',
  ['histories', 'inputs'],
  'Every configuration of these algorithms x landscape x direction x dimension x stop point, scripted objective answers at every evaluation index and extreme random draws.',
  'Tests only look at the final result, which is protected by separate bookkeeping of the best; an inverted or shifted comparison in the selection goes unnoticed.',
  [A + 'basic/de.py', A + 'basic/ba.py', A + 'basic/cs.py', A + 'basic/fpa.py', A + 'basic/hs.py', A + 'basic/es.py', A + 'modified/', A + 'other/mts.py'],
  [('selection', 'selection methods and replacement steps of run_iteration')])
p('C26', 'What algorithms remember and adapt is true and stays within its limits',
  'Personal bests, leaders and archived solutions that an algorithm hands to callbacks are solutions that were really evaluated, carry exactly that fitness, lie inside the bounds and never get worse; personal bests are never worse than the member they belong to, and leaders are ordered. '
  'Adaptive state follows its documented rule: velocities stay within the configured clamp, loudness, temperature, step and radius schedules change by the configured factor or amount, counters of trials and ages stay within their limits, self-adapted control parameters and success histories stay in their ranges, and state that belongs to members has one entry per member and is not changed between two iterations.',
  ['histories', 'configurations'],
  'Every algorithm that keeps such state x settings x landscape x bounds x direction x stop point, at every iteration boundary, with scripted objective answers and extreme random draws.',
  'Tests never look at the state passed from one iteration to the next; a stale memory or a schedule applied twice still returns a plausible best solution.',
  ALG, [('memories', 'personal bests, leaders, archives in run_iteration'), ('schedules', 'the parameters returned by init_population and run_iteration')])

p('C27', 'Search moves follow the published equations for every random answer',
  'For every landscape, bounds, direction, setting, dimension and outcome of the random draws, the sequence of solutions a run evaluates, from its initial population on, is the sequence the published equations of the method give: positions, velocities, steps, radii, temperatures, acceptance and replacement rules, with the configured parameters. '
  'The order in which a method asks for its random numbers is no part of this. The statement covers these methods (of the package classes): ParticleSwarmOptimization, ParticleSwarmAlgorithm, the center, mutated, mutated-center and mutated-center-unified particle swarms, BatAlgorithm, AdaptiveBatAlgorithm, SelfAdaptiveBatAlgorithm, ParameterFreeBatAlgorithm, GreyWolfOptimizer, SineCosineAlgorithm, FlowerPollinationAlgorithm, FireflyAlgorithm, CuckooSearch, GravitationalSearchAlgorithm, GlowwormSwarmOptimization with V1 and V2, ArtificialBeeColonyAlgorithm, MonkeyKingEvolutionV1 and V2, HarmonySearch, the evolution strategies 1+1, M+1, M+L and M,L, CamelAlgorithm, BareBonesFireworksAlgorithm, NelderMeadMethod, SimulatedAnnealing, HillClimbAlgorithm, HybridBatAlgorithm, HybridSelfAdaptiveBatAlgorithm, MonarchButterflyOptimization, BeesAlgorithm, ClonalSelectionAlgorithm, CatSwarmOptimization, MantisSearchAlgorithm, FireworksAlgorithm, EnhancedFireworksAlgorithm, SelfAdaptiveDifferentialEvolution, and DifferentialEvolution (all six strategies) with its dynamic-size, ageing, multi-strategy, SHADE, L-SHADE and iL-SHADE variants; where the package documents a deviation from the literature, its own equation counts.',
  ['inputs', 'histories', 'configurations'],
  'Methods x settings x dimensions x bounds x landscapes x directions x assignments of random answers, over several iterations, and every single deviating answer.',
  'The tests only look at the shape and range of the final result; an equation with a wrong sign, a stale position or a forgotten factor still returns a plausible result inside the bounds.',
  ALG, [('equations', 'run_iteration and its helpers in basic/, modified/ and other/')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for r in P:
            assert len(r['title']) <= 80, (r['id'], len(r['title']))
            fh.write(json.dumps(r, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
