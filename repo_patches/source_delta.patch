From 30f8bc844b2d6bf8bdcc8244de82a0241ca61dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 01/79] fix: ABC onlooker phase retries the exhausted food
 source it visited and always terminates

The onlooker phase tested and replaced the food source left over from the
employed phase (index i) instead of the one whose trial counter it had just
incremented, the selection probabilities became NaN when every food source had
infinite fitness (endless loop), and the partner search never ended with a
single food source.
---
 src/niapy/algorithms/basic/abc.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..b24d3c5 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -122,8 +122,11 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
             numpy.ndarray: Probabilities.
 
         """
-        probs = np.asarray([1.0 / (foods[i].f + 0.01) for i in range(self.food_number)])
-        return probs / np.sum(probs)
+        probs = 1.0 / (np.asarray([foods[i].f for i in range(self.food_number)], dtype=float) + 0.01)
+        total = np.sum(probs)
+        if total == 0 or not np.isfinite(total):
+            return np.full(self.food_number, 1.0 / self.food_number)
+        return probs / total
 
     def init_population(self, task):
         r"""Initialize the starting population.
@@ -195,7 +198,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                 solution = copy.deepcopy(population[s])
                 param2change = int(self.random() * task.dimension)
                 neighbor = int(self.food_number * self.random())
-                while neighbor == s:
+                while neighbor == s and self.food_number > 1:
                     neighbor = int(self.food_number * self.random())
                 solution.x[param2change] = population[s].x[param2change] + self.uniform(-1, 1) * (
                         population[s].x[param2change] - population[neighbor].x[param2change])
@@ -208,10 +211,10 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                         best_fitness = solution.f
                 else:
                     trials[s] += 1
-                    if trials[i] >= self.limit:
-                        population[i], trials[i] = SolutionABC(task=task, rng=self.rng), 0
-                        if population[i].f < best_fitness:
-                            best_x, best_fitness = population[i].x.copy(), population[i].f
+                    if trials[s] >= self.limit:
+                        population[s], trials[s] = SolutionABC(task=task, rng=self.rng), 0
+                        if population[s].f < best_fitness:
+                            best_x, best_fitness = population[s].x.copy(), population[s].f
             s += 1
             if s == self.food_number:
                 s = 0
-- 
2.43.0


From 5235fb286616c1a3e7ee173b5400a5f2165b30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 02/79] fix: best-solution bookkeeping accepts any scalar
 fitness type

get_best only recognised Python floats/ints as the fitness of a single
solution, so single-solution algorithms crashed with an objective function
returning numpy.float32 or another NumPy scalar.
---
 src/niapy/algorithms/algorithm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..b606d7c 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -237,9 +237,10 @@ class Algorithm:
 
         """
         ib = np.argmin(population_fitness)
-        if isinstance(population_fitness, (float, int)) and best_fitness >= population_fitness:
-            best_x, best_fitness = population, population_fitness
-        elif isinstance(population_fitness, (np.ndarray, list)) and best_fitness >= population_fitness[ib]:
+        if np.ndim(population_fitness) == 0:
+            if best_fitness >= population_fitness:
+                best_x, best_fitness = population, population_fitness
+        elif best_fitness >= population_fitness[ib]:
             best_x, best_fitness = population[ib], population_fitness[ib]
         return (best_x.x.copy() if isinstance(best_x, Individual) else best_x.copy()), best_fitness
 
-- 
2.43.0


From e9e2456c3101a91288162d89a48d874fbebf0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 03/79] fix: BBFWA keeps its single solution one-dimensional

The initial solution was kept as a (1, dimension) array, so a run in which no
spark improved on it returned a best solution of the wrong shape.
---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..2920efe 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -121,7 +121,7 @@ class BareBonesFireworksAlgorithm(Algorithm):
         """
         x, x_fit, d = super().init_population(task)
         d.update({'amplitude': task.range})
-        return x, x_fit, d
+        return x[0], x_fit[0], d
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bare Bones Fireworks Algorithm.
-- 
2.43.0


From 26bf872c2082cd597fadbdbc216e0b988eb6728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 04/79] fix: fireworks algorithms never replace the best
 solution by a worse one

FWA and EFWA overwrote the best solution with the best spark of the current
iteration even when that was worse (e.g. when the evaluation budget ran out
while the old population was being re-evaluated), and FWA failed with NaN
selection probabilities when too few sparks were distinct.
---
 src/niapy/algorithms/basic/fwa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 2920efe..3b9171c 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -363,7 +363,10 @@ class FireworksAlgorithm(Algorithm):
         fitness = np.delete(sparks_fitness, best_index)
 
         distances = np.sum(euclidean(all_sparks[:, np.newaxis, :], all_sparks[np.newaxis, :, :]), axis=0)
-        probabilities = distances / np.sum(distances)
+        if np.count_nonzero(distances) < self.population_size - 1:
+            probabilities = None
+        else:
+            probabilities = distances / np.sum(distances)
 
         selected_indices = self.rng.choice(len(all_sparks), self.population_size - 1, replace=False, p=probabilities)
 
@@ -423,8 +426,10 @@ class FireworksAlgorithm(Algorithm):
 
         all_sparks = np.concatenate((all_sparks, gaussian_sparks), axis=0)
 
-        population, population_fitness, best_x, best_fitness = self.selection(population, population_fitness,
-                                                                              all_sparks, task)
+        population, population_fitness, spark_x, spark_fitness = self.selection(population, population_fitness,
+                                                                                all_sparks, task)
+        if spark_fitness < best_fitness:
+            best_x, best_fitness = spark_x, spark_fitness
 
         return population, population_fitness, best_x, best_fitness, {}
 
-- 
2.43.0


From d0dd1da6d8dc71196ead3539e3eefc609572aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 05/79] fix: CamelAlgorithm records the best camel before the
 life cycle may replace it

With negative fitness values a camel that had just found a new best solution
could be replaced by a random one and its solution was lost.
---
 src/niapy/algorithms/basic/ca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..89a7baf 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -355,6 +355,7 @@ class CamelAlgorithm(Algorithm):
         """
         new_caravan = objects_to_array([self.walk(c, best_x, task) for c in population])
         new_caravan = objects_to_array([self.oasis(c) for c in new_caravan])
+        best_x, best_fitness = self.get_best(new_caravan, np.asarray([c.f for c in new_caravan]), best_x, best_fitness)
         new_caravan = objects_to_array([self.life_cycle(c, task) for c in new_caravan])
         new_caravan_fitness = np.asarray([c.f for c in new_caravan])
         best_x, best_fitness = self.get_best(new_caravan, new_caravan_fitness, best_x, best_fitness)
-- 
2.43.0


From 335b826ab49c54050f15eff1e7fe69aaa9f219b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:35 +0000
Subject: [PATCH 06/79] fix: CatSwarmOptimization does not lose the best cat
 copy it evaluates

An improving copy found in seeking mode was only written to a random position
of the population, where the same or a later cat of the same iteration could
overwrite it before the best solution was recorded.
---
 src/niapy/algorithms/basic/cso.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..fcb933c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -176,11 +176,13 @@ class CatSwarmOptimization(Algorithm):
             fxb (float): Current best cat fitness/function value.
 
         Returns:
-            Tuple[numpy.ndarray, float, numpy.ndarray, float]:
+            Tuple[numpy.ndarray, float, numpy.ndarray, numpy.ndarray, numpy.ndarray, float]:
                 1. Updated individual's position
                 2. Updated individual's fitness/function value
-                3. Updated global best position
-                4. Updated global best fitness/function value
+                3. Updated population
+                4. Updated population fitness/function values
+                5. Best copy's position
+                6. Best copy's fitness/function value
 
         """
         cat_copies = []
@@ -209,12 +211,13 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies_select_probs = np.full(len(cat_copies), fb)
             else:
                 cat_copies_select_probs = np.abs(cat_copies_fs - fb) / (worst_fitness - best_fitness)
+        best_copy = cat_copies[np.argmin(cat_copies_fs)]
         if best_fitness < fxb:
             ind = self.integers(self.population_size)
-            pop[ind] = cat_copies[np.where(cat_copies_fs == best_fitness)[0][0]]
+            pop[ind] = best_copy
             fpop[ind] = best_fitness
         sel_index = self.weighted_selection(cat_copies_select_probs)
-        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop
+        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop, best_copy.copy(), best_fitness
 
     def tracing_mode(self, task, cat, velocity, xb):
         r"""Tracing mode.
@@ -263,12 +266,11 @@ class CatSwarmOptimization(Algorithm):
         pop_copies = population.copy()
         for k in range(len(pop_copies)):
             if modes[k] == 0:
-                pop_copies[k], population_fitness[k], pop_copies, population_fitness = self.seeking_mode(task,
-                                                                                                         pop_copies[k],
-                                                                                                         population_fitness[k],
-                                                                                                         pop_copies,
-                                                                                                         population_fitness,
-                                                                                                         best_fitness)
+                pop_copies[k], population_fitness[k], pop_copies, population_fitness, copy_x, copy_fitness = \
+                    self.seeking_mode(task, pop_copies[k], population_fitness[k], pop_copies, population_fitness,
+                                      best_fitness)
+                if copy_fitness < best_fitness:
+                    best_x, best_fitness = copy_x, copy_fitness
             else:  # if cat in tracing mode
                 pop_copies[k], population_fitness[k], velocities[k] = self.tracing_mode(task,
                                                                                         pop_copies[k],
-- 
2.43.0


From c0b757f0e2e7446a2993928ea079c63c49b9d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 07/79] fix: randomised repairs draw from the algorithm's own
 generator

---
 src/niapy/algorithms/basic/ba.py         |  2 +-
 src/niapy/algorithms/basic/bea.py        |  2 +-
 src/niapy/algorithms/basic/bfo.py        |  2 +-
 src/niapy/algorithms/basic/cso.py        |  4 ++--
 src/niapy/algorithms/basic/es.py         |  2 +-
 src/niapy/algorithms/basic/fa.py         |  2 +-
 src/niapy/algorithms/basic/loa.py        | 14 +++++++-------
 src/niapy/algorithms/modified/ilshade.py |  2 +-
 src/niapy/algorithms/modified/jde.py     |  2 +-
 src/niapy/algorithms/modified/plba.py    |  2 +-
 src/niapy/algorithms/modified/shade.py   |  2 +-
 11 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index fcb933c..c0557c7 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -196,7 +196,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -236,7 +236,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..508b607 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -568,7 +568,7 @@ class EvolutionStrategyML(EvolutionStrategyMpL):
 
         """
         cn = objects_to_array(
-            [IndividualES(x=self.mutate_rand(c, task), task=task, rand=self.rng) for _ in range(self.lam)])
+            [IndividualES(x=self.mutate_rand(c, task), task=task, rng=self.rng) for _ in range(self.lam)])
         c = self.new_pop(cn)
         fc = np.asarray([x.f for x in c])
         best_x, best_fitness = self.get_best(c, fc, best_x, best_fitness)
diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..86edbe0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From b1821aa2ee524560d7de1e980d3048d4e8c08bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 08/79] fix: MonarchButterflyOptimization repairs with its own
 generator

---
 src/niapy/algorithms/basic/mbo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..f572355 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,12 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population),
+                                         rng=self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best),
+                                         rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
         population[-self.keep:] = elite
-- 
2.43.0


From b34604e9a1ce0f46410ee846efcaa341ab365dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 09/79] fix: MonarchButterflyOptimization copies the matching
 component in the adjusting operator

---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index f572355..f44b4f8 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -182,7 +182,7 @@ class MonarchButterflyOptimization(Algorithm):
                     butterflies[k2, i] = best[i]
                 else:
                     r4 = self.integers(np2 - 1)
-                    butterflies[k2, i] = pop2[r4, 1]
+                    butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
         return butterflies
-- 
2.43.0


From b18fcd446bc773fe7c8ea8b6ac14585e9bf6bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 10/79] fix: MonarchButterflyOptimization records the best
 butterfly before elitism overwrites it

---
 src/niapy/algorithms/basic/mbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index f44b4f8..46d77eb 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -266,6 +266,7 @@ class MonarchButterflyOptimization(Algorithm):
                                          rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         population[-self.keep:] = elite
         population_fitness, population = self.evaluate_and_sort(task, population)
         best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
-- 
2.43.0


From 51af12933c18c4695a74a6b307444d1f495cd80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 11/79] fix: CuckooSearch repairs every nest on its own

---
 src/niapy/algorithms/basic/cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..6b3d854 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
-- 
2.43.0


From e9e5b42b91f4a6d9740a14844b25d4859eb4b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 12/79] fix: CoralReefsOptimization depredation removes whole
 corals

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..9a805d0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From c5b319eb311a867d4d99d06d153474695e851759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 13/79] fix: CoralReefsOptimization parameters survive a
 get/set round trip

---
 src/niapy/algorithms/basic/cro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 9a805d0..3753ed7 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
@@ -222,8 +222,8 @@ class CoralReefsOptimization(Algorithm):
         d.update({
             'phi': self.phi,
             'k': self.k,
-            'cr': self.crossover_rate,
-            'mr': self.mutation_rate,
+            'crossover_rate': self.crossover_rate,
+            'mutation_rate': self.mutation_rate,
             'asexual_reproduction_prob': self.asexual_reproduction_prob,
             'depredation_prob': self.depredation_prob,
             'broadcast_prob': self.broadcast_prob,
-- 
2.43.0


From c60c841ab2d090a1e24f658b01acde7131cdd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 14/79] fix: AgingNpDifferentialEvolution ages are defined for
 equal, zero and infinite fitness

---
 src/niapy/algorithms/basic/de.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 31a0eab..1f7ef37 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -532,6 +532,14 @@ class DynNpDifferentialEvolution(DifferentialEvolution):
         return pop, xb, fxb
 
 
+def _ratio(numerator, denominator, default=1.0):
+    r"""Divide two fitness differences, falling back to default where the quotient is not defined."""
+    if denominator == 0 or not math.isfinite(numerator) or not math.isfinite(denominator):
+        return default
+    ratio = numerator / denominator
+    return ratio if math.isfinite(ratio) else default
+
+
 def proportional(min_lifetime, max_lifetime, mu, x_f, avg, **_kwargs):
     r"""Proportional calculation of age of individual.
 
@@ -546,8 +554,7 @@ def proportional(min_lifetime, max_lifetime, mu, x_f, avg, **_kwargs):
         int: Age of individual.
 
     """
-    proportional_result = max_lifetime if math.isinf(avg) else min_lifetime + mu * avg / x_f
-    return min(proportional_result, max_lifetime)
+    return min(min_lifetime + mu * _ratio(avg, x_f, default=np.inf), max_lifetime)
 
 
 def linear(min_lifetime, mu, x_f, x_gw, x_gb, **_kwargs):
@@ -564,7 +571,7 @@ def linear(min_lifetime, mu, x_f, x_gw, x_gb, **_kwargs):
         int: Age of individual.
 
     """
-    return min_lifetime + 2 * mu * (x_f - x_gw) / (x_gb - x_gw)
+    return min_lifetime + 2 * mu * _ratio(x_f - x_gw, x_gb - x_gw)
 
 
 def bilinear(min_lifetime, max_lifetime, mu, x_f, avg, x_gw, x_gb, **_kwargs):
@@ -584,8 +591,8 @@ def bilinear(min_lifetime, max_lifetime, mu, x_f, avg, x_gw, x_gb, **_kwargs):
 
     """
     if avg < x_f:
-        return min_lifetime + mu * (x_f - x_gw) / (x_gb - x_gw)
-    return 0.5 * (min_lifetime + max_lifetime) + mu * (x_f - avg) / (x_gb - avg)
+        return min_lifetime + mu * _ratio(x_f - x_gw, x_gb - x_gw)
+    return 0.5 * (min_lifetime + max_lifetime) + mu * _ratio(x_f - avg, x_gb - avg)
 
 
 class AgingIndividual(Individual):
-- 
2.43.0


From 12e8885fed60e9d3ce9aca31d6acd3d21c404904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 15/79] fix: AgingNpDifferentialEvolution counts a regenerated
 population towards the best

---
 src/niapy/algorithms/basic/de.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 1f7ef37..a5e42b4 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -822,6 +822,7 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
         new_population = np.append(new_population, self.increment_population(task))
         best_x, best_fitness = self.get_best(new_population, np.asarray([e.f for e in new_population]), best_x, best_fitness)
         population = self.aging(task, new_population)
+        best_x, best_fitness = self.get_best(population, np.asarray([e.f for e in population]), best_x, best_fitness)
         return population, best_x, best_fitness
 
     def post_selection(self, pop, task, xb, fxb, **kwargs):
-- 
2.43.0


From be28fea1415ec1fc3b93f050dfd03b5236192eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 16/79] fix: GravitationalSearchAlgorithm masses are defined
 when all fitness values are equal

---
 src/niapy/algorithms/basic/gsa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index fd50dfb..48ffba2 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -160,7 +160,8 @@ class GravitationalSearchAlgorithm(Algorithm):
         velocities = params.pop('velocities')
 
         ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
-        m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
+        spread = population_fitness[ib] - population_fitness[iw]
+        m = (population_fitness - population_fitness[iw]) / spread if spread != 0 else np.ones(len(population))
         m = m / np.sum(m)
         forces = np.asarray([[self.gravity((task.iters + 1)) * ((m[i] * m[j]) / (euclidean(population[i], population[j]) + self.epsilon)) * (
                 population[j] - population[i]) for j in range(len(m))] for i in range(len(m))])
-- 
2.43.0


From a34395fb0fbaca03c183a3e7372d4e60f81cda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 17/79] fix: KrillHerd food location is defined for zero and
 cancelling fitness values

---
 src/niapy/algorithms/basic/kh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 05915d9..6358bef 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -349,8 +349,12 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        x_food = task.repair(np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness),
-                             rng=self.rng)
+        weights = (population_fitness == 0).astype(float)
+        if not np.any(weights):
+            weights = 1 / population_fitness
+        if np.sum(weights) == 0:
+            weights = np.ones(len(population))
+        x_food = task.repair(np.sum(population.T * weights, axis=1) / np.sum(weights), rng=self.rng)
         x_food_f = task.eval(x_food)
         return x_food, x_food_f
 
-- 
2.43.0


From 0bac2810fac9c7960260dd515c7fd4eeb358d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 18/79] fix: mutated particle swarms survive a swarm that does
 not move

---
 src/niapy/algorithms/basic/pso.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..6b87c1a 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -754,7 +754,8 @@ class MutatedParticleSwarmOptimization(ParticleSwarmAlgorithm):
         pop, fpop, xb, fxb, d = ParticleSwarmAlgorithm.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_max = np.max(np.abs(v_a))
+        v_a = v_a / v_max if v_max > 0 else v_a
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
@@ -865,7 +866,8 @@ class MutatedCenterParticleSwarmOptimization(CenterParticleSwarmOptimization):
         pop, fpop, xb, fxb, d = CenterParticleSwarmOptimization.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_max = np.max(np.abs(v_a))
+        v_a = v_a / v_max if v_max > 0 else v_a
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
-- 
2.43.0


From f5f8b912b57eef6d4ad8cc12a8bfe2991a283756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 19/79] fix: opposition learning keeps opposite particles
 inside the search space

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 6b87c1a..0d15f69 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -455,7 +455,7 @@ class OppositionVelocityClampingParticleSwarmOptimization(ParticleSwarmAlgorithm
 
         """
         s_r = s_l + s_h
-        s = np.asarray([s_r - e for e in pop])
+        s = np.clip(np.asarray([s_r - e for e in pop]), s_l, s_h)
         s_f = np.asarray([task.eval(e) for e in s])
         s, s_f = np.concatenate([pop, s]), np.concatenate([fpop, s_f])
         sorted_indices = np.argsort(s_f)
-- 
2.43.0


From 5642765ed382568ee6e395f07d1b51aef74c3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 20/79] fix: reflect repairs onto a degenerate interval

---
 src/niapy/util/repair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 3c94f03..645b21f 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -90,8 +90,12 @@ def reflect(x, lower, upper, **_kwargs):
         numpy.ndarray: Fix solution.
 
     """
+    ir = np.where((x > upper) & (upper <= lower))
+    x[ir] = upper[ir]
     ir = np.where(x > upper)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
+    ir = np.where((x < lower) & (upper <= lower))
+    x[ir] = lower[ir]
     ir = np.where(x < lower)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
     return x
-- 
2.43.0


From 2ed52543519fbf140582e1b7b15493c9422dc1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 21/79] fix: reflect never rounds past the upper bound

---
 src/niapy/util/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 645b21f..44a4da2 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -93,9 +93,9 @@ def reflect(x, lower, upper, **_kwargs):
     ir = np.where((x > upper) & (upper <= lower))
     x[ir] = upper[ir]
     ir = np.where(x > upper)
-    x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
+    x[ir] = np.minimum(lower[ir] + x[ir] % (upper[ir] - lower[ir]), upper[ir])
     ir = np.where((x < lower) & (upper <= lower))
     x[ir] = lower[ir]
     ir = np.where(x < lower)
-    x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
+    x[ir] = np.minimum(lower[ir] + x[ir] % (upper[ir] - lower[ir]), upper[ir])
     return x
-- 
2.43.0


From 4bb03c58c79ed5a12bfa697b7c3cb779d0bdc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 22/79] fix: harmony search keeps the repaired harmony it
 evaluated

---
 src/niapy/algorithms/basic/hs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 41d1834..02e5617 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -162,8 +162,8 @@ class HarmonySearch(Algorithm):
                 5. Additional arguments.
 
         """
-        harmony = self.improvise(population, task)
-        harmony_fitness = task.eval(task.repair(harmony, self.rng))
+        harmony = task.repair(self.improvise(population, task), self.rng)
+        harmony_fitness = task.eval(harmony)
         iw = np.argmax(population_fitness)
         if harmony_fitness <= population_fitness[iw]:
             population[iw], population_fitness[iw] = harmony, harmony_fitness
-- 
2.43.0


From 57d1f712aafaf2e308d7feb5bd71ff5b0ac9c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 23/79] fix: HarrisHawksOptimization keeps the best candidate
 it evaluated when the budget runs out

---
 src/niapy/algorithms/basic/hho.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 581535b..7238f28 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -112,6 +112,15 @@ class HarrisHawksOptimization(Algorithm):
                 4. New global best fitness/objective value
 
         """
+        found_x, found_fitness = best_x, best_fitness
+
+        def evaluate(x):
+            nonlocal found_x, found_fitness
+            fitness = task.eval(x)
+            if fitness < found_fitness:
+                found_x, found_fitness = x.copy(), fitness
+            return fitness
+
         # Decreasing energy factor
         decreasing_energy_factor = 2 * (1 - (task.iters + 1) / task.max_iters)
         mean_sol = np.mean(population)
@@ -148,9 +157,9 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
+                if evaluate(cand1) < population_fitness[i]:
                     population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
+                elif evaluate(cand2) < population_fitness[i]:
                     population[i] = cand2
             elif escaping_energy_abs < 0.5 and random_number < 0.5:
                 # 5. Exploitation: Hard besiege with progressive rapid dives
@@ -158,19 +167,14 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
+                if evaluate(cand1) < population_fitness[i]:
                     population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
+                elif evaluate(cand2) < population_fitness[i]:
                     population[i] = cand2
             # Repair agent (from population) values
             population[i] = task.repair(population[i], rng=self.rng)
             # Eval population
-            population_fitness[i] = task.eval(population[i])
+            population_fitness[i] = evaluate(population[i])
         # Get best of population
-        best_index = np.argmin(population_fitness)
-        xb_cand = population[best_index].copy()
-        fxb_cand = population_fitness[best_index].copy()
-        if fxb_cand < best_fitness:
-            best_fitness = fxb_cand
-            best_x = xb_cand.copy()
+        best_x, best_fitness = found_x, found_fitness
         return population, population_fitness, best_x, best_fitness, {}
-- 
2.43.0


From 0cd3bdd4e9fbbfc7b2ca186fff1037c38fefa3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:09 +0000
Subject: [PATCH 24/79] fix: MantisSearchAlgorithm evaluates its initial
 population once and keeps it in problem space

---
 src/niapy/algorithms/basic/mshoa.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..748fbd5 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
-- 
2.43.0


From 589a9aa6821ed2db6ad667207e84a09ed144b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:09 +0000
Subject: [PATCH 25/79] fix: MantisSearchAlgorithm denormalised positions never
 leave the bounds

---
 src/niapy/algorithms/basic/mshoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 748fbd5..d89244e 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -177,7 +177,7 @@ class MantisSearchAlgorithm(Algorithm):
             numpy.ndarray: Position in real search space.
 
         """
-        return lower + (z_normalized + 1.0) * 0.5 * (upper - lower)
+        return np.clip(lower + (z_normalized + 1.0) * 0.5 * (upper - lower), lower, upper)
 
     def _normalize_from_real(self, x_real, lower, upper):
         r"""Convert real search space [lower, upper] to normalized space [-1, 1].
-- 
2.43.0


From 3e3bef4aaf402779767302759ab8ba0c7f568c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:09 +0000
Subject: [PATCH 26/79] fix: NelderMeadMethod repairs every point it evaluates
 and always has a simplex

---
 src/niapy/algorithms/other/nmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..b911c8e 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -120,7 +120,7 @@ class NelderMeadMethod(Algorithm):
                 2. New initialized population fitness/function values.
 
         """
-        population_size = task.dimension if population_size is None or population_size < task.dimension else population_size
+        population_size = max(2, task.dimension if population_size is None or population_size < task.dimension else population_size)
         population = self.uniform(task.lower, task.upper, (population_size, task.dimension))
         population_fitness = np.apply_along_axis(task.eval, 1, population)
         return population, population_fitness
@@ -140,25 +140,25 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
-        new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, population[0] + self.sigma * (population[1:] - population[0]), rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From 3b07d27568fbf851ec31ee18fb855d0d72844bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:09 +0000
Subject: [PATCH 27/79] fix: RandomSearch pairs its first solution with its
 fitness and runs without a budget

---
 src/niapy/algorithms/other/rs.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..002cd70 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -101,17 +101,26 @@ class RandomSearch(Algorithm):
         else:
             total_candidates = 0
         self.candidates = []
-        x = None
-        for i in range(total_candidates):
-            while True:
-                x = task.lower + task.range * self.random(task.dimension)
-                if not np.any([np.all(a == x) for a in self.candidates]):
-                    self.candidates.append(x)
-                    break
-
-        x_fit = task.eval(self.candidates[0])
+        for i in range(max(1, total_candidates)):
+            self.add_candidate(task)
+
+        x = self.candidates[0]
+        x_fit = task.eval(x)
         return x, x_fit, {}
 
+    def add_candidate(self, task):
+        r"""Draw a new candidate, distinct from the previous ones.
+
+        Args:
+            task (Task): Optimization task.
+
+        """
+        while True:
+            x = task.lower + task.range * self.random(task.dimension)
+            if not np.any([np.all(a == x) for a in self.candidates]):
+                self.candidates.append(x)
+                break
+
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
         r"""Core function of the algorithm.
 
@@ -133,6 +142,8 @@ class RandomSearch(Algorithm):
 
         """
         current_candidate = task.iters if task.max_iters != np.inf else task.evals
+        if current_candidate >= len(self.candidates):
+            self.add_candidate(task)
         x = self.candidates[current_candidate]
         x_fit = task.eval(x)
         best_x, best_fitness = self.get_best(x, x_fit, best_x, best_fitness)
-- 
2.43.0


From 52de70ee49fa98e10275467acc5864c24f786e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 28/79] fix: MTS local searches do not modify the caller's
 solution in place

---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..3f301cd 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -41,6 +41,7 @@ def mts_ls1(current_x, current_fitness, best_x, best_fitness, improve, search_ra
             6. Search range.
 
     """
+    current_x = np.copy(current_x)
     if not improve:
         search_range /= 2
         i_fix = np.argwhere(search_range < 1e-15)
@@ -106,6 +107,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             6. Search range.
 
     """
+    current_x = np.copy(current_x)
     if not improve:
         search_range /= 2
         i_fix = np.argwhere(search_range < 1e-15)
-- 
2.43.0


From a0120f3291bc8f1cf9601246e231c3c3a2749445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 29/79] fix: mts_ls1v1 reports the fitness of the solution it
 moved to

---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 3f301cd..c57f6b2 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -120,6 +120,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+            improve, current_fitness = True, new_fitness
         elif new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
@@ -128,6 +129,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+                improve, current_fitness = True, new_fitness
             elif new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
-- 
2.43.0


From a8f7edb472581b6b9c2d1af20a49d15498826137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 30/79] fix: mts_ls3 reports the fitness of the solution it
 returns

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index c57f6b2..7bca0dd 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -266,7 +266,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0


From 5aec4b4bd41ee8c595f2017777d5c161778242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:01 +0000
Subject: [PATCH 31/79] fix: LionOptimizationAlgorithm handles zero fitness
 values

---
 src/niapy/algorithms/basic/loa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 86edbe0..44de86e 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -378,7 +378,7 @@ class LionOptimizationAlgorithm(Algorithm):
             lion.x = np.copy(lion.current_x)
             lion.f = lion.current_f
 
-            improvement = 1 - lion.f / lion.previous_iter_best_f
+            improvement = 1 - lion.f / lion.previous_iter_best_f if lion.previous_iter_best_f != 0 else 0
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
             return task.repair(prey_x, rng=self.rng)
 
@@ -545,9 +545,10 @@ class LionOptimizationAlgorithm(Algorithm):
 
         for lion in nomads:
             best_nomad_fitness = np.min([c_l.current_f for c_l in nomads])
-            roaming_probability = 0.1 + np.minimum(
-                0.5, (lion.current_f - best_nomad_fitness) / best_nomad_fitness
-            )
+            gap = lion.current_f - best_nomad_fitness
+            if best_nomad_fitness != 0:
+                gap = gap / best_nomad_fitness
+            roaming_probability = 0.1 + np.minimum(0.5, gap)
 
             if self.random() <= roaming_probability:
                 lion.current_x = self.uniform(task.lower, task.upper, task.dimension)
-- 
2.43.0


From 7977209e641b2750a1298c087216471ce9f598bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 32/79] fix: LionOptimizationAlgorithm keeps prides and nomads
 apart when one of them is empty

---
 src/niapy/algorithms/basic/loa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 44de86e..9b74b4a 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -638,6 +638,7 @@ class LionOptimizationAlgorithm(Algorithm):
             idx += size
             num_males = gender_distribution[pride_i][0]
             if num_males == 0:
+                new_population.extend(pride)
                 continue
 
             males = [lion for lion in pride if lion.gender == "m"]
@@ -663,7 +664,7 @@ class LionOptimizationAlgorithm(Algorithm):
             new_population.extend(pride_cubs)
 
         nomad_size = pride_size[-1]
-        nomads = population[-nomad_size:]
+        nomads = population[len(population) - nomad_size:]
 
         nomad_males = [lion for lion in nomads if lion.gender == "m"]
         nomad_females = [lion for lion in nomads if lion.gender == "f"]
@@ -730,7 +731,7 @@ class LionOptimizationAlgorithm(Algorithm):
         moved_population.extend(original_pride_lions)
 
         original_nomads_size = pride_size[-1]
-        moved_population.extend(population[-original_nomads_size:])
+        moved_population.extend(population[len(population) - original_nomads_size:])
 
         for lion in new_nomads:
             excess[lion.pride][1] -= 1
@@ -747,7 +748,7 @@ class LionOptimizationAlgorithm(Algorithm):
             moved_population.append(lion)
 
         nomads_size = pride_size[-1]
-        nomads = moved_population[-nomads_size:]
+        nomads = moved_population[len(moved_population) - nomads_size:]
 
         for nomad in nomads:
             attack_mask = self.random(size=num_of_prides) < 0.5
@@ -992,7 +993,7 @@ class LionOptimizationAlgorithm(Algorithm):
         nomad_size = pride_size[-1]
         # Number of males and females that need to be removed.
         remove_females, remove_males = excess[-1]
-        nomads = population[-nomad_size:]
+        nomads = population[len(population) - nomad_size:]
         nomad_males = [nomad for nomad in nomads if nomad.gender == "m"]
         nomad_females = [nomad for nomad in nomads if nomad.gender == "f"]
 
-- 
2.43.0


From c150601f70de43255e5c792e3622b221a86a79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 33/79] fix: LionOptimizationAlgorithm cubs start from the
 repaired position that was evaluated

---
 src/niapy/algorithms/basic/loa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 9b74b4a..6b965f0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -604,7 +604,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.gender = gender
 
             cub.evaluate(task, rng=self.rng)
-            cub.current_x = x.copy()
+            cub.current_x = cub.x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
 
-- 
2.43.0


From 05214496028fff4cdb5e36bea0c5563c15d9d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 34/79] fix: LionOptimizationAlgorithm keeps the best lion even
 when it is not kept in the population

---
 src/niapy/algorithms/basic/loa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 6b965f0..a1d11bb 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -1045,6 +1045,7 @@ class LionOptimizationAlgorithm(Algorithm):
         lions = self.move_to_safe_place(lions, pride_size, task)
         lions = self.roaming(lions, pride_size, task)
         lions, excess = self.mating(lions, pride_size, gender_distribution, task)
+        best_x, best_fitness = self.get_best(lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness)
         lions, excess = self.defense(lions, pride_size, gender_distribution, excess)
         lions, excess = self.migration(lions, pride_size, gender_distribution, excess)
         lions = self.population_equilibrium(
-- 
2.43.0


From 5ddb727c965f8d1c9832fd7e111119be5bf7a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:21 +0000
Subject: [PATCH 35/79] fix: CatSwarmOptimization records a best cat found by
 tracing before seeking may replace it

---
 src/niapy/algorithms/basic/cso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index c0557c7..487459d 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -276,6 +276,8 @@ class CatSwarmOptimization(Algorithm):
                                                                                         pop_copies[k],
                                                                                         velocities[k],
                                                                                         best_x)
+                if population_fitness[k] < best_fitness:
+                    best_x, best_fitness = pop_copies[k].copy(), population_fitness[k]
         best_index = np.argmin(population_fitness)
         if population_fitness[best_index] < best_fitness:
             best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
-- 
2.43.0


From 58ab03828a38685616870881a70750a846e50c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:40 +0000
Subject: [PATCH 36/79] fix: AnarchicSocietyOptimization cut points cover every
 component, also in one dimension

---
 src/niapy/algorithms/other/aso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index 6c5d83e..e52b0ea 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -50,7 +50,7 @@ def _mp_c(x, f, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xn[b[0]:b[1]] + f * rng.standard_normal(b[1] - b[0])
     else:
         mask = rng.random(len(x)) < cr
@@ -77,13 +77,13 @@ def _mp_s(x, xr, xb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.25:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xb[b[0]:b[1]]
     elif mp < 0.5:
         mask = rng.random(len(x)) < cr
         xn[mask] = xb[mask]
     elif mp < 0.75:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xr[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
@@ -109,7 +109,7 @@ def _mp_p(x, xpb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x) + 1, 2, replace=False))
         xn[b[0]:b[1]] = xpb[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
-- 
2.43.0


From e1293ff8d40b5a7932069d77e0fc0d9637a75c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 37/79] fix: CoralReefsOptimization runs with an empty brooding
 or broadcasting group

---
 src/niapy/algorithms/basic/cro.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 3753ed7..83aaf82 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -29,7 +29,7 @@ def default_sexual_crossover(pop, p, task, rng, **_kwargs):
     """
     for i in range(len(pop) // 2):
         pop[i] = np.asarray([pop[i, d] if rng.random() < p else pop[i * 2, d] for d in range(task.dimension)])
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 def default_brooding(pop, p, task, rng, **_kwargs):
@@ -51,7 +51,7 @@ def default_brooding(pop, p, task, rng, **_kwargs):
         pop[i] = task.repair(np.asarray(
             [pop[i, d] if rng.random() < p else task.lower[d] + task.range[d] * rng.random() for d in
              range(task.dimension)]), rng=rng)
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 def move_corals(pop, p, f, task, rng, **_kwargs):
@@ -75,7 +75,7 @@ def move_corals(pop, p, f, task, rng, **_kwargs):
             np.asarray(
                 [pop[i, d] if rng.random() < p else pop[i, d] + f * rng.random() for d in range(task.dimension)]),
             rng=rng)
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 class CoralReefsOptimization(Algorithm):
@@ -254,7 +254,8 @@ class CoralReefsOptimization(Algorithm):
         """
         brooding_indices = np.argsort(reef_fitness)[:self.num_asexual_reproduction]
         new_reef, new_reef_fitness = self.brooding(reef[brooding_indices], self.mutation_rate, task, rng=self.rng)
-        best_x, best_fitness = self.get_best(new_reef, new_reef_fitness, best_x, best_fitness)
+        if len(new_reef) > 0:
+            best_x, best_fitness = self.get_best(new_reef, new_reef_fitness, best_x, best_fitness)
         reef, reef_fitness, best_x, best_fitness = self.settling(reef, reef_fitness, new_reef, new_reef_fitness, best_x,
                                                                  best_fitness, task)
         return reef, reef_fitness, best_x, best_fitness
@@ -272,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
                 2. Best individual fitness/function value
 
         """
-        depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
+        depredation_index = np.argsort(reef_fitness)[::-1][:min(self.num_depredation, len(reef) - 1)]
         return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
@@ -339,17 +340,19 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.basic.CoralReefsOptimization.brooding`
 
         """
-        broadcast_index = self.rng.choice(len(population), size=self.num_broadcast, replace=False)
+        broadcast_index = self.rng.choice(len(population), size=min(self.num_broadcast, len(population)), replace=False)
         reef_broadcast, reef_broadcast_fitness = self.sexual_crossover(population[broadcast_index],
                                                                        self.crossover_rate,
                                                                        task,
                                                                        rng=self.rng)
-        best_x, best_fitness = self.get_best(reef_broadcast, reef_broadcast_fitness, best_x, best_fitness)
+        if len(reef_broadcast) > 0:
+            best_x, best_fitness = self.get_best(reef_broadcast, reef_broadcast_fitness, best_x, best_fitness)
         reef_brooding, reef_brooding_fitness = self.brooding(np.delete(population, broadcast_index, 0),
                                                              self.mutation_rate,
                                                              task,
                                                              rng=self.rng)
-        best_x, best_fitness = self.get_best(reef_brooding, reef_brooding_fitness, best_x, best_fitness)
+        if len(reef_brooding) > 0:
+            best_x, best_fitness = self.get_best(reef_brooding, reef_brooding_fitness, best_x, best_fitness)
         new_reef, new_reef_fitness, best_x, best_fitness = self.settling(population,
                                                                          population_fitness,
                                                                          np.append(reef_broadcast, reef_brooding, 0),
-- 
2.43.0


From bffa2037cccfc6e191cbc2ba6136ff2a8b482fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:21 +0000
Subject: [PATCH 38/79] fix: SimulatedAnnealing accepts worse solutions less
 often the worse they are

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..a32dba0 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -196,7 +196,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or r < np.exp(delta_fit / current_temperature):
+        if delta_fit < 0 or (current_temperature > 0 and r < np.exp(-delta_fit / current_temperature)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From 0bcf3e517a0798e21e3187e9e4379db7aedbdceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 39/79] fix: Individual copies keep their fitness and
 unevaluated individuals are never the best

---
 src/niapy/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index b606d7c..4139bf6 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -361,7 +361,7 @@ class Individual:
             e (Optional[bool]): True to evaluate the individual on initialization. Default value is True.
 
         """
-        self.f = task.optimization_type.value * np.inf if task is not None else np.inf
+        self.f = kwargs.get('f', np.inf)
         if x is not None:
             self.x = x if isinstance(x, np.ndarray) else np.asarray(x)
         elif task is not None:
-- 
2.43.0


From 4a34c2fd4da5edce1b63d893288df3184233fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 40/79] fix: a successful run clears the exception of a
 previous failed run

---
 src/niapy/algorithms/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index 4139bf6..6108151 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -306,6 +306,7 @@ class Algorithm:
             * :func:`niapy.algorithms.Algorithm.run_iteration`
 
         """
+        self.exception = None
         try:
             self.callbacks.before_run()
             pop, fpop, params = self.init_population(task)
-- 
2.43.0


From 0f91c265f84c412d2f7c870e56e6442c2ed42164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 41/79] fix: convergence data over evaluations reports true
 objective values when maximizing

---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From ddeeb6508e6a855b6f65d7e6f0ee9d99ad55dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 42/79] fix: BacterialForagingOptimization restarts its step
 counters with every run

---
 src/niapy/algorithms/basic/bfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..bf9c04b 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -180,6 +180,7 @@ class BacterialForagingOptimization(Algorithm):
 
         """
         pop, fpop, d = super().init_population(task)
+        self.i = self.j = self.k = 0
         d.update({
             'cost': np.zeros(self.population_size, dtype=np.float64),
             'health': np.zeros(self.population_size, dtype=np.float64)
-- 
2.43.0


From 3a1e79f1394a4ae00b0aa6c6b3b353459f86b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 43/79] fix: EvolutionStrategyMp1 set_parameters does not pass
 itself as mu

---
 src/niapy/algorithms/basic/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 508b607..c17a493 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From 19b94c526d6f252f030371ff97693ab9ebd7078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 44/79] fix: MultipleTrajectorySearchV1 set_parameters applies
 the given parameters

---
 src/niapy/algorithms/other/mts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 7bca0dd..43be97f 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -657,4 +657,7 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches,
+                               num_searches_best=0, num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2,
+                               local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From 061bc59d434df177aa2c3646c8ef64516b79373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 45/79] fix: full_array accepts numpy scalars

---
 src/niapy/util/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/util/array.py b/src/niapy/util/array.py
index 293814a..1f98f74 100644
--- a/src/niapy/util/array.py
+++ b/src/niapy/util/array.py
@@ -14,7 +14,7 @@ def full_array(a, dimension):
         numpy.ndarray: Array filled with passed values or value.
 
     """
-    if isinstance(a, (int, float)):
+    if isinstance(a, (int, float, np.number)):
         out = np.ones(dimension) * a
     elif isinstance(a, (np.ndarray, list, tuple)):
         if len(a) == dimension:
-- 
2.43.0


From 797a20b732d9ad52e3bf6d1d107dd4b4e5f5e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 46/79] fix: get_algorithm knows MantisSearchAlgorithm and
 ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution

---
 src/niapy/util/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/factory.py b/src/niapy/util/factory.py
index 8b6f4eb..7776167 100644
--- a/src/niapy/util/factory.py
+++ b/src/niapy/util/factory.py
@@ -152,6 +152,7 @@ def _algorithm_options():
         "HarrisHawksOptimization": basic_algorithms.HarrisHawksOptimization,
         "ClonalSelectionAlgorithm": basic_algorithms.ClonalSelectionAlgorithm,
         "LionOptimizationAlgorithm": basic_algorithms.LionOptimizationAlgorithm,
+        "MantisSearchAlgorithm": basic_algorithms.MantisSearchAlgorithm,
         "HybridBatAlgorithm": modified_algorithms.HybridBatAlgorithm,
         "AdaptiveBatAlgorithm": modified_algorithms.AdaptiveBatAlgorithm,
         "SelfAdaptiveBatAlgorithm": modified_algorithms.SelfAdaptiveBatAlgorithm,
@@ -169,6 +170,7 @@ def _algorithm_options():
         "MultiStrategySelfAdaptiveDifferentialEvolution": modified_algorithms.MultiStrategySelfAdaptiveDifferentialEvolution,
         "SuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.SuccessHistoryAdaptiveDifferentialEvolution,
         "LpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.LpsrSuccessHistoryAdaptiveDifferentialEvolution,
+        "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution,
         "NelderMeadMethod": other_algorithms.NelderMeadMethod,
         "HillClimbAlgorithm": other_algorithms.HillClimbAlgorithm,
         "SimulatedAnnealing": other_algorithms.SimulatedAnnealing,
-- 
2.43.0


From a3623ac50ff0741305c9fc04bea964a76fc207b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 47/79] fix: Runner accepts a single algorithm or problem name,
 as its defaults are

---
 src/niapy/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 0cd3319..958a716 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -49,8 +49,8 @@ class Runner:
         self.dimension = dimension
         self.max_evals = max_evals
         self.runs = runs
-        self.algorithms = algorithms
-        self.problems = problems
+        self.algorithms = [algorithms] if isinstance(algorithms, str) else algorithms
+        self.problems = [problems] if isinstance(problems, str) else problems
         self.results = {}
 
     def task_factory(self, name):
-- 
2.43.0


From 109a17c9c64b286fb14f116eb8480da7936ed377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 48/79] fix: dynamic fireworks keep their own copy of the best
 solution

---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 3b9171c..64b514c 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -728,7 +728,7 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         if xnb_f[ib_f] <= xb_f:
             xb, xb_f = xnb[ib_f], xnb_f[ib_f]
         if xb_f >= xcb_f:
-            xb, xb_f, amplitude_cf = xcb, xcb_f, amplitude_cf * self.amplification_coeff
+            xb, xb_f, amplitude_cf = xcb.copy(), xcb_f, amplitude_cf * self.amplification_coeff
         else:
             amplitude_cf = amplitude_cf * self.reduction_coeff
         return xb, xb_f, amplitude_cf
-- 
2.43.0


From 00631f330ebac5828b48b138f29d6d7d01863e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:46 +0000
Subject: [PATCH 49/79] fix: Alpine1 follows its documented formula

---
 src/niapy/problems/alpine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/alpine.py b/src/niapy/problems/alpine.py
index 934ab83..56ccd80 100644
--- a/src/niapy/problems/alpine.py
+++ b/src/niapy/problems/alpine.py
@@ -70,7 +70,7 @@ class Alpine1(Problem):
         return r'''$f(\mathbf{x}) = \sum_{i=1}^{D} \lvert x_i \sin(x_i)+0.1x_i \rvert$'''
 
     def _evaluate(self, x):
-        return np.sum(np.abs(np.sin(x) + 0.1 * x))
+        return np.sum(np.abs(x * np.sin(x) + 0.1 * x))
 
 
 class Alpine2(Problem):
-- 
2.43.0


From 05d4489baa75987000386cf7ae64bb9f3825071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:15 +0000
Subject: [PATCH 50/79] fix: Discus squares its first component

---
 src/niapy/problems/discus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/discus.py b/src/niapy/problems/discus.py
index e3df6f0..bf7fba8 100644
--- a/src/niapy/problems/discus.py
+++ b/src/niapy/problems/discus.py
@@ -69,4 +69,4 @@ class Discus(Problem):
         return r'''$f(\textbf{x}) = x_1^2 10^6 + \sum_{i=2}^D x_i^2$'''
 
     def _evaluate(self, x):
-        return x[0] * 1000000 + np.sum(np.square(x[1:]))
+        return x[0] ** 2 * 1000000 + np.sum(np.square(x[1:]))
-- 
2.43.0


From 585c64a2b32cade407f22c2cf45fdb8488c80be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 51/79] fix: DixonPrice sums all of its documented terms

---
 src/niapy/problems/dixon_price.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/dixon_price.py b/src/niapy/problems/dixon_price.py
index e9a3888..3c0d6b3 100644
--- a/src/niapy/problems/dixon_price.py
+++ b/src/niapy/problems/dixon_price.py
@@ -69,6 +69,6 @@ class DixonPrice(Problem):
         return r'''$f(\textbf{x}) = (x_1 - 1)^2 + \sum_{i = 2}^D i (2x_i^2 - x_{i - 1})^2$'''
 
     def _evaluate(self, x):
-        indices = np.arange(2, self.dimension)
-        val = np.sum(indices * (2 * x[2:] ** 2 - x[1:self.dimension - 1]) ** 2)
+        indices = np.arange(2, self.dimension + 1)
+        val = np.sum(indices * (2 * x[1:] ** 2 - x[:-1]) ** 2)
         return (x[0] - 1) ** 2 + val
-- 
2.43.0


From 3fb3909bbb0f4db3cd77ad87b6b11a5cf44ca508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 52/79] fix: Katsuura uses the distance to the nearest integer

---
 src/niapy/problems/katsuura.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/problems/katsuura.py b/src/niapy/problems/katsuura.py
index c33afe3..b88e48e 100644
--- a/src/niapy/problems/katsuura.py
+++ b/src/niapy/problems/katsuura.py
@@ -69,5 +69,6 @@ class Katsuura(Problem):
     def _evaluate(self, x):
         k = np.atleast_2d(np.arange(1, 33)).T
         i = np.arange(1, self.dimension + 1)
-        inner = np.round(2 ** k * x) * (2.0 ** (-k))
+        scaled = 2.0 ** k * x
+        inner = np.abs(scaled - np.round(scaled)) * (2.0 ** (-k))
         return np.prod(np.sum(inner, axis=0) * i + 1)
-- 
2.43.0


From 0c1ddec1c82932c17f5704506ac93292f282053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 53/79] fix: Perm raises every component to the power of the
 outer index

---
 src/niapy/problems/perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/perm.py b/src/niapy/problems/perm.py
index 3aeeb46..0eb27a6 100644
--- a/src/niapy/problems/perm.py
+++ b/src/niapy/problems/perm.py
@@ -73,5 +73,5 @@ class Perm(Problem):
         ii = np.arange(1, self.dimension + 1)
         jj = np.tile(ii, (self.dimension, 1))
         x_matrix = np.tile(x, (self.dimension, 1))
-        inner = np.sum((jj + self.beta) * (np.power(x_matrix, ii) - np.power(1.0 / jj, ii)), axis=0)
+        inner = np.sum((jj + self.beta) * (np.power(x_matrix, jj.T) - np.power(1.0 / jj, jj.T)), axis=1)
         return np.sum(inner ** 2)
-- 
2.43.0


From 271ed789d037f8d29690d8485a65449982e1875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 54/79] fix: ModifiedSchwefel selects its branches by the
 shifted variable

---
 src/niapy/problems/schwefel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/schwefel.py b/src/niapy/problems/schwefel.py
index 6e59860..fdd593e 100644
--- a/src/niapy/problems/schwefel.py
+++ b/src/niapy/problems/schwefel.py
@@ -262,8 +262,8 @@ class ModifiedSchwefel(Problem):
 
     def _evaluate(self, x):
         xx = x + 420.9687462275036
-        conditions = [x > 500.0, x < -500.0]
-        xx_mod = np.fmod(xx, 500.0)
+        conditions = [xx > 500.0, xx < -500.0]
+        xx_mod = np.fmod(np.abs(xx), 500.0)
         choices = [(500.0 - xx_mod) * np.sin(np.sqrt(np.abs(500.0 - xx_mod))) - (xx - 500.0) ** 2 / (10000 * self.dimension),
                    (xx_mod - 500.0) * np.sin(np.sqrt(np.abs(xx_mod - 500.0))) + (xx - 500.0) ** 2 / (10000 * self.dimension)]
         default = xx * np.sin(np.sqrt(np.abs(xx)))
-- 
2.43.0


From fe7a03b66395e3cee92fd904bea2e830ea47b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 55/79] fix: ExpandedGriewankPlusRosenbrock follows its
 documented formula

---
 src/niapy/problems/griewank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/griewank.py b/src/niapy/problems/griewank.py
index e478a1c..251eaa9 100644
--- a/src/niapy/problems/griewank.py
+++ b/src/niapy/problems/griewank.py
@@ -138,6 +138,6 @@ class ExpandedGriewankPlusRosenbrock(Problem):
         return r'''$f(\textbf{x}) = h(g(x_D, x_1)) + \sum_{i=2}^D h(g(x_{i - 1}, x_i)) \\ g(x, y) = 100 (x^2 - y)^2 + (x - 1)^2 \\ h(z) = \frac{z^2}{4000} - \cos \left( \frac{z}{\sqrt{1}} \right) + 1$'''
 
     def _evaluate(self, x):
-        x1 = 100.0 * (x[1:] - x[:-1] ** 2.0) ** 2.0 + (1 - x[:-1]) ** 2.0
-        x2 = x1 * x1 / 4000.0 - np.cos(x1 / np.sqrt(np.arange(1, self.dimension)))
+        x1 = 100.0 * (x ** 2.0 - np.roll(x, -1)) ** 2.0 + (x - 1) ** 2.0
+        x2 = x1 * x1 / 4000.0 - np.cos(x1) + 1
         return np.sum(x2)
-- 
2.43.0


From 65c7941478eb4ebfd9f4fe4bd51138b153a57ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 56/79] fix: LionOptimizationAlgorithm measures distances
 against the whole search space

---
 src/niapy/algorithms/basic/loa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index a1d11bb..21cca2e 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -428,7 +428,7 @@ class LionOptimizationAlgorithm(Algorithm):
         """
         num_of_prides = len(pride_size) - 1
         index_counter = 0
-        search_range = np.linalg.norm(task.upper[0] - task.lower[0])
+        search_range = np.linalg.norm(task.upper - task.lower)
 
         for pride_idx in range(num_of_prides):
             curr_pride_size = pride_size[pride_idx]
@@ -505,7 +505,7 @@ class LionOptimizationAlgorithm(Algorithm):
         """
         num_of_prides = len(pride_size) - 1
         index_counter = 0
-        search_range = np.linalg.norm(task.upper[0] - task.lower[0])
+        search_range = np.linalg.norm(task.upper - task.lower)
 
         # Pride lions roam
         for pride_idx in range(num_of_prides):
-- 
2.43.0


From 5d8b67dd1ef9bbe91d58bb3833347bd398ba7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 57/79] fix: MantisSearchAlgorithm normalises components with
 equal bounds

---
 src/niapy/algorithms/basic/mshoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index d89244e..fb7fc40 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -191,7 +191,7 @@ class MantisSearchAlgorithm(Algorithm):
             numpy.ndarray: Position in normalized space.
 
         """
-        return 2.0 * (x_real - lower) / (upper - lower) - 1.0
+        return 2.0 * (x_real - lower) / np.where(upper > lower, upper - lower, 1.0) - 1.0
 
     def _determine_polarization_type_vectorized(self, angles):
         r"""Determine polarization type based on angles (Eq. 5 in paper) - Vectorized.
-- 
2.43.0


From ff00bb9d9fab53d65d686163b98828535b7ab085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:49 +0000
Subject: [PATCH 58/79] fix: BacterialForagingOptimization reproduction keeps
 odd population sizes

---
 src/niapy/algorithms/basic/bfo.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index bf9c04b..08c6c5a 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -273,14 +273,12 @@ class BacterialForagingOptimization(Algorithm):
 
             # Reproduction
             sorted_indices = np.argsort(health)
+            # the healthier half replaces the other one, the middle one of an odd population survives alone
+            survivors = sorted_indices[:(len(population) + 1) // 2]
+            sorted_indices = np.tile(survivors, 2)[:len(population)]
             population = population[sorted_indices]
             population_fitness = population_fitness[sorted_indices]
             cost = cost[sorted_indices]
-
-            population = np.tile(population[:self.population_size // 2], (2, 1))
-            population_fitness = np.tile(population_fitness[:self.population_size // 2], 2)
-            cost = np.tile(cost[:self.population_size // 2], 2)
-
             health = np.zeros(len(population), dtype=np.float64)
 
         if self.j >= self.n_reproduction:
-- 
2.43.0


From d36f57163453bebdddb9bab3d81b488906d7804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 59/79] fix: Levy squares the sine of its middle terms, as
 documented

---
 src/niapy/problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/levy.py b/src/niapy/problems/levy.py
index ce98134..3579247 100644
--- a/src/niapy/problems/levy.py
+++ b/src/niapy/problems/levy.py
@@ -72,6 +72,6 @@ class Levy(Problem):
         w = 1 + (x - 1) / 4
         term1 = np.sin(np.pi * w[0]) ** 2
         wi = w[:-1]
-        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1)))
+        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1) ** 2))
         term3 = (w[-1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[-1]) ** 2)
         return term1 + term2 + term3
-- 
2.43.0


From 19c30106b683be3b519d3fd762a6af1df992adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:08 +0000
Subject: [PATCH 60/79] fix: documented formulas, domains and optima match the
 benchmark functions

---
 src/niapy/problems/alpine.py      | 2 +-
 src/niapy/problems/griewank.py    | 2 +-
 src/niapy/problems/michalewicz.py | 2 +-
 src/niapy/problems/perm.py        | 2 +-
 src/niapy/problems/schaffer.py    | 2 +-
 src/niapy/problems/schwefel.py    | 2 +-
 src/niapy/problems/sphere.py      | 2 +-
 src/niapy/problems/stepint.py     | 4 ++--
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/niapy/problems/alpine.py b/src/niapy/problems/alpine.py
index 56ccd80..3c5a054 100644
--- a/src/niapy/problems/alpine.py
+++ b/src/niapy/problems/alpine.py
@@ -90,7 +90,7 @@ class Alpine2(Problem):
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [0, 10]`, for all :math:`i = 1, 2,..., D`.
 
-        **Global minimum:** :math:`f(x^*) = 2.808^D`, at :math:`x^* = (7.917,...,7.917)`
+        **Global maximum:** :math:`f(x^*) = 2.808^D`, at :math:`x^* = (7.917,...,7.917)`
 
     LaTeX formats:
         Inline:
diff --git a/src/niapy/problems/griewank.py b/src/niapy/problems/griewank.py
index 251eaa9..26c2b87 100644
--- a/src/niapy/problems/griewank.py
+++ b/src/niapy/problems/griewank.py
@@ -96,7 +96,7 @@ class ExpandedGriewankPlusRosenbrock(Problem):
         evaluated on the hypercube :math:`x_i ∈ [-100, 100]`, for all :math:`i = 1, 2,..., D`.
 
         **Global minimum:**
-        :math:`f(x^*) = 0`, at :math:`x_i^* = 0`
+        :math:`f(x^*) = 0`, at :math:`x_i^* = 1`
 
     LaTeX formats:
         Inline:
diff --git a/src/niapy/problems/michalewicz.py b/src/niapy/problems/michalewicz.py
index ecb088a..efef810 100644
--- a/src/niapy/problems/michalewicz.py
+++ b/src/niapy/problems/michalewicz.py
@@ -20,7 +20,7 @@ class Michalewicz(Problem):
     Function:
     **High Conditioned Elliptic Function**
 
-        :math:`f(\textbf{x}) = \sum_{i=1}^D \left( 10^6 \right)^{ \frac{i - 1}{D - 1} } x_i^2`
+        :math:`f(\textbf{x}) = - \sum_{i=1}^D \sin(x_i) \sin^{2m} \left( \frac{i x_i^2}{\pi} \right)`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
diff --git a/src/niapy/problems/perm.py b/src/niapy/problems/perm.py
index 0eb27a6..35d4ecf 100644
--- a/src/niapy/problems/perm.py
+++ b/src/niapy/problems/perm.py
@@ -20,7 +20,7 @@ class Perm(Problem):
     Function:
     **Perm Function**
 
-        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
+        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
diff --git a/src/niapy/problems/schaffer.py b/src/niapy/problems/schaffer.py
index 735d2ea..e585e92 100644
--- a/src/niapy/problems/schaffer.py
+++ b/src/niapy/problems/schaffer.py
@@ -87,7 +87,7 @@ class SchafferN4(Problem):
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [-100, 100]`, for all :math:`i = 1, 2`.
 
-    **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (0, 0)`
+    **Global minimum:** :math:`f(x^*) = 0.292579`, at :math:`x^* = (0, \pm 1.253115), (\pm 1.253115, 0)`
 
     LaTeX formats:
         Inline:
diff --git a/src/niapy/problems/schwefel.py b/src/niapy/problems/schwefel.py
index fdd593e..018d01a 100644
--- a/src/niapy/problems/schwefel.py
+++ b/src/niapy/problems/schwefel.py
@@ -219,7 +219,7 @@ class ModifiedSchwefel(Problem):
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [-100, 100]`, for all :math:`i = 1, 2,..., D`.
 
-        **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (420.968746,...,420.968746)`
+        **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (0,...,0)`
 
     LaTeX formats:
         Inline:
diff --git a/src/niapy/problems/sphere.py b/src/niapy/problems/sphere.py
index 9a93a54..ce8f208 100644
--- a/src/niapy/problems/sphere.py
+++ b/src/niapy/problems/sphere.py
@@ -23,7 +23,7 @@ class Sphere(Problem):
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
-        evaluated on the hypercube :math:`x_i ∈ [0, 10]`, for all :math:`i = 1, 2,..., D`.
+        evaluated on the hypercube :math:`x_i ∈ [-5.12, 5.12]`, for all :math:`i = 1, 2,..., D`.
 
         **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (0,...,0)`
 
diff --git a/src/niapy/problems/stepint.py b/src/niapy/problems/stepint.py
index b58bfb3..f9f82fa 100644
--- a/src/niapy/problems/stepint.py
+++ b/src/niapy/problems/stepint.py
@@ -19,13 +19,13 @@ class Stepint(Problem):
 
     Function: **Stepint function**
 
-        :math:`f(\mathbf{x}) = \sum_{i=1}^D x_i^2`
+        :math:`f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [-5.12, 5.12]`, for all :math:`i = 1, 2,..., D`.
 
-        **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (-5.12,...,-5.12)`
+        **Global minimum:** :math:`f(x^*) = 25 - 6D`, at :math:`x^* = (-5.12,...,-5.12)`
 
     LaTeX formats:
         Inline:
-- 
2.43.0


From 2f1c732f4769308c21a2e3d6d133ddcdabc2e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:04 +0000
Subject: [PATCH 61/79] fix: CosineMixture documents its actual global maximum

---
 src/niapy/problems/cosine_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/cosine_mixture.py b/src/niapy/problems/cosine_mixture.py
index 780b383..6026ee9 100644
--- a/src/niapy/problems/cosine_mixture.py
+++ b/src/niapy/problems/cosine_mixture.py
@@ -27,7 +27,7 @@ class CosineMixture(Problem):
         evaluated on the hypercube :math:`x_i ∈ [-1, 1]`, for all :math:`i = 1, 2,..., D`.
 
         **Global maximum:**
-        :math:`f(x^*) = -0.1 D`, at :math:`x^* = (0.0,...,0.0)`
+        :math:`f(x^*) \approx 0.0630122 D`, at :math:`x^* \approx (0.1848728,...,0.1848728)`
 
     LaTeX formats:
         Inline:
-- 
2.43.0


From 7a09c1d312040ff6250bc703bbec7c265c208e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:12 +0000
Subject: [PATCH 62/79] fix: the parser's default problem is Ackley, as
 documented

---
 src/niapy/util/argparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/util/argparser.py b/src/niapy/util/argparser.py
index 175dc29..9481e4a 100644
--- a/src/niapy/util/argparser.py
+++ b/src/niapy/util/argparser.py
@@ -80,7 +80,7 @@ def get_argparser():
     """
     parser, problem_names = ArgumentParser(description='Runner example.'), _get_problem_names()
     parser.add_argument('-a', '--algorithm', dest='algo', default='jDE', type=str)
-    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default=problem_names[0], choices=problem_names, type=str)
+    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default='Ackley', choices=problem_names, type=str)
     parser.add_argument('-d', '--dimension', dest='dimension', default=10, type=int)
     parser.add_argument('--max-evals', dest='max_evals', default=np.inf, type=int)
     parser.add_argument('--max-iters', dest='max_iters', default=np.inf, type=int)
-- 
2.43.0


From cb67a2523de9d8787454acf2aec7104aa91e8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 63/79] fix: every Runner.run collects into results of its own

---
 src/niapy/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 958a716..e528645 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -104,6 +104,7 @@ class Runner:
             TypeError: Raises TypeError if export type is not supported
 
         """
+        self.results = {}
         for alg in self.algorithms:
             if not isinstance(alg, "".__class__):
                 alg_name = str(type(alg).__name__)
-- 
2.43.0


From 58b1740a3ae6b7bc2a5d1f935165994e09cb7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 64/79] fix: GSO: select the neighbour by its own probability,
 so the neighbourhood settings take effect

---
 src/niapy/algorithms/basic/gso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gso.py b/src/niapy/algorithms/basic/gso.py
index 772e239..68c95a2 100644
--- a/src/niapy/algorithms/basic/gso.py
+++ b/src/niapy/algorithms/basic/gso.py
@@ -177,7 +177,7 @@ class GlowwormSwarmOptimization(Algorithm):
         """
         r, b_l, b_u = self.random(), 0, 0
         for j in range(self.population_size):
-            b_l, b_u = b_u, b_u + pb[i]
+            b_l, b_u = b_u, b_u + pb[j]
             if b_l < r < b_u:
                 return j
         return self.integers(self.population_size)
-- 
2.43.0


From d6d1f1811611d92c2bd317616c36da5dad8b8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 65/79] fix: SCA: r1 decreases from a over the run instead of
 being zero

---
 src/niapy/algorithms/basic/sca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/sca.py b/src/niapy/algorithms/basic/sca.py
index 50aab39..fe2db77 100644
--- a/src/niapy/algorithms/basic/sca.py
+++ b/src/niapy/algorithms/basic/sca.py
@@ -151,7 +151,7 @@ class SineCosineAlgorithm(Algorithm):
                 5. Additional arguments.
 
         """
-        r1 = self.a - (task.iters + 1) * (self.a / (task.iters + 1))
+        r1 = self.a - (task.iters + 1) * (self.a / task.max_iters)
         r2 = self.uniform(0, 2 * np.pi)
         r3 = self.uniform(self.r_min, self.r_max)
         r4 = self.random()
-- 
2.43.0


From db4484dcec53cc93772384897063141180d51b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 66/79] fix: ANpDE: delta_np below one is not truncated to zero

---
 src/niapy/algorithms/basic/de.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index a5e42b4..34eb720 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -723,10 +723,10 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
             t (int): Number of generations made by the algorithm.
 
         Returns:
-            int: Number of individuals to dye.
+            float: Share of the individuals to die.
 
         """
-        return int(self.delta_np * abs(np.sin(t)))
+        return self.delta_np * abs(np.sin(t))
 
     def delta_pop_created(self, t):
         r"""Calculate how many individuals are going to be created.
@@ -735,10 +735,10 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
             t (int): Number of generations made by the algorithm.
 
         Returns:
-            int: Number of individuals to be born.
+            float: Share of the individuals to be born.
 
         """
-        return int(self.delta_np * abs(np.cos(t)))
+        return self.delta_np * abs(np.cos(t))
 
     def aging(self, task, pop):
         r"""Apply aging to individuals.
-- 
2.43.0


From cac198f6cf3b04896c6fe52d9de46bbb6b634f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 67/79] fix: CLPSO: count the refresh gap, so that m, c1 and c2
 take effect

---
 src/niapy/algorithms/basic/pso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 0d15f69..b587308 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -1153,10 +1153,12 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             pbest = self.generate_personal_best_cl(i, pc[i], personal_best, personal_best_fitness)
             v[i] = self.update_velocity_cl(v[i], pop[i], pbest, w, min_velocity, max_velocity, task)
             pop[i] = pop[i] + v[i]
+            flag[i] += 1
             if task.is_feasible(pop[i]):
                 fpop[i] = task.eval(pop[i])
                 if fpop[i] < personal_best_fitness[i]:
                     personal_best[i], personal_best_fitness[i] = pop[i].copy(), fpop[i]
+                    flag[i] = 0
                     if fpop[i] < fxb:
                         xb, fxb = pop[i].copy(), fpop[i]
         return pop, fpop, xb, fxb, {'personal_best': personal_best, 'personal_best_fitness': personal_best_fitness,
-- 
2.43.0


From 84a38aaf54b51b82884752d45354954560d1773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 68/79] fix: MTS: grade local searches with the given bonuses
 and use the best graded one

---
 src/niapy/algorithms/other/mts.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 43be97f..f0498ec 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -461,16 +461,15 @@ class MultipleTrajectorySearch(Algorithm):
                 4. Global best solutions fitness/function value.
 
         """
-        ls_grades, new_x = np.zeros(3), [[x, x_f]] * len(self.local_searches)
-        k = None
+        ls_grades, new_x = np.zeros(len(self.local_searches)), [[x, x_f]] * len(self.local_searches)
         for k in range(len(self.local_searches)):
             for _ in range(self.num_tests):
                 new_x[k][0], new_x[k][1], xb, fxb, improve, g, search_range = self.local_searches[k](new_x[k][0], new_x[k][1], xb, fxb, improve, search_range,
-                                                                                                     task, BONUS1=self.bonus1, BONUS2=self.bonus2,
+                                                                                                     task, bonus1=self.bonus1, bonus2=self.bonus2,
                                                                                                      rng=self.rng)
                 ls_grades[k] += g
         xn, xn_f = min(new_x, key=lambda val: val[1])
-        return xn, xn_f, xb, fxb, k
+        return xn, xn_f, xb, fxb, int(np.argmax(ls_grades))
 
     def run_local_search(self, k, x, x_f, xb, fxb, improve, search_range, g, task):
         r"""Run a selected local search.
-- 
2.43.0


From 2f98eaafba665afe84714a33481fb73d3adf2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 69/79] fix: Nelder-Mead: expand when the reflected point is
 the best, so gamma takes effect

---
 src/niapy/algorithms/other/nmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b911c8e..8e4a3b4 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -142,7 +142,7 @@ class NelderMeadMethod(Algorithm):
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
         xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
-        if population_fitness[0] >= rs < population_fitness[-2]:
+        if population_fitness[0] <= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-- 
2.43.0


From fe434adbeb365fc34a322fd3da48b65bb9d89f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 70/79] fix: ASO: a box with a single point has no diameter to
 divide by

---
 src/niapy/algorithms/other/aso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index e52b0ea..4112cec 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -531,7 +531,7 @@ class AnarchicSocietyOptimization(Algorithm):
         alpha, gamma, theta = self._init_params(self.population_size)
         personal_best = population.copy()
         personal_best_fitness = population_fitness.copy()
-        rs = self.dn(task.upper, task.lower)
+        rs = self.dn(task.upper, task.lower) or 1.0
         state.update({
             'personal_best': personal_best,
             'personal_best_fitness': personal_best_fitness,
-- 
2.43.0


From ae8befda34a70107e5279eb8df026e7536762bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 71/79] fix: LOA: a box with a single point has no range to
 divide by

---
 src/niapy/algorithms/basic/loa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 21cca2e..f46e554 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -428,7 +428,7 @@ class LionOptimizationAlgorithm(Algorithm):
         """
         num_of_prides = len(pride_size) - 1
         index_counter = 0
-        search_range = np.linalg.norm(task.upper - task.lower)
+        search_range = np.linalg.norm(task.upper - task.lower) or 1.0
 
         for pride_idx in range(num_of_prides):
             curr_pride_size = pride_size[pride_idx]
@@ -505,7 +505,7 @@ class LionOptimizationAlgorithm(Algorithm):
         """
         num_of_prides = len(pride_size) - 1
         index_counter = 0
-        search_range = np.linalg.norm(task.upper - task.lower)
+        search_range = np.linalg.norm(task.upper - task.lower) or 1.0
 
         # Pride lions roam
         for pride_idx in range(num_of_prides):
-- 
2.43.0


From 173a19d7595428158ce601e43e92817cdddf6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 72/79] fix: Random search: stop looking for a new candidate
 when the box has no other point

---
 src/niapy/algorithms/other/rs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 002cd70..5983d5b 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -115,11 +115,11 @@ class RandomSearch(Algorithm):
             task (Task): Optimization task.
 
         """
-        while True:
+        for _ in range(10):
             x = task.lower + task.range * self.random(task.dimension)
             if not np.any([np.all(a == x) for a in self.candidates]):
-                self.candidates.append(x)
                 break
+        self.candidates.append(x)
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
         r"""Core function of the algorithm.
-- 
2.43.0


From 3acdc2620830bfa9dd6f4f5b0285dc8969363995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 73/79] fix: KrillHerd food location is defined for fitness
 values too small to invert

---
 src/niapy/algorithms/basic/kh.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 6358bef..4c9c4c5 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -349,9 +349,8 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        weights = (population_fitness == 0).astype(float)
-        if not np.any(weights):
-            weights = 1 / population_fitness
+        smallest = np.amin(np.abs(population_fitness))
+        weights = (population_fitness == 0).astype(float) if smallest == 0 else smallest / population_fitness
         if np.sum(weights) == 0:
             weights = np.ones(len(population))
         x_food = task.repair(np.sum(population.T * weights, axis=1) / np.sum(weights), rng=self.rng)
-- 
2.43.0


From 97d36e80b001f2701bc3fa2f4162f874d5b530b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:46 +0000
Subject: [PATCH 74/79] fix: ASO: the fickleness index does not depend on the
 sign of a zero fitness

---
 src/niapy/algorithms/other/aso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index 4112cec..d5271a2 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -416,6 +416,7 @@ class AnarchicSocietyOptimization(Algorithm):
             float: Fickleness index value.
 
         """
+        x_f = x_f + 0.0  # a zero has no direction
         return 1.0 - alpha * xb_f / x_f - (1.0 - alpha) * xpb_f / x_f
 
     def _ei(self, x_f, xnb_f, gamma):
-- 
2.43.0


From 5d4265480982aa25f8479627468585f62c893e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 75/79] fix: HBA local search passes rng and best to the
 mutation strategy by name

---
 src/niapy/algorithms/modified/hba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/hba.py b/src/niapy/algorithms/modified/hba.py
index c047ba2..6aa15cc 100644
--- a/src/niapy/algorithms/modified/hba.py
+++ b/src/niapy/algorithms/modified/hba.py
@@ -116,4 +116,4 @@ class HybridBatAlgorithm(BatAlgorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, best), rng=self.rng)
+        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, rng=self.rng, x_b=best), rng=self.rng)
-- 
2.43.0


From b71fa6e85a717f09d4a591fe550df35ba3383990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 76/79] fix: MBO draws donors from every butterfly of a land

---
 src/niapy/algorithms/basic/mbo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 46d77eb..e0ba5e0 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -149,10 +149,10 @@ class MonarchButterflyOptimization(Algorithm):
             for i in range(dimension):
                 r1 = self.random() * self.period
                 if r1 <= self.partition:
-                    r2 = self.integers(np1 - 1)
+                    r2 = self.integers(np1)
                     butterflies[k1, i] = pop1[r2, i]
                 else:
-                    r3 = self.integers(np2 - 1)
+                    r3 = self.integers(np2)
                     butterflies[k1, i] = pop2[r3, i]
         return butterflies
 
@@ -181,7 +181,7 @@ class MonarchButterflyOptimization(Algorithm):
                 if self.uniform(0.0, 1.0) >= self.partition:
                     butterflies[k2, i] = best[i]
                 else:
-                    r4 = self.integers(np2 - 1)
+                    r4 = self.integers(np2)
                     butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
-- 
2.43.0


From f5184f5111e30ec58ceacec7022449c473f18fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 77/79] fix: MBO keeps a copy of the initial best butterfly

---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index e0ba5e0..88d9d67 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -230,7 +230,7 @@ class MonarchButterflyOptimization(Algorithm):
         sorted_indices = np.argsort(fitness)
         population = population[sorted_indices]
         fitness = fitness[sorted_indices]
-        return population, fitness, {'current_best': population[0]}
+        return population, fitness, {'current_best': population[0].copy()}
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Forest Optimization Algorithm.
-- 
2.43.0


From 30e967dd5d0097dfe62efaa493b6af9c712bf824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 78/79] fix: FWA may change any number of dimensions, including
 all of them

---
 src/niapy/algorithms/basic/fwa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 64b514c..00e594d 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -304,7 +304,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Sparks exploded in with specified amplitude.
 
         """
-        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension), replace=False)
+        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension + 1), replace=False)
         x[z] = x[z] + amplitude * self.uniform(-1, 1)
         return self.mapping(x, task)
 
@@ -320,7 +320,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Spark exploded based on gaussian amplitude.
 
         """
-        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension), replace=False)
+        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension + 1), replace=False)
         x[z] = x[z] * self.normal(1, 1)
         return self.mapping(x, task)
 
@@ -562,7 +562,7 @@ class EnhancedFireworksAlgorithm(FireworksAlgorithm):
             numpy.ndarray: Sparks exploded in with specified amplitude.
 
         """
-        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension), replace=False)
+        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension + 1), replace=False)
         if isinstance(amplitude, np.ndarray):
             x[z] = x[z] + amplitude[z] * self.uniform(-1, 1, len(z))
         else:
@@ -581,7 +581,7 @@ class EnhancedFireworksAlgorithm(FireworksAlgorithm):
             numpy.ndarray: New individual generated by gaussian noise.
 
         """
-        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension), replace=False)
+        z = self.rng.choice(task.dimension, self.rng.integers(task.dimension + 1), replace=False)
         e = self.standard_normal()
         x[z] = x[z] + (best_x[z] - x[z]) * e
         return self.mapping(x, task)
-- 
2.43.0


From 20838f918eea5ea1f1dde8dc495255845023444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 79/79] fix: jDE builds its trials from the current generation

---
 src/niapy/algorithms/modified/jde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index 56092be..8eeb175 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -172,7 +172,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         """
         new_pop = objects_to_array([self.adaptive_gen(e) for e in pop])
         for i, e in enumerate(new_pop):
-            new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
+            new_pop[i].x = self.strategy(pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
             e.evaluate(task, rng=self.rng)
         return new_pop
-- 
2.43.0

