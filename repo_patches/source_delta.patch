From 5dc87a408e08e0079a9e1b2686f63dd1e97cb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 01/11] fix: kill_worst kills exactly the worst live
 individuals

It always put individual 0 on the list (even a dead one, even for count 0, and
panicked for an empty population), did not update best_fitness together with
best_index while filling the list, and never preferred NaN.
---
 optlib/src/genetic/selection/mod.rs | 48 +++++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..510e1d2 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,36 +55,50 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
+    if count == 0 {
+        return;
+    }
+
+    // NaN is the worst fitness
+    fn get_fitness<T: Clone>(population: &Population<T>, index: usize) -> f64 {
+        let fitness = population[index].get_fitness();
+        if fitness.is_nan() {
+            std::f64::INFINITY
+        } else {
+            fitness
+        }
+    }
+
     // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    let mut kill_list: Vec<usize> = Vec::with_capacity(count.min(population.len()));
 
     // Index of the items in kill_list with best fitness
     let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
+    let mut best_fitness = std::f64::INFINITY;
 
-    for n in 1..population.len() {
+    for n in 0..population.len() {
         if !population[n].is_alive() {
             continue;
         }
 
+        let fitness = get_fitness(population, n);
         if kill_list.len() < count {
             kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
+            if fitness < best_fitness {
                 best_index = kill_list.len() - 1;
+                best_fitness = fitness;
             }
-        } else {
-            if population[n].get_fitness() > best_fitness {
-                kill_list[best_index] = n;
-
-                // Find new best item
-                best_index = 0;
-                best_fitness = population[kill_list[best_index]].get_fitness();
-                for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
-                        best_index = m;
-                        best_fitness = population[kill_list[best_index]].get_fitness();
-                    }
+        } else if fitness > best_fitness {
+            kill_list[best_index] = n;
+
+            // Find new best item
+            best_index = 0;
+            best_fitness = get_fitness(population, kill_list[best_index]);
+            for m in 1..kill_list.len() {
+                let fitness = get_fitness(population, kill_list[m]);
+                if fitness < best_fitness {
+                    best_index = m;
+                    best_fitness = fitness;
                 }
             }
         }
-- 
2.43.0


From 518a911ad4066b4e807496be4aa9748913ccf590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 02/11] fix: pairing of an empty population gives no families
 instead of a panic

---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 07c33d22529b4c3e38572d560e796f0c415fd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 03/11] fix: an individual with the goal NaN does not win a
 tournament against a number

---
 optlib/src/genetic/pairing/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..c8efd5d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -97,7 +97,12 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    let challenger_goal = population[challenger].get_goal();
+                    let best_goal = population[best_ind_index].get_goal();
+                    // NaN is worse than any number
+                    if challenger_goal < best_goal
+                        || (best_goal.is_nan() && !challenger_goal.is_nan())
+                    {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From 36fadb2b9790ee167b8ce01e7d8fbdacc090c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 04/11] fix: GoalNotChange starts anew with every run

The iteration of the last change and the old goal of the previous run made the
next run stop at once or panic with an arithmetic overflow.
---
 optlib/src/tools/stopchecker/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..4589757 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -110,16 +110,23 @@ impl GoalNotChange {
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        let iteration = state.get_iteration();
+        if iteration == 0 || iteration < self.change_iter {
+            // A new run
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
                 let delta = (best_goal - self.old_goal).abs();
                 if delta > self.delta {
                     self.old_goal = best_goal;
-                    self.change_iter = state.get_iteration();
+                    self.change_iter = iteration;
                 }
 
-                (state.get_iteration() - self.change_iter) > self.max_iter
+                (iteration - self.change_iter) > self.max_iter
             }
         }
     }
-- 
2.43.0


From f0839a399030919ecc63b0df8517ff690d0e30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 05/11] fix: composite stop checkers consult every member

A member with a state (GoalNotChange) missed the states for which a previous
member already settled the answer, so that the result depended on the order.
---
 optlib/src/tools/stopchecker/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 4589757..7ec3089 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,13 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker must see every state
+        let mut stop = false;
         for checker in &mut self.stop_checkers {
-            if checker.can_stop(state) {
-                return true;
-            }
+            stop |= checker.can_stop(state);
         }
 
-        false
+        stop
     }
 }
 
@@ -50,13 +50,13 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // Every checker must see every state
+        let mut stop = true;
         for checker in &mut self.stop_checkers {
-            if !checker.can_stop(state) {
-                return false;
-            }
+            stop &= checker.can_stop(state);
         }
 
-        true
+        stop
     }
 }
 
-- 
2.43.0


From 0bcac9551cd61ede3c192e0343cf8d9ea7cddec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 06/11] fix: a solution with NaN is not a success

---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..6c6b28b 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            // The negation rejects NaN too
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From a442183211165eed0df6cdc373562cca8daa124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/11] fix: StatisticsLogger records a paused and resumed run
 once

Every resumption pushed one more result, so that results and convergence did
not match any more, and a logger set before a resumption panicked.
---
 optlib/src/tools/statistics/mod.rs | 40 +++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 6c6b28b..c5acc22 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -172,13 +172,19 @@ impl<T: Clone> Statistics<T> {
         &self.convergence
     }
 
-    fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
-        self.results.push(state.get_best_solution().clone());
+    /// Begin a new run. Returns its index.
+    fn add_run(&mut self) -> usize {
+        self.results.push(None);
+        self.convergence.push(vec![]);
+        self.results.len() - 1
     }
 
-    fn add_convergence(&mut self, state: &dyn AlgorithmState<T>) {
-        let run_index = self.convergence.len() - 1;
-        self.convergence[run_index].push(state.get_best_solution().clone());
+    fn set_result(&mut self, run_index: usize, state: &dyn AlgorithmState<T>) {
+        self.results[run_index] = state.get_best_solution();
+    }
+
+    fn add_convergence(&mut self, run_index: usize, state: &dyn AlgorithmState<T>) {
+        self.convergence[run_index].push(state.get_best_solution());
     }
 
     pub fn unite(&mut self, mut other: Self) {
@@ -381,18 +387,32 @@ fn vectorize<T>(v1: &Vec<T>, v2: &Vec<T>, func: fn(&T, &T) -> T) -> Vec<T> {
 
 pub struct StatisticsLogger<'a, T> {
     statistics: &'a mut Statistics<T>,
+
+    /// Index of the current run in the statistics.
+    run_index: Option<usize>,
 }
 
 impl<'a, T> StatisticsLogger<'a, T> {
     pub fn new(statistics: &'a mut Statistics<T>) -> Self {
-        Self { statistics }
+        Self {
+            statistics,
+            run_index: None,
+        }
+    }
+}
+
+impl<'a, T: Clone> StatisticsLogger<'a, T> {
+    /// Index of the current run. The run was begun without the logger if there is no index yet.
+    fn get_run_index(&mut self) -> usize {
+        let statistics = &mut *self.statistics;
+        *self.run_index.get_or_insert_with(|| statistics.add_run())
     }
 }
 
 impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     /// Will be called after algorithm initializing.
     fn start(&mut self, _state: &dyn AlgorithmState<T>) {
-        self.statistics.convergence.push(vec![]);
+        self.run_index = Some(self.statistics.add_run());
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
@@ -400,12 +420,14 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-        self.statistics.add_convergence(state);
+        let run_index = self.get_run_index();
+        self.statistics.add_convergence(run_index, state);
     }
 
     /// Will be called when algorithm will be stopped.
     fn finish(&mut self, state: &dyn AlgorithmState<T>) {
-        self.statistics.add_result(state);
+        let run_index = self.get_run_index();
+        self.statistics.set_result(run_index, state);
     }
 }
 
-- 
2.43.0


From 784ac926dc07d054e5ee2f7c5a9a3facf4ac32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 08/11] fix: linear inertia does not fall below w_min after the
 iteration t_max

---
 optlib/src/particleswarm/velocitycalc/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optlib/src/particleswarm/velocitycalc/mod.rs b/optlib/src/particleswarm/velocitycalc/mod.rs
index 90615e8..5967663 100644
--- a/optlib/src/particleswarm/velocitycalc/mod.rs
+++ b/optlib/src/particleswarm/velocitycalc/mod.rs
@@ -277,6 +277,8 @@ impl<T: Float> LinearInertia<T> {
 
 impl<T: Float> Inertia<T> for LinearInertia<T> {
     fn get(&mut self, iteration: usize) -> T {
+        // The inertia stays minimal after the last iteration
+        let iteration = iteration.min(self.t_max);
         self.w_max
             - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
     }
-- 
2.43.0


From 83641d7a5a1557cd1295ec857ad8ab55f6f37ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 09/11] fix: MaxVelocityAbs does not overflow for great
 velocities

The sum of the squares became infinite, so that the velocity became zero or NaN
instead of a velocity with the maximal absolute value.
---
 .../src/particleswarm/postvelocitycalc/mod.rs   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/optlib/src/particleswarm/postvelocitycalc/mod.rs b/optlib/src/particleswarm/postvelocitycalc/mod.rs
index 5635753..c88ff9e 100644
--- a/optlib/src/particleswarm/postvelocitycalc/mod.rs
+++ b/optlib/src/particleswarm/postvelocitycalc/mod.rs
@@ -46,14 +46,23 @@ impl<T> MaxVelocityAbs<T> {
 
 impl<T: Float> PostVelocityCalc<T> for MaxVelocityAbs<T> {
     fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
-        let current_velocity_abs = velocity
+        // Velocity is divided by the largest projection because the squares may overflow
+        let max_projection = velocity
             .iter()
-            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
+            .fold(T::zero(), |acc, vi| acc.max(vi.abs()));
+        if max_projection == T::zero() {
+            return velocity;
+        }
+
+        let relative_abs = velocity
+            .iter()
+            .map(|vi| *vi / max_projection)
+            .fold(T::zero(), |acc, vi| acc + vi * vi)
             .sqrt();
-        if current_velocity_abs > self.max_velocity {
+        if relative_abs > self.max_velocity / max_projection {
             let new_velocity = velocity
                 .iter()
-                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
+                .map(|vi| (*vi / max_projection) * (self.max_velocity / relative_abs))
                 .collect();
             new_velocity
         } else {
-- 
2.43.0


From cc74e84b17f2c622673e762389c64a70f2f9b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:54 +0000
Subject: [PATCH 10/11] fix: random integer values include the ends of the
 interval

A random float was truncated to an integer, so that the upper end (the lower end
of negative intervals) was never drawn, contrary to the documentation.
---
 optlib/src/genetic/creation/vec_float.rs |  8 ++-----
 optlib/src/tools/mod.rs                  | 27 ++++++++++++++++++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/optlib/src/genetic/creation/vec_float.rs b/optlib/src/genetic/creation/vec_float.rs
index 5c19109..722c6d1 100644
--- a/optlib/src/genetic/creation/vec_float.rs
+++ b/optlib/src/genetic/creation/vec_float.rs
@@ -3,10 +3,10 @@
 //! The Creators used to create the first generation of individuals.
 
 use num::NumCast;
-use rand::distributions::{Distribution, Uniform};
 use rand::rngs::ThreadRng;
 
 use crate::genetic::Creator;
+use crate::tools::get_random_value;
 
 /// Creator to initialize population by individuals with random genes in the preset
 /// intervals.
@@ -51,11 +51,7 @@ impl<G: NumCast + PartialOrd> Creator<Vec<G>> for RandomCreator<G> {
         for _ in 0..self.population_size {
             let mut chromo = Vec::with_capacity(chromo_count);
             for interval in &self.intervals {
-                let between = Uniform::new_inclusive(
-                    interval.0.to_f64().unwrap(),
-                    interval.1.to_f64().unwrap(),
-                );
-                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
+                chromo.push(get_random_value(&interval.0, &interval.1, &mut self.random));
             }
 
             population.push(chromo);
diff --git a/optlib/src/tools/mod.rs b/optlib/src/tools/mod.rs
index 9301646..d129b31 100644
--- a/optlib/src/tools/mod.rs
+++ b/optlib/src/tools/mod.rs
@@ -27,16 +27,35 @@ impl RandomVectorCreator {
 
         let result = intervals
             .iter()
-            .map(|(min, max)| {
-                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
-                T::from(between.sample(&mut self.random)).unwrap()
-            })
+            .map(|(min, max)| get_random_value(min, max, &mut self.random))
             .collect();
 
         result
     }
 }
 
+/// Random value from the closed interval [min; max]. The ends of the interval are included
+/// for integer types too.
+pub(crate) fn get_random_value<T: NumCast + PartialOrd>(
+    min: &T,
+    max: &T,
+    random: &mut ThreadRng,
+) -> T {
+    let min_f64 = min.to_f64().unwrap();
+    let max_f64 = max.to_f64().unwrap();
+
+    let is_integer = T::from(0.5) == T::from(0);
+    if is_integer {
+        // Every integer value gets an interval with the unit width
+        let between = Uniform::new(min_f64, max_f64 + 1.0);
+        let value = between.sample(random).floor().min(max_f64);
+        T::from(value).unwrap()
+    } else {
+        let between = Uniform::new_inclusive(min_f64, max_f64);
+        T::from(between.sample(random)).unwrap()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::tools::RandomVectorCreator;
-- 
2.43.0


From dd46a51a4c911245712b0d94a1d46d9ba224cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 11/11] fix: random values of great integer intervals stay in
 the interval and do not panic

---
 optlib/src/tools/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/optlib/src/tools/mod.rs b/optlib/src/tools/mod.rs
index d129b31..d7e124f 100644
--- a/optlib/src/tools/mod.rs
+++ b/optlib/src/tools/mod.rs
@@ -41,17 +41,22 @@ pub(crate) fn get_random_value<T: NumCast + PartialOrd>(
     max: &T,
     random: &mut ThreadRng,
 ) -> T {
-    let min_f64 = min.to_f64().unwrap();
-    let max_f64 = max.to_f64().unwrap();
-
     let is_integer = T::from(0.5) == T::from(0);
     if is_integer {
-        // Every integer value gets an interval with the unit width
-        let between = Uniform::new(min_f64, max_f64 + 1.0);
-        let value = between.sample(random).floor().min(max_f64);
-        T::from(value).unwrap()
+        // The integers are not converted to floating point numbers, which can not represent
+        // the great values exactly.
+        match (min.to_i128(), max.to_i128()) {
+            (Some(min), Some(max)) => {
+                T::from(Uniform::new_inclusive(min, max).sample(random)).unwrap()
+            }
+            _ => {
+                let between =
+                    Uniform::new_inclusive(min.to_u128().unwrap(), max.to_u128().unwrap());
+                T::from(between.sample(random)).unwrap()
+            }
+        }
     } else {
-        let between = Uniform::new_inclusive(min_f64, max_f64);
+        let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
         T::from(between.sample(random)).unwrap()
     }
 }
-- 
2.43.0

