From cb8ec8d8a5b5fd5a2d1ff7a3e4c46547aab20712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 01/16] fix: count evaluations of a generation aborted by an
 invalid function value

---
 src/sampling.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..99281d7 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -7,6 +7,8 @@ use rand_chacha::ChaCha12Rng;
 use rayon::prelude::*;
 use statrs::distribution::Normal;
 
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use crate::mode::Mode;
 use crate::state::State;
 use crate::{ObjectiveFunction, ParallelObjectiveFunction};
@@ -79,7 +81,11 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(
+            Vec<DVector<f64>>,
+            &mut F,
+            &AtomicUsize,
+        ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
     >(
         &mut self,
         state: &State,
@@ -143,9 +149,12 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
-
-        self.function_evals += points.len();
+        // Counts every evaluation, including those of a generation that is aborted by an invalid
+        // function value
+        let evals = AtomicUsize::new(0);
+        let points = evaluate_points(y, &mut self.objective_function, &evals);
+        self.function_evals += evals.into_inner();
+        let mut points = points?;
 
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
@@ -172,11 +181,12 @@ impl<F: ObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, function, evals| {
             y.into_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
-                        objective_function.evaluate(x)
+                        evals.fetch_add(1, Ordering::Relaxed);
+                        function.evaluate(x)
                     })
                 })
                 .collect::<Result<Vec<_>, _>>()
@@ -192,11 +202,12 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, function, evals| {
             y.into_par_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
-                        objective_function.evaluate_parallel(x)
+                        evals.fetch_add(1, Ordering::Relaxed);
+                        function.evaluate_parallel(x)
                     })
                 })
                 .collect::<Result<Vec<_>, _>>()
-- 
2.43.0


From 9dcae3e9ef7a244577d416d489ec5615cbb11ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 02/16] fix: report FunTarget when a function value equals the
 target

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..76895e8 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -135,7 +135,7 @@ impl<'a> TerminationCheck<'a> {
             if self
                 .individuals
                 .iter()
-                .any(|ind| mode.is_better(ind.value(), fun_target))
+                .any(|ind| ind.value() == fun_target || mode.is_better(ind.value(), fun_target))
             {
                 result.push(TerminationReason::FunTarget);
             }
-- 
2.43.0


From c2a055a62a459e9af1c5de4a2dedc638a5cfc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 03/16] fix: compare the standard deviation instead of the
 variance in TolX

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 76895e8..48a9a08 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 19501b5d8c3db61cd339c7dd0434a01d0c450cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 04/16] fix: limit BIPOP local runs even if no per-run
 evaluation limit is set

---
 src/restart/bipop.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..a9dab38 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,12 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let max_lr_fevals = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(max_lr_fevals, |max_fevals| max_fevals.min(max_lr_fevals)),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 27b84e60db12cd522457947fcf06f5db8c997553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 05/16] fix: don't panic in restarts if the initial step size
 underflows or overflows

---
 src/options.rs       | 6 ++++++
 src/restart/bipop.rs | 9 ++++-----
 src/restart/ipop.rs  | 5 +++--
 src/restart/local.rs | 3 ++-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 0be35f0..5f1b091 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -359,6 +359,12 @@ pub(crate) fn is_initial_step_size_valid(step_size: f64) -> bool {
     step_size.is_normal() && step_size > 0.0
 }
 
+/// Clamps a calculated initial step size (greater than zero) to the range of valid values, in case
+/// the calculation underflowed or overflowed
+pub(crate) fn clamp_initial_step_size(step_size: f64) -> f64 {
+    step_size.clamp(f64::MIN_POSITIVE, f64::MAX)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index a9dab38..d4045c3 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -56,9 +56,6 @@ impl BIPOP {
         ipop_increase_factor: Option<usize>,
     ) -> Result<Self, InvalidRestartStrategyOptionsError> {
         if let Some(step_size_factor) = lr_initial_step_size_factor {
-            // FIXME: This doesn't catch every invalid case; if set to a tiny value (maybe 1e-150),
-            // the 10^-2 factor makes it round to zero and cause a panic when calling
-            // CMAESOptions::build (also affects Local)
             if !options::is_initial_step_size_valid(step_size_factor) {
                 return Err(InvalidRestartStrategyOptionsError::InitialStepSize);
             }
@@ -113,7 +110,8 @@ impl BIPOP {
         rng: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size_lr(search_range_size, rng);
+        options.initial_step_size =
+            options::clamp_initial_step_size(self.get_initial_step_size_lr(search_range_size, rng));
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
@@ -143,7 +141,8 @@ impl BIPOP {
         run: R,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size_ipop(search_range_size);
+        options.initial_step_size =
+            options::clamp_initial_step_size(self.get_initial_step_size_ipop(search_range_size));
         options.population_size *= self.ipop_current_multiplier;
 
         // Execute the run
diff --git a/src/restart/ipop.rs b/src/restart/ipop.rs
index f972e31..3dae03d 100644
--- a/src/restart/ipop.rs
+++ b/src/restart/ipop.rs
@@ -4,7 +4,7 @@ use rand_chacha::ChaChaRng;
 
 use super::strategy::{RestartControl, Strategy};
 use super::InvalidRestartStrategyOptionsError;
-use crate::{CMAESOptions, TerminationData, TerminationReason, CMAES};
+use crate::{options, CMAESOptions, TerminationData, TerminationReason, CMAES};
 
 /// The default population size increase factor
 const DEFAULT_INCREASE_FACTOR: usize = 2;
@@ -72,7 +72,8 @@ impl Strategy for IPOP {
         _: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size(search_range_size);
+        options.initial_step_size =
+            options::clamp_initial_step_size(self.get_initial_step_size(search_range_size));
         options.population_size *= self.current_multiplier;
 
         // Execute the run
diff --git a/src/restart/local.rs b/src/restart/local.rs
index 114a1be..9b99f5d 100644
--- a/src/restart/local.rs
+++ b/src/restart/local.rs
@@ -70,7 +70,8 @@ impl Strategy for Local {
         _: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size(search_range_size);
+        options.initial_step_size =
+            options::clamp_initial_step_size(self.get_initial_step_size(search_range_size));
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 0c44076fd1f1f3db5dd20c1c7972f4a7684e72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 06/16] fix: reject non-finite search ranges and correct
 flipped ones in Restarter::new

---
 src/restart/mod.rs     | 11 +++++++++--
 src/restart/options.rs |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..efdb7cf 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -161,12 +161,19 @@ pub struct Restarter {
 impl Restarter {
     /// Returns a new `Restarter` using the provided options. [`RestartOptions::build`] should
     /// generally be used instead.
-    pub fn new(options: RestartOptions) -> Result<Self, InvalidRestartOptionsError> {
+    pub fn new(mut options: RestartOptions) -> Result<Self, InvalidRestartOptionsError> {
         let seed = options.seed.unwrap_or_else(rand::random);
 
+        // Correct flipped ranges
+        if options.search_range.is_empty() {
+            options.search_range = *options.search_range.end()..=*options.search_range.start();
+        }
+
+        let search_range_size = options.search_range.end() - options.search_range.start();
+
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if options.search_range.end() - options.search_range.start() == 0.0 {
+        } else if search_range_size == 0.0 || !search_range_size.is_finite() {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 53a43a8..150903c 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -12,7 +12,7 @@ use crate::{CMAESOptions, Mode};
 pub enum InvalidRestartOptionsError {
     /// The number of dimensions is set to zero.
     Dimensions,
-    /// The search range size is zero.
+    /// The search range size is zero or not finite.
     SearchRange,
 }
 
-- 
2.43.0


From 1ce3bdf6aa41a12a59e979f0c354d4d31c734118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 07/16] fix: keep the best individual of a run that ends with
 InvalidFunctionValue

---
 src/restart/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index efdb7cf..1434194 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -380,6 +380,10 @@ impl Restarter {
             function_evals += final_state.function_evals();
             runs += 1;
 
+            if let Some(best) = final_state.overall_best_individual().cloned() {
+                self.update_best_individual(best);
+            }
+
             // Check RestartTerminationReason::InvalidFunctionValue
             if reasons
                 .iter()
@@ -389,10 +393,6 @@ impl Restarter {
                 break;
             }
 
-            if let Some(best) = final_state.overall_best_individual().cloned() {
-                self.update_best_individual(best);
-            }
-
             // Check RestartTerminationReason::FunTarget if enabled
             if reasons.iter().any(|&r| r == TerminationReason::FunTarget) {
                 reason = RestartTerminationReason::FunTarget;
-- 
2.43.0


From 25199fe1a2b22a0788ece10531a9f82458dd8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 08/16] fix: don't print a generation twice if the algorithm
 terminates in the first generations

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..a8b76f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -219,6 +219,9 @@ pub struct CMAES<F> {
     print_gap_evals: Option<usize>,
     /// The last time [`CMAES::print_info`] was called, in function evaluations
     last_print_evals: usize,
+    /// Like `last_print_evals`, but also updated for the first few generations, which are always
+    /// printed
+    last_info_evals: usize,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -281,6 +284,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
+            last_info_evals: 0,
             time_created: Instant::now(),
         };
 
@@ -343,10 +347,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
+                self.last_info_evals = self.last_print_evals;
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
+                self.last_info_evals = self.sampler.function_evals();
             }
         }
 
@@ -562,7 +568,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_print_evals {
+        if self.sampler.function_evals() != self.last_info_evals {
             self.print_info();
         }
 
-- 
2.43.0


From 5c3b83ca8e0886a3a5104c1a99aaf737a4c0b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/16] fix: don't hang or draw invalid ranges when saving a
 plot with non-finite or extreme values

---
 src/plotting/draw.rs | 51 +++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..02c3693 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -70,7 +70,7 @@ pub fn draw_single_dimensioned<'a>(
         .iter()
         .cloned()
         .enumerate()
-        .filter(|(_, y)| !y.is_nan())
+        .filter(|(_, y)| y.is_finite())
         .min_by(|(_, a), (_, b)| mode.sort_cmp(*a, *b));
 
     // The number of times the overall best function value appears, used to decide whether to
@@ -111,9 +111,7 @@ pub fn draw_single_dimensioned<'a>(
         );
     }
 
-    // Filter out dummy values added at initialization
-    let all_y_values = all_y_values.into_iter().filter(|y| !y.is_nan());
-    let y_axis = get_log_y_axis(all_y_values);
+    let y_axis = get_log_y_axis(all_y_values.into_iter());
 
     let draw = |context: &mut ChartContext<_, _>| {
         let function_evals = data.function_evals().iter().cloned();
@@ -405,7 +403,8 @@ fn add_to_legend<C: Color + 'static>(annotation: &mut SeriesAnno<Backend>, label
         .legend(move |(x, y)| PathElement::new(vec![(x, y), (x + 20, y)], &color));
 }
 
-/// Returns an iterator of (x, y) points with NAN y points filtered out
+/// Returns an iterator of (x, y) points with non-finite y points filtered out (these include the
+/// dummy values added at initialization)
 fn get_points<'a, X, Y>(x: X, y: Y) -> impl Iterator<Item = (usize, f64)> + 'a
 where
     X: IntoIterator<Item = usize> + 'a,
@@ -413,22 +412,19 @@ where
 {
     x.into_iter()
         .zip(y)
-        .filter(|&(_, y)| !y.is_nan())
+        .filter(|&(_, y)| y.is_finite())
         .map(|(x, y)| (x, y))
 }
 
-/// Returns a log axis encompassing all values in the iterator. The range has a small margin added
-/// to either end.
+/// Returns a log axis encompassing all finite values in the iterator. The range has a small margin
+/// added to either end.
 fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f64>> {
     // Margin to be added to the top and bottom of the range
     let margin = 0.4;
-    let log_min = iter
-        .clone()
-        .min_by(|a, b| partial_cmp(*a, *b))
-        .unwrap()
-        .log10()
-        - margin;
-    let log_max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap().log10() + margin;
+    let (min, max) = get_finite_range(iter, 1.0);
+    // The ends of the range and their ratio must be finite
+    let log_max = (max.log10() + margin).min(308.0);
+    let log_min = (min.log10() - margin).max(log_max - 300.0);
 
     let num_labels = ((log_max - log_min).round() as usize).min(26);
     let y_range: LogCoord<f64> = (10f64.powf(log_min)..10f64.powf(log_max))
@@ -438,28 +434,29 @@ fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f6
     YAxis::new(y_range, num_labels, YAxisKind::Log)
 }
 
-/// Returns a linear axis encompassing all values in the iterator. The range has a small margin
-/// added to either end.
+/// Returns a linear axis encompassing all finite values in the iterator. The range has a small
+/// margin added to either end.
 ///
 /// Uses scientific notation for axis labels if `scientific_notation` is true
 fn get_linear_y_axis<I: Iterator<Item = f64> + Clone>(
     iter: I,
     scientific_notation: bool,
 ) -> YAxis<Range<f64>> {
-    let mut min = iter.clone().min_by(|a, b| partial_cmp(*a, *b)).unwrap();
-    let mut max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap();
+    let (mut min, mut max) = get_finite_range(iter, 0.0);
     let mut margin = (max - min) * 0.15;
 
     if margin == 0.0 {
         if max == 0.0 {
             margin = 0.15;
         } else {
-            margin = max * 0.15;
+            margin = max.abs() * 0.15;
         }
     }
 
-    min -= margin;
-    max += margin;
+    // The size of the range must be finite
+    let limit = f64::MAX / 4.0;
+    min = (min - margin).clamp(-limit, limit);
+    max = (max + margin).clamp(-limit, limit);
 
     let num_labels = 26;
     let y_range = min..max;
@@ -473,6 +470,16 @@ fn get_linear_y_axis<I: Iterator<Item = f64> + Clone>(
     )
 }
 
+/// Returns the minimum and maximum of the finite values in the iterator (both are `default` if there
+/// are none)
+fn get_finite_range<I: Iterator<Item = f64> + Clone>(iter: I, default: f64) -> (f64, f64) {
+    let iter = iter.filter(|x| x.is_finite());
+    let min = iter.clone().min_by(|a, b| partial_cmp(*a, *b));
+    let max = iter.max_by(|a, b| partial_cmp(*a, *b));
+
+    (min.unwrap_or(default), max.unwrap_or(default))
+}
+
 #[cfg(test)]
 mod tests {
     use assert_approx_eq::assert_approx_eq;
-- 
2.43.0


From 78a60659a6287b31455e330776237564e5350a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 10/16] fix: correct inaccurate or misordered eigenvectors of
 the covariance matrix

---
 src/matrix.rs | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index a2ee39f..48621e1 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1,7 +1,7 @@
 //! Types related to matrix math.
 
 use nalgebra::base::VecStorage;
-use nalgebra::Dyn;
+use nalgebra::{DVector, Dyn};
 
 pub type SquareMatrix<T> = nalgebra::SquareMatrix<T, Dyn, VecStorage<T, Dyn, Dyn>>;
 
@@ -79,6 +79,8 @@ impl CovarianceMatrix {
         let mut eigen =
             nalgebra::SymmetricEigen::try_new(self.cov.clone(), 1e-20, 0).ok_or(PosDefCovError)?;
 
+        refine_eigendecomposition(&self.cov, &mut eigen.eigenvectors, &mut eigen.eigenvalues);
+
         for mut col in eigen.eigenvectors.column_iter_mut() {
             col.normalize_mut();
         }
@@ -117,6 +119,66 @@ impl CovarianceMatrix {
     }
 }
 
+/// Improves the accuracy of an eigendecomposition of `matrix` using Jacobi rotations
+///
+/// The eigenvectors calculated by `nalgebra` can be inaccurate or in a different order than the
+/// eigenvalues if some of the eigenvalues are much smaller than the largest one. If they are
+/// accurate, this only recalculates the eigenvalues from them.
+fn refine_eigendecomposition(
+    matrix: &SquareMatrix<f64>,
+    eigenvectors: &mut SquareMatrix<f64>,
+    eigenvalues: &mut DVector<f64>,
+) {
+    const MAX_SWEEPS: usize = 30;
+
+    let dim = matrix.nrows();
+    // The matrix in the basis of the eigenvectors, which should be diagonal
+    let mut m = eigenvectors.transpose() * matrix * &*eigenvectors;
+    let tolerance = dim as f64 * f64::EPSILON * m.amax();
+
+    for _ in 0..MAX_SWEEPS {
+        let mut converged = true;
+
+        for i in 0..dim {
+            for j in (i + 1)..dim {
+                let inaccurate = m[(i, j)].abs() > tolerance;
+                if !inaccurate {
+                    continue;
+                }
+                converged = false;
+
+                // The rotation of axes i and j that makes m[(i, j)] zero
+                let theta = (m[(j, j)] - m[(i, i)]) / (2.0 * m[(i, j)]);
+                let t = theta.signum() / (theta.abs() + theta.hypot(1.0));
+                let cos = 1.0 / t.hypot(1.0);
+                let sin = t * cos;
+
+                for k in 0..dim {
+                    let (a, b) = (m[(k, i)], m[(k, j)]);
+                    m[(k, i)] = cos * a - sin * b;
+                    m[(k, j)] = sin * a + cos * b;
+                }
+                for k in 0..dim {
+                    let (a, b) = (m[(i, k)], m[(j, k)]);
+                    m[(i, k)] = cos * a - sin * b;
+                    m[(j, k)] = sin * a + cos * b;
+                }
+                for k in 0..dim {
+                    let (a, b) = (eigenvectors[(k, i)], eigenvectors[(k, j)]);
+                    eigenvectors[(k, i)] = cos * a - sin * b;
+                    eigenvectors[(k, j)] = sin * a + cos * b;
+                }
+            }
+        }
+
+        if converged {
+            break;
+        }
+    }
+
+    *eigenvalues = m.diagonal();
+}
+
 /// The covariance matrix is not positive definite
 #[derive(Clone, Debug)]
 pub struct PosDefCovError;
-- 
2.43.0


From 51244d7c67efef3b841531ce53a4e7437aedc34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 11/16] fix: don't panic in TolStagnation if infinite values of
 opposite signs are the median

---
 src/history.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index a417dbd..c4dccc3 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -138,9 +138,16 @@ impl History {
 /// Assumes that `individuals` is already sorted by function value
 fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
     if individuals.len() % 2 == 0 {
-        (individuals[individuals.len() / 2 - 1].value()
-            + individuals[individuals.len() / 2].value())
-            / 2.0
+        let a = individuals[individuals.len() / 2 - 1].value();
+        let b = individuals[individuals.len() / 2].value();
+        let median = (a + b) / 2.0;
+
+        // Infinite values of opposite signs don't have a mean
+        if median.is_nan() {
+            a
+        } else {
+            median
+        }
     } else {
         individuals[individuals.len() / 2].value()
     }
-- 
2.43.0


From e37330e4bc0f4c4d2754ef4f8ac6336f48dc9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 12/16] fix: don't panic when generating initial means in very
 large search ranges

---
 src/restart/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1434194..fba0d7e 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -465,9 +465,17 @@ impl Restarter {
 
     /// Generates a random initial mean in the search range and returns it
     fn generate_initial_mean(&mut self) -> DVector<f64> {
+        let (start, end) = (*self.search_range.start(), *self.search_range.end());
+        // The size of very large ranges overflows in `gen_range`, so sample from half of them
+        let scale = if end - start > f64::MAX / 2.0 {
+            0.5
+        } else {
+            1.0
+        };
+
         DVector::from_iterator(
             self.dimensions,
-            (0..self.dimensions).map(|_| self.rng.gen_range(self.search_range.clone())),
+            (0..self.dimensions).map(|_| self.rng.gen_range(start * scale..=end * scale) / scale),
         )
     }
 }
-- 
2.43.0


From ed471d83e301ee2edc663d1e4f903de57a7b16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 13/16] fix: don't overflow with very large minimum gaps
 between plot data points

---
 src/plotting/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From c5e0dc6c2f2693412ef13f518c97d66dbb0afc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 14/16] fix: the median of very large function values
 overflowed

The two middle values of a generation were added before they were halved, so
that the median of finite values could be infinite (in the history, the plot
data and TolFunRel).
---
 src/history.rs |  4 ++--
 src/utils.rs   | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c4dccc3..7a7b58c 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -4,7 +4,7 @@ use std::collections::VecDeque;
 
 use crate::mode::Mode;
 use crate::sampling::EvaluatedPoint;
-use crate::Individual;
+use crate::{utils, Individual};
 
 /// The maximum number of elements to store in the objective function value histories.
 pub const MAX_HISTORY_LENGTH: usize = 20_000;
@@ -140,7 +140,7 @@ fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
     if individuals.len() % 2 == 0 {
         let a = individuals[individuals.len() / 2 - 1].value();
         let b = individuals[individuals.len() / 2].value();
-        let median = (a + b) / 2.0;
+        let median = utils::midpoint(a, b);
 
         // Infinite values of opposite signs don't have a mean
         if median.is_nan() {
diff --git a/src/utils.rs b/src/utils.rs
index 83b6d92..4161357 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,6 +7,17 @@ pub fn partial_cmp(a: f64, b: f64) -> Ordering {
     a.partial_cmp(&b).unwrap_or(Ordering::Equal)
 }
 
+/// Returns the midpoint of the values without overflowing if they are finite
+pub fn midpoint(a: f64, b: f64) -> f64 {
+    let sum = a + b;
+
+    if sum.is_infinite() {
+        a / 2.0 + b / 2.0
+    } else {
+        sum / 2.0
+    }
+}
+
 /// Formats an `f64` for printing and tries to give it a fixed width
 /// Minimum width is 8
 pub fn format_num(num: f64, target_width: usize) -> String {
-- 
2.43.0


From 379069f3f69300205f929fcb14955c38696dc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 15/16] fix: the medians compared by TolStagnation overflowed
 for very large function values

The two middle values were added before they were halved, so that different
finite medians could both be infinite (or a finite one look worse than an
infinite one).
---
 src/termination.rs |  7 +------
 src/utils.rs       | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/termination.rs b/src/termination.rs
index 48a9a08..ab1d1cf 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -1,7 +1,5 @@
 //! Algorithm termination handling. See [`TerminationReason`] for full documentation.
 
-use statrs::statistics::{Data, Median};
-
 use std::collections::VecDeque;
 use std::fmt::{self, Debug};
 use std::time::Instant;
@@ -243,10 +241,7 @@ impl<'a> TerminationCheck<'a> {
                         .cloned()
                         .collect::<Vec<_>>();
 
-                    mode.is_better(
-                        Data::new(last_values).median(),
-                        Data::new(first_values).median(),
-                    )
+                    mode.is_better(utils::median(last_values), utils::median(first_values))
                 };
 
                 if did_values_regress(self.history.best_function_values())
diff --git a/src/utils.rs b/src/utils.rs
index 4161357..632628e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -18,6 +18,25 @@ pub fn midpoint(a: f64, b: f64) -> f64 {
     }
 }
 
+/// Returns the median of the values without overflowing if they are finite
+///
+/// Returns `NAN` if there are no values
+pub fn median(mut values: Vec<f64>) -> f64 {
+    if values.is_empty() {
+        return f64::NAN;
+    }
+
+    let count = values.len();
+    let (lower, upper, _) = values.select_nth_unstable_by(count / 2, f64::total_cmp);
+
+    if count % 2 == 0 {
+        let lower = lower.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+        midpoint(lower, *upper)
+    } else {
+        *upper
+    }
+}
+
 /// Formats an `f64` for printing and tries to give it a fixed width
 /// Minimum width is 8
 pub fn format_num(num: f64, target_width: usize) -> String {
-- 
2.43.0


From be1dd142d6d969655a1901b8bfa633136622ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 16/16] fix: restarts panicked if the default options were
 invalid

A population size below two or an invalid learning rate in the default options
was accepted by Restarter::new, but unwrapped as an error by the first run.
---
 src/restart/mod.rs     | 8 ++++++++
 src/restart/options.rs | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index fba0d7e..e852560 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -175,6 +175,8 @@ impl Restarter {
             Err(InvalidRestartOptionsError::Dimensions)
         } else if search_range_size == 0.0 || !search_range_size.is_finite() {
             Err(InvalidRestartOptionsError::SearchRange)
+        } else if !are_default_options_valid(&options.default_options) {
+            Err(InvalidRestartOptionsError::DefaultOptions)
         } else {
             Ok(Self {
                 strategy: options.strategy,
@@ -480,6 +482,12 @@ impl Restarter {
     }
 }
 
+/// Returns whether runs can be built from the default options. The initial mean and step size
+/// aren't checked because they are always overridden.
+fn are_default_options_valid(options: &CMAESOptions) -> bool {
+    options.population_size >= 2 && options.cm.is_normal() && options.cm > 0.0 && options.cm <= 1.0
+}
+
 /// Prints various initial parameters of a run
 fn print_run_info(run: usize, params: &Parameters) {
     println!(
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 150903c..9235f69 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -14,6 +14,9 @@ pub enum InvalidRestartOptionsError {
     Dimensions,
     /// The search range size is zero or not finite.
     SearchRange,
+    /// The default options are invalid (not including the initial mean and step size, which are
+    /// always overridden).
+    DefaultOptions,
 }
 
 /// Represents invalid options for an individual restart strategy.
-- 
2.43.0

