From 092049cb0889f12a623adf0cc2cabe958c2352cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 01/39] fix: keep cached objectives paired with their points
 when Stage 2 shuffles the reference set

---
 src/oqnlp.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..ff1c473 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -919,9 +919,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         #[cfg(not(feature = "checkpointing"))]
         let mut rng: StdRng = StdRng::seed_from_u64(self.params.seed);
 
-        // Shuffle reference set if starting fresh
+        // Shuffle reference set if starting fresh, keeping each pre-computed objective with its point
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            let mut order: Vec<usize> = (0..ref_set.len()).collect();
+            order.shuffle(&mut rng);
+            ref_set = order.iter().map(|&i| ref_set[i].clone()).collect();
+            ref_objectives =
+                ref_objectives.map(|objs| order.iter().map(|&i| objs[i]).collect::<Vec<f64>>());
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 48d7e49fb6d66d49f3a276b4ed2c9038c872b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 02/39] fix: checkpoint the reference set in the order Stage 2
 processes it

---
 src/oqnlp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index ff1c473..7cbbd4a 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -928,6 +922,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 ref_objectives.map(|objs| order.iter().map(|&i| objs[i]).collect::<Vec<f64>>());
         }
 
+        // Store the reference set for checkpointing in the order Stage 2 processes it
+        #[cfg(feature = "checkpointing")]
+        {
+            self.current_reference_set = Some(ref_set.clone());
+        }
+
         let start_timer: Option<std::time::Instant> =
             self.max_time.map(|_| std::time::Instant::now());
 
-- 
2.43.0


From dbeabdaffade17f17ad182ed97ddca97a6e8ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 03/39] fix: accept every u64 seed without overflowing when
 deriving the Stage 2 and expansion seeds

---
 src/oqnlp.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 7cbbd4a..78e1918 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -905,7 +905,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
+            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
         };
@@ -1462,7 +1462,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1653,7 +1653,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Update the current seed for checkpointing
             #[cfg(feature = "checkpointing")]
             {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             let trial = trial.clone();
@@ -1845,7 +1845,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 self.current_iteration = local_iter;
                 self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             *unchanged_cycles += 1;
@@ -1925,7 +1925,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -1994,7 +1994,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -2078,7 +2078,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
-- 
2.43.0


From fc0382eb2a233032f514f959225ae490081f62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:59 +0000
Subject: [PATCH 04/39] fix: resume Stage 2 exactly after the last completed
 iteration

A checkpoint recorded the index of an iteration that had already been
processed together with the unchanged-cycle count from before it, and, in
batched mode, was written while earlier iterations of the batch were still
pending. A resumed run therefore repeated or skipped iterations.
---
 src/oqnlp.rs | 77 +++++++++++++---------------------------------------
 src/types.rs |  2 +-
 2 files changed, 20 insertions(+), 59 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 78e1918..b0cb9e0 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -905,6 +905,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
+            self.current_iteration = 0;
+            self.unchanged_cycles = 0;
             let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
@@ -964,6 +966,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // A resumed run may already have reached the target objective
+            if resumed_from_checkpoint && self.target_objective_reached() {
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
@@ -1005,6 +1012,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 )?;
             }
 
+            // Record the completed iterations and save a checkpoint if one is due
+            #[cfg(feature = "checkpointing")]
+            if let (Some(&(first, _)), Some(&(last, _))) = (batch.first(), batch.last()) {
+                self.current_iteration = last + 1;
+                self.unchanged_cycles = unchanged_cycles;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                self.maybe_save_checkpoint(first)?;
+            }
+
             // Check if target objective has been reached after processing the batch
             if self.target_objective_reached() {
                 if self.verbose {
@@ -1591,9 +1607,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
     /// Save a checkpoint if checkpointing is enabled and conditions are met
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let frequency = manager.config().save_frequency;
+            if self.current_iteration / frequency > previous_iteration / frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1644,18 +1661,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1768,10 +1773,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            // Save checkpoint if enabled and conditions are met
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
         Ok(())
     }
@@ -1841,13 +1842,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1879,9 +1873,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1921,13 +1912,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1983,20 +1967,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2064,9 +2038,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2074,13 +2045,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2106,9 +2070,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..75f3319 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -643,7 +643,7 @@ pub struct OQNLPCheckpoint {
     /// Algorithm parameters
     pub params: OQNLPParams,
 
-    /// Current iteration number
+    /// Number of completed Stage 2 iterations (the iteration a resumed run continues from)
     pub current_iteration: usize,
 
     /// Current threshold value for merit filter
-- 
2.43.0


From 53f7dd8e6a4f2c7f0d55b7bcf780c2d7eb1c0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:59 +0000
Subject: [PATCH 05/39] fix: apply restored parameters to the local solver and
 the distance filter

---
 src/oqnlp.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index b0cb9e0..c4abd2a 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1564,6 +1564,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         self.abs_tol = checkpoint.abs_tol;
         self.rel_tol = checkpoint.rel_tol;
 
+        // Rebuild the components configured by the restored parameters
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
+
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
-- 
2.43.0


From bc27f35c5465bbca146bd799953058885dc2ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 06/39] fix: make run() continue from a checkpoint restored by
 the resume_* methods

---
 src/oqnlp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index c4abd2a..7f1cc9b 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -404,6 +404,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     start_time: Option<std::time::Instant>,
 
+    /// Whether a checkpoint restored through one of the `resume_*` methods is waiting for `run()`
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Current random seed for reproducible continuation.
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
@@ -490,6 +494,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             #[cfg(feature = "checkpointing")]
             start_time: None,
             #[cfg(feature = "checkpointing")]
+            resume_pending: false,
+            #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
             observer: None,
             custom_points: None,
@@ -688,7 +694,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Try to resume from checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint =
+            std::mem::take(&mut self.resume_pending) || self.try_resume_from_checkpoint()?;
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1446,6 +1453,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 checkpoint.params = new_params.clone();
 
                 self.restore_from_checkpoint(checkpoint)?;
+                self.resume_pending = true;
 
                 if self.verbose {
                     println!(
@@ -1514,6 +1522,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             checkpoint.params = new_params.clone();
 
             self.restore_from_checkpoint(checkpoint)?;
+            self.resume_pending = true;
 
             if self.verbose {
                 println!(
-- 
2.43.0


From a55c23029f4b74d6cad8cd011405f8f9dfd9049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 07/39] fix: find the checkpoint of iteration 0 when it is the
 only one

---
 src/checkpoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..30c674e 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -327,7 +327,7 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
+                        if latest_path.is_none() || iteration > latest_iteration {
                             latest_iteration = iteration;
                             latest_path = Some(path);
                         }
-- 
2.43.0


From 25e8123f1b86b9ab7f2885c73dc08489fe1d858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:06 +0000
Subject: [PATCH 08/39] fix: replace checkpoint files atomically

---
 src/checkpoint.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 30c674e..a11768b 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -60,7 +60,7 @@
 
 use crate::types::{CheckpointConfig, OQNLPCheckpoint};
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -245,11 +245,19 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
-            operation: "write".to_string(),
-            path: filepath.clone(),
-            source: e,
-        })?;
+        // Write to a temporary file and rename it into place, so that an interrupted save never
+        // damages the previous checkpoint
+        let temp_path = filepath.with_extension("bin.tmp");
+        write_and_sync(&temp_path, &encoded)
+            .and_then(|()| fs::rename(&temp_path, &filepath))
+            .map_err(|e| {
+                let _ = fs::remove_file(&temp_path);
+                CheckpointError::IoError {
+                    operation: "write".to_string(),
+                    path: filepath.clone(),
+                    source: e,
+                }
+            })?;
 
         Ok(filepath)
     }
@@ -393,6 +401,13 @@ impl CheckpointManager {
     }
 }
 
+/// Write `data` to a new file at `path` and flush it to the storage device
+fn write_and_sync(path: &Path, data: &[u8]) -> io::Result<()> {
+    let mut file = fs::File::create(path)?;
+    file.write_all(data)?;
+    file.sync_all()
+}
+
 impl Default for CheckpointManager {
     fn default() -> Self {
         Self::new(CheckpointConfig::default()).unwrap()
-- 
2.43.0


From 6af6d6bae553a0472e3f3af86e0cb60cee0e833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:10 +0000
Subject: [PATCH 09/39] fix: do not panic when a save frequency, callback
 frequency or batch size is zero

---
 src/observers/mod.rs | 4 +++-
 src/oqnlp.rs         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..e2bdcee 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,9 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some()
+            && self.callback_frequency > 0
+            && iteration % self.callback_frequency == 0
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 7f1cc9b..88be13e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -972,7 +972,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let trials_to_process: Vec<_> =
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
-        for batch in trials_to_process.chunks(effective_batch_size) {
+        for batch in trials_to_process.chunks(effective_batch_size.max(1)) {
             // A resumed run may already have reached the target objective
             if resumed_from_checkpoint && self.target_objective_reached() {
                 break;
@@ -1631,7 +1631,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
             let frequency = manager.config().save_frequency;
-            if self.current_iteration / frequency > previous_iteration / frequency {
+            if frequency > 0
+                && self.current_iteration / frequency > previous_iteration / frequency
+            {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
-- 
2.43.0


From 664aa44b77e13950617b98261c9d3c0baf9d722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 10/39] fix: reject NaN parameters and custom points, and
 bounds that cannot be sampled

---
 src/filters.rs        | 2 +-
 src/oqnlp.rs          | 6 +++---
 src/scatter_search.rs | 5 ++++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..d15170a 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -208,7 +208,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor < 0.0 || params.distance_factor.is_nan() {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 88be13e..9164fec 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -448,7 +448,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor <= 0.0 || params.threshold_factor.is_nan() {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
@@ -668,7 +668,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if !(lower..=upper).contains(&value) {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1089,7 +1089,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            if !(lower_bound..=upper_bound).contains(&value) {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..ebab1e0 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -163,7 +163,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // A range whose width is not finite (NaN, infinite or overflowing) cannot be sampled
+            if bounds.lower[i] >= bounds.upper[i]
+                || !(bounds.upper[i] - bounds.lower[i]).is_finite()
+            {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
-- 
2.43.0


From 34cbb19edb0b2ca11a78d7792bcbbb9d09e19797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 11/39] fix: count a local search that finds a new best as one
 that improved the solution set

---
 src/oqnlp.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 9164fec..2c0a44d 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1064,6 +1064,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         Ok(passes_merit && passes_distance)
     }
 
+    /// Objective of the best solution found so far (infinity if there is none)
+    fn best_objective(&self) -> f64 {
+        self.solution_set
+            .as_ref()
+            .and_then(|set| set.best_solution())
+            .map_or(f64::INFINITY, |best| best.objective)
+    }
+
     /// Check if the target objective has been reached
     fn target_objective_reached(&self) -> bool {
         if let (Some(target), Some(solution_set)) = (self.target_objective, &self.solution_set) {
@@ -1735,13 +1743,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let previous_best = self.best_objective();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                let improved = added || self.best_objective() < previous_best;
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1936,13 +1946,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    let improved = added || self.best_objective() < previous_best;
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2009,13 +2021,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    let improved = added || self.best_objective() < previous_best;
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 8da7ec75023e99b8dd95c40f6fde284cc8060758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 12/39] fix: respect the callback frequency when a batch has a
 single local search

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2c0a44d..700ad6d 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2052,9 +2052,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 6c47e6f532114f097b42f25b7527e01e1126422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 13/39] fix: report the current threshold and unchanged cycles
 to sequential Stage 2 callbacks

---
 src/oqnlp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 700ad6d..688f0bf 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1800,6 +1800,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 }
             }
 
+            // Observer: Report the state this iteration leaves behind
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_unchanged_cycles(*unchanged_cycles);
+                        stage2.set_threshold_value(self.merit_filter.threshold);
+                    }
+                }
+            }
+
             // Invoke observer callback if set and frequency matches
             if let Some(ref mut observer) = self.observer {
                 if observer.should_invoke_callback(local_iter) {
-- 
2.43.0


From 107aaa93157406bc6ab0037fde24c4d224f13c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 14/39] fix: apply curvature_threshold and tolerance to
 Newton-CG with the Hager-Zhang line search

---
 src/local_solver/runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..20e3a4a 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -921,7 +921,12 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From 5e143eba3626f1f9eba234ce05cbd7bf01f993ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 15/39] fix: report invalid Newton-CG line search settings as
 Newton-CG errors

---
 src/local_solver/runner.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 20e3a4a..0bfc9fa 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -843,15 +843,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -897,27 +897,27 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-- 
2.43.0


From 852ebd1cd490bb27c49abdda21d930aa0b94d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 16/39] fix: let a finite local solution replace a solution set
 with a non-finite objective

---
 src/oqnlp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 688f0bf..168934e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1148,9 +1148,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj2 = current_best.objective;
 
         let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        // The relative tolerance only makes sense between finite objectives
+        let tol = if obj1.is_finite() && obj2.is_finite() {
+            abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()))
+        } else {
+            0.0
+        };
 
-        let added: bool = if obj1 < obj2 - tol {
+        let added: bool = if obj1 < obj2 - tol || (obj2.is_nan() && !obj1.is_nan()) {
             // Found new best solution
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
-- 
2.43.0


From b0351d87303be1c83959cdd5c0df8d83d2032dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:39 +0000
Subject: [PATCH 17/39] fix: keep Python constraints usable after a constraint
 function raises

---
 python/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..a242cc3 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -19,7 +19,7 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 
 // Global constraint registry for COBYLA constraints
-type ConstraintRegistry = Arc<Mutex<HashMap<usize, Vec<Py<pyo3::PyAny>>>>>;
+type ConstraintRegistry = Arc<Mutex<HashMap<usize, Arc<Vec<Py<pyo3::PyAny>>>>>>;
 static CONSTRAINT_REGISTRY: std::sync::OnceLock<ConstraintRegistry> = std::sync::OnceLock::new();
 static PROBLEM_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
@@ -55,9 +55,12 @@ fn get_current_problem_id() -> usize {
 // Helper function to evaluate all constraints for a given problem ID
 fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
     let registry = get_constraint_registry();
-    let registry_lock = registry.lock().expect("Constraint registry mutex poisoned");
+    // Release the registry before calling into Python, so that a failing constraint does not
+    // poison it for every later optimization
+    let constraints =
+        registry.lock().expect("Constraint registry mutex poisoned").get(&problem_id).cloned();
 
-    if let Some(constraints) = registry_lock.get(&problem_id) {
+    if let Some(constraints) = constraints {
         Python::attach(|py| {
             constraints
                 .iter()
@@ -678,7 +681,7 @@ impl Problem for PyProblem {
                 };
 
                 let num_constraints = constraint_list.len();
-                registry_lock.insert(self.problem_id, constraint_list);
+                registry_lock.insert(self.problem_id, Arc::new(constraint_list));
                 drop(registry_lock); // Release the lock
 
                 // Set the current problem ID for constraint evaluation
-- 
2.43.0


From d3231fcc329d56fd888570ad14b10f652a9f517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:39 +0000
Subject: [PATCH 18/39] fix: evaluate Python constraints of parallel runs
 against the right problem

---
 python/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index a242cc3..366d336 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -896,6 +896,8 @@ fn optimize(
             local_solver_config,
         };
 
+        let has_constraints = problem.constraints.is_some();
+
         let mut optimizer =
             OQNLP::new(problem, oqnlp_params).map_err(|e| PyValueError::new_err(e.to_string()))?;
 
@@ -911,7 +913,9 @@ fn optimize(
                 .map_err(|e| PyValueError::new_err(e.to_string()))?;
         }
 
-        let parallel_enabled = parallel.unwrap_or(false);
+        // Python constraints are resolved through the thread that runs the optimization, so they
+        // must not be evaluated from worker threads (Python calls are serialized in any case)
+        let parallel_enabled = parallel.unwrap_or(false) && !has_constraints;
 
         // For Python problems with parallel processing, we need special GIL handling
         // When parallel=True, we allow threads during parallel computation but ensure
-- 
2.43.0


From 0c85d0e705e7b6e58204db55859ac10b9a2de86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 19/39] fix: compute the same minimum distance with and without
 parallel evaluation

The sequential path treated every squared distance below 1e-14 as zero, so
that farthest-first selection broke down for narrow bounds and chose other
points than the parallel path.
---
 src/scatter_search.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index ebab1e0..8e54740 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -610,35 +610,18 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                     .map(|p| euclidean_distance_squared(point, p))
                     .reduce(|| f64::INFINITY, f64::min)
             } else {
-                // Sequential with early termination for near-zero distances
-                let mut min_dist = f64::INFINITY;
-                for p in ref_set {
-                    let dist = euclidean_distance_squared(point, p);
-                    if dist < min_dist {
-                        min_dist = dist;
-                        // Early termination if points are essentially identical
-                        if dist < 1e-14 {
-                            return 0.0;
-                        }
-                    }
-                }
-                min_dist
+                ref_set
+                    .iter()
+                    .map(|p| euclidean_distance_squared(point, p))
+                    .fold(f64::INFINITY, f64::min)
             }
         }
         #[cfg(not(feature = "rayon"))]
         {
-            let mut min_dist = f64::INFINITY;
-            for p in ref_set {
-                let dist = euclidean_distance_squared(point, p);
-                if dist < min_dist {
-                    min_dist = dist;
-                    // Early termination if points are essentially identical
-                    if dist < 1e-14 {
-                        return 0.0;
-                    }
-                }
-            }
-            min_dist
+            ref_set
+                .iter()
+                .map(|p| euclidean_distance_squared(point, p))
+                .fold(f64::INFINITY, f64::min)
         }
     }
 
-- 
2.43.0


From 7eb002433a447bcfa0896a1670d59e91588aeb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 20/39] fix: make the diversity threshold independent of the
 number of threads

The parallel floating-point sum was grouped by work splitting, so that the
set of evaluated trial points could depend on the thread pool.
---
 src/scatter_search.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 8e54740..396e282 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -725,29 +725,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let k = ((ref_set.len() as f64).sqrt() as usize).max(2).min(ref_set.len());
                 let sample_size = k;
 
-                #[cfg(feature = "rayon")]
-                let sum_dist = if self.enable_parallel {
-                    (0..sample_size)
-                        .into_par_iter()
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                } else {
-                    (0..sample_size)
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                };
-
-                #[cfg(not(feature = "rayon"))]
+                // Summed in a fixed order: a parallel sum rounds differently with
+                // the number of worker threads
                 let sum_dist = (0..sample_size)
                     .map(|i| {
                         euclidean_distance_squared(&ref_set[i], &ref_set[(i + 1) % ref_set.len()])
-- 
2.43.0


From 66c601e5ef51d802e3da1a56a3207258b903bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:31 +0000
Subject: [PATCH 21/39] fix: count trial-point evaluations of the
 intensification in the Stage 1 metrics

Stage1State::function_evaluations() is documented to include them.
---
 src/scatter_search.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 396e282..e7afa00 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -151,6 +152,8 @@ pub struct ScatterSearch<'a, P: Problem> {
     observer: Option<&'a mut Observer>,
     /// Custom points to seed the reference set
     custom_points: Option<Vec<Array1<f64>>>,
+    /// Number of trial points whose objective was evaluated during intensification
+    trial_evaluations: AtomicUsize,
 }
 
 impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
@@ -190,6 +193,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             enable_parallel: true,
             observer: None,
             custom_points: None,
+            trial_evaluations: AtomicUsize::new(0),
         };
 
         Ok(ss)
@@ -300,6 +304,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 if let Some(stage1) = obs.stage1_mut() {
                     stage1.enter_substage("intensification_complete");
                     stage1.add_trial_points(trial_points.len());
+                    stage1.add_function_evaluations(
+                        self.trial_evaluations.load(Ordering::Relaxed),
+                    );
                     stage1.set_reference_set_size(self.reference_set.len());
                 }
             }
@@ -758,6 +765,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            self.trial_evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
-- 
2.43.0


From f8511e7233685c1f2e24fdc4c585721a8bc37013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 22/39] fix: keep the k best points in front when the reference
 set is updated

Selecting the population over the whole set again moved points into the
sorted prefix, so that trial points generated afterwards did not combine the
k best reference points.
---
 src/scatter_search.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e7afa00..06a0640 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -810,8 +810,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
         all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
 
-        // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        // Partition the remaining to get the pop_size best overall (the k best stay in front)
+        if pop_size > k {
+            all_points[k..].select_nth_unstable_by(pop_size - 1 - k, |a, b| a.1.total_cmp(&b.1));
+        }
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
-- 
2.43.0


From 3ddc481820cf1610f633ef4d1bd949b71cd039c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:30 +0000
Subject: [PATCH 23/39] fix: stop the stage clocks when a stage ends

total_time() is documented to return the time spent in a completed stage, but
kept growing because end() left the stage running.
---
 src/observers/stage1.rs | 2 +-
 src/observers/stage2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..69099a8 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -125,7 +125,7 @@ impl Stage1State {
 
     /// End Stage 1 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..39e8e98 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -126,7 +126,7 @@ impl Stage2State {
 
     /// End Stage 2 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
-- 
2.43.0


From 04a6648fe2ae425486a02a4f38468b1a8f108db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:30 +0000
Subject: [PATCH 24/39] fix: respect the observation mode when recording the
 last added solution

---
 src/oqnlp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 168934e..40b6dc0 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1163,8 +1163,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
@@ -1185,8 +1187,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
-- 
2.43.0


From 14711f8b8f517ad6085f6f11c5fb09c89cc254d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:35 +0000
Subject: [PATCH 25/39] fix: do not report Stage 1 as active during the Stage 2
 of a resumed run

---
 src/oqnlp.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 40b6dc0..f0f6497 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -685,11 +685,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Start observer timing if enabled
         if let Some(ref mut observer) = self.observer {
             observer.start_timer();
-            if observer.should_observe_stage1() {
-                if let Some(stage1) = observer.stage1_mut() {
-                    stage1.start();
-                }
-            }
         }
 
         // Try to resume from checkpoint if enabled
@@ -712,6 +707,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 if self.verbose {
                     println!("Resuming from checkpoint at iteration {}", self.current_iteration);
                 }
+                // Stage 1 is skipped, so its state must not be reported as active during Stage 2
+                if let Some(ref mut observer) = self.observer {
+                    observer.mark_stage1_complete();
+                }
                 let ref_set = self.current_reference_set.clone().unwrap_or_default();
                 let unchanged_cycles = self.unchanged_cycles;
                 // No pre-computed objectives when resuming from checkpoint
@@ -724,6 +723,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             if self.verbose {
                 println!("Starting Stage 1");
             }
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage1() {
+                    if let Some(stage1) = observer.stage1_mut() {
+                        stage1.start();
+                    }
+                }
+            }
 
             #[cfg(feature = "rayon")]
             let mut ss = ScatterSearch::new(self.problem.clone(), self.params.clone())?
-- 
2.43.0


From af2ba87e5ca12fd8fb934064650a64da6c004833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 26/39] fix: rank undefined objectives last whatever the sign
 of the NaN

---
 src/scatter_search.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 06a0640..1aae5e0 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -418,6 +418,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .map(|point| self.problem.objective(point))
             .collect::<Result<Vec<f64>, _>>()?;
 
+        // A computed NaN may be negative, which `total_cmp` orders before every number:
+        // use the positive one so that undefined objectives are always ranked last
+        let objectives = objectives.into_iter().map(|obj| if obj.is_nan() { f64::NAN } else { obj });
+
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-- 
2.43.0


From 151d6d436e0e9261c7602a7a0592ad67b46a113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 27/39] fix: let trial points replace reference points with an
 undefined objective

---
 src/scatter_search.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 1aae5e0..255d571 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -771,7 +771,12 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
             self.trial_evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
-            if obj < worst_obj { Some((point.clone(), obj)) } else { None }
+            // Every defined objective improves on an undefined one
+            if obj < worst_obj || (worst_obj.is_nan() && !obj.is_nan()) {
+                Some((point.clone(), obj))
+            } else {
+                None
+            }
         };
 
         #[cfg(feature = "rayon")]
-- 
2.43.0


From ccdea9b709585efe3bd285e2ebee12006f02dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:30 +0000
Subject: [PATCH 28/39] fix: do not take files of other runs for checkpoints of
 this one

---
 src/checkpoint.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index a11768b..35b9107 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -318,7 +318,6 @@ impl CheckpointManager {
                 path: self.config.checkpoint_dir.clone(),
                 source: e,
             })?;
-        let pattern = format!("{}_", self.config.checkpoint_name);
 
         let mut latest_iteration = 0;
         let mut latest_path = None;
@@ -331,15 +330,10 @@ impl CheckpointManager {
             })?;
             let path = entry.path();
 
-            if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                if filename.starts_with(&pattern) && filename.ends_with(".bin") {
-                    let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if latest_path.is_none() || iteration > latest_iteration {
-                            latest_iteration = iteration;
-                            latest_path = Some(path);
-                        }
-                    }
+            if let Some(iteration) = self.iteration_of(&path) {
+                if latest_path.is_none() || iteration > latest_iteration {
+                    latest_iteration = iteration;
+                    latest_path = Some(path);
                 }
             }
         }
@@ -349,6 +343,16 @@ impl CheckpointManager {
         })
     }
 
+    /// Iteration of a checkpoint file written by this manager with keep_all enabled
+    ///
+    /// Other files, such as `run_5.bin` of another run named `run_5`, are not ours.
+    fn iteration_of(&self, path: &Path) -> Option<usize> {
+        let filename = path.file_name()?.to_str()?;
+        let prefix = format!("{}_", self.config.checkpoint_name);
+        let iteration = filename.strip_prefix(&prefix)?.strip_suffix(".bin")?.parse().ok()?;
+        (filename == format!("{prefix}{iteration:06}.bin")).then_some(iteration)
+    }
+
     /// Clean up old checkpoint files (keep only the latest N files)
     pub fn cleanup_old_checkpoints(&self, keep_count: usize) -> Result<(), CheckpointError> {
         if !self.config.keep_all || keep_count == 0 {
@@ -361,7 +365,6 @@ impl CheckpointManager {
                 path: self.config.checkpoint_dir.clone(),
                 source: e,
             })?;
-        let pattern = format!("{}_", self.config.checkpoint_name);
 
         let mut checkpoints = Vec::new();
 
@@ -373,13 +376,8 @@ impl CheckpointManager {
             })?;
             let path = entry.path();
 
-            if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                if filename.starts_with(&pattern) && filename.ends_with(".bin") {
-                    let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        checkpoints.push((iteration, path));
-                    }
-                }
+            if let Some(iteration) = self.iteration_of(&path) {
+                checkpoints.push((iteration, path));
             }
         }
 
-- 
2.43.0


From c178f990585f8144caea3b4a8964e8ff12f30d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 29/39] fix: report a corrupted length in a checkpoint file as
 an error

---
 src/checkpoint.rs | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 35b9107..67629cd 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -288,16 +288,13 @@ impl CheckpointManager {
             path: path.to_path_buf(),
             source: e,
         })?;
-        let (checkpoint, _): (OQNLPCheckpoint, usize) =
-            bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
-                .map_err(BincodeError::DecodeError)
-                .map_err(|e| CheckpointError::SerializationError {
-                    operation: "decode".to_string(),
-                    path: path.to_path_buf(),
-                    source: e,
-                })?;
-
-        Ok(checkpoint)
+        decode(&encoded).map_err(BincodeError::DecodeError).map_err(|e| {
+            CheckpointError::SerializationError {
+                operation: "decode".to_string(),
+                path: path.to_path_buf(),
+                source: e,
+            }
+        })
     }
 
     /// Check if a checkpoint exists
@@ -406,6 +403,21 @@ fn write_and_sync(path: &Path, data: &[u8]) -> io::Result<()> {
     file.sync_all()
 }
 
+/// Decode a checkpoint
+///
+/// The size of what is decoded is limited, so that a corrupted length is reported as an error and
+/// does not abort the program by asking for an impossible amount of memory.
+fn decode(encoded: &[u8]) -> Result<OQNLPCheckpoint, bincode::error::DecodeError> {
+    const LIMIT: usize = 1 << 30;
+    let config = bincode::config::legacy();
+    let (checkpoint, _) = if encoded.len() <= LIMIT {
+        bincode::serde::decode_from_slice(encoded, config.with_limit::<LIMIT>())?
+    } else {
+        bincode::serde::decode_from_slice(encoded, config)?
+    };
+    Ok(checkpoint)
+}
+
 impl Default for CheckpointManager {
     fn default() -> Self {
         Self::new(CheckpointConfig::default()).unwrap()
@@ -439,16 +451,13 @@ pub fn read_checkpoint_file(path: &Path) -> Result<OQNLPCheckpoint, CheckpointEr
         path: path.to_path_buf(),
         source: e,
     })?;
-    let (checkpoint, _): (OQNLPCheckpoint, usize) =
-        bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
-            .map_err(BincodeError::DecodeError)
-            .map_err(|e| CheckpointError::SerializationError {
-                operation: "decode".to_string(),
-                path: path.to_path_buf(),
-                source: e,
-            })?;
-
-    Ok(checkpoint)
+    decode(&encoded).map_err(BincodeError::DecodeError).map_err(|e| {
+        CheckpointError::SerializationError {
+            operation: "decode".to_string(),
+            path: path.to_path_buf(),
+            source: e,
+        }
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0c0d0e99d29b70d15c9e316926870e80b7cfd81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:35 +0000
Subject: [PATCH 30/39] fix: extend the reference set when resuming a
 checkpoint file with a larger population

---
 src/oqnlp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index f0f6497..0012ec0 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1541,6 +1541,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Keep the old params for comparison
             let old_iterations = checkpoint.params.iterations;
 
+            // A larger population needs more reference points
+            self.expand_reference_set(
+                &mut checkpoint.reference_set,
+                checkpoint.params.population_size,
+                new_params.population_size,
+            )?;
+
             // Update with new parameters
             checkpoint.params = new_params.clone();
 
-- 
2.43.0


From 9c0bb781b7c903cfef7373717adbc24dfc338d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 31/39] fix: keep the midpoint of very large bounds within the
 bounds

---
 src/scatter_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 255d571..5fb2625 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -338,13 +338,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             // No constraints - add all seed points directly
             ref_set.push(self.bounds.lower.to_owned());
             ref_set.push(self.bounds.upper.to_owned());
-            ref_set.push((&self.bounds.lower + &self.bounds.upper) / 2.0);
+            ref_set.push(&self.bounds.lower / 2.0 + &self.bounds.upper / 2.0);
         } else {
             // With constraints - only add seed points that satisfy them
             let seed_points = vec![
                 self.bounds.lower.to_owned(),
                 self.bounds.upper.to_owned(),
-                (&self.bounds.lower + &self.bounds.upper) / 2.0,
+                &self.bounds.lower / 2.0 + &self.bounds.upper / 2.0,
             ];
 
             for point in seed_points {
-- 
2.43.0


From 10e92b7c9c8dbb1f3c362bb2121aa9a702942f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 32/39] fix: a point whose constraint is undefined is not
 feasible

---
 src/scatter_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 5fb2625..808ce2c 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -900,7 +900,7 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        if value < 0.0 || value.is_nan() {
             return false;
         }
     }
-- 
2.43.0


From e543bdd46f0a5fd5beb2be91f01aef1367ce4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 33/39] fix: perturb around the midpoint of two trial parents
 with very large coordinates

The sum of two coordinates above half of the largest float overflows, so every
perturbed trial point ended up clamped to a bound.
---
 src/scatter_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 808ce2c..dd42ae3 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -698,7 +698,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Random perturbations using the provided seed
         let mut rng: StdRng = StdRng::seed_from_u64(seed);
         for _ in 0..2 {
-            let mut point = (a + b) / 2.0;
+            let mut point = a / 2.0 + b / 2.0;
             point.iter_mut().enumerate().for_each(|(i, x)| {
                 *x += rng.random_range(-0.1..0.1) * (self.bounds.upper[i] - self.bounds.lower[i]);
             });
-- 
2.43.0


From 9c8b6f2170721003716fb14253a7dd2f8bbc5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:39 +0000
Subject: [PATCH 34/39] fix: document the actual default step bounds of the
 Hager-Zhang line search

---
 src/local_solver/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_solver/builders.rs b/src/local_solver/builders.rs
index ba2e888..1fdf203 100644
--- a/src/local_solver/builders.rs
+++ b/src/local_solver/builders.rs
@@ -1493,7 +1493,7 @@ impl HagerZhangBuilder {
 /// - `theta`: 0.5
 /// - `gamma`: 0.66
 /// - `eta`: 0.01
-/// - `bounds`: [sqrt(EPSILON), INFINITY]
+/// - `bounds`: [EPSILON, 1e5]
 #[cfg(feature = "argmin")]
 impl Default for HagerZhangBuilder {
     fn default() -> Self {
-- 
2.43.0


From e07b1fcea747744aa61510afdbee88bfd9d65c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 35/39] fix: an objective failing in the initial Nelder-Mead
 simplex is an error, not a panic

---
 src/local_solver/runner.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 0bfc9fa..4dfd3b7 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -387,14 +387,17 @@ impl<P: Problem> LocalSolver<P> {
         solver_config: &LocalSolverConfig,
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
+        use std::collections::VecDeque;
         use std::sync::{
-            Arc,
+            Arc, Mutex,
             atomic::{AtomicU64, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            // Values of the initial simplex not yet handed over to the solver
+            initial_costs: Mutex<VecDeque<f64>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -402,6 +405,9 @@ impl<P: Problem> LocalSolver<P> {
             type Output = f64;
 
             fn cost(&self, param: &Self::Param) -> std::result::Result<Self::Output, Error> {
+                if let Some(known) = self.initial_costs.lock().unwrap().pop_front() {
+                    return Ok(known);
+                }
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
@@ -410,7 +416,11 @@ impl<P: Problem> LocalSolver<P> {
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            initial_costs: Mutex::new(VecDeque::new()),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -430,7 +440,7 @@ impl<P: Problem> LocalSolver<P> {
                 simplex.push(point);
             }
 
-            let solver = NelderMead::new(simplex)
+            let solver = NelderMead::new(simplex.clone())
                 .with_sd_tolerance(*sd_tolerance)
                 .map_err(|e: Error| LocalSolverError::InvalidNelderMeadConfig {
                     reason: e.to_string(),
@@ -452,6 +462,18 @@ impl<P: Problem> LocalSolver<P> {
                     reason: e.to_string(),
                 })?;
 
+            // argmin panics if the objective fails at a vertex of the initial simplex, so the
+            // vertices are evaluated here and their values handed over in the same order
+            let mut initial_costs = VecDeque::with_capacity(simplex.len());
+            for vertex in &simplex {
+                let value = cost.cost(vertex).map_err(|e: Error| LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason: e.to_string(),
+                })?;
+                initial_costs.push_back(value);
+            }
+            *cost.initial_costs.lock().unwrap() = initial_costs;
+
             let res = Executor::new(cost, solver)
                 .configure(|state| state.max_iters(*max_iter))
                 .run()
-- 
2.43.0


From fd13465ea46714bf49e08debe88d1c06964f73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 36/39] fix: reject ragged arrays from Python instead of
 regrouping their values

---
 python/src/lib.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 366d336..6d19e16 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -111,6 +111,16 @@ fn get_constraint_functions(num_constraints: usize) -> Vec<fn(&[f64], &mut ()) -
     functions
 }
 
+/// Turn a sequence of rows into an array, if all rows have the same number of entries
+fn rows_to_array(rows: Vec<Vec<f64>>) -> Result<Array2<f64>, String> {
+    let cols = rows.first().map_or(0, Vec::len);
+    if let Some(row) = rows.iter().find(|row| row.len() != cols) {
+        return Err(format!("expected rows of {} values, got one of {}", cols, row.len()));
+    }
+    Array2::from_shape_vec((rows.len(), cols), rows.into_iter().flatten().collect())
+        .map_err(|e| e.to_string())
+}
+
 #[pyclass]
 #[derive(Debug, Clone)]
 /// Parameters for the OQNLP global optimization algorithm.
@@ -601,12 +611,7 @@ impl Problem for PyProblem {
                 });
 
             match result {
-                Ok(bounds) => {
-                    let rows = bounds.len();
-                    let cols = if rows > 0 { bounds[0].len() } else { 0 };
-                    Array2::from_shape_vec((rows, cols), bounds.into_iter().flatten().collect())
-                        .unwrap()
-                }
+                Ok(bounds) => rows_to_array(bounds).unwrap(),
                 Err(_) => panic!("Variable bounds must be a 2D array of floats"),
             }
         })
@@ -649,10 +654,7 @@ impl Problem for PyProblem {
                     .extract(py)
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
-                let size = hess_vec.len();
-                let flat_hess: Vec<f64> = hess_vec.into_iter().flatten().collect();
-
-                Array2::from_shape_vec((size, size), flat_hess).map_err(|_| {
+                rows_to_array(hess_vec).ok().filter(|hess| hess.is_square()).ok_or_else(|| {
                     EvaluationError::InvalidInput { reason: "Hessian shape mismatch".to_string() }
                 })
             })
@@ -903,10 +905,7 @@ fn optimize(
 
         // Add custom points if provided
         if let Some(points) = with_points {
-            let rows = points.len();
-            let cols = if rows > 0 { points[0].len() } else { 0 };
-            let flat_points: Vec<f64> = points.into_iter().flatten().collect();
-            let points_array = Array2::from_shape_vec((rows, cols), flat_points)
+            let points_array = rows_to_array(points)
                 .map_err(|e| PyValueError::new_err(format!("Invalid points array shape: {}", e)))?;
             optimizer = optimizer
                 .with_points(points_array)
-- 
2.43.0


From 543da47e947efd8a921b7f68ae8a059bce7d892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 37/39] fix: keep an optimization's problem and lock apart from
 one started by its user functions

---
 python/src/lib.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 6d19e16..f56421c 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -30,6 +30,26 @@ static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::
 thread_local! {
     static CURRENT_PROBLEM_ID: Cell<usize> = const { Cell::new(0) };
     static CURRENT_CONSTRAINT_INDEX: Cell<usize> = const { Cell::new(0) };
+    // Whether this thread is evaluating a Python objective (and holds the Python call mutex)
+    static EVALUATING_OBJECTIVE: Cell<bool> = const { Cell::new(false) };
+}
+
+/// Sets a thread-local value back to what it was when dropped
+struct Restore<T: Copy + 'static> {
+    cell: &'static std::thread::LocalKey<Cell<T>>,
+    value: T,
+}
+
+impl<T: Copy + 'static> Restore<T> {
+    fn new(cell: &'static std::thread::LocalKey<Cell<T>>) -> Self {
+        Restore { cell, value: cell.get() }
+    }
+}
+
+impl<T: Copy + 'static> Drop for Restore<T> {
+    fn drop(&mut self) {
+        self.cell.set(self.value);
+    }
 }
 
 fn get_python_call_mutex() -> &'static Mutex<()> {
@@ -583,7 +603,10 @@ impl PyProblem {
 impl Problem for PyProblem {
     fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
         // Serialize Python calls from parallel threads to avoid GIL deadlocks
-        let _guard = get_python_call_mutex().lock().unwrap();
+        // (an optimization started by an objective evaluates its own objective under the same lock)
+        let _guard = (!EVALUATING_OBJECTIVE.get()).then(|| get_python_call_mutex().lock().unwrap());
+        let _evaluating = Restore::new(&EVALUATING_OBJECTIVE);
+        EVALUATING_OBJECTIVE.set(true);
         Python::attach(|py| {
             let x_py = x
                 .to_vec()
@@ -803,6 +826,9 @@ fn optimize(
     parallel: Option<bool>,
     with_points: Option<Vec<Vec<f64>>>,
 ) -> PyResult<PySolutionSet> {
+    // A user function may start an optimization of its own while another one is running
+    let _outer_problem = Restore::new(&CURRENT_PROBLEM_ID);
+
     Python::attach(|py| {
         // Convert local_solver string to enum
         let solver_type = LocalSolverType::from_string(local_solver.unwrap_or("cobyla"))
@@ -913,8 +939,10 @@ fn optimize(
         }
 
         // Python constraints are resolved through the thread that runs the optimization, so they
-        // must not be evaluated from worker threads (Python calls are serialized in any case)
-        let parallel_enabled = parallel.unwrap_or(false) && !has_constraints;
+        // must not be evaluated from worker threads (Python calls are serialized in any case).
+        // Worker threads would wait forever for an objective that runs this optimization.
+        let parallel_enabled =
+            parallel.unwrap_or(false) && !has_constraints && !EVALUATING_OBJECTIVE.get();
 
         // For Python problems with parallel processing, we need special GIL handling
         // When parallel=True, we allow threads during parallel computation but ensure
-- 
2.43.0


From 8c5b0a308a25a26ff0f95738bf1ba602ace7d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:35 +0000
Subject: [PATCH 38/39] fix: unique_updates also filters the Stage 2 console
 callback

---
 src/observers/mod.rs | 45 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index e2bdcee..76d2088 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -732,21 +732,7 @@ impl Observer {
                     let fn_evals = stage2.function_evaluations();
 
                     // Check if we should print this iteration
-                    let should_print = if obs.filter_stage2_changes {
-                        // Use RwLock for thread-safe interior mutability to avoid borrowing conflicts
-                        let prev_state = obs.previous_stage2_state.as_ref().map(|cell| cell.read().unwrap().clone());
-
-                        // Check if state changed
-                        let has_changed = prev_state.as_ref().is_none_or(|prev| prev.has_changed(stage2));
-
-                        // Update the previous state for next comparison
-                        let current_state = PreviousStage2State::from_stage2(stage2);
-                        obs.previous_stage2_state = Some(std::sync::RwLock::new(current_state));
-
-                        has_changed
-                    } else {
-                        true // Always print if filtering is disabled
-                    };
+                    let should_print = obs.stage2_update_due();
 
                     if should_print {
                         let message = if let Some(coords) = last_added_coords {
@@ -867,6 +853,10 @@ impl Observer {
         }
 
         self.with_callback(|obs| {
+            // Check if we should print this iteration
+            if !obs.stage2_update_due() {
+                return;
+            }
             if let Some(stage2) = obs.stage2() {
                 if stage2.current_iteration() > 0 {
                     if let Some(point) = stage2.last_added_point() {
@@ -896,6 +886,31 @@ impl Observer {
         })
     }
 
+    /// Check if the default callbacks should print the current Stage 2 state
+    ///
+    /// Always true unless `unique_updates()` is enabled, in which case the state must
+    /// differ from the one at the previous Stage 2 callback.
+    fn stage2_update_due(&mut self) -> bool {
+        if !self.filter_stage2_changes {
+            return true; // Always print if filtering is disabled
+        }
+        let Some(stage2) = self.stage2().filter(|stage2| stage2.current_iteration() > 0) else {
+            return false;
+        };
+
+        // Check if state changed
+        let has_changed = self
+            .previous_stage2_state
+            .as_ref()
+            .is_none_or(|cell| cell.read().unwrap().has_changed(stage2));
+
+        // Update the previous state for next comparison
+        let current_state = PreviousStage2State::from_stage2(stage2);
+        self.previous_stage2_state = Some(std::sync::RwLock::new(current_state));
+
+        has_changed
+    }
+
     /// Start timing
     ///
     /// Records the current time as the start time for the optimization.
-- 
2.43.0


From d339d36254a5df28d9a59b53390c34a88817b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:35 +0000
Subject: [PATCH 39/39] fix: an undefined constraint value is not printed as
 satisfied

---
 src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 75f3319..cdef072 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -354,10 +354,10 @@ impl SolutionSet {
 
                     // Format constraint status
                     let status = if constraint_value >= 0.0 { "✓" } else { "✗" };
-                    let violation = if constraint_value < 0.0 {
-                        format!(" (violated by {:.6})", -constraint_value)
-                    } else {
+                    let violation = if constraint_value >= 0.0 {
                         " (satisfied)".to_string()
+                    } else {
+                        format!(" (violated by {:.6})", -constraint_value)
                     };
 
                     // Add constraint description if provided
-- 
2.43.0

