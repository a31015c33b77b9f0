From d677afa3343c693a40e47df056eb24490d976769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 1/6] fix: count the measurable nodes as remaining nodes, too

num_remaining_nodes is documented as the number of nodes that are left to be
measured, but returned only the number of nodes that are still blocked by a
dependency. The accept functions of the probabilistic search were told that
number as well.
---
 mbqc_scheduling/src/scheduler/time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..dd13186 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -117,6 +112,11 @@ impl<'l, T> PathGenerator<'l, T> {
 }
 
 impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     /// Create a new [PathGenerator] from a [PartialOrderGraph]. `dependency_buffer` is
     /// going to own the dependency structure implied by the `graph`, so that it can be
     /// reused again.
-- 
2.43.0


From 4c7cec028bbe1af2f0b170c7f7030300874ed659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 2/6] fix: report instructions longer than the measurable set
 as an error

Measuring more nodes than are measurable underflowed the capacity of the new
measurable set and panicked (capacity overflow) instead of returning
NotMeasurable.
---
 mbqc_scheduling/src/scheduler/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index dd13186..510ff06 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -200,8 +200,10 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // check whether the measure_set is really measurable and return the new
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
-        let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+        // saturating, because the measure_set might be invalid (too long)
+        let mut new_measurable_set = Vec::with_capacity(
+            self.measurable.set().len().saturating_sub(measure_set.len()),
+        );
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 66e5e93c5299137ce5a02394fcb208caeff38cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 3/6] fix: do not split off any task if the task bound is 0

The bound was only compared after a task had been split off, so that a bound of
0 was never met and had the effect of no bound at all.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..6071800 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks < task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -82,9 +86,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From 430f5fa203350fe2a9c952742775c86b05ff6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 4/6] fix: do not replace a better result of another thread by
 a stale one

When the shared best memory was updated from another thread after a task had
found a result, the task compared the updated value instead of its own result
with the shared value when it merged its results, and could overwrite the
better schedule of the other thread.
---
 mbqc_scheduling/src/search/threaded.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 6071800..24fa52e 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -151,8 +151,14 @@ fn task(
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
             // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+            //
+            // the result might also be worse than this_mem, because `update` lowers
+            // this_mem to what the other threads have found; in this case it must not
+            // replace their result
+            if let Some(result) = new_results.remove(&time) {
+                if result.0 == this_mem {
+                    results.insert(time, result);
+                }
             }
         }
     }
-- 
2.43.0


From 6a0dde1eb6dedc8c5e4375d3620c73c6d45ad4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 5/6] fix: do not start queued tasks after the timeout

Every task that was still in the queue of the thread pool when the timer
finished was run until its first update (1000 steps), so that with many tasks
the search went on for much longer than the timeout (16 s instead of 1 s for 16
independent nodes on two threads).
---
 mbqc_scheduling/src/search/threaded.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 24fa52e..ae17e82 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,7 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while ntasks < task_bound {
+        while ntasks < task_bound && !timer.finished() {
             let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
             else {
                 break;
@@ -115,6 +115,13 @@ fn task(
 ) {
     let _span = tracing::debug_span!("search task", ntasks).entered();
 
+    // the timeout might have happened while the task was waiting for a thread; there may
+    // be many such tasks, so don't let each of them run until its first `update`
+    if timer.finished() {
+        tracing::info!("timer: timeout");
+        return;
+    }
+
     tracing::debug!(
         "START: measure: {:?}; best_memory: {:?}",
         measure,
-- 
2.43.0


From c50d388954f49c425181f067dfdd92a5b8698b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 6/6] hook: configurable update interval for the model checking
 harness (cfg mbqc_mc)

---
 mbqc_scheduling/src/search/threaded.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index ae17e82..0efcd2f 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -30,8 +30,18 @@ use crate::{
 
 // after that many steps, the `best_memory` is updated
 // (this is rather a random constant at the moment)
+#[allow(unexpected_cfgs)]
+#[cfg(not(mbqc_mc))]
 const UPDATE_INTERVAL: usize = 1000;
 
+// for the model checking harness: small searches shall communicate, too
+#[allow(unexpected_cfgs)]
+#[cfg(mbqc_mc)]
+const UPDATE_INTERVAL: usize = match option_env!("MBQC_MC_UPDATE_INTERVAL") {
+    Some(digit) => (digit.as_bytes()[0] - b'0') as usize,
+    None => 1,
+};
+
 pub fn search(
     nthreads: u16,
     num_bits: usize,
-- 
2.43.0

