From 064215aef822a16f858fdbe39a17ba0f7c3fe14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 01/16] Add simulation hooks guarded by cfg(cambrian_sim)

---
 src/algorithm.rs | 15 +++++++++++++++
 src/lib.rs       |  4 ++++
 src/sim.rs       | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 53 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 464082f..1c26a0f 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -236,10 +236,25 @@ impl AlgoContext {
             result.to_json()
         );
 
+        #[cfg(cambrian_sim)]
+        crate::sim::offspring(&crate::sim::Offspring {
+            spec: &self.spec,
+            initial_value: &self.initial_value,
+            parents_ordered: &individuals_ordered,
+            meta_params: &meta_params_wrapper,
+            crossover_result: &crossover_result,
+            result: &result,
+        });
+
         (result, meta_params_wrapper)
     }
 
     fn next_meta_params(&mut self) -> MetaParamsWrapper {
+        #[cfg(cambrian_sim)]
+        if let Some(meta_params) = crate::sim::meta_params() {
+            return wrap(meta_params, MetaParamsSource::Override);
+        }
+
         if let Some(meta_params_override) = &self.meta_params_override {
             return wrap(meta_params_override.clone(), MetaParamsSource::Override);
         }
diff --git a/src/lib.rs b/src/lib.rs
index 930abaf..189de3f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cambrian_sim: set by the simulation harness only
+
 pub(crate) mod algorithm;
 pub mod async_launch;
 pub(crate) mod common_util;
@@ -14,6 +16,8 @@ pub mod process;
 pub(crate) mod rescaling;
 pub mod result;
 pub(crate) mod selection;
+#[cfg(cambrian_sim)]
+pub mod sim;
 pub mod spec;
 pub mod spec_util;
 pub mod sync_launch;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..f030ae0
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,34 @@
+//! Observation points for the simulation harness. Only compiled with `--cfg cambrian_sim`.
+use crate::meta::{CrossoverParams, MetaParamsWrapper, MutationParams};
+use crate::spec::Spec;
+use crate::value::Value;
+use std::sync::OnceLock;
+
+pub trait Hooks: Sync {
+    /// Meta parameters to use for the next offspring instead of the adaptive ones.
+    fn meta_params(&self) -> Option<(CrossoverParams, MutationParams)>;
+
+    /// An offspring has been created from the given population (empty: from the initial value).
+    fn offspring(&self, offspring: &Offspring);
+}
+
+pub struct Offspring<'a> {
+    pub spec: &'a Spec,
+    pub initial_value: &'a Value,
+    pub parents_ordered: &'a [&'a Value],
+    pub meta_params: &'a MetaParamsWrapper,
+    pub crossover_result: &'a Value,
+    pub result: &'a Value,
+}
+
+pub static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
+
+pub(crate) fn meta_params() -> Option<(CrossoverParams, MutationParams)> {
+    HOOKS.get().and_then(|hooks| hooks.meta_params())
+}
+
+pub(crate) fn offspring(offspring: &Offspring) {
+    if let Some(hooks) = HOOKS.get() {
+        hooks.offspring(offspring);
+    }
+}
-- 
2.43.0


From e5cc9e2c8ecb46e02c1e49f1710bf38292cbb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 02/16] fix: do not panic on non-UTF-8 bytes on a child's
 stderr

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From bce38db64b46c671197619772083d662b55c8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 03/16] fix: do not poll the abort signal again after it has
 fired

The completed oneshot receiver is always ready, so the controller spun
without ever yielding while draining after a termination request.
---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From a15c700d0ada9ab73de7f5372fe6b3981d247667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 04/16] fix: do not start a queued evaluation once the run is
 stopping

---
 src/controller.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..3ec6bc7 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -14,6 +14,7 @@ use futures::stream::FuturesUnordered;
 use futures::SinkExt;
 use futures::TryStreamExt;
 use log::info;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::{Duration, Instant};
 use tangram_finite::FiniteF64;
 
@@ -49,6 +50,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
         explicit_init_value,
     );
 
+    let stopping = AtomicBool::new(false);
     let mut evaled_individuals = FuturesUnordered::new();
     let mut abort_signal_received = false;
     let mut pushed_for_eval_count = 0;
@@ -65,6 +67,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
             &obj_func,
             out_abort_signal_recv.clone(),
             seed_mgr.next_seed(),
+            &stopping,
         ));
     }
 
@@ -78,7 +81,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => {}
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -117,7 +121,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                         } else if !max_num_eval_pushed && !abort_signal_received {
                             let new_individual = algo_ctx.next_individual();
                             let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
-                                seed_mgr.next_seed());
+                                seed_mgr.next_seed(), &stopping);
                             evaled_individuals.push(eval_future);
                             pushed_for_eval_count += 1;
                         }
@@ -125,6 +129,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     Err(error) => {
                         if !abort_signal_received {
                             abort_signal_received = true;
+                            stopping.store(true, Ordering::Relaxed);
                             abort_signal_sender.broadcast(()).await.unwrap();
                             error_recording = Some(error);
                         }
@@ -133,6 +138,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
             }
             _ = &mut in_abort_signal_recv, if !abort_signal_received => {
                 abort_signal_received = true;
+                stopping.store(true, Ordering::Relaxed);
                 abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
@@ -168,7 +174,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
     obj_func: &F,
     abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+    stopping: &AtomicBool,
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    if stopping.load(Ordering::Relaxed) {
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -187,12 +198,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From df4f1b7968bb3504edeaaa2b9da8a04c7ff66600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 05/16] fix: notice an abort request that arrives while a
 result is being recorded

---
 src/controller.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 3ec6bc7..b040c34 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -116,6 +116,13 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                             (false, false)
                         };
 
+                        if !abort_signal_received && !matches!(in_abort_signal_recv.try_recv(), Ok(None)) {
+                            // Handling the result can take long, for example while the report writer is busy
+                            abort_signal_received = true;
+                            stopping.store(true, Ordering::Relaxed);
+                            abort_signal_sender.broadcast(()).await.unwrap();
+                        }
+
                         if max_num_eval_completed {
                             break;
                         } else if !max_num_eval_pushed && !abort_signal_received {
-- 
2.43.0


From 6883862701c508cbf586671e28a2512d79637e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 06/16] fix: let in-flight evaluations end after a failure even
 if the target is reached meanwhile

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index b040c34..e4f15f1 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -105,7 +105,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if best_seen_final.0.get() <= target_obj_func_val && error_recording.is_none() {
                                 break;
                             }
                         }
-- 
2.43.0


From 92b9d0aef05089ff0f884529b32ddee05e9b1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 07/16] fix: reject a child result that is a JSON array instead
 of an object

---
 src/process.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..c0c3c6c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -56,6 +56,12 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+fn parse_child_result(stdout: &[u8]) -> Result<ObjFuncChildResult, serde_json::Error> {
+    // serde would read the struct from a JSON array, too: require an object
+    serde_json::from_slice::<serde_json::Map<String, serde_json::Value>>(stdout)?;
+    serde_json::from_slice(stdout)
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -73,7 +79,7 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
+        let result = parse_child_result(&output.stdout).map_err(|_| {
             Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
                 obj_func_arg.to_owned(),
                 seed,
-- 
2.43.0


From ecf366a7ceb5bc9f85d42913f0ce13dba9bd231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 08/16] fix: do not fail the run when a killed child has
 already been reaped

---
 src/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c0c3c6c..dadd03f 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,8 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                // ECHILD: already reaped by the task that waits for the child
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
-- 
2.43.0


From 07991bd4df9d9231bc7e43059b609cef4430a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 09/16] fix: leave no process of an evaluation's process group
 behind

---
 src/process.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index dadd03f..306cd27 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -50,6 +50,23 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+/// Kills what is left of the child's process group once the evaluation is over, also if it is abandoned.
+struct ChildProcGroup {
+    unreaped_pgid: Option<Pid>,
+}
+
+impl ChildProcGroup {
+    fn kill_and_reap(&mut self) -> Result<(), Error> {
+        kill_and_reap_child_proc_group(self.unreaped_pgid.take())
+    }
+}
+
+impl Drop for ChildProcGroup {
+    fn drop(&mut self) {
+        self.kill_and_reap().ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -120,7 +137,9 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .group_spawn()
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
-        let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let mut child_proc_group = ChildProcGroup {
+            unreaped_pgid: child.id().map(|pgid| Pid::from_raw(pgid as i32)),
+        };
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
@@ -140,11 +159,11 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
                 return result
             }
             _ = &mut timeout_fut => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                child_proc_group.kill_and_reap()?;
                 return Ok(None)
             }
             _ = abort_sig_future => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                child_proc_group.kill_and_reap()?;
                 return Ok(None)
             }
         }
-- 
2.43.0


From e85f01b7a0a959153d661108ee19861cb94e1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 10/16] fix: keep mutated reals and the mutation scale finite

---
 src/meta_adapt.rs | 3 ++-
 src/mutation.rs   | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..630aa10 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -47,7 +47,8 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale(mutation_params.mutation_scale, rng)
+            .clamp(f64::MIN_POSITIVE, f64::MAX),
     };
 
     (crossover_params, mutation_params)
diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..3f6ac2a 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -415,6 +415,7 @@ fn mutate_real(
         .unwrap()
         .sample(rng)
     {
+        let orig_value = value;
         let mut value = mutate_cauchy(value, scale, mutation_params, rng);
 
         if let Some(min) = min {
@@ -425,7 +426,11 @@ fn mutate_real(
             value = value.min(max);
         }
 
-        value
+        if value.is_finite() {
+            value
+        } else {
+            orig_value
+        }
     } else {
         value
     }
-- 
2.43.0


From 4c625583289fff505bad87a93823a039520b2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 11/16] fix: reject an initial guess with a wrong array length
 or map size

---
 src/value_util.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..722ec23 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,20 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => {
+            let node = build_anon_map(json_val, value_type, path)?;
+            check_anon_map_size(&node, min_size, max_size, path)?;
+            Ok(node)
+        }
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,9 +177,16 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
+        serde_json::Value::Array(json_values) if json_values.len() != size => {
+            Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: format!("array of size {}", size),
+            })
+        }
         serde_json::Value::Array(json_values) => {
             let mut elements = Vec::with_capacity(json_values.len());
 
@@ -187,6 +206,25 @@ fn build_array(
     }
 }
 
+fn check_anon_map_size(
+    node: &Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
+    path: &[&str],
+) -> Result<(), Error> {
+    match node {
+        Node::AnonMap(mapping)
+            if mapping.len() < min_size.unwrap_or(0)
+                || mapping.len() > max_size.unwrap_or(usize::MAX) =>
+        {
+            Err(Error::ValueNotWithinBounds {
+                path_hint: format_path(path),
+            })
+        }
+        _ => Ok(()),
+    }
+}
+
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
-- 
2.43.0


From 6343a41788144048ba6462df7aeedaa8650ecd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 12/16] fix: give an element added to an anonymous map a key
 the map does not use

---
 src/mutation.rs | 5 ++++-
 src/path.rs     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 3f6ac2a..ff249e6 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,10 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let mut key = path_node_ctx.next_key();
+            while value_map.contains_key(&key) {
+                key = path_node_ctx.next_key();
+            }
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
diff --git a/src/path.rs b/src/path.rs
index 77b7e67..141380e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.saturating_add(1));
     }
 }
 
-- 
2.43.0


From d5315f8e6b9a4a4d4e6aba348baa6348212d5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 13/16] fix: flush the detailed report and best-seen files so
 that writes complete in order

---
 src/sync_launch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..0d53a10 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -73,6 +73,7 @@ async fn write_best_seen_file(
     best_seen_file
         .write_all(value.to_string().as_bytes())
         .await?;
+    best_seen_file.flush().await?;
 
     Ok(())
 }
@@ -114,6 +115,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From bbe0678e3d4bd872409ab034860862b0f5665ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 14/16] fix: reject an enum whose values are all the same

---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..74bc7b7 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().all_equal() {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 722e2c6cf80954680122a80d484088228117a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 15/16] fix: make runs independent of how an anonymous map was
 built

---
 src/crossover.rs |  2 ++
 src/mutation.rs  | 23 +++++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/crossover.rs b/src/crossover.rs
index 0c9667a..57bd7c7 100644
--- a/src/crossover.rs
+++ b/src/crossover.rs
@@ -260,6 +260,8 @@ where
             .copied()
             .collect();
 
+        // the iteration order of a map depends on how it was built
+        all_keys.sort_unstable();
         all_keys.shuffle(rng);
 
         let mut selected_keys = Vec::new();
diff --git a/src/mutation.rs b/src/mutation.rs
index ff249e6..3ba3be4 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -4,6 +4,7 @@ use crate::spec;
 use crate::types::HashMap;
 use crate::value;
 use crate::value::Value;
+use itertools::Itertools;
 use lazy_static::{__Deref, lazy_static};
 use rand::rngs::StdRng;
 use rand::seq::IteratorRandom;
@@ -193,6 +194,13 @@ fn mutate_anon_map(
     path_node_ctx: &mut PathNodeContext,
     rng: &mut StdRng,
 ) -> value::Node {
+    // draw in key order: the iteration order of the map depends on how it was built
+    let elements_ordered: Vec<(usize, &value::Node)> = value_map
+        .iter()
+        .map(|(key, value)| (*key, value.deref()))
+        .sorted_by_key(|(key, _)| *key)
+        .collect();
+
     let resize = Bernoulli::new(mutation_params.mutation_prob)
         .unwrap()
         .sample(rng);
@@ -212,13 +220,12 @@ fn mutate_anon_map(
         let remove_one = !is_at_min_size && (is_at_max_size || COIN_FLIP.sample(rng));
 
         if remove_one {
-            key_to_remove = Some(*value_map.keys().choose(rng).unwrap());
+            key_to_remove = elements_ordered.iter().map(|(key, _)| *key).choose(rng);
         } else {
-            let value = value_map
-                .values()
+            let value = elements_ordered
+                .iter()
                 .choose(rng)
-                .map(Box::deref)
-                .cloned()
+                .map(|(_, value)| (*value).clone())
                 .unwrap_or_else(|| value_type.initial_value());
 
             let mut key = path_node_ctx.next_key();
@@ -243,8 +250,8 @@ fn mutate_anon_map(
         }
     };
 
-    let mut result_map: HashMap<usize, Box<value::Node>> = value_map
-        .iter()
+    let mut result_map: HashMap<usize, Box<value::Node>> = elements_ordered
+        .into_iter()
         .map(|(key, value)| {
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
@@ -253,7 +260,7 @@ fn mutate_anon_map(
                 .rescale_mutation(mutation_params);
 
             (
-                *key,
+                key,
                 Box::new(do_mutate(
                     value,
                     value_type,
-- 
2.43.0


From d2718ba52074cfcc62634f8cbaa06bffa56d8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 16/16] fix: read null for an optional of a nullable type as
 the spec's initial value does

---
 src/value_util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index 722ec23..561b08c 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -43,7 +43,10 @@ fn build_node(
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
         spec::Node::Enum { ref values, .. } => build_enum(json_val, values, path),
-        spec::Node::Optional { ref value_type, .. } => build_optional(json_val, value_type, path),
+        spec::Node::Optional {
+            ref value_type,
+            init_present,
+        } => build_optional(json_val, value_type, init_present, path),
         spec::Node::Const => build_const(json_val, path),
     }
 }
@@ -331,10 +334,15 @@ fn build_enum(
 fn build_optional(
     json_val: &serde_json::Value,
     value_type: &spec::Node,
+    init_present: bool,
     path: &[&str],
 ) -> Result<Node, Error> {
+    // where the present value can be null, too, null stands for what the spec starts with
+    let null_is_present = init_present
+        && matches!(value_type, spec::Node::Optional { .. } | spec::Node::Const);
+
     Ok(match json_val {
-        serde_json::Value::Null => Node::Optional(None),
+        serde_json::Value::Null if !null_is_present => Node::Optional(None),
         present_value => {
             Node::Optional(Some(Box::new(build_node(present_value, value_type, path)?)))
         }
-- 
2.43.0

