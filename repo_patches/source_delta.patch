From 40536ccf81ddfc5fbac6e887b11b527d88cf4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 01/27] fix: num_cpus() returns the NUM_CPUS hint instead of
 casting its own address

A NUM_CPUS environment hint was parsed and then discarded: the value returned was
the address of the num_cpus function cast to an integer. Return the parsed value,
and ignore a hint that is not a normal number, as the warning already says.
---
 bd-rt/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..4636485 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -40,8 +40,9 @@ pub fn num_cpus() -> usize {
           log::warn!(
             "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
           );
+        } else {
+          return std::cmp::max(1, fractional_cpus as usize);
         }
-        return std::cmp::max(1, num_cpus as usize);
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From b288262e24e657028f610d1d43aaa1e93e82dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 02/27] fix: answer a heap dump request for a file name with a
 NUL byte instead of panicking

---
 bd-profile/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bd-profile/src/lib.rs b/bd-profile/src/lib.rs
index bc88f18..be2f3d8 100644
--- a/bd-profile/src/lib.rs
+++ b/bd-profile/src/lib.rs
@@ -27,7 +27,10 @@ async fn profile_dump(Query(mut params): Query<HashMap<String, String>>) -> Stri
   let output_file = params
     .remove("file")
     .unwrap_or_else(|| "/tmp/profile.heap".to_string());
-  let output_file = CString::new(output_file).unwrap();
+  let output_file = match CString::new(output_file) {
+    Ok(output_file) => output_file,
+    Err(e) => return format!("error: {e}"),
+  };
 
   unsafe {
     result_to_string(tikv_jemalloc_ctl::raw::write_str(
-- 
2.43.0


From 192adddc0aa59f26fbf4c9b06562cb1919d118ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 03/27] fix: flush the buffers a blocking log was actually
 written to

With workflows, a log can be sent to other buffers than the ones selected
for it (a streaming action reroutes it). A blocking log then returned
after flushing the selected buffers only, not the ones holding the log.
---
 bd-logger/src/log_replay.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..db132cc 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -271,6 +271,22 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
+      // Check whether the caller is waiting for the log processing to complete. We call such logs
+      // "blocking".
+      let is_blocking = log_processing_completed_tx.is_some();
+
+      // The workflows engine may have sent the log to other buffers than the ones that were
+      // selected for it. A blocking log has to be flushed from the buffers it was written to.
+      let destination_buffers: Vec<Cow<'_, str>> = if is_blocking {
+        result
+          .log_destination_buffer_ids
+          .iter()
+          .map(|id| id.to_string().into())
+          .collect()
+      } else {
+        vec![]
+      };
+
       if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
@@ -282,10 +298,7 @@ impl ProcessingPipeline {
         // buffers.
         matching_buffers.insert(extra_matching_buffer.into());
       }
-
-      // Check whether the caller is waiting for the log processing to complete. We call such logs
-      // "blocking".
-      let is_blocking = log_processing_completed_tx.is_some();
+      matching_buffers.extend(destination_buffers);
 
       // Force the persistence of workflows state to disk if log is blocking.
       workflows_engine.maybe_persist(is_blocking).await;
-- 
2.43.0


From 3616f9c2bfb3611db436df8948779c316646ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 04/27] fix: keep a log that triggers a flush of buffers it was
 not written to

A log written to a trigger buffer other than the ones its flush action is
about to flush was taken to be uploaded with them, and no synthetic copy was
added to one of the flushed buffers.
---
 bd-logger/src/log_replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index db132cc..99e5a5f 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -452,7 +452,7 @@ impl ProcessingPipeline {
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From 600325fe6cafd7426a24cc50075851a82c4369fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 05/27] fix: remove a negotiated pending action by its id

A config update may narrow a pending action's buffers while its upload intent
is negotiated. The negotiated action then no longer equals the pending one,
which stayed pending forever and made every later trigger of it be ignored.
---
 bd-workflows/src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..ac79f6d 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action.id);
             self.needs_state_persistence = true;
           }
         }
@@ -468,8 +468,17 @@ impl WorkflowsEngine {
     }
   }
 
+  /// Removes the pending action with a given ID. The action is looked up using its ID only as a
+  /// config update might have changed its other attributes while its upload intent was negotiated.
+  fn remove_pending_action(&mut self, action_id: &str) {
+    self
+      .state
+      .pending_actions
+      .retain(|action| action.id != action_id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action.id);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 50acbcf2fd88294ea80433c790857e90beca8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 06/27] fix: report traversals a run created or completed
 before it was stopped

---
 bd-workflows/src/workflow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..3607689 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -597,9 +597,9 @@ impl Run {
           return RunResult {
             state: RunState::Stopped,
             triggered_actions: vec![],
-            created_traversals_count: 0,
-            advanced_traversals_count: 0,
-            completed_traversals_count: 0,
+            created_traversals_count,
+            advanced_traversals_count,
+            completed_traversals_count,
             matched_logs_count: run_matched_logs_count,
           };
         }
@@ -621,9 +621,9 @@ impl Run {
                 return RunResult {
                   state: RunState::Stopped,
                   triggered_actions: vec![],
-                  created_traversals_count: 0,
-                  advanced_traversals_count: 0,
-                  completed_traversals_count: 0,
+                  created_traversals_count,
+                  advanced_traversals_count,
+                  completed_traversals_count,
                   matched_logs_count: run_matched_logs_count,
                 };
               }
-- 
2.43.0


From b21e1ad8319b2a648dcc7289d9580fb6251ab572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 07/27] fix: do not update buffers for a configuration with an
 invalid buffer filter

---
 bd-logger/src/client_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..8cbe9a9 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -249,6 +249,10 @@ impl ApplyConfig for LoggerUpdate {
       filters,
     } = configuration;
 
+    // Build the buffer selector before touching the buffers: if the configuration contains a filter
+    // that cannot be understood the update is rejected, and it must not have been partially applied.
+    let buffer_selector = bd_matcher::buffer_selector::BufferSelector::new(&buffer)?;
+
     let maybe_stream_buffer = self
       .buffer_manager
       .update_from_config(&buffer, !bdtail.active_streams.is_empty())
@@ -277,7 +281,7 @@ impl ApplyConfig for LoggerUpdate {
       .config_update_tx
       .send(ConfigUpdate {
         buffer_producers: BufferProducers::new(&self.buffer_manager)?,
-        buffer_selector: bd_matcher::buffer_selector::BufferSelector::new(&buffer)?,
+        buffer_selector,
         // TODO(Augustyniak): Propagate the information about invalid workflows to server.
         workflows_configuration,
         tail_configs: TailConfigurations::new(
-- 
2.43.0


From cef7cc97a47bd34b2547907f6e34170d28c4f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 08/27] fix: allow initializing the stats file manager again
 after a failed attempt

---
 bd-client-stats/src/file_manager.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..684e1d1 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -184,10 +184,12 @@ impl Inner {
     match self {
       Self::Initialized(inner) => Ok(inner),
       Self::NotInitialized(file_system) => {
-        let file_system = file_system.take().unwrap();
+        // The file system is only taken out once nothing can fail anymore, so that a failed
+        // initialization can be attempted again.
+        let uninitialized_file_system = file_system.as_ref().unwrap();
         let path = STATS_DIRECTORY.join(&*PENDING_AGGREGATION_INDEX_FILE);
         log::debug!("initializing pending aggregation index: {}", path.display());
-        let index = match file_system
+        let index = match uninitialized_file_system
           .read_file(&path)
           .await
           .and_then(|contents| read_compressed_protobuf(&contents))
@@ -197,14 +199,18 @@ impl Inner {
             log::debug!("unable to open pending aggregation index: {e}");
             log::debug!("creating new aggregation index");
 
-            file_system.remove_dir(&STATS_DIRECTORY).await?;
-            file_system.create_dir(&STATS_DIRECTORY).await?;
+            uninitialized_file_system
+              .remove_dir(&STATS_DIRECTORY)
+              .await?;
+            uninitialized_file_system
+              .create_dir(&STATS_DIRECTORY)
+              .await?;
             PendingAggregationIndex::default()
           },
         };
 
         *self = Self::Initialized(InitializedInner {
-          file_system,
+          file_system: file_system.take().unwrap(),
           index: index.pending_files.into(),
         });
 
-- 
2.43.0


From de5ad31e30ae80825194c6813c0b6d37415a5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 09/27] fix: do not panic in the stats file manager when there
 are no pending files

---
 bd-client-stats/src/file_manager.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 684e1d1..f8e6bbf 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -157,9 +157,14 @@ impl InitializedInner {
   }
 
   async fn delete_oldest_snapshot(&mut self) -> anyhow::Result<()> {
+    // The index can be empty if the maximum number of files is set to zero.
+    let Some(oldest) = self.index.front() else {
+      return Ok(());
+    };
+
     self
       .file_system
-      .delete_file(&STATS_DIRECTORY.join(&self.index[0].name))
+      .delete_file(&STATS_DIRECTORY.join(&oldest.name))
       .await?;
     self.index.pop_front();
 
@@ -414,18 +419,24 @@ impl FileManager {
   // Called when a pending upload returned from `get_or_create_pending_upload` is successfully
   // uploaded
   pub async fn complete_pending_upload(&self, uuid: &str) -> anyhow::Result<()> {
-    // We should always have an entry to complete if this code runs.
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    if initialized_inner.index[0].name != uuid {
+    // The index might have become empty if the entry was dropped due to reaching max files and its
+    // replacement was removed as it was empty.
+    let Some(oldest) = initialized_inner.index.front() else {
+      log::debug!("pending upload {uuid} does not exist anymore");
+      return Ok(());
+    };
+
+    if oldest.name != uuid {
       // There is a race condition in which we could theoretically have reached max files, but
       // there is an upload in flight that comes back after we already popped the first entry.
       // We could handle this by having the max file code not pop inflight uploads, but that is
       // more complicated than just ignoring the response here.
       log::debug!(
         "pending upload {} does not match expected {}",
-        initialized_inner.index[0].name,
+        oldest.name,
         uuid
       );
       return Ok(());
-- 
2.43.0


From 5dd1d2a6198918d9e6f4fe7facdab6b75ba6220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 10/27] fix: do not lose values recorded while the metric is
 dropped from the stats collector

---
 bd-client-stats-store/src/lib.rs |  5 ++++-
 bd-client-stats/src/stats.rs     | 16 +++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/bd-client-stats-store/src/lib.rs b/bd-client-stats-store/src/lib.rs
index 877cfc2..71060e9 100644
--- a/bd-client-stats-store/src/lib.rs
+++ b/bd-client-stats-store/src/lib.rs
@@ -129,7 +129,10 @@ impl Counter {
   }
 
   fn multiple_references(&self) -> bool {
-    Arc::strong_count(&self.value) > 1
+    let multiple_references = Arc::strong_count(&self.value) > 1;
+    // Make increments performed by references which are gone visible to a subsequent snap().
+    std::sync::atomic::fence(Ordering::Acquire);
+    multiple_references
   }
 }
 
diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..cd4c9c0 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -268,14 +268,16 @@ impl Flusher {
     // During iteration if a metric has data, we retain it, since it is likely to be used again.
     // If there is no data we drop it if there are no outstanding references. This iteration
     // occurs under the collector lock so it is serialized with respect to new fetches.
+    //
+    // Whether there are outstanding references must be determined before snapping the metric:
+    // otherwise a value recorded through the last reference after the snap would be dropped along
+    // with the metric.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      let multiple_references = metric.multiple_references();
+      metric.snap().map_or(multiple_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From 336c229991c65d25aeaa2240acb108187f6982c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 11/27] fix: skip cached metrics of an unsupported kind instead
 of panicking

---
 bd-client-stats/src/stats.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index cd4c9c0..8fc7a0d 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -392,9 +392,13 @@ impl SnapshotHelper {
 
     let mut new_metrics = HashMap::new();
     for metric in metrics.metric {
+      // The file might have been written by a version which supports other kinds of metrics.
+      let Some(data) = metric.data.and_then(MetricData::from_proto) else {
+        continue;
+      };
+
       let id = Id::new(metric.name, metric.tags.into_iter().collect());
-      let metric = MetricData::from_proto(metric.data.unwrap()).unwrap();
-      let existing = new_metrics.insert(id, metric);
+      let existing = new_metrics.insert(id, data);
       debug_assert!(existing.is_none());
     }
 
-- 
2.43.0


From c1287a4fc43f8616a169e3ca2397c2f139a01cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 12/27] fix: wait for the buffer to become readable when a
 cursor read has nothing to return

A cursor read that found a total data loss reset pending retried at once, without ever
yielding: the reset waits for the outstanding reads, which are finished by the same task.
---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..a95895a 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -528,7 +528,6 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
               "({}) read resulted in no entry, waiting for more data",
               parent.common_ring_buffer.locked_data.lock().name
             );
-            continue;
           },
           Err(e) => return Err(e),
         }
-- 
2.43.0


From 3e8a9af7514d06d815288d977a5a028361ccb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 13/27] fix: move the read pointer past records a cursor read
 skipped

A record dropped for a bad checksum leaves no reservation, so finishing the next record advanced
the read pointer from the dropped record by the size of the next one.
---
 bd-buffer/src/buffer/common_ring_buffer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..033ea1f 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -637,6 +637,19 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     conditions: &Conditions,
     reservation: &Range,
   ) {
+    // Cursor reads skip over corrupted records without keeping a reservation for them, so there may
+    // be records in front of the one being finished that the read pointer has to move past first.
+    while guard
+      .next_read_start()
+      .is_some_and(|start| start != reservation.start)
+    {
+      let Ok(skipped_size) = guard.load_next_read_size(Cursor::No) else {
+        break;
+      };
+      let skipped_actual_size = skipped_size + guard.extra_bytes_per_record;
+      guard.advance_next_read(skipped_actual_size, Cursor::No);
+    }
+
     guard.advance_next_read(reservation.size, Cursor::No);
     conditions.next_read_complete.notify_all();
 
-- 
2.43.0


From 9e0775d595791f8e2f11bd174846ceb670fc88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 14/27] fix: keep processing flushes after one for a buffer
 that is gone

A flush naming a buffer that a config update removed ended the flush task, so no buffer was
flushed again until the next start.
---
 bd-buffer/src/ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..c5002e1 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -213,7 +213,6 @@ impl Manager {
           buffer.flush();
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0


From 8348c533b6a50125e76fb21289915b4429a6c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:19 +0000
Subject: [PATCH 15/27] fix: drop a record that is too large for the
 non-volatile buffer

A record has a larger overhead there, so with both buffers of the same size one that filled the
volatile buffer was refused, which ended the flush thread: nothing was persisted any more, and
whoever flushed the buffer waited forever.
---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..055324f 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,11 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, ref message)) => {
+          // Records take up more space in the non-volatile buffer, so one that only just fits into
+          // the volatile buffer can be too large for it. It is dropped, as it can never be written.
+          debug_assert_eq!(message, "reservation size invalid");
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From 0ad0fe0f2b5aca28b02e60317891292b3c3b45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:50 +0000
Subject: [PATCH 16/27] fix: do not underflow when the retry limit is lowered
 while an upload is retried

---
 bd-logger/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..3b23a16 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -222,7 +222,7 @@ impl RetryPolicy {
   }
 
   fn remaining(&self) -> u32 {
-    self.max_retries.read() - self.attempts
+    self.max_retries.read().saturating_sub(self.attempts)
   }
 }
 
-- 
2.43.0


From cf0530085086257166b6ff4bcb28a574c7799364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:50 +0000
Subject: [PATCH 17/27] fix: count an upload as given up only if its last
 attempt failed

---
 bd-logger/src/service.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 3b23a16..bb09880 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -234,6 +234,12 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     req: &mut UploadRequest,
     result: &mut std::result::Result<UploadResult, Infallible>,
   ) -> Option<Self::Future> {
+    // Only failures are retried, anything else must neither count against the retry limit nor
+    // consume an attempt.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     log::debug!(
       "considering request with {} logs, {} attempts left",
       req.log_upload.logs.len(),
@@ -254,16 +260,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From 4faa8253aaf2282765a2742fe415acf5e89d0fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:50 +0000
Subject: [PATCH 18/27] fix: do not reuse the shared decompressor after it
 failed

---
 bd-grpc-codec/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..b554f03 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,15 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          let result = decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()));
+          if result.is_err() {
+            // The decompressor is shared by all streams on this thread. Once it has seen bad data it
+            // is not usable anymore, so start over in order to not fail all other messages.
+            *decompressor = ZlibDecoder::new(Vec::new());
+          }
+          result
         })?
       },
     };
-- 
2.43.0


From 348d4c20d87a0db329bf9cce3188f2f8a5b4748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 19/27] fix: count characters, not bytes, when validating the
 length of a string

---
 bd-pgv/src/proto_validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bd-pgv/src/proto_validate.rs b/bd-pgv/src/proto_validate.rs
index 8e00bf9..cdd6940 100644
--- a/bd-pgv/src/proto_validate.rs
+++ b/bd-pgv/src/proto_validate.rs
@@ -220,7 +220,7 @@ fn validate_string(
   message: &dyn protobuf::MessageDyn,
 ) -> error::Result<()> {
   if let Some(ReflectValueRef::String(value)) = get_singular_or_default(field_descriptor, message) {
-    if rules.has_min_len() && rules.min_len() > value.len().try_into().unwrap() {
+    if rules.has_min_len() && rules.min_len() > value.chars().count().try_into().unwrap() {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length >= {}",
         field_descriptor.full_name(),
@@ -229,7 +229,7 @@ fn validate_string(
       )));
     }
 
-    if rules.has_max_len() && rules.max_len() < value.len().try_into().unwrap() {
+    if rules.has_max_len() && rules.max_len() < value.chars().count().try_into().unwrap() {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length <= {}",
         field_descriptor.full_name(),
-- 
2.43.0


From 4e515c371d569e8467c022ca0b8464f39d4c623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 20/27] fix: keep the hyper network running when a stream is
 given up by its owner

---
 bd-hyper-network/src/lib.rs | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 4bb3630..5d5358c 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -103,12 +103,19 @@ impl HyperNetwork {
       .http2_only(true)
       .build(Self::make_tls_connector());
 
+    // The stream asked for while the previous one was still open, if any.
+    let mut next_stream = None;
+
     loop {
       // Loop until we get a new start stream event. There might be stale data left from an
       // previous stream, so this serves to clear out the channel of events that
       // corresponded to the previous stream.
       log::debug!("awaiting next stream");
       let (event_tx, headers) = loop {
+        if let Some(next_stream) = next_stream.take() {
+          break next_stream;
+        }
+
         let event = tokio::select! {
           event = self.stream_event_rx.recv() => event,
           () = self.shutdown.cancelled() => return Ok(()),
@@ -122,13 +129,16 @@ impl HyperNetwork {
         }
       };
 
-      let Some(event) = self.process_stream(&client, &event_tx, headers).await else {
+      let Some(event) = self
+        .process_stream(&client, &event_tx, headers, &mut next_stream)
+        .await
+      else {
         return Ok(());
       };
 
       if event_tx.send(event).await.is_err() {
-        // Channel has shut down on us, we must be shutting down.
-        return Ok(());
+        // The stream was given up by whoever started it, so there is nobody left to notify.
+        log::debug!("stream closed after it was given up");
       }
     }
   }
@@ -138,6 +148,7 @@ impl HyperNetwork {
     client: &Client<HttpsConnector<HttpConnector>, BoxBody>,
     event_tx: &tokio::sync::mpsc::Sender<bd_api::StreamEvent>,
     headers: HashMap<String, String>,
+    next_stream: &mut Option<(Sender<bd_api::StreamEvent>, HashMap<String, String>)>,
   ) -> Option<bd_api::StreamEvent> {
     log::debug!("received request for new stream: {}", self.uri.as_str());
 
@@ -186,7 +197,16 @@ impl HyperNetwork {
       let maybe_event = tokio::select! {
         stream_event = self.stream_event_rx.recv() => {
           // Short circuit if stream_event has been closed - this indicates shutdown.
-          Self::handle_outbound_data(&body_sender, stream_event?).await
+          match stream_event? {
+            // A new stream is only asked for once this one was given up.
+            StreamEvent::Start(event_tx, headers) => {
+              *next_stream = Some((event_tx, headers));
+              return Some(bd_api::StreamEvent::StreamClosed(
+                "superseded by new stream".to_string(),
+              ));
+            },
+            StreamEvent::Data(data) => Self::handle_outbound_data(&body_sender, data).await,
+          }
         },
         frame = response.body_mut().frame() => {
           Some(Self::handle_inbound_data(frame).await)
@@ -211,7 +231,9 @@ impl HyperNetwork {
             .await
             .is_err()
           {
-            return None;
+            return Some(bd_api::StreamEvent::StreamClosed(
+              "stream given up".to_string(),
+            ));
           }
         },
         bd_api::StreamEvent::StreamClosed(closed) => {
@@ -225,26 +247,21 @@ impl HyperNetwork {
   /// if the stream should be closed.
   async fn handle_outbound_data(
     body_sender: &BodySender,
-    event: StreamEvent,
+    data: Vec<u8>,
   ) -> Option<bd_api::StreamEvent> {
-    match event {
-      StreamEvent::Start(..) => panic!("should never happen"),
-      StreamEvent::Data(data) => {
-        if body_sender
-          .send(Ok(Frame::data(data.into())))
-          .await
-          .is_err()
-        {
-          // We failed to send data over the body channel, the stream must have closed.
-          // Signal that the stream closed.
-          return Some(bd_api::StreamEvent::StreamClosed(
-            "upstream close".to_string(),
-          ));
-        }
-
-        None
-      },
+    if body_sender
+      .send(Ok(Frame::data(data.into())))
+      .await
+      .is_err()
+    {
+      // We failed to send data over the body channel, the stream must have closed.
+      // Signal that the stream closed.
+      return Some(bd_api::StreamEvent::StreamClosed(
+        "upstream close".to_string(),
+      ));
     }
+
+    None
   }
 
   /// Handles inbound data arriving via the hyper response channel. Returns true if the stream
-- 
2.43.0


From bd13c585db84469dde6ee48aa5f901087e8361c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 21/27] fix: round a time with a sub-second part up to the next
 interval

---
 bd-time/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..3bb94cc 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -78,7 +78,7 @@ impl OffsetDateTimeExt for OffsetDateTime {
 
     let unix_timestamp = self.unix_timestamp();
     let rem = unix_timestamp.rem_euclid(interval.whole_seconds());
-    if rem == 0 {
+    if rem == 0 && self.nanosecond() == 0 {
       return *self;
     }
 
-- 
2.43.0


From 71e11a23e5bf987505bb1c2cc7c0121bae6e475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 22/27] fix: a sankey path whose upload the server refused is
 not settled

---
 bd-workflows/src/sankey_diagram.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/sankey_diagram.rs b/bd-workflows/src/sankey_diagram.rs
index 68592a8..596cc5c 100644
--- a/bd-workflows/src/sankey_diagram.rs
+++ b/bd-workflows/src/sankey_diagram.rs
@@ -209,10 +209,18 @@ impl Processor {
       return;
     }
 
-    if let Err(error) = response.await {
-      log::debug!("failed to wait for sankey upload response: {error}");
-      self.stats.upload_completion_failures.inc();
-      return;
+    match response.await {
+      Ok(response) if response.success => {},
+      Ok(response) => {
+        log::debug!("sankey upload with id {:?} was refused", response.uuid);
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
+      Err(error) => {
+        log::debug!("failed to wait for sankey upload response: {error}");
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
     }
 
     // Augustyniak: Is it risky to insert the path only in the case of a successful upload? maybe we
-- 
2.43.0


From 5d657f12bd91dc2a14c539bf1d59c353b1dd38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 23/27] fix: encode the message of a failed stream so that any
 message can be sent

---
 bd-grpc/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 1e5828f..0c1274d 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -846,7 +846,9 @@ impl<ResponseType: Message> StreamingApiSender<ResponseType> {
       HeaderValue::from_str(&status.code.to_int().to_string()).unwrap(),
     );
     if let Some(message) = status.message {
-      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&message).unwrap());
+      // As for responses, encode the message to make sure that it is a valid header.
+      let encoded = urlencoding::encode(&message);
+      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&encoded).unwrap());
     }
 
     self.send_trailers(trailers).await
-- 
2.43.0


From f1cfbd1f14f50a4ba8141c09de4fa6fb2a18db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:16 +0000
Subject: [PATCH 24/27] fix: keep ticking once the interval of a stats ticker
 can no longer change

watch::Receiver::changed() returns an error at once when its sender is gone. The ticker took that
for a change and began a new interval, over and over, so it span and never ticked again.
---
 bd-client-stats/src/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 8fc7a0d..d285f66 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -70,7 +70,7 @@ impl Ticker for RuntimeWatchTicker {
     loop {
       tokio::select! {
         _ = self.interval.as_mut().unwrap().tick() => break,
-        _ = self.receiver.changed() => {
+        Ok(()) = self.receiver.changed() => {
           self.interval = Some(self.receiver.borrow_and_update().jittered_interval_at());
         },
       }
-- 
2.43.0


From c8f9a40dbc951aa7156141fe86f7b3a7c3d0da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:15 +0000
Subject: [PATCH 25/27] fix: stop waiting for a read stop whose sender is gone

---
 bd-grpc/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 0c1274d..15c1abd 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -729,9 +729,14 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
       let frame = tokio::select! {
         frame = self.body.frame() => frame,
-        _ = async {
+        changed = async {
               self.read_stop.as_mut().unwrap().changed().await
             }, if self.read_stop.is_some() => {
+          // Once the sender is gone reading can no longer be stopped, and waiting for a change would
+          // complete right away forever.
+          if changed.is_err() {
+            self.read_stop = None;
+          }
           continue;
         },
       };
-- 
2.43.0


From 62e014bf9bde6f0a20c631180a924c45cc8c217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:24 +0000
Subject: [PATCH 26/27] fix: do not wait for the own thread's lock when the id
 callback asks for the previous session id

---
 bd-session/src/fixed.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bd-session/src/fixed.rs b/bd-session/src/fixed.rs
index 6db72e0..ff34368 100644
--- a/bd-session/src/fixed.rs
+++ b/bd-session/src/fixed.rs
@@ -151,6 +151,16 @@ impl Strategy {
   }
 
   pub fn previous_process_session_id(&self) -> Option<String> {
+    if self.is_callback_in_progress.get_or_default().get() {
+      // The thread running the callback holds the lock on the state already.
+      warn_every!(
+        15.seconds(),
+        "cannot obtain previous process session ID from within 'generatedSessionID' {}",
+        "callback"
+      );
+      return None;
+    }
+
     self.state.lock().as_ref().map_or_else(
       || {
         self
-- 
2.43.0


From 874cd0c185443cc566298a0481586face2b59dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:22 +0000
Subject: [PATCH 27/27] fix: a ping interval too long for a deadline no longer
 panics the API task

---
 bd-api/src/api.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bd-api/src/api.rs b/bd-api/src/api.rs
index dc8377f..468655b 100644
--- a/bd-api/src/api.rs
+++ b/bd-api/src/api.rs
@@ -235,10 +235,12 @@ impl StreamState {
   }
 
   fn maybe_schedule_ping(&mut self) {
-    self.ping_deadline = self.ping_interval.map(|ping_in| {
+    self.ping_deadline = self.ping_interval.and_then(|ping_in| {
       log::debug!("scheduling ping in {:?}", ping_in);
 
-      Instant::now() + ping_in
+      // The interval is given by the server. One that is too long to be represented as a deadline
+      // must not panic; it's never reached.
+      Instant::now().checked_add(ping_in)
     });
   }
 
-- 
2.43.0

