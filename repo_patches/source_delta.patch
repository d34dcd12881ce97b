From 9c0f019f6ec1d5436485fd74d0a0ff1af4bc0e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 01/30] Seam for deterministic simulation of the default
 channel resolver's connections (cfg dst_sim, off by default)

---
 src/protocol/grpc/channel_resolver.rs | 34 ++++++++++++++++++++++++++-
 src/protocol/grpc/mod.rs              |  5 ++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/channel_resolver.rs b/src/protocol/grpc/channel_resolver.rs
index b545e21..e68a1a2 100644
--- a/src/protocol/grpc/channel_resolver.rs
+++ b/src/protocol/grpc/channel_resolver.rs
@@ -71,7 +71,11 @@ impl DefaultChannelResolver {
                         "Invalid URL '{url}' returned by WorkerResolver implementation: {err}"
                     )
                 })?;
-                let mut channel = endpoint.connect().await.map_err(|err| {
+                #[cfg(not(dst_sim))]
+                let connecting = endpoint.connect();
+                #[cfg(dst_sim)]
+                let connecting = endpoint.connect_with_connector(sim::connector());
+                let mut channel = connecting.await.map_err(|err| {
                     DataFusionError::Context(
                         format!("{err:?}"),
                         Box::new(exec_datafusion_err!(
@@ -110,6 +114,34 @@ impl ChannelResolver for DefaultChannelResolver {
     }
 }
 
+/// Seam for deterministic simulation: replaces the TCP connections of [DefaultChannelResolver].
+#[cfg(dst_sim)]
+pub mod sim {
+    use hyper_util::rt::TokioIo;
+    use std::sync::OnceLock;
+    use tokio::io::{AsyncRead, AsyncWrite};
+    use tonic::codegen::BoxFuture;
+    use tower::util::service_fn;
+
+    pub trait Io: AsyncRead + AsyncWrite + Send + Unpin {}
+    impl<T: AsyncRead + AsyncWrite + Send + Unpin> Io for T {}
+
+    /// Opens a simulated connection to the given URI.
+    pub type Connect = fn(http::Uri) -> BoxFuture<Box<dyn Io>, std::io::Error>;
+    pub static CONNECT: OnceLock<Connect> = OnceLock::new();
+
+    pub(super) fn connector() -> impl tower::Service<
+        http::Uri,
+        Response = TokioIo<Box<dyn Io>>,
+        Error = std::io::Error,
+        Future: Send,
+    > + Send
+    + 'static {
+        let connect = *CONNECT.get().expect("no simulated connector");
+        service_fn(move |uri: http::Uri| async move { connect(uri).await.map(TokioIo::new) })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/protocol/grpc/mod.rs b/src/protocol/grpc/mod.rs
index e432b60..346a1d0 100644
--- a/src/protocol/grpc/mod.rs
+++ b/src/protocol/grpc/mod.rs
@@ -1,3 +1,6 @@
+// The `dst_sim` cfg is only set by deterministic simulation builds.
+#![allow(unexpected_cfgs)]
+
 mod channel_resolver;
 mod errors;
 mod generated;
@@ -11,6 +14,8 @@ mod worker_service;
 // TODO: this should not be exposed.
 pub(crate) use channel_resolver::DEFAULT_CHANNEL_RESOLVER_PER_RUNTIME;
 
+#[cfg(dst_sim)]
+pub use channel_resolver::sim;
 pub use channel_resolver::{BoxCloneSyncChannel, DefaultChannelResolver};
 pub use observability::{
     GetClusterWorkersRequest, GetClusterWorkersResponse, GetTaskProgressRequest,
-- 
2.43.0


From 75fd53a37cdb49c28da1c88140d52c4adb3aabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 02/30] fix: do not extrapolate sampled statistics from a stage
 that has not read any leaf row yet

With no leaf row pulled, the fraction of the stage sampled so far was 0, and dividing by it
overflowed (a panic of the query in builds with overflow checks). Fall back to the default
fraction, as the comment already states.
---
 src/coordinator/prepare_dynamic_plan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..bc70efd 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
-- 
2.43.0


From 132ebb60f3ddf14a894c2360ca6585e540016068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 03/30] fix: give every task placed in the local worker its own
 copy of the plan

Two tasks of a stage running in the coordinator's own process shared the nodes of the plan, and
with them their connections, repartition channels and collected build sides, so the second task
failed or stole the data of the first one.
---
 src/protocol/in_process/worker_client.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/protocol/in_process/worker_client.rs b/src/protocol/in_process/worker_client.rs
index 81a4ccc..dc5cd2c 100644
--- a/src/protocol/in_process/worker_client.rs
+++ b/src/protocol/in_process/worker_client.rs
@@ -1,12 +1,13 @@
 use crate::{
     CoordinatorToWorkerMsg, ExecuteTaskRequest, GetWorkerInfoRequest, GetWorkerInfoResponse,
-    SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
+    MaybeEncoded, SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
 };
 use async_trait::async_trait;
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
 use datafusion::execution::TaskContext;
 use datafusion::physical_expr_common::metrics::ExecutionPlanMetricsSet;
+use datafusion::physical_plan::execution_plan::reset_plan_states;
 use futures::StreamExt;
 use futures::stream::BoxStream;
 use http::HeaderMap;
@@ -30,11 +31,18 @@ impl WorkerChannel for InProcessWorkerClient {
     async fn coordinator_channel(
         &mut self,
         headers: HeaderMap,
-        set_plan_request: SetPlanRequest,
+        mut set_plan_request: SetPlanRequest,
         c2w_stream: BoxStream<'static, CoordinatorToWorkerMsg>,
         _metrics: ExecutionPlanMetricsSet,
         _task_ctx: &Arc<TaskContext>,
     ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
+        // Remote workers decode their own copy of the plan, but here the very same nodes would be
+        // shared with the rest of the tasks of the stage placed in this same worker. Several nodes
+        // keep execution state inside (e.g. connections, repartition channels, collected build
+        // sides), so each task needs its own fresh copy.
+        if let MaybeEncoded::Decoded(plan) = set_plan_request.plan {
+            set_plan_request.plan = MaybeEncoded::Decoded(reset_plan_states(plan)?);
+        }
         self.local_worker
             .coordinator_channel(headers, set_plan_request, c2w_stream.map(Ok).boxed())
             .await
-- 
2.43.0


From f24d2a2953f87281b0a8df5e318051291d83ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 04/30] fix: keep pulling from a worker over the buffer budget
 while the consumer of some partition is starved

The budget was enforced even if one of the multiplexed partitions had a waiting consumer and an
empty queue. A consumer of the buffered partitions that depends on that one (e.g. a sort-preserving
merge) can never drain them, so the query hung forever.
---
 src/protocol/grpc/worker_client.rs | 58 +++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..02d5289 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -33,12 +33,11 @@ use prost::Message;
 use std::borrow::Cow;
 use std::pin::Pin;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::task::{Context, Poll};
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 use tokio::sync::Notify;
-use tokio::sync::mpsc::UnboundedSender;
-use tokio_stream::wrappers::UnboundedReceiverStream;
+use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
 use tokio_util::sync::CancellationToken;
 use tonic::metadata::MetadataMap;
 use tonic::{Request, Status};
@@ -130,17 +129,25 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // the demux task and starve all sibling partitions even though they have capacity,
         // which deadlocks queries with cross-partition dependencies.
         // Total memory is bounded globally below via `mem_available_notify`.
+        let mem_available_notify = Arc::new(Notify::new());
+        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
+
         let mut per_partition_tx = Vec::with_capacity(target_partition_range.len());
         let mut per_partition_rx = Vec::with_capacity(target_partition_range.len());
+        // One flag per partition, set while its consumer is waiting for a message.
+        let mut per_partition_starved = Vec::with_capacity(target_partition_range.len());
         for _partition in target_partition_range.clone() {
             let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<WorkerMsg>();
+            let starved = Arc::new(AtomicBool::new(false));
             per_partition_tx.push(tx);
-            per_partition_rx.push(rx);
+            per_partition_rx.push(PartitionReceiver {
+                rx,
+                starved: Arc::clone(&starved),
+                demux_notify: Arc::clone(&mem_available_notify),
+            });
+            per_partition_starved.push(starved);
         }
 
-        let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
-
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
 
@@ -191,7 +198,12 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
                 // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                // While the consumer of some partition is starved the pull goes on above the
+                // budget: the consumers of the buffered messages might be waiting for that
+                // partition (e.g. a sort-preserving merge), so they could never be drained.
+                while memory_reservation.size() >= buffer_budget_bytes
+                    && !per_partition_starved.iter().any(|v| v.load(Ordering::SeqCst))
+                {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
@@ -263,6 +275,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
+                per_partition_starved[sender_i].store(false, Ordering::SeqCst);
                 if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
@@ -285,7 +298,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             let first_poll_notify = Arc::clone(&first_poll_notify);
             let stream = async move {
                 first_poll_notify.notify_one();
-                UnboundedReceiverStream::new(partition_receiver)
+                partition_receiver
             }
             .flatten_stream();
 
@@ -336,6 +349,33 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
 
 type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
 
+/// Receiving side of one of the partitions multiplexed over a single gRPC stream. Lets the demux
+/// task know whether the consumer of the partition is waiting for a message.
+struct PartitionReceiver {
+    rx: UnboundedReceiver<WorkerMsg>,
+    starved: Arc<AtomicBool>,
+    demux_notify: Arc<Notify>,
+}
+
+impl Stream for PartitionReceiver {
+    type Item = WorkerMsg;
+
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let poll = self.rx.poll_recv(cx);
+        let starved = poll.is_pending();
+        if self.starved.swap(starved, Ordering::SeqCst) != starved && starved {
+            self.demux_notify.notify_one();
+        }
+        poll
+    }
+}
+
+impl Drop for PartitionReceiver {
+    fn drop(&mut self) {
+        self.starved.store(false, Ordering::SeqCst);
+    }
+}
+
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
     values: Option<NetworkLatencyMetricValues>,
-- 
2.43.0


From 599973cd2349ad2523b9f979c4d37b3581a66e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 05/30] fix: release the plan of a finished task even if the
 worker stays idle afterwards

The task cache keeps the value of an invalidated entry until its next maintenance, which only runs
on later cache operations. An idle worker held the plan, its background tasks and its memory
reservation of the last query indefinitely.
---
 src/worker/impl_coordinator_channel.rs | 6 +++++-
 src/worker/single_write_multi_read.rs  | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..245351b 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -168,7 +168,11 @@ impl Worker {
                     send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
                 }
             }
-            task_data_entries.invalidate(&key).await
+            task_data_entries.invalidate(&key).await;
+            // The cache might hold on to the value of an invalidated entry for as long as the worker
+            // stays idle. Clear it so that the plan, together with the tasks it spawned and the
+            // memory it reserved, is released with the query.
+            entry.clear();
         });
 
         let load_info_stream = FuturesUnordered::from_iter(load_info_rxs)
diff --git a/src/worker/single_write_multi_read.rs b/src/worker/single_write_multi_read.rs
index 30c4ce0..bb2c6e8 100644
--- a/src/worker/single_write_multi_read.rs
+++ b/src/worker/single_write_multi_read.rs
@@ -62,6 +62,11 @@ impl<T: Clone> SingleWriteMultiRead<T> {
         Ok(())
     }
 
+    /// Drops the written value, if any.
+    pub(crate) fn clear(&self) {
+        drop(self.tx.send_replace(None));
+    }
+
     /// Reads the current value, if any, not waiting for it to be set by a writer.
     #[cfg(feature = "grpc")]
     pub(crate) fn read_now(&self) -> Option<T> {
-- 
2.43.0


From 00955ecb6f75858ce764c70ba1b36dfdd9b0c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 06/30] fix: do not insert a partial reduce below a shuffle of
 grouping sets

The PartialReduce aggregation expanded the already expanded grouping sets again and dropped the
grouping id, so GROUP BY ROLLUP/CUBE/GROUPING SETS returned duplicate groups.
---
 .../partial_reduce_below_network_shuffles.rs                | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..3724be4 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -47,6 +47,12 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
+        // The grouping sets were already expanded by the partial aggregation, expanding its output
+        // again would produce wrong groups.
+        if agg.group_expr().has_grouping_set() {
+            return Ok(Transformed::no(plan));
+        }
+
         // Group-by columns in the Partial output schema appear at indices 0..N-1.
         let partial_reduce_group_by = {
             let orig = agg.group_expr();
-- 
2.43.0


From d14b1a9fa52b9fecab601e845dcc29e52d8d2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 07/30] fix: run plans that rely on their input being a single
 partition in a single task

Aggregations, sorts, limits, windows or joins planned over a leaf with a single partition have no
CoalescePartitionsExec or RepartitionExec below, as they do not need it on a single node. Scaling
that leaf up to several tasks ran them once per task, each over a piece of the rows.
---
 .../inject_network_boundaries.rs              | 47 +++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..61d276c 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{Distribution, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -254,7 +255,11 @@ async fn _inject_network_boundaries(
         .transpose()?
         .map(|v| v.task_count);
 
-    let task_count = if plan.children().is_empty() {
+    let task_count = if relies_on_single_partition(&plan) {
+        // Running this node in several tasks would give each one of them just a piece of the
+        // partition that the node relies on for seeing all the rows.
+        Maximum(1)
+    } else if plan.children().is_empty() {
         // This is a leaf node, maybe a DataSourceExec, or maybe something else custom from the user.
         // If we could not determine how many tasks this leaf node should run on, we need to assume
         // it cannot be distributed and use just 1 task.
@@ -402,6 +407,42 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Whether `plan` produces correct results just because its input or output has a single partition,
+/// rather than because a network boundary or a hash partitioning put the right rows together. That
+/// is no longer the case once the single partition is scaled up to one partition per task.
+fn relies_on_single_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    // These are fed by a NetworkCoalesceExec.
+    if plan.is::<CoalescePartitionsExec>() || plan.is::<SortPreservingMergeExec>() {
+        return false;
+    }
+
+    // Any node that stops after emitting N rows through its only partition.
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+
+    // The left side of these joins is broadcast, so all their tasks see all its rows.
+    if plan.is::<NestedLoopJoinExec>()
+        || plan.is::<CrossJoinExec>()
+        || plan
+            .downcast_ref::<HashJoinExec>()
+            .is_some_and(|v| v.mode == PartitionMode::CollectLeft)
+    {
+        return false;
+    }
+
+    let requirements = plan.input_distribution_requirements().into_per_child();
+    plan.children()
+        .into_iter()
+        .zip(requirements)
+        .any(|(child, requirement)| {
+            let partitioning = child.output_partitioning();
+            !matches!(requirement, Distribution::UnspecifiedDistribution)
+                && partitioning.partition_count() == 1
+                && !matches!(partitioning, Partitioning::Hash(_, _))
+        })
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
-- 
2.43.0


From aeec1f020fe81398605ddf0e21cca0ae50e7b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 08/30] fix: report a panic of a plan executed in a worker as
 an error instead of ending its stream as if it was complete

---
 src/common/catch_panics.rs       | 29 +++++++++++++++++++++++++++++
 src/common/mod.rs                |  2 ++
 src/execution_plans/broadcast.rs |  5 +++--
 src/worker/impl_execute_task.rs  |  3 ++-
 4 files changed, 36 insertions(+), 3 deletions(-)
 create mode 100644 src/common/catch_panics.rs

diff --git a/src/common/catch_panics.rs b/src/common/catch_panics.rs
new file mode 100644
index 0000000..b72dd55
--- /dev/null
+++ b/src/common/catch_panics.rs
@@ -0,0 +1,29 @@
+use datafusion::common::exec_datafusion_err;
+use datafusion::execution::SendableRecordBatchStream;
+use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
+use futures::{FutureExt, StreamExt};
+use std::panic::AssertUnwindSafe;
+
+/// Turns a panic of the provided stream into an error.
+///
+/// Streams that are polled from a background task need this: the panic would just end that task,
+/// and whoever listens at the other side of a channel could not tell it from a normal EOS.
+pub(crate) fn catch_panics(stream: SendableRecordBatchStream) -> SendableRecordBatchStream {
+    let schema = stream.schema();
+    let stream = futures::stream::unfold(Some(stream), |stream| async {
+        let mut stream = stream?;
+        match AssertUnwindSafe(stream.next()).catch_unwind().await {
+            Ok(msg) => msg.map(|msg| (msg, Some(stream))),
+            Err(panic) => {
+                let msg = panic
+                    .downcast_ref::<&str>()
+                    .map(|msg| msg.to_string())
+                    .or_else(|| panic.downcast_ref::<String>().cloned())
+                    .unwrap_or_else(|| "unknown panic".to_string());
+                let err = exec_datafusion_err!("Task panicked during execution: {msg}");
+                Some((Err(err), None))
+            }
+        }
+    });
+    Box::pin(RecordBatchStreamAdapter::new(schema, stream))
+}
diff --git a/src/common/mod.rs b/src/common/mod.rs
index 7dfd3a9..2e37d55 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,3 +1,4 @@
+mod catch_panics;
 mod children_helpers;
 mod maybe_encoded;
 mod once_lock;
@@ -7,6 +8,7 @@ mod time;
 mod uuid;
 mod vec;
 
+pub(crate) use catch_panics::catch_panics;
 pub(crate) use children_helpers::require_one_child;
 pub use maybe_encoded::MaybeEncoded;
 pub(crate) use once_lock::OnceLockResult;
diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..208bbcd 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,4 +1,4 @@
-use crate::common::{OnceLockResult, require_one_child};
+use crate::common::{OnceLockResult, catch_panics, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::runtime::SpawnedTask;
@@ -178,7 +178,8 @@ impl ExecutionPlan for BroadcastExec {
             }
 
             let pool = Arc::clone(context.memory_pool());
-            let mut stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let mut stream = catch_panics(stream);
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..699086f 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -1,4 +1,5 @@
 use crate::ExecuteTaskRequest;
+use crate::common::catch_panics;
 use crate::worker::worker_service::Worker;
 use datafusion::common::exec_datafusion_err;
 use datafusion::common::{Result, exec_err};
@@ -50,7 +51,7 @@ impl Worker {
                 );
             }
 
-            let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
+            let stream = catch_panics(plan.execute(partition, Arc::clone(&task_ctx))?);
             let stream_schema = plan.schema();
 
             streams.push(Box::pin(RecordBatchStreamAdapter::new(stream_schema, stream)) as _);
-- 
2.43.0


From 3f42f64f8089a562449b948d3c72fe0642a99784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 09/30] fix: do not underflow the latencies of work units when
 clocks differ

---
 src/work_unit_feed/remote_work_unit_feed.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..da1879f 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,16 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                send_latency_max.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
+                send_latency_p50.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
+                received_latency_p50.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                processed_latency_max
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
+                processed_latency_p50
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From bd85c9e1f113eb44fcdb58e28b3ea71744c08e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 10/30] fix: do not claim that a network shuffle maintains the
 ordering of its input

The streams of the input tasks of a NetworkShuffleExec are interleaved, but it was advertising the
ordering maintained by the RepartitionExec it replaces. Sort merge joins and windows relying on that
ordering produced wrong results.
---
 .../inject_network_boundaries.rs              | 43 ++++++++++++++++++-
 src/execution_plans/network_shuffle.rs        | 17 +++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 61d276c..3750fee 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,13 +14,14 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{Distribution, Partitioning};
+use datafusion::physical_expr::{Distribution, LexOrdering, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
 use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
@@ -322,6 +323,7 @@ async fn _inject_network_boundaries(
         processed_children,
         ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
     )?;
+    let plan = restore_input_ordering(plan, nb_ctx)?;
     // Cap the reconciled task count by the configured max-per-stage budget.
     let task_count = task_count.limit(nb_ctx.max_tasks()?);
 
@@ -407,6 +409,45 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// A [NetworkShuffleExec] interleaves the rows of all its input tasks, so it loses the ordering that
+/// the [RepartitionExec] it replaces might have been maintaining. Sorts again the inputs of `plan`
+/// that were relying on that ordering.
+fn restore_input_ordering(
+    plan: Arc<dyn ExecutionPlan>,
+    nb_ctx: &InjectNetworkBoundaryContext<'_>,
+) -> Result<Arc<dyn ExecutionPlan>> {
+    let mut restored = false;
+    let mut children = Vec::with_capacity(plan.children().len());
+    for (child, required) in plan
+        .children()
+        .into_iter()
+        .zip(plan.required_input_ordering())
+    {
+        let child = Arc::clone(child);
+        let Some(required) = required.map(|v| v.into_single()) else {
+            children.push(child);
+            continue;
+        };
+        let properties = child.equivalence_properties();
+        if properties.ordering_satisfy_requirement(required.clone())? {
+            children.push(child);
+            continue;
+        }
+        let task_count = nb_ctx.task_count(&child)?;
+        let sort =
+            SortExec::new(LexOrdering::from(required), child).with_preserve_partitioning(true);
+        children.push(nb_ctx.plan_with_task_count(Arc::new(sort), task_count));
+        restored = true;
+    }
+    if !restored {
+        return Ok(plan);
+    }
+    plan.replace_children(
+        children,
+        ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
+    )
+}
+
 /// Whether `plan` produces correct results just because its input or output has a single partition,
 /// rather than because a network boundary or a hash partitioning put the right rows together. That
 /// is no longer the case once the single partition is scaled up to one partition per task.
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..b2842a3 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -109,8 +109,23 @@ pub struct NetworkShuffleExec {
 
 impl NetworkShuffleExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
+        let properties = match input_properties.output_ordering() {
+            None => input_properties,
+            // The streams of all the input tasks get interleaved, so even if each one of them is
+            // ordered, the result is not.
+            Some(_) => {
+                let mut eq_properties = input_properties.eq_properties.clone();
+                eq_properties.clear_orderings();
+                Arc::new(PlanProperties::new(
+                    eq_properties,
+                    input_properties.partitioning.clone(),
+                    input_properties.emission_type,
+                    input_properties.boundedness,
+                ))
+            }
+        };
         Self {
-            properties: input_properties,
+            properties,
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         }
-- 
2.43.0


From 69a7ab3f6b6e6a053329ccd7e7f4e2ff2b8016ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 11/30] fix: do not wait forever for the metrics of tasks that
 will never report them

---
 src/coordinator/metrics_store.rs     | 20 ++++++++++++++++++++
 src/coordinator/query_coordinator.rs |  4 ++++
 src/metrics/task_metrics_rewriter.rs |  3 +++
 3 files changed, 27 insertions(+)

diff --git a/src/coordinator/metrics_store.rs b/src/coordinator/metrics_store.rs
index 8ccc1f7..cedc1e1 100644
--- a/src/coordinator/metrics_store.rs
+++ b/src/coordinator/metrics_store.rs
@@ -1,5 +1,6 @@
 use crate::{TaskKey, TaskMetrics};
 use datafusion::common::HashMap;
+use datafusion::physical_plan::metrics::MetricsSet;
 use tokio::sync::watch;
 
 type MetricsMap = HashMap<TaskKey, TaskMetrics>;
@@ -23,6 +24,25 @@ impl MetricsStore {
         });
     }
 
+    /// Marks the task as one that will not report metrics, unless it already did: either because
+    /// nothing pulled from it (e.g. a join did not need one of its sides), or because its
+    /// worker could not be reached. Otherwise, whoever awaits for it would wait forever.
+    pub(crate) fn insert_empty_if_absent(&self, key: TaskKey) {
+        self.tx.send_if_modified(|map| {
+            let absent = !map.contains_key(&key);
+            if absent {
+                map.insert(
+                    key,
+                    TaskMetrics {
+                        pre_order_plan_metrics: vec![],
+                        task_metrics: MetricsSet::new(),
+                    },
+                );
+            }
+            absent
+        });
+    }
+
     pub(crate) fn get(&self, key: &TaskKey) -> Option<TaskMetrics> {
         self.rx.borrow().get(key).cloned()
     }
diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..901eb1f 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -260,6 +260,10 @@ impl<'a> StageCoordinator<'a> {
                     }
                 }
             }
+            // No further messages will arrive, so if the metrics did not, they never will.
+            if let Some(task_metrics) = &task_metrics {
+                task_metrics.insert_empty_if_absent(task_key);
+            }
         });
         load_info_rx
     }
diff --git a/src/metrics/task_metrics_rewriter.rs b/src/metrics/task_metrics_rewriter.rs
index a363320..5794010 100644
--- a/src/metrics/task_metrics_rewriter.rs
+++ b/src/metrics/task_metrics_rewriter.rs
@@ -240,6 +240,9 @@ pub fn stage_metrics_rewriter(
                 stage.num
             );
         };
+        if task_metrics.pre_order_plan_metrics.is_empty() {
+            continue; // the task was never executed.
+        }
 
         let mut per_task_counter = 0usize;
         stage.plan.apply_with_dt_ctx(d_ctx, |node, _ctx| {
-- 
2.43.0


From 7e92c94d4ed43b4a19c571fac01f3d043192e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 12/30] fix: report the metrics of the executed plan against
 the nodes the coordinator knows about

A partial reduce at the head of a stage gets a repartition inserted on top of it in the worker, so
the metrics of every node were displayed in the node below it.
---
 src/worker/impl_coordinator_channel.rs | 29 +++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 245351b..8bf6c26 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -12,6 +12,7 @@ use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
 use datafusion::execution::SessionStateBuilder;
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion::physical_plan::metrics::MetricsSet;
 use datafusion::prelude::SessionConfig;
 use futures::stream::{BoxStream, FuturesUnordered};
 use futures::{FutureExt, StreamExt, TryStreamExt};
@@ -165,7 +166,13 @@ impl Worker {
                 let task_data_metrics = &task_data.task_data_metrics;
                 task_data_metrics.mark_execution_finished();
                 if let Some(metrics_tx) = metrics_tx {
-                    send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
+                    send_metrics_via_channel(
+                        metrics_tx,
+                        plan,
+                        &task_data.base_plan,
+                        d_ctx,
+                        task_data_metrics,
+                    );
                 }
             }
             task_data_entries.invalidate(&key).await;
@@ -202,9 +209,16 @@ impl Worker {
 
 /// Collects metrics from the plan in pre-order traversal order and sends them via the
 /// coordinator channel oneshot.
+///
+/// The executed plan might have one node more (or less) at its head than the plan sent by the
+/// coordinator, depending on the [ProducerHead] chosen by the consumer. The coordinator matches
+/// metrics to nodes by their position in the plan it sent, so that difference is compensated here.
+///
+/// [ProducerHead]: crate::ProducerHead
 fn send_metrics_via_channel(
     metrics_tx: Sender<TaskMetrics>,
     plan: &Arc<dyn ExecutionPlan>,
+    base_plan: &Arc<dyn ExecutionPlan>,
     dt_ctx: DistributedTaskContext,
     task_data_metrics: &Arc<TaskDataMetrics>,
 ) {
@@ -214,6 +228,19 @@ fn send_metrics_via_channel(
         Ok(TreeNodeRecursion::Continue)
     });
 
+    let mut base_plan_len = 0;
+    let _ = base_plan.apply_with_dt_ctx(dt_ctx, |_, _| {
+        base_plan_len += 1;
+        Ok(TreeNodeRecursion::Continue)
+    });
+    let plan_len = pre_order_plan_metrics.len();
+    if plan_len > base_plan_len {
+        pre_order_plan_metrics.drain(..plan_len - base_plan_len);
+    } else {
+        let missing = vec![MetricsSet::new(); base_plan_len - plan_len];
+        pre_order_plan_metrics.splice(..0, missing);
+    }
+
     // Ignore send errors — the coordinator channel may have been dropped (e.g. query cancelled).
     let _ = metrics_tx.send(TaskMetrics {
         pre_order_plan_metrics,
-- 
2.43.0


From 53f407880778ad1c753779add9c1201b762666b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 13/30] fix: restore the ordering of a broadcast build side
 when an inner hash join relies on it

A NetworkBroadcastExec interleaves the rows of all its input tasks, but it was advertising the ordering
of its input, and the output ordering of the join, inferred from it, let ORDER BY ... LIMIT return the
wrong rows.
---
 src/distributed_planner/insert_broadcast.rs | 17 +++++++++++++++--
 src/execution_plans/network_broadcast.rs    | 14 ++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..ea630a3 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -8,7 +8,10 @@ use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
-use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
+use datafusion::physical_plan::sorts::sort::SortExec;
+use datafusion::physical_plan::{
+    ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, ReplaceChildrenOptions,
+};
 
 use crate::BroadcastExec;
 
@@ -142,8 +145,18 @@ pub(super) fn insert_broadcast_execs(
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
-        let new_build_child: Arc<dyn ExecutionPlan> =
+        let mut new_build_child: Arc<dyn ExecutionPlan> =
             Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+        // The output of an inner hash join is also ordered by the ordering of its build side, and
+        // nodes above might rely on that. Broadcasting interleaves the rows of several tasks, so
+        // that ordering needs to be restored.
+        if let Some(ordering) = build_child.output_ordering()
+            && node.output_ordering().is_some()
+            && let Some(hash_join) = node.downcast_ref::<HashJoinExec>()
+            && hash_join.join_type() == &JoinType::Inner
+        {
+            new_build_child = Arc::new(SortExec::new(ordering.clone(), new_build_child));
+        }
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..3a1ab78 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -127,10 +127,16 @@ pub struct NetworkBroadcastExec {
 impl NetworkBroadcastExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
         let input_partition_count = input_properties.partitioning.partition_count();
-        let properties = Arc::new(
-            PlanProperties::clone(&input_properties)
-                .with_partitioning(Partitioning::UnknownPartitioning(input_partition_count)),
-        );
+        // The streams of all the input tasks get interleaved, so even if each one of them is ordered,
+        // the result is not.
+        let mut eq_properties = input_properties.eq_properties.clone();
+        eq_properties.clear_orderings();
+        let properties = Arc::new(PlanProperties::new(
+            eq_properties,
+            Partitioning::UnknownPartitioning(input_partition_count),
+            input_properties.emission_type,
+            input_properties.boundedness,
+        ));
 
         Self {
             properties,
-- 
2.43.0


From fbcaf5c86fc19b6b0c3f119e8f00ecdea3d2ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 14/30] fix: fail the work unit feeds of a task if the stream
 of its coordinator breaks

A broken coordinator->worker stream was taken for its end, so the feeds ended too and the task
produced a partial result. Without metrics nothing else notices the break, so the query succeeded.
---
 src/worker/impl_coordinator_channel.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 8bf6c26..95d6c1e 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -124,7 +124,23 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        // The remaining work units will never arrive. Let the receivers know, as
+                        // otherwise they would take this for an EOS and produce a partial result.
+                        let err = Arc::new(err);
+                        for tx in work_unit_senders
+                            .take()
+                            .into_iter()
+                            .flat_map(|v| v.into_values())
+                        {
+                            let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                        }
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
-- 
2.43.0


From 3771b10c8942da20839e493bd1856d1380d82eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 15/30] fix: report the metrics of tasks that were sampled but
 never pulled from

---
 src/worker/impl_coordinator_channel.rs | 35 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 95d6c1e..0620876 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -174,22 +174,27 @@ impl Worker {
             }
 
             let metrics_tx = task_data.metrics_tx.lock().unwrap().take();
-            if let Some(Ok(plan)) = task_data.final_plan.get() {
-                let d_ctx = DistributedTaskContext {
-                    task_index: key.task_number,
-                    task_count: request.task_count,
-                };
-                let task_data_metrics = &task_data.task_data_metrics;
-                task_data_metrics.mark_execution_finished();
-                if let Some(metrics_tx) = metrics_tx {
-                    send_metrics_via_channel(
-                        metrics_tx,
-                        plan,
-                        &task_data.base_plan,
-                        d_ctx,
-                        task_data_metrics,
-                    );
+            let d_ctx = DistributedTaskContext {
+                task_index: key.task_number,
+                task_count: request.task_count,
+            };
+            let task_data_metrics = &task_data.task_data_metrics;
+            let plan = match task_data.final_plan.get() {
+                Some(Ok(plan)) => {
+                    task_data_metrics.mark_execution_finished();
+                    plan
                 }
+                // Nobody pulled from this task, but it might have read data anyway for sampling it.
+                _ => &task_data.base_plan,
+            };
+            if let Some(metrics_tx) = metrics_tx {
+                send_metrics_via_channel(
+                    metrics_tx,
+                    plan,
+                    &task_data.base_plan,
+                    d_ctx,
+                    task_data_metrics,
+                );
             }
             task_data_entries.invalidate(&key).await;
             // The cache might hold on to the value of an invalidated entry for as long as the worker
-- 
2.43.0


From 19805b3649bcbbddef3f1d18fd71a163b14b7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 16/30] Simulation hook: plans held by a worker (dst_sim)

---
 src/worker/worker_service.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/worker/worker_service.rs b/src/worker/worker_service.rs
index c0eb71c..2c8a3c0 100644
--- a/src/worker/worker_service.rs
+++ b/src/worker/worker_service.rs
@@ -95,6 +95,17 @@ impl Worker {
         }
     }
 
+    /// Returns the keys of the tasks whose plan is held by this worker.
+    #[cfg(dst_sim)]
+    pub async fn sim_tasks_held(&self) -> Vec<crate::TaskKey> {
+        self.task_data_entries.run_pending_tasks().await;
+        self.task_data_entries
+            .iter()
+            .filter(|(_, entry)| matches!(entry.read_now(), Some(Ok(_))))
+            .map(|(key, _)| *key)
+            .collect()
+    }
+
     /// Returns the number of cached task entries currently held by this worker.
     #[cfg(any(test, feature = "integration"))]
     pub async fn tasks_running(&self) -> usize {
-- 
2.43.0


From 67c5005b03aed4a85ef0b28b813b8d114ba1be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 17/30] Simulation hook: tell abandoned from released task
 entries (dst_sim)

---
 src/worker/single_write_multi_read.rs | 6 ++++++
 src/worker/worker_service.rs          | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worker/single_write_multi_read.rs b/src/worker/single_write_multi_read.rs
index bb2c6e8..933ab85 100644
--- a/src/worker/single_write_multi_read.rs
+++ b/src/worker/single_write_multi_read.rs
@@ -73,6 +73,12 @@ impl<T: Clone> SingleWriteMultiRead<T> {
         self.rx.borrow().clone()
     }
 
+    /// Whether a value was ever written, even if it was cleared afterwards.
+    #[cfg(dst_sim)]
+    pub(crate) fn sim_was_written(&self) -> bool {
+        self.rx.has_changed().unwrap_or(true)
+    }
+
     /// Await until the writer has placed a value.
     pub(crate) async fn read(
         &self,
diff --git a/src/worker/worker_service.rs b/src/worker/worker_service.rs
index 2c8a3c0..cb38784 100644
--- a/src/worker/worker_service.rs
+++ b/src/worker/worker_service.rs
@@ -95,13 +95,13 @@ impl Worker {
         }
     }
 
-    /// Returns the keys of the tasks whose plan is held by this worker.
+    /// Returns the keys of the tasks held by this worker whose plan arrived.
     #[cfg(dst_sim)]
     pub async fn sim_tasks_held(&self) -> Vec<crate::TaskKey> {
         self.task_data_entries.run_pending_tasks().await;
         self.task_data_entries
             .iter()
-            .filter(|(_, entry)| matches!(entry.read_now(), Some(Ok(_))))
+            .filter(|(_, entry)| entry.sim_was_written() && !matches!(entry.read_now(), Some(Err(_))))
             .map(|(key, _)| *key)
             .collect()
     }
-- 
2.43.0


From 9eef8f215be5c1ce82cba0418dc234a7703d70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 18/30] fix: do not distribute plans with recursive CTEs, which
 no worker can be sent

---
 src/distributed_planner/distributed_query_planner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/distributed_planner/distributed_query_planner.rs b/src/distributed_planner/distributed_query_planner.rs
index d312b32..ff23531 100644
--- a/src/distributed_planner/distributed_query_planner.rs
+++ b/src/distributed_planner/distributed_query_planner.rs
@@ -18,6 +18,7 @@ use datafusion::execution::context::QueryPlanner;
 use datafusion::logical_expr::LogicalPlan;
 use datafusion::physical_plan::analyze::AnalyzeExec;
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
+use datafusion::physical_plan::recursive_query::RecursiveQueryExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, ReplaceChildrenOptions,
 };
@@ -136,6 +137,12 @@ fn create_distributed_plan(
             ));
         }
 
+        // The recursive term of a recursive CTE reads a work table owned by its
+        // `RecursiveQueryExec` and runs once per iteration, so neither can be sent to a worker.
+        if original_plan.exists(|plan| Ok(plan.is::<RecursiveQueryExec>()))? {
+            return Ok(original_plan);
+        }
+
         let mut plan = Arc::clone(&original_plan);
 
         let cfg = session.config_options();
-- 
2.43.0


From a7e3eacaeaef31907540b9489ac19247bf9b2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 19/30] Format simulation hook (dst_sim)

---
 src/worker/worker_service.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/worker/worker_service.rs b/src/worker/worker_service.rs
index cb38784..c52f04b 100644
--- a/src/worker/worker_service.rs
+++ b/src/worker/worker_service.rs
@@ -101,7 +101,9 @@ impl Worker {
         self.task_data_entries.run_pending_tasks().await;
         self.task_data_entries
             .iter()
-            .filter(|(_, entry)| entry.sim_was_written() && !matches!(entry.read_now(), Some(Err(_))))
+            .filter(|(_, entry)| {
+                entry.sim_was_written() && !matches!(entry.read_now(), Some(Err(_)))
+            })
             .map(|(key, _)| *key)
             .collect()
     }
-- 
2.43.0


From 758a7f8e07f4b5d7f2c823883ace1488bd8de52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 20/30] fix: give all the tasks of a file scan the same number
 of partitions

A scan that cannot be split in partition_count * task_count file groups (files
that must keep their order, or too few bytes) handed its groups to the tasks
unevenly, and the query failed to plan with 'Different partition count where
provided in two different variants of DistributedLeafExec'.
---
 src/events/defaults/file_scan_config.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..f75c7eb 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -68,6 +68,19 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
         file_scans[i % ev.task_count].file_groups.push(file_group);
     }
 
+    // Not every scan can be split in as many file groups as requested, but all the tasks must
+    // expose the same number of partitions: the ones left short get empty file groups.
+    let partitions_per_task = file_scans
+        .iter()
+        .map(|file_scan| file_scan.file_groups.len())
+        .max()
+        .unwrap_or(0);
+    for file_scan in &mut file_scans {
+        file_scan
+            .file_groups
+            .resize_with(partitions_per_task, || FileGroup::new(vec![]));
+    }
+
     let distributed_leaf_result = DistributedLeafExec::try_new(
         Arc::clone(ev.plan),
         file_scans
-- 
2.43.0


From b2deecb7720ec750b0a18231f71b6e6752c574e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 21/30] fix: keep the declared partitions of a file scan whole
 when distributing it

The files of a scan that declares its output partitioning (a Hive layout with
preserve_file_partitions) were dealt to tasks and partitions one by one, so that
the rows of one declared partition ended up in several of them and aggregations
or joins relying on the partitioning returned duplicated or missing groups.
---
 src/events/defaults/file_scan_config.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f75c7eb..641be66 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -41,15 +41,16 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let rebalanced = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
-            .into_iter()
-            .map(FileGroup::new)
-            .collect::<Vec<_>>()
+        // The file groups are the partitions the scan declares: operators above rely on all the
+        // rows of one partition staying together, so groups are assigned whole, and only by
+        // their index, so that scans partitioned in the same way stay aligned with each other.
+        rebalance_round_robin(
+            file_scan.file_groups.clone(),
+            partition_count * ev.task_count,
+        )
+        .into_iter()
+        .map(|groups| FileGroup::new(groups.into_iter().flat_map(FileGroup::into_inner).collect()))
+        .collect::<Vec<_>>()
     } else {
         FileGroupPartitioner::new()
             .with_target_partitions(partition_count * ev.task_count)
-- 
2.43.0


From ff610e55a216ff2c657502ca471d6bade88d201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 22/30] fix: read propagated config extension values as UTF-8

---
 src/config_extension_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..4b87f26 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -71,7 +71,8 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
 
             result.as_mut().set(
                 key,
-                v.to_str()
+                // Values are sent as UTF-8, and `HeaderValue::to_str` only accepts visible ASCII.
+                std::str::from_utf8(v.as_bytes())
                     .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
             )?;
         }
-- 
2.43.0


From 6c672fd28d6faf337309370e0950ce6ff3cc5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:40 +0000
Subject: [PATCH 23/30] fix: choose the rows of a limited broadcast build side
 once

---
 src/distributed_planner/insert_broadcast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index ea630a3..3aee044 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -136,17 +136,17 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
-            .downcast_ref::<CoalescePartitionsExec>()
-            .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
-            );
+        // A [CoalescePartitionsExec] with a fetch chooses the rows of the build side, so it must run
+        // once, below the broadcast: above it, every consumer would choose rows of its own.
+        let broadcast_input = match build_child.downcast_ref::<CoalescePartitionsExec>() {
+            Some(coalesce) if coalesce.fetch().is_none() => Arc::clone(coalesce.input()),
+            _ => Arc::clone(build_child),
+        };
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
         let mut new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
         // The output of an inner hash join is also ordered by the ordering of its build side, and
         // nodes above might rely on that. Broadcasting interleaves the rows of several tasks, so
         // that ordering needs to be restored.
-- 
2.43.0


From 52ba4fd7884dc75c7682043e9cca96f8474b0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 24/30] fix: run hand-placed network boundaries statically when
 dynamic task count is on

The dynamic planner places the boundaries itself and found none left to prepare in a plan that
brings its own, so every such query failed.
---
 src/coordinator/distributed.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 1e5fc79..4ccc6e2 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -218,7 +218,10 @@ impl ExecutionPlan for DistributedExec {
             let guard = query_coordinator.end_query_guard();
 
             let d_cfg = DistributedConfig::from_config_options(context.session_config().options())?;
-            let result = match d_cfg.dynamic_task_count {
+            // The dynamic planner places the network boundaries itself. A plan that already brings
+            // its own, with their task counts, leaves nothing to decide at runtime.
+            let has_boundaries = base_plan.exists(|plan| Ok(plan.is_network_boundary()))?;
+            let result = match d_cfg.dynamic_task_count && !has_boundaries {
                 true => prepare_dynamic_plan(&query_coordinator, &base_plan).await?,
                 false => prepare_static_plan(&query_coordinator, &base_plan)?,
             };
-- 
2.43.0


From 6bd3c23c8df11f6804c3dc45f262d4084a68b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 25/30] fix: recompute the partitions of a network coalesce
 whose scaled input changed them

A hand-placed NetworkCoalesceExec right above a leaf kept the partition count the leaf had before
it was scaled up, and read partitions that were not there or missed those that were new.
---
 src/execution_plans/network_coalesce.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..4d7ed08 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -15,7 +15,8 @@ use datafusion::physical_plan::projection::ProjectionExec;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, DisplayAs, DisplayFormatType, EmptyRecordBatchStream, ExecutionPlan,
-    PlanProperties, ReplaceChildrenOptions, Statistics, StatisticsArgs, internal_err,
+    ExecutionPlanProperties, PlanProperties, ReplaceChildrenOptions, Statistics, StatisticsArgs,
+    internal_err,
 };
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
@@ -253,7 +254,16 @@ impl ExecutionPlan for NetworkCoalesceExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let input = require_one_child(children)?;
+                // Scaling up a leaf can change the amount of partitions of the input. All of them
+                // need to be read.
+                let from = local.plan.output_partitioning().partition_count();
+                let to = input.output_partitioning().partition_count();
+                if from != to {
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| p / from.max(1) * to)?;
+                }
+                local.plan = input;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
-- 
2.43.0


From bf9d52872ceae1d00ffedd5e20dcc6396640dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 26/30] fix: decode Arrow's AvroError

Its tag was missing from the list of the oneof, so a worker's AvroError arrived as
"Malformed protobuf message".
---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From 7144bb9c4a98fec790c74698428fcf6e941cf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 27/30] fix: keep the repartitioning below a network coalesce

A stage that needs no specific head lost the RepartitionExec it has by itself, and the coalesce
above read partitions that were not there or missed those that were.
---
 src/distributed_planner/network_boundary.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..3216a55 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,9 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        if let ProducerHead::None = self {
+            return Ok(input);
+        }
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From 5abdbb15b55d432013d8535df3e73c377d0c9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 28/30] fix: accept worker errors of more than 16 KB on default
 channels

Errors travel in HTTP/2 trailers, for which clients allow 16 KB by default. Longer ones arrived as
an h2 protocol error or without their content.
---
 docs/source/user-guide/06-channel-resolver.md | 3 +++
 src/protocol/grpc/channel_resolver.rs         | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/docs/source/user-guide/06-channel-resolver.md b/docs/source/user-guide/06-channel-resolver.md
index f139534..118ec5b 100644
--- a/docs/source/user-guide/06-channel-resolver.md
+++ b/docs/source/user-guide/06-channel-resolver.md
@@ -55,6 +55,9 @@ impl ChannelResolver for CustomChannelResolver {
 }
 ```
 
+If you build your own Tonic channels, raise `Endpoint::http2_max_header_list_size` (the default resolver uses
+16 MB): the errors of workers travel in HTTP/2 trailers, and long ones do not fit in the default of 16 KB.
+
 Build a single instance for your application's lifetime (so clients are reused),
 and register it in **two** places — on the coordinating context that plans
 queries, and on every worker, since workers open connections to other workers
diff --git a/src/protocol/grpc/channel_resolver.rs b/src/protocol/grpc/channel_resolver.rs
index e68a1a2..7f022bf 100644
--- a/src/protocol/grpc/channel_resolver.rs
+++ b/src/protocol/grpc/channel_resolver.rs
@@ -34,6 +34,10 @@ pub type BoxCloneSyncChannel = tower::util::BoxCloneSyncService<
 
 type ChannelCacheValue = Shared<BoxFuture<BoxCloneSyncChannel, Arc<DataFusionError>>>;
 
+/// The errors of workers travel in the trailers of the response. The default of 16 KB is too little
+/// for errors that mention plans, schemas or many columns, which would arrive without their content.
+const MAX_HEADER_LIST_SIZE: u32 = 16 * 1024 * 1024;
+
 /// Default implementation of a [ChannelResolver] that connects to the workers given the URL once
 /// and stores the connection instance in a TTI cache.
 ///
@@ -70,7 +74,8 @@ impl DefaultChannelResolver {
                     config_datafusion_err!(
                         "Invalid URL '{url}' returned by WorkerResolver implementation: {err}"
                     )
-                })?;
+                })?
+                .http2_max_header_list_size(MAX_HEADER_LIST_SIZE);
                 #[cfg(not(dst_sim))]
                 let connecting = endpoint.connect();
                 #[cfg(dst_sim)]
-- 
2.43.0


From bbcdcddbc7d0fb90b0752a839c9f96fb752dbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 29/30] fix: push only the fetch of nodes that need no more
 rows than they return below a NetworkCoalesceExec

A top-k sort (or a filter with a fetch) right above a boundary placed by hand made
every producer task stop after that many rows, whichever they were.
---
 .../push_fetch_into_network_coalesce.rs            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..cd5e014 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -2,7 +2,9 @@ use std::sync::Arc;
 
 use datafusion::common::Result;
 use datafusion::common::tree_node::{Transformed, TreeNode};
-use datafusion::physical_plan::limit::GlobalLimitExec;
+use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
+use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
+use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 
 use crate::NetworkCoalesceExec;
@@ -101,7 +103,15 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    // Any other node bounds the rows it returns, not the ones it reads: a top-k sort or a filter with
+    // a fetch has to see its whole input.
+    if plan.is::<CoalescePartitionsExec>()
+        || plan.is::<SortPreservingMergeExec>()
+        || plan.is::<LocalLimitExec>()
+    {
+        return plan.fetch();
+    }
+    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From 55743576df2eb85d6ad05d72498d6aaffc636da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 30/30] fix: recompute the partitions of a network broadcast
 whose scaled input changed them

A hand-placed NetworkBroadcastExec whose BroadcastExec is right above a leaf kept the partition
count the leaf had before it was scaled up: rows of the build side were missing or arrived twice.
---
 src/execution_plans/network_broadcast.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 3a1ab78..4135ea5 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -1,5 +1,6 @@
 use crate::common::require_one_child;
 use crate::distributed_planner::{NetworkBoundary, ProducerHead};
+use crate::execution_plans::common::scale_partitioning_props;
 use crate::stage::{LocalStage, Stage};
 use crate::worker::WorkerConnectionPool;
 use crate::{BroadcastExec, DistributedTaskContext};
@@ -237,7 +238,18 @@ impl ExecutionPlan for NetworkBroadcastExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let input = require_one_child(children)?;
+                // Scaling up a leaf can change the amount of partitions that get broadcast. All of
+                // them need to be read.
+                if let Some(from) = local.plan.downcast_ref::<BroadcastExec>()
+                    && let Some(to) = input.downcast_ref::<BroadcastExec>()
+                    && from.input_partition_count() != to.input_partition_count()
+                {
+                    let (from, to) = (from.input_partition_count(), to.input_partition_count());
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| p / from.max(1) * to)?;
+                }
+                local.plan = input;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
-- 
2.43.0

