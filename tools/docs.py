#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that they stay in step."""
import json, sys
P = []
def prop(id, title, statement, over, text, cant, files, mech, observe, level_note, hook=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=cant, anchors=anchors), level_note))

SEAM = "cfg(dst_sim): spawning of tasks and threads goes through a replaceable function"
prop("C01", "A distributed query returns exactly what a single node returns",
  "For every query the planner accepts, executing it over any number of workers returns the same multiset of rows and the same schema as executing it on one node with the same data. It does so under every interleaving of the workers and of the messages between them. A query that a single node can run never fails only because it was distributed.",
  ["inputs", "configurations", "schedules"],
  "all tables (chunking, batch sizes, nulls, skew, empty chunks), all supported query shapes, all planner settings, 1-6 workers, every order in which tasks, messages and batches are processed",
  "The tests run a fixed list of queries on fixed files and on whatever interleaving one run of tokio happens to take.",
  ["src/distributed_planner/distributed_query_planner.rs", "src/distributed_planner/inject_network_boundaries.rs", "src/coordinator/prepare_static_plan.rs", "src/execution_plans/network_shuffle.rs", "src/execution_plans/network_coalesce.rs", "src/execution_plans/children_isolator_union.rs", "src/distributed_planner/partial_reduce_below_network_shuffles.rs", "src/distributed_planner/normalize_collect_joins.rs", "src/events/defaults/file_scan_config.rs"],
  [("network boundary injection", "src/distributed_planner/inject_network_boundaries.rs"), ("task-specific plans of the leaves", "src/execution_plans/distributed_leaf.rs"), ("partition ranges requested per task", "src/execution_plans/network_shuffle.rs")],
  ["rows and schema of the stream returned to the client"],
  "seeded search over queries, tables, settings and schedules; oracle: the same query on stock single-node DataFusion")
prop("C02", "Choosing task counts at run time does not change results",
  "When task counts are decided while the query runs, from sampled data, the result is still exactly that of a single node. Every stage uses at least one and at most the permitted number of tasks, and the query always completes.",
  ["inputs", "configurations", "schedules"],
  "all tables, queries, sampling budgets, per-task byte limits and interleavings of samplers, head stages and coordinators",
  "Adaptive planning depends on which samples arrive first; tests see one order for a few queries.",
  ["src/coordinator/prepare_dynamic_plan.rs", "src/execution_plans/sampler.rs", "src/coordinator/query_coordinator.rs", "src/distributed_planner/statistics/cost.rs"],
  [("sampling of the output of a stage", "src/execution_plans/sampler.rs"), ("extrapolation and task count", "src/coordinator/prepare_dynamic_plan.rs")],
  ["rows returned", "tasks that executed leaves"],
  "as C01 with adaptive planning on; also bounds the number of tasks")
prop("C03", "Infrastructure failure never yields a wrong or partial result as success",
  "If connections break, are refused or stall, or if workers crash, restart or are partitioned away at any moment, a query either returns the complete correct result or ends with an error. It never reports success with rows missing, duplicated or altered.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "every placement of resets, mid-stream breaks, stalls, refusals, partitions, worker crashes and restarts within the life of a query",
  "The tests kill at most a worker at one moment; the truncation hazards are breaks at particular points of particular streams.",
  ["src/protocol/grpc/worker_client.rs", "src/protocol/grpc/worker_service.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/impl_execute_task.rs", "src/protocol/grpc/spawn_select_all.rs", "src/work_unit_feed/remote_work_unit_feed.rs"],
  [("errors fanned out to every partition", "src/protocol/grpc/worker_client.rs"), ("errors of a partition end the stream", "src/protocol/grpc/worker_service.rs"), ("broken coordinator stream ends the work unit feeds", "src/worker/impl_coordinator_channel.rs")],
  ["outcome and rows of every query"],
  "faults are injected by the simulated network and node lifecycle; oracle: single-node result or an error")
prop("C04", "An error raised on a worker reaches the client with its kind and message",
  "When an operator, a data source, a session builder or a work unit provider fails on any worker, the query fails at the client with that failure's message and its kind of error. The failure is neither swallowed nor replaced by a secondary one, and it does not leave the client waiting.",
  ["fault_sequences", "inputs", "schedules"],
  "every kind of error, raised in any stage at any batch, in any interleaving with the rest of the query, alone or together with errors of other tasks",
  "Tests raise one error from one place; which error wins depends on interleaving.",
  ["src/protocol/grpc/errors/datafusion_error.rs", "src/protocol/grpc/errors/mod.rs", "src/protocol/grpc/worker_client.rs", "src/protocol/grpc/spawn_select_all.rs", "src/common/catch_panics.rs", "src/worker/impl_coordinator_channel.rs"],
  [("serialisable errors", "src/protocol/grpc/errors"), ("setup failures stored for all readers of a task", "src/worker/single_write_multi_read.rs")],
  ["error returned to the client"],
  "leaf, feed, session and codec faults with known messages; oracle: kind and text of the injected error")
prop("C05", "Every query ends within bounded time whatever fails",
  "Whatever combination of message loss, broken connections, stalls, crashes, partitions, errors and slow consumers occurs, every query either finishes or fails within a bounded time after the faults stop. No client waits forever.",
  ["fault_sequences", "crash_points", "schedules"],
  "every sequence of up to several faults at any point of a query",
  "A hang needs a particular event order; tests that pass show only orders that do not hang.",
  ["src/coordinator/query_coordinator.rs", "src/worker/single_write_multi_read.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/impl_execute_task.rs", "src/protocol/grpc/worker_client.rs", "src/coordinator/metrics_store.rs"],
  [("waiting for a task's plan with a timeout", "src/worker/single_write_multi_read.rs"), ("cancellation tokens of the coordinator", "src/coordinator/query_coordinator.rs")],
  ["end time of every query in simulated time"],
  "liveness as progress within a bounded simulated time after the last fault")
prop("C06", "Workers hold nothing for a query once it has ended",
  "After a query finished, failed, panicked or was cancelled, or its coordinator died, every worker soon forgets its tasks: no task entries, no running operators, no open connections' streams and no reserved memory remain for it. This holds however the end interleaves with messages still in flight.",
  ["histories", "fault_sequences", "schedules"],
  "every way and every moment in which a query can end",
  "Leaks need an end that races with task setup or delivery; tests check a few calm endings.",
  ["src/worker/impl_coordinator_channel.rs", "src/worker/task_data.rs", "src/worker/worker_service.rs", "src/worker/impl_execute_task.rs", "src/protocol/grpc/on_drop_stream.rs", "src/worker/single_write_multi_read.rs"],
  [("task entry removed when its last partition ends", "src/worker/impl_execute_task.rs"), ("task entries invalidated with the coordinator's stream", "src/worker/impl_coordinator_channel.rs")],
  ["task registry of every worker, memory pools, live operator streams and live background tasks at the end of the run"],
  "end-of-run audit of registries, memory pools, operator streams and background tasks on every node", hook=SEAM)
prop("C07", "Cancelling a query stops its work on every worker",
  "Once the client drops a query, or its coordinator dies, all workers stop reading input for it and release what it held within a short bounded time, even in the middle of sending or while blocked on a slow consumer or source.",
  ["crash_points", "schedules", "histories"],
  "every moment at which the client may go away, every stage in any state",
  "Tests cancel at one point; work that goes on unnoticed needs a particular state of a stage.",
  ["src/protocol/grpc/on_drop_stream.rs", "src/protocol/grpc/spawn_select_all.rs", "src/coordinator/query_coordinator.rs", "src/coordinator/distributed.rs", "src/worker/impl_coordinator_channel.rs"],
  [("dropping the stream of the client cancels all stages", "src/coordinator/query_coordinator.rs"), ("streams that cancel on drop", "src/protocol/grpc/on_drop_stream.rs")],
  ["input batches read after the end of a query", "audit of C06"],
  "leaf reads are timestamped; none may happen more than a bounded time after the end")
prop("C08", "Every piece of input is read exactly once",
  "A query that completes has read every partition of its inputs exactly once across all workers, and every part of the plan was executed at most once per task and partition. Nothing is read twice because of task splitting, retries, shared readers or concurrent requests for the same task.",
  ["inputs", "configurations", "schedules"],
  "all partitionings, task counts and orders of requests",
  "Duplicate execution produces right answers in many tests (e.g. under aggregates such as max), and needs particular splits.",
  ["src/execution_plans/distributed_leaf.rs", "src/events/scale_up_leaf_node.rs", "src/events/defaults/file_scan_config.rs", "src/worker/worker_connection_pool.rs", "src/execution_plans/children_isolator_union.rs", "src/protocol/in_process/worker_client.rs"],
  [("variants of a leaf per task", "src/execution_plans/distributed_leaf.rs"), ("one connection per consumer and producer task, split by partition", "src/worker/worker_connection_pool.rs")],
  ["log of the batches read by every leaf, with node, task and partition"],
  "log of leaf reads compared to the input", )
prop("C09", "Joins with a broadcast build side equal single-node joins",
  "When one side of a join is sent to all tasks of the other side, the result is that of a single node for every kind of join, and each consumer receives the complete build side exactly once. One slow or early finishing consumer neither blocks nor truncates another.",
  ["inputs", "configurations", "schedules"],
  "all join kinds and conditions, build sides of any size, any number of consumers at any relative speed",
  "Correctness depends on the relative speed of consumers sharing the cached build side.",
  ["src/execution_plans/broadcast.rs", "src/execution_plans/network_broadcast.rs", "src/distributed_planner/insert_broadcast.rs", "src/distributed_planner/normalize_collect_joins.rs"],
  [("cached partitions replayed per consumer", "src/execution_plans/broadcast.rs"), ("joins eligible for broadcast", "src/distributed_planner/insert_broadcast.rs")],
  ["rows returned", "leaf reads"],
  "as C01 with broadcast joins forced, plus exactly-once reads")
prop("C10", "A slow consumer bounds buffering and never deadlocks the query",
  "While a consumer does not read, the amount of data that workers produce and ship for it stays bounded independently of the size of the result. As soon as the consumer reads again the query continues and completes correctly, for any buffer budget and any order in which partitions are consumed.",
  ["schedules", "configurations", "inputs"],
  "all buffer budgets down to one byte, all consumption orders, pauses at any point",
  "Deadlocks between partitions that share a connection appear only for particular consumption orders and budgets.",
  ["src/protocol/grpc/worker_client.rs", "src/protocol/grpc/worker_service.rs", "src/protocol/grpc/spawn_select_all.rs", "src/worker/worker_connection_pool.rs"],
  [("byte budget of a connection", "src/protocol/grpc/worker_client.rs"), ("bounded channel of the producer", "src/protocol/grpc/spawn_select_all.rs")],
  ["bytes on the simulated network and rows read while the consumer is paused", "termination"],
  "bytes moved and rows produced during a pause of the client, with results of 12 MB and balanced partitions; termination and rows for every budget")
prop("C11", "Every work unit is delivered once, in order, to its task",
  "Work units that a provider on the coordinator emits for a task partition arrive at exactly that partition, each exactly once and in order, whatever the timing. If the provider fails the query fails with that error, and if the query ends early or the connection breaks no unit is invented and none is silently dropped from a successful result.",
  ["schedules", "fault_sequences", "histories"],
  "all feeds (sizes, pacing), all interleavings of feed, plan delivery and execution, failures of provider, network or client at any point",
  "Feeds race with plan delivery and execution; tests use one timing.",
  ["src/work_unit_feed/remote_work_unit_feed.rs", "src/work_unit_feed/work_unit_feed.rs", "src/work_unit_feed/work_unit_feed_registry.rs", "src/worker/impl_coordinator_channel.rs", "src/coordinator/query_coordinator.rs"],
  [("units sent on the coordinator's stream of a task", "src/coordinator/query_coordinator.rs"), ("demultiplexed by feed and partition", "src/worker/impl_coordinator_channel.rs")],
  ["units received by each leaf against those emitted", "outcome and rows"],
  "units are numbered; received sequences are compared to emitted ones")
prop("C12", "Collecting metrics ends, and accounts for all work of all tasks",
  "After a query ran to completion, waiting for its metrics always returns, and the metrics shown for each operator are those of that operator summed over all tasks that ran it: the leaves report exactly the rows that were read, and the sum shown for an operator equals that of the values shown per task. A failed or abandoned query or a lost worker does not make the wait endless.",
  ["schedules", "fault_sequences", "configurations"],
  "all orders of metrics reports, results and task ends; all plans; workers that die before reporting",
  "Metrics travel on a different stream from results; tests check presence for a few plans.",
  ["src/metrics/task_metrics_rewriter.rs", "src/metrics/task_metrics_collector.rs", "src/coordinator/metrics_store.rs", "src/coordinator/query_coordinator.rs", "src/explain_analyze.rs", "src/worker/impl_coordinator_channel.rs"],
  [("metrics sent when a task ends", "src/worker/impl_execute_task.rs"), ("per-task store awaited by the rewriter", "src/coordinator/metrics_store.rs")],
  ["return of the wait, rows reported by leaves"],
  "EXPLAIN ANALYZE and explicit waits; leaf output rows compared to the log of reads")
prop("C13", "Tasks run where routing sends them, evenly by default",
  "Every task of a stage is executed by the worker that the routing decision named, and all consumers of that task contact that worker. Without custom routing the tasks of a stage are spread over distinct workers as evenly as their number allows, and a routing decision with the wrong number of targets is reported as an error.",
  ["configurations", "inputs", "schedules"],
  "all routing functions, worker sets and task counts, including fewer workers than tasks",
  "Tests route a few plans in one way.",
  ["src/events/defaults/routing.rs", "src/events/route_tasks.rs", "src/coordinator/query_coordinator.rs", "src/stage.rs", "src/worker_resolver.rs"],
  [("default routing", "src/events/defaults/routing.rs"), ("addresses stored in the stage", "src/coordinator/query_coordinator.rs")],
  ["node on which each leaf task executed"],
  "executed leaves are logged with node and task, compared to the decisions of the routing hook")
prop("C14", "Each query's headers and extension options reach every worker, unmixed",
  "All requests a query causes, between coordinator and workers and between workers, carry exactly the headers the query was issued with (all values of a header with several, in order), and every task executes with the query's own values of the session extensions registered for propagation, whatever text they hold short of control characters. Concurrent queries with different values never see each other's.",
  ["schedules", "configurations", "histories"],
  "all extension options and headers (empty, with blanks, non-ASCII, repeated), all interleavings of concurrent queries on shared connections",
  "Tests send one query at a time.",
  ["src/passthrough_headers.rs", "src/config_extension_ext.rs", "src/protocol/grpc/worker_client.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/session_builder.rs"],
  [("settings serialised with the plan", "src/config_extension_ext.rs"), ("headers of the coordinator's request used for nested ones", "src/passthrough_headers.rs")],
  ["headers and settings seen by leaves and session builders on workers"],
  "every query carries a unique token; leaves record token and settings they saw")
prop("C16", "Concurrent queries do not affect one another",
  "Any number of queries may run at once on the same workers. Each returns its own correct result or its own error; failures, cancellations and panics of one query never change the outcome of another.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of up to five queries, some of which fail, panic or are cancelled at any point",
  "Interference needs an interleaving of two queries on the same task registry or connection.",
  ["src/worker/worker_service.rs", "src/worker/task_data.rs", "src/protocol/grpc/channel_resolver.rs", "src/worker/worker_connection_pool.rs"],
  [("task keys are unique per query, stage and task", "src/worker/task_data.rs"), ("shared channels per worker", "src/protocol/grpc/channel_resolver.rs")],
  ["outcome and rows of each query"],
  "each query has its own oracle and its own injected error messages")
prop("C17", "The cluster serves queries again once faults are over",
  "After broken connections have been restored, partitions healed and crashed workers restarted, new queries on the same coordinator succeed with correct results, without restarting anything else.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of up to three transient faults followed by a calm period",
  "Tests do not query after a fault.",
  ["src/protocol/grpc/channel_resolver.rs", "src/worker/worker_service.rs", "src/coordinator/query_coordinator.rs"],
  [("cached channels reconnect or are rebuilt", "src/protocol/grpc/channel_resolver.rs")],
  ["outcome of the queries issued after the faults"],
  "queries issued some simulated seconds after the last fault ended must succeed")
prop("C18", "Ordered queries return rows in the requested order",
  "A query with an ordering returns its rows in that order, exactly as a single node would, however the sorted runs of the tasks are merged and however messages interleave. Operators that rely on the order of their input, such as window functions and merge joins, get it.",
  ["schedules", "inputs", "configurations"],
  "all orderings, null placements, ties, partitionings and interleavings",
  "A lost ordering requirement shows only when batches of several tasks arrive in an unlucky order.",
  ["src/execution_plans/network_coalesce.rs", "src/execution_plans/network_shuffle.rs", "src/execution_plans/network_broadcast.rs", "src/distributed_planner/inject_network_boundaries.rs", "src/distributed_planner/insert_broadcast.rs"],
  [("plan properties of network boundaries", "src/execution_plans/network_shuffle.rs")],
  ["sequence of rows returned"],
  "ordered queries, windows and sorted inputs; keys of consecutive rows are compared, ties ignored")
prop("C19", "LIMIT returns the right number of rows and stops the workers",
  "A query with a limit and offset returns exactly the number of rows a single node returns, all of them genuine, and the workers stop reading soon after the limit is satisfied.",
  ["inputs", "schedules", "configurations"],
  "all limits and offsets, in any position of a query, any distribution of rows over tasks",
  "Early termination races with producers; tests check row counts only.",
  ["src/distributed_planner/push_fetch_into_network_coalesce.rs", "src/execution_plans/network_coalesce.rs", "src/protocol/grpc/on_drop_stream.rs"],
  [("limit pushed through a coalesce boundary", "src/distributed_planner/push_fetch_into_network_coalesce.rs")],
  ["rows returned", "input read after the end"],
  "row count and containment against the unlimited single-node result; leaf reads after the end")
prop("C20", "Clock skew and clock jumps affect only timings",
  "Clocks of coordinator and workers may differ by any amount and may jump at any moment. Results, termination and row metrics are unaffected; no task fails or panics because a measured duration is negative or absurd.",
  ["fault_sequences", "configurations"],
  "all skews and jumps from milliseconds to years, forwards and backwards, at any point",
  "Tests run in one process with one clock.",
  ["src/common/time.rs", "src/protocol/grpc/worker_client.rs", "src/work_unit_feed/remote_work_unit_feed.rs", "src/metrics/latency_metric.rs", "src/coordinator/latency_metric.rs"],
  [("latencies computed from timestamps of another node", "src/protocol/grpc/worker_client.rs")],
  ["outcome, rows, panics of background tasks, metrics"],
  "per-node wall clocks with skew and jumps; oracle as C01, panics anywhere reported")
prop("C21", "Each worker rewrites each task's plan once, in order, or the query fails",
  "The plan rewrites registered on a worker are applied to every task it receives exactly once and in registration order before any of it executes. A rewrite that fails or panics makes the query fail with its error; the original plan never runs instead.",
  ["schedules", "fault_sequences", "configurations"],
  "all numbers of rewrites, workers that differ, failures of the n-th rewrite",
  "Tests register one rewrite and one worker.",
  ["src/events/worker_plan_rewrite.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/worker_service.rs"],
  [("rewrites applied when the plan arrives", "src/worker/impl_coordinator_channel.rs")],
  ["mark left on each executed leaf by the rewrites"],
  "rewrites leave an ordered mark on leaves, recorded when these execute")
prop("C22", "A coordinator that is also a worker serves its own tasks in process",
  "When the coordinator is itself one of the workers, or a worker needs data of a task that runs on itself, the data are exchanged without a network connection to itself, and results, errors and exactly-once execution are the same as over the network.",
  ["configurations", "schedules", "fault_sequences"],
  "all routings including every task on the coordinator, mixed local and remote tasks, errors in either",
  "Tests rarely use the in-process path and never compare it under failures.",
  ["src/protocol/in_process/worker_client.rs", "src/protocol/in_process/local_worker_context.rs", "src/worker/worker_connection_pool.rs", "src/coordinator/query_coordinator.rs"],
  [("local worker chosen by address", "src/worker/worker_connection_pool.rs")],
  ["bytes of connections from a node to itself", "rows and errors"],
  "the simulated network records bytes per pair of nodes; oracle as C01 and C04")
prop("C23", "A panic in one task fails its query and nothing else",
  "If user code panics on a worker or in a work unit provider, the query that ran it fails with an error at the client. The worker keeps serving other queries, and nothing of the failed query remains.",
  ["fault_sequences", "schedules"],
  "a panic in any operator, source, rewrite or provider at any batch, in any stage",
  "A panic caught in one place can hang or truncate in another; tests panic in one operator.",
  ["src/common/catch_panics.rs", "src/protocol/grpc/spawn_select_all.rs", "src/worker/impl_coordinator_channel.rs", "src/worker/impl_execute_task.rs"],
  [("panics turned into errors", "src/common/catch_panics.rs")],
  ["outcome of the query, later queries, audit of C06"],
  "panics injected in leaves, feeds and rewrites")
prop("C24", "Compression, batch size, message size and network pacing do not matter",
  "Results are the same for every compression codec, batch size, message size limit, wide or narrow row, segmentation of the byte stream, latency and bandwidth. Batches larger than a message are split or sent, never dropped or truncated.",
  ["configurations", "inputs", "schedules"],
  "all transport settings, row widths from bytes to kilobytes, all segmentations and pacings of the byte streams",
  "Tests use default settings on the loopback.",
  ["src/protocol/grpc/worker_service.rs", "src/protocol/grpc/worker_client.rs", "src/worker/impl_execute_task.rs"],
  [("encoding of batches", "src/protocol/grpc/worker_service.rs"), ("decoding and schema", "src/protocol/grpc/worker_client.rs")],
  ["rows returned"],
  "transport settings and network pacing are randomised; oracle as C01")
prop("C25", "A worker out of memory fails the query cleanly",
  "If the memory limit of a worker is reached, the query either still returns the complete correct result or fails with a resources error. No wrong result, hang or leaked reservation follows, and the worker's accounting returns to zero.",
  ["configurations", "fault_sequences", "schedules"],
  "all memory limits, all plans, any interleaving of reservations",
  "Tests do not limit memory.",
  ["src/protocol/grpc/worker_client.rs", "src/worker/worker_connection_pool.rs", "src/worker/impl_execute_task.rs"],
  [("reservation of buffered messages", "src/protocol/grpc/worker_client.rs")],
  ["outcome, rows, memory pools at the end"],
  "memory pools of the workers are limited; oracle: single-node result or a resources error; reservations at the end are zero")

prop("C26", "Stages and boundaries placed by hand give the single-node answer",
  "A plan whose network shuffles, coalesces and broadcasts were placed by an optimizer rule of the user (as the documentation on custom distributed plans describes: any stage topology, any task counts, trees of coalescing stages that shrink M tasks to N, partial reductions on the way, stages that end right below a filter, a top-k sort or any other operator that works on one partition at a time) returns the rows of the unmodified plan, under dynamic and static task counts, whatever partition counts the scaled leaves end up with. Every partition of every producer task is read exactly once, boundaries between single tasks disappear, and orders are kept.",
  ["inputs", "configurations", "schedules"],
  "all ways to cut a plan into stages with arbitrary task counts; the automatic planner only ever makes a few of them",
  "Tests place one reduction tree over one table.",
  ["src/distributed_planner/distributed_query_planner.rs", "src/distributed_planner/prepare_network_boundaries.rs", "src/execution_plans/network_coalesce.rs", "src/execution_plans/network_shuffle.rs", "src/execution_plans/network_broadcast.rs", "src/distributed_planner/push_fetch_into_network_coalesce.rs", "src/coordinator/distributed.rs"],
  [("plans that bring boundaries", "src/distributed_planner/distributed_query_planner.rs"), ("groups of producer tasks", "src/execution_plans/network_coalesce.rs"), ("limits pushed below boundaries", "src/distributed_planner/push_fetch_into_network_coalesce.rs"), ("elision and numbering", "src/distributed_planner/prepare_network_boundaries.rs")],
  ["rows and order returned, planning and execution errors, tasks and partitions executed"],
  "a seeded optimizer rule cuts the single-node plan into stages with seeded task counts; oracle as C01")

exec(open(__file__.replace("docs.py", "more.py")).read()) if __import__("os").path.exists(__file__.replace("docs.py", "more.py")) else None
P.sort(key=lambda p: p[0]["id"])
NOT_APPLICABLE = []
with open("/verif/properties.jsonl", "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
hooks = json.load(open("/verif/tools/hooks.json"))
m = {
  "version": 1,
  "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "--cfg dst_sim", "enable": "RUSTFLAGS='--cfg dst_sim' (set by /verif/env.sh, which setup.sh and check.sh source)", "source_commits": hooks},
  "checks": [{
    "property": p["id"],
    "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
    "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
    "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs, settings and fault sequences of a whole simulated cluster",
    "level": "exploration",
    "level_note": note,
  } for p, note in P],
  "not_applicable": NOT_APPLICABLE,
  "notes": "One binary (crate /verif/sim) builds the code under test from /repo's working tree with --cfg dst_sim and explores seeded runs; 'target/debug/dst replay FILE' reproduces a reported violation exactly. VERIF_SEED selects the seeds, DST_BUDGET the seconds of exploration.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
