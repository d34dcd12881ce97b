//! What a run consists of (the scenario), and what it recorded (the history).
use crate::data::{ErrKind, LeafFailure, Table};
use crate::net::{NetCfg, NetStats};
use crate::rt::{self, Sched, SchedStats};
use datafusion::common::DataFusionError;
use datafusion::execution::TaskContext;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Resolver {
    /// The library's default resolver, over the simulated network.
    Default,
    /// A lazily connected channel per (node, URL).
    Lazy,
    /// One lazily connected channel per call.
    PerCall,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cluster {
    pub workers: usize,
    /// The coordinator is also a worker.
    pub local: bool,
    pub resolver: Resolver,
    /// Bytes of every worker's memory pool.
    pub memory: Option<usize>,
    /// Wall clock offsets of the nodes, in milliseconds.
    pub skew_ms: Vec<i64>,
    pub max_message: Option<usize>,
    /// Longest pause of a worker's session builder.
    pub builder_delay_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// Leave the distributed planner out: what DataFusion alone answers.
    #[serde(default)]
    pub stock: bool,
    /// Seed of the boundaries placed by hand.
    #[serde(default)]
    pub hand: Option<u64>,
    pub target_partitions: usize,
    pub batch_size: usize,
    pub dynamic: bool,
    pub dynamic_bytes: usize,
    pub metrics: bool,
    pub compression: String,
    pub shuffle_batch: usize,
    pub max_tasks: usize,
    pub partial_reduce: bool,
    pub broadcast: bool,
    pub isolator: bool,
    pub cardinality: f64,
    pub buffer_budget: usize,
    pub hash_join: bool,
    /// Bytes under which a join's build side is collected.
    pub collect_bytes: usize,
    /// Number of plan rewriters on the workers.
    pub rewriters: usize,
    /// Extension options and headers travel with the query.
    pub headers: bool,
    pub route: Route,
    /// Bytes of files for a partition; 0 is the default.
    #[serde(default)]
    pub file_bytes: usize,
    /// Filters are evaluated by file scans.
    #[serde(default)]
    pub file_pushdown: bool,
    /// Directories of files are partitions.
    #[serde(default)]
    pub file_partitions: usize,
    /// Small files are split, too.
    #[serde(default)]
    pub file_split: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Route {
    Default,
    /// A seeded assignment.
    Seeded(u64),
    /// One URL too few or too many.
    WrongCount(i64),
    Error,
    /// Every task on the same worker.
    Same(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Consume {
    All,
    /// Pauses between batches.
    Slow(u64),
    /// Stops reading for a while after some batches, then reads on.
    PauseAfter { batches: usize, ms: u64 },
    /// Drops the stream after some rows.
    DropAfterRows(usize),
    /// Drops the stream at a time after its start.
    DropAtMs(u64),
    /// Drops the stream without polling it.
    DropUnpolled,
    /// EXPLAIN ANALYZE.
    Analyze,
    /// Reads everything, then waits for the metrics.
    ThenMetrics,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Query {
    pub id: u64,
    pub sql: String,
    /// Result rows are compared in order.
    pub ordered: bool,
    /// LIMIT without a total order: any `n` of the rows of this query.
    pub subset_of: Option<String>,
    pub at_ms: u64,
    pub consume: Consume,
    /// Overrides of the configuration.
    pub dynamic: Option<bool>,
    /// Runs after the previous query of the list ended.
    pub after_previous: bool,
    /// Runs again this many times with the same plan.
    pub repeat: usize,
    pub token: String,
    /// The value of an option and of a header that carry text.
    #[serde(default)]
    pub note: String,
    /// The values of a header with several.
    #[serde(default)]
    pub multi: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// Breaks the connections between two nodes.
    Reset { at_ms: u64, a: usize, b: usize },
    /// Breaks the nth connection after some bytes of a direction.
    BreakAfter { from: usize, to: usize, nth: u64, request: bool, bytes: u64 },
    /// Nothing gets through between two nodes for a while; then it does, or the connections break.
    Partition { at_ms: u64, a: usize, b: usize, for_ms: u64, then_reset: bool },
    Refuse { at_ms: u64, from: usize, to: usize, times: u64 },
    /// The nth response stream of a worker is reset after some frames, as a proxy in between does.
    StreamReset { node: usize, tasks: bool, nth: u64, frames: u64, reason: u32, until_ms: u64 },
    /// The node dies, silently or not, and comes back after a while.
    Crash { at_ms: u64, node: usize, silent: bool, restart_ms: Option<u64> },
    /// The node's tasks do not run for a while.
    Pause { at_ms: u64, node: usize, for_ms: u64 },
    ClockJump { at_ms: u64, node: usize, by_ms: i64 },
    Leaf { table: String, chunk: usize, after: usize, query: Option<u64>, failure: LeafFailure },
    Feed { table: String, partition: usize, after: usize, query: Option<u64>, failure: LeafFailure },
    /// The nth session built on a node fails.
    Session { node: usize, nth: u64, kind: ErrKind },
    /// A worker cannot decode the plans of a query.
    Codec { query: u64, kind: ErrKind },
    /// The nth plan rewrite of a node fails, or panics.
    Rewrite { node: usize, nth: u64, kind: ErrKind, panic: bool },
    /// The coordinator dies.
    CoordinatorCrash { at_ms: u64 },
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::Reset { .. } => "connection-reset",
            Fault::BreakAfter { .. } => "connection-break-mid-stream",
            Fault::Partition { then_reset: true, .. } => "partition-then-reset",
            Fault::Partition { .. } => "partition-then-heal",
            Fault::Refuse { .. } => "connection-refused",
            Fault::StreamReset { .. } => "stream-reset",
            Fault::Crash { silent: true, .. } => "node-power-loss",
            Fault::Crash { .. } => "node-crash",
            Fault::Pause { .. } => "node-pause",
            Fault::ClockJump { .. } => "clock-jump",
            Fault::Leaf { .. } => "leaf-failure",
            Fault::Feed { .. } => "feed-failure",
            Fault::Session { .. } => "session-builder-failure",
            Fault::Codec { .. } => "plan-decode-failure",
            Fault::Rewrite { .. } => "plan-rewrite-failure",
            Fault::CoordinatorCrash { .. } => "coordinator-crash",
        }
    }
    pub fn last_ms(&self) -> u64 {
        match self {
            Fault::Reset { at_ms, .. }
            | Fault::Refuse { at_ms, .. }
            | Fault::ClockJump { at_ms, .. }
            | Fault::CoordinatorCrash { at_ms } => *at_ms,
            Fault::Partition { at_ms, for_ms, .. } | Fault::Pause { at_ms, for_ms, .. } => {
                at_ms + for_ms
            }
            Fault::Crash { at_ms, restart_ms, silent, .. } => {
                at_ms + restart_ms.unwrap_or(0) + if *silent { 5_000 } else { 0 }
            }
            Fault::Leaf { failure: LeafFailure::Stall(ms), .. }
            | Fault::Feed { failure: LeafFailure::Stall(ms), .. } => *ms,
            Fault::StreamReset { until_ms, .. } => *until_ms,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub sched: Sched,
    pub net: NetCfg,
    pub cluster: Cluster,
    pub cfg: Cfg,
    pub tables: Vec<Table>,
    pub queries: Vec<Query>,
    pub faults: Vec<Fault>,
    pub horizon_ms: u64,
    /// Simulated time given to the cluster to clean up after the last query.
    pub settle_ms: u64,
    /// Variant of a property's own driver.
    pub mode: String,
    pub params: BTreeMap<String, i64>,
}

// ----- history -----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LeafKind {
    Start,
    Batch,
    End,
    Closed,
    Dropped,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeafEvent {
    /// Identifies the stream.
    #[serde(default)]
    pub stream: u64,
    pub at_ns: u64,
    pub step: u64,
    pub node: usize,
    pub query: u64,
    pub scan: u64,
    pub table: String,
    pub chunk: usize,
    pub rows: usize,
    pub kind: LeafKind,
}

#[derive(Clone, Debug)]
pub struct LeafFault {
    pub index: usize,
    pub after: usize,
    pub failure: LeafFailure,
}

impl LeafFault {
    pub fn marker(&self) -> String {
        format!("dst-fault-{}", self.index)
    }
    pub fn name(&self) -> &'static str {
        match &self.failure {
            LeafFailure::Error(_) => "error",
            LeafFailure::Panic => "panic",
            LeafFailure::Stall(_) => "stall",
            LeafFailure::AtExecute(_) => "error-at-execute",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Outcome {
    /// It never ended.
    Pending,
    Ok,
    PlanError(String),
    Error(String),
    /// The consumer dropped it.
    Dropped,
    /// The task that ran it panicked.
    Panic(String),
    /// The coordinator died.
    Killed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueryRun {
    pub id: u64,
    pub rep: usize,
    pub outcome: Outcome,
    pub rows: Vec<String>,
    pub schema_ok: bool,
    pub started_ms: u64,
    /// When the first row, the end, and the return of the metrics were seen.
    pub first_ms: Option<u64>,
    pub ended_ms: u64,
    pub ended_ns: u64,
    pub ended_step: u64,
    /// Chain of kinds of the error.
    pub kinds: Vec<String>,
    /// What it and the errors it wraps are and say.
    pub sigs: Vec<String>,
    pub plan: String,
    pub distributed: bool,
    pub batches: usize,
    pub metrics: Option<MetricsSeen>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MetricsSeen {
    pub ok: bool,
    pub error: String,
    pub text: String,
    /// Sum of the rows reported by the leaves.
    pub leaf_rows: Option<usize>,
    /// Operators that contradict each other.
    pub inconsistent: Option<String>,
    /// Metrics of a leaf that contradict its number of rows.
    #[serde(default)]
    pub leaf: Option<String>,
    pub waited_ms: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct NodeEnd {
    /// Tasks the worker holds when the run has settled.
    pub tasks_running: usize,
    /// Those among them whose plan arrived.
    pub plans_held: usize,
    /// The same after the time a worker keeps abandoned tasks for.
    pub tasks_late: usize,
    pub memory: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Executed {
    pub at_ns: u64,
    pub node: usize,
    pub query: u64,
    pub scan: u64,
    pub partition: usize,
    pub task_index: usize,
    pub task_count: usize,
    pub token: Option<String>,
    pub mark: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SessionBuilt {
    pub node: usize,
    pub incarnation: u64,
    pub headers: BTreeMap<String, String>,
    pub option: Option<String>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct History {
    pub sched: SchedStats,
    pub net: NetStats,
    pub queries: Vec<QueryRun>,
    pub leaves: Vec<LeafEvent>,
    /// Node and step of the crashes.
    pub crashes: Vec<(usize, u64)>,
    pub streams: u64,
    pub executed: Vec<Executed>,
    pub sessions: Vec<SessionBuilt>,
    pub routes: Vec<(u64, usize, Vec<String>)>,
    pub rewrites: Vec<(usize, u64, u64, String)>,
    pub sent: Vec<(u64, u64, usize, usize)>,
    pub received: Vec<(u64, u64, usize, usize)>,
    pub feeds: Vec<(u64, u64, usize, usize)>,
    pub fired: BTreeMap<String, u64>,
    /// Injected failures that fired, by their index in the scenario.
    pub hits: BTreeSet<usize>,
    pub panics: Vec<(usize, String)>,
    pub nodes: BTreeMap<usize, NodeEnd>,
    pub live: Vec<(usize, String, u32)>,
    pub open: Vec<(usize, usize)>,
    pub notes: Vec<String>,
    pub expected: BTreeMap<u64, Expected>,
    pub horizon_hit: bool,
    pub trace: Vec<String>,
    pub fingerprint: u64,
    pub values: BTreeMap<String, i64>,
    /// Violations found while the run proceeded.
    pub violations: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Expected {
    pub rows: Vec<String>,
    pub error: Option<String>,
}

#[derive(Default)]
pub struct World {
    pub faults: Vec<Fault>,
    pub history: History,
    scans: u64,
    pub sessions_built: BTreeMap<usize, u64>,
    pub rewrites_done: BTreeMap<usize, u64>,
    pub responses: BTreeMap<(usize, bool), u64>,
    pub executing: BTreeSet<u64>,
    pub reads: BTreeMap<String, usize>,
    pub store: Option<Arc<dyn object_store::ObjectStore>>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

pub fn install(s: &Scenario) {
    *lock() = Some(World { faults: s.faults.clone(), ..Default::default() });
}

fn lock() -> MutexGuard<'static, Option<World>> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    f(lock().as_mut().expect("no world"))
}

pub fn take() -> World {
    lock().take().expect("no world")
}

pub fn note(text: impl Into<String>) {
    let text = format!("{:>8}ms node{} {}", rt::now_ms(), rt::node(), text.into());
    with(|w| w.history.notes.push(text));
}

pub fn fired(name: &str) {
    note(format!("fault {name}"));
    with(|w| *w.history.fired.entry(name.to_string()).or_default() += 1);
}

/// An injected failure of the scenario's list fired.
pub fn hit(index: usize, name: &str) {
    fired(name);
    with(|w| w.history.hits.insert(index));
}

pub fn violation(class: &str, detail: impl Into<String>) {
    let detail = detail.into();
    with(|w| {
        if w.history.violations.len() < 20 {
            w.history.violations.push((class.to_string(), detail))
        }
    });
}

pub fn value(name: &str, v: i64) {
    with(|w| {
        let e = w.history.values.entry(name.to_string()).or_insert(v);
        *e = v;
    });
}

pub fn next_stream() -> u64 {
    with(|w| {
        w.history.streams += 1;
        w.history.streams
    })

}

pub fn crashed(node: usize) {
    let step = rt::steps();
    with(|w| w.history.crashes.push((node, step)));
}

/// Whether a query is planned and being executed.
pub fn executing(query: u64) -> bool {
    with(|w| w.executing.contains(&query))
}

/// Counts the reads of a file.
pub fn nth_read(path: &str) -> usize {
    with(|w| {
        let n = w.reads.entry(path.to_string()).or_default();
        *n += 1;
        *n - 1
    })
}

pub fn leaf(mut ev: LeafEvent) {
    ev.at_ns = tokio::sim::now_nanos();
    ev.step = rt::steps();
    let mut guard = lock();
    if let Some(w) = guard.as_mut() {
        w.history.leaves.push(ev);
    }
}

pub fn executed(query: u64, scan: u64, partition: usize, mark: &str, ctx: &Arc<TaskContext>) {
    let d = datafusion_distributed::DistributedTaskContext::from_ctx(ctx);
    let token = ctx
        .session_config()
        .options()
        .extensions
        .get::<crate::cluster::SimOptions>()
        .map(|o| o.token.clone());
    let ev = Executed {
        at_ns: tokio::sim::now_nanos(),
        node: rt::node(),
        query,
        scan,
        partition,
        task_index: d.task_index,
        task_count: d.task_count,
        token,
        mark: mark.to_string(),
    };
    with(|w| w.history.executed.push(ev));
}

pub fn next_scan() -> u64 {
    with(|w| {
        w.scans += 1;
        w.scans
    })
}

/// Failures of a chunk; those of `usize::MAX` are failures at execution.
pub fn leaf_faults(table_: &str, chunk_: usize, query_: u64) -> Vec<LeafFault> {
    with(|w| {
        w.faults
            .iter()
            .enumerate()
            .filter_map(|(index, f)| match f {
                Fault::Leaf { table, chunk, after, query, failure }
                    if table == table_
                        && query.is_none_or(|q| q == query_)
                        && matches!(failure, LeafFailure::AtExecute(_)) == (chunk_ == usize::MAX)
                        && (chunk_ == usize::MAX || *chunk == chunk_) =>
                {
                    Some(LeafFault { index, after: *after, failure: failure.clone() })
                }
                _ => None,
            })
            .collect()
    })
}

pub fn feed_faults(table_: &str, partition_: usize, query_: u64) -> Vec<LeafFault> {
    with(|w| {
        w.faults
            .iter()
            .enumerate()
            .filter_map(|(index, f)| match f {
                Fault::Feed { table, partition, after, query, failure }
                    if table == table_ && *partition == partition_ && query.is_none_or(|q| q == query_) =>
                {
                    Some(LeafFault { index, after: *after, failure: failure.clone() })
                }
                _ => None,
            })
            .collect()
    })
}

/// Whether the response of the next request to a worker gets reset: the fault, frames, reason.
pub fn stream_reset(node_: usize, tasks_: bool) -> Option<(usize, u64, u32)> {
    let now = rt::now_ms();
    with(|w| {
        let n = w.responses.entry((node_, tasks_)).or_default();
        *n += 1;
        let this = *n - 1;
        w.faults.iter().enumerate().find_map(|(index, f)| match f {
            Fault::StreamReset { node, tasks, nth, frames, reason, until_ms }
                if (*node, *tasks, *nth) == (node_, tasks_, this) && now < *until_ms =>
            {
                Some((index, *frames, *reason))
            }
            _ => None,
        })
    })
}

pub fn reset_allowed(index: usize) -> bool {
    let now = rt::now_ms();
    with(|w| matches!(&w.faults[index], Fault::StreamReset { until_ms, .. } if now < *until_ms))
}

pub fn codec_fault(query_: u64) -> Option<DataFusionError> {
    let found = with(|w| {
        w.faults.iter().enumerate().find_map(|(index, f)| match f {
            Fault::Codec { query, kind } if *query == query_ => Some((index, kind.clone())),
            _ => None,
        })
    });
    found.map(|(index, kind)| {
        hit(index, "plan-decode-failure");
        kind.build(&format!("dst-fault-{index}"))
    })
}

pub fn feed_opened(query: u64, scan: u64, partition: usize, total: usize) {
    with(|w| w.history.feeds.push((query, scan, partition, total)));
}
pub fn unit_sent(query: u64, scan: u64, partition: usize, chunk: usize) {
    with(|w| w.history.sent.push((query, scan, partition, chunk)));
}
pub fn unit_received(query: u64, scan: u64, partition: usize, chunk: usize) {
    with(|w| w.history.received.push((query, scan, partition, chunk)));
}

pub fn panicked(node: usize, what: String) {
    // The panicking code may hold the lock.
    if let Ok(mut guard) = WORLD.try_lock()
        && let Some(w) = guard.as_mut()
        && w.history.panics.len() < 50
    {
        w.history.panics.push((node, what));
    }
}

impl QueryRun {
    pub fn sql_of(&self, s: &Scenario) -> String {
        s.queries.iter().find(|q| q.id == self.id).map(|q| q.sql.clone()).unwrap_or_default()
    }
}
