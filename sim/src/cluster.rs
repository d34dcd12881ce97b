//! The simulated cluster: nodes that run the repository's code, and the queries of its clients.
use crate::data::{self, ChunkFeed, SimCodec, SimScan, SimTable};
use crate::net;
use crate::prng::Rng;
use crate::rt;
use crate::world::{self, *};
use async_trait::async_trait;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::common::{DataFusionError, extensions_options};
use datafusion::config::ConfigExtension;
use datafusion::execution::disk_manager::{DiskManagerBuilder, DiskManagerMode};
use datafusion::execution::memory_pool::{GreedyMemoryPool, MemoryPool};
use datafusion::execution::runtime_env::{RuntimeEnv, RuntimeEnvBuilder};
use datafusion::execution::{SessionState, SessionStateBuilder};
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use futures::StreamExt;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::transport::{Endpoint, Server};
use url::Url;

extensions_options! {
    /// Options that travel from the client to every worker.
    pub struct SimOptions {
        pub token: String, default = "unset".to_string()
        pub number: u64, default = 0
        pub flag: bool, default = false
        pub note: String, default = "unset".to_string()
    }
}
impl ConfigExtension for SimOptions {
    const PREFIX: &'static str = "sim";
}

pub fn host(node: usize) -> String {
    format!("node-{node}")
}
pub fn url(node: usize) -> Url {
    Url::parse(&format!("http://node-{node}:80")).expect("url")
}
pub fn node_of(url: &Url) -> Option<usize> {
    url.host_str()?.strip_prefix("node-")?.parse().ok()
}

pub struct NodeState {
    pub worker: Option<Worker>,
    pub runtime: Arc<RuntimeEnv>,
    pub pool: Arc<dyn MemoryPool>,
    pub incarnation: u64,
    channels: Arc<Mutex<HashMap<Url, grpc::BoxCloneSyncChannel>>>,
}

static NODES: Mutex<BTreeMap<usize, Arc<NodeState>>> = Mutex::new(BTreeMap::new());

pub fn node_state(node: usize) -> Option<Arc<NodeState>> {
    NODES.lock().unwrap().get(&node).cloned()
}

fn runtime(limit: Option<usize>) -> (Arc<RuntimeEnv>, Arc<dyn MemoryPool>) {
    let pool: Arc<dyn MemoryPool> = Arc::new(GreedyMemoryPool::new(limit.unwrap_or(1 << 40)));
    let env = RuntimeEnvBuilder::new()
        .with_memory_pool(pool.clone())
        .with_disk_manager_builder(DiskManagerBuilder::default().with_mode(DiskManagerMode::Disabled))
        .build()
        .expect("runtime env");
    if let Some(store) = world::with(|w| w.store.clone()) {
        env.register_object_store(&crate::files::url(), store);
    }
    (Arc::new(env), pool)
}

// ----- transport -----

pub fn connect_default(uri: http::Uri) -> tonic::codegen::BoxFuture<Box<dyn grpc::sim::Io>, std::io::Error> {
    let from = rt::node();
    Box::pin(async move {
        let host = uri.host().unwrap_or_default().to_string();
        let io = net::connect(from, &host).await?;
        Ok(Box::new(io) as Box<dyn grpc::sim::Io>)
    })
}

fn lazy_channel(from: usize, url: &Url) -> grpc::BoxCloneSyncChannel {
    let host = url.host_str().unwrap_or_default().to_string();
    let channel = Endpoint::try_from(url.to_string()).expect("endpoint").http2_max_header_list_size(1 << 24).connect_with_connector_lazy(
        tower::service_fn(move |_: http::Uri| {
            let host = host.clone();
            async move {
                net::connect(from, &host).await.map(hyper_util::rt::TokioIo::new)
            }
        }),
    );
    grpc::BoxCloneSyncChannel::new(channel)
}

/// A custom channel resolver, as a user would write one.
#[derive(Clone)]
pub struct SimResolver {
    node: usize,
    per_call: bool,
    channels: Arc<Mutex<HashMap<Url, grpc::BoxCloneSyncChannel>>>,
}

#[async_trait]
impl ChannelResolver for SimResolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        if self.per_call {
            return Ok(grpc::create_worker_client(lazy_channel(self.node, url)));
        }
        let channel = self
            .channels
            .lock()
            .unwrap()
            .entry(url.clone())
            .or_insert_with(|| lazy_channel(self.node, url))
            .clone();
        Ok(grpc::create_worker_client(channel))
    }
}

struct SimWorkers(Vec<Url>);
impl WorkerResolver for SimWorkers {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        Ok(self.0.clone())
    }
}

pub fn worker_nodes(s: &Scenario) -> Vec<usize> {
    let first = if s.cluster.local { 0 } else { 1 };
    (first..=s.cluster.workers).collect()
}

// ----- workers -----

#[derive(Clone)]
struct Builder {
    s: Arc<Scenario>,
    node: usize,
    incarnation: u64,
    channels: Arc<Mutex<HashMap<Url, grpc::BoxCloneSyncChannel>>>,
}

#[async_trait]
impl WorkerSessionBuilder for Builder {
    async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<SessionState, DataFusionError> {
        let nth = world::with(|w| {
            let n = w.sessions_built.entry(self.node).or_default();
            *n += 1;
            *n - 1
        });
        let delay = self.s.cluster.builder_delay_ms;
        if delay > 0 {
            let mut rng = Rng::fork(self.s.seed, 0x5e55_0000 + self.node as u64 * 1000 + nth);
            if rng.pct(50) {
                tokio::time::sleep(Duration::from_millis(rng.range(0, delay))).await;
            }
        }
        let mut headers = BTreeMap::new();
        for (k, v) in ctx.headers.iter() {
            if k.as_str().starts_with("x-") {
                headers
                    .entry(k.to_string())
                    .and_modify(|e: &mut String| {
                        e.push('|');
                        e.push_str(&String::from_utf8_lossy(v.as_bytes()))
                    })
                    .or_insert(String::from_utf8_lossy(v.as_bytes()).to_string());
            }
        }
        let mut builder = ctx.builder.with_distributed_user_codec(SimCodec(0)).with_distributed_user_codec(SimCodec(1));
        let mut option = None;
        if self.s.cfg.headers {
            builder = builder.with_distributed_option_extension_from_headers::<SimOptions>(&ctx.headers)?;
            option = builder
                .config()
                .as_ref()
                .and_then(|c| c.options().extensions.get::<SimOptions>())
                .map(|o| format!("{}/{}/{}/{}", o.token, o.number, o.flag, o.note));
        }
        world::with(|w| {
            w.history.sessions.push(SessionBuilt {
                node: self.node,
                incarnation: self.incarnation,
                headers,
                option,
            })
        });
        let fault = world::with(|w| {
            w.faults.iter().enumerate().find_map(|(i, f)| match f {
                Fault::Session { node, nth: n, kind } if *node == self.node && *n == nth => {
                    Some((i, kind.clone()))
                }
                _ => None,
            })
        });
        if let Some((index, kind)) = fault {
            world::hit(index, "session-builder-failure");
            return Err(kind.build(&format!("dst-fault-{index}")));
        }
        if self.s.cluster.resolver != Resolver::Default {
            builder = builder.with_distributed_channel_resolver(SimResolver {
                node: self.node,
                per_call: self.s.cluster.resolver == Resolver::PerCall,
                channels: self.channels.clone(),
            });
        }
        for i in 0..self.s.cfg.rewriters {
            builder = builder.with_distributed_worker_plan_rewrite_handler(Rewriter {
                node: self.node,
                index: i as u64,
                last: i + 1 == self.s.cfg.rewriters,
            });
        }
        Ok(builder.build())
    }
}

/// Records the order in which it sees plans, and renames the table of every scan.
struct Rewriter {
    node: usize,
    index: u64,
    last: bool,
}

impl WorkerPlanRewriteHandler for Rewriter {
    fn rewrite_worker_plan(&self, ev: WorkerPlanRewriteEvent) -> Result<WorkerPlanRewriteEventResponse, DataFusionError> {
        use datafusion::common::tree_node::{Transformed, TreeNode};
        let nth = world::with(|w| {
            let n = w.rewrites_done.entry(self.node).or_default();
            *n += 1;
            *n - 1
        });
        let fault = world::with(|w| {
            w.faults.iter().enumerate().find_map(|(i, f)| match f {
                Fault::Rewrite { node, nth: n, kind, panic } if *node == self.node && *n == nth => {
                    Some((i, kind.clone(), *panic))
                }
                _ => None,
            })
        });
        if let Some((index, kind, panic)) = fault {
            world::hit(index, "plan-rewrite-failure");
            if panic {
                panic!("dst-fault-{index}");
            }
            return Err(kind.build(&format!("dst-fault-{index}")));
        }
        let d = ev.session_config.get_extension::<DistributedTaskContext>();
        let index = self.index;
        let key = d.map(|d| format!("{}/{}", d.task_index, d.task_count)).unwrap_or_default();
        // Every rewriter appends its index to the scans' mark.
        let out = ev.plan.transform_up(|p| {
            let Some(scan) = p.downcast_ref::<SimScan>() else { return Ok(Transformed::no(p)) };
            let mut marked = scan.clone();
            marked.mark = format!("{}{}", scan.mark, index);
            Ok(Transformed::yes(Arc::new(marked) as Arc<dyn ExecutionPlan>))
        })?;
        world::with(|w| w.history.rewrites.push((self.node, nth, index, key)));
        let _ = self.last;
        Ok(WorkerPlanRewriteEventResponse::new(out.data))
    }
}

/// Starts (or restarts) a node.
pub fn start(s: &Arc<Scenario>, node: usize) {
    rt::revive(node);
    let incarnation = node_state(node).map(|n| n.incarnation + 1).unwrap_or(0);
    rt::skew(node, s.cluster.skew_ms.get(node).copied().unwrap_or(0) * 1_000_000);
    let (env, pool) = runtime(if node == 0 { None } else { s.cluster.memory });
    let channels = Arc::new(Mutex::new(HashMap::new()));
    let is_worker = worker_nodes(s).contains(&node);
    let worker = is_worker.then(|| {
        let mut worker = Worker::from_session_builder(Builder {
            s: s.clone(),
            node,
            incarnation,
            channels: channels.clone(),
        })
        .with_runtime_env(env.clone())
        .with_version(format!("v{node}"));
        if let Some(max) = s.cluster.max_message {
            worker = worker.with_max_message_size(max);
        }
        worker
    });
    if let Some(worker) = &worker {
        let incoming = tokio_stream::wrappers::UnboundedReceiverStream::new(net::listen(&host(node), node));
        let service = worker.clone().into_worker_server();
        rt::spawn_on(node, async move {
            let _ = Server::builder()
                .layer(tower::layer::layer_fn(move |inner| crate::reset::Resetting { inner, node }))
                .add_service(service)
                .serve_with_incoming(incoming.map(Ok::<_, std::io::Error>))
                .await;
        });
    }
    let state = NodeState { worker, runtime: env, pool, incarnation, channels };
    NODES.lock().unwrap().insert(node, Arc::new(state));
}

/// A node dies: its connections break (or fall silent), its tasks stop.
pub fn crash(s: &Arc<Scenario>, node: usize, silent: bool) {
    world::note(format!("crash of node {node} silent={silent}"));
    world::crashed(node);
    if silent {
        for other in 0..=s.cluster.workers {
            if other != node {
                net::stall(node, other, true);
            }
        }
    }
    net::down(node, silent);
    rt::kill(node);
    // Its state is gone with it; the simulator keeps the incarnation number.
    let old = NODES.lock().unwrap().get(&node).cloned();
    if let Some(old) = old {
        let (env, pool) = runtime(None);
        NODES.lock().unwrap().insert(
            node,
            Arc::new(NodeState {
                worker: None,
                runtime: env,
                pool,
                incarnation: old.incarnation,
                channels: Arc::new(Mutex::new(HashMap::new())),
            }),
        );
        std::mem::forget(old);
    }
}

// ----- clients -----

pub fn session(s: &Arc<Scenario>, q: &Query) -> Result<SessionContext, DataFusionError> {
    let c = &s.cfg;
    let node = node_state(0).expect("coordinator");
    let mut cfg = SessionConfig::new()
        .with_target_partitions(c.target_partitions)
        .with_batch_size(c.batch_size);
    {
        let o = cfg.options_mut();
        o.optimizer.prefer_hash_join = c.hash_join;
        o.optimizer.hash_join_single_partition_threshold = c.collect_bytes;
        o.optimizer.hash_join_single_partition_threshold_rows = c.collect_bytes / 16;
        o.execution.parquet.pushdown_filters = c.file_pushdown;
        o.optimizer.preserve_file_partitions = c.file_partitions;
        if c.file_split {
            o.optimizer.repartition_file_min_size = 0;
        }
    }
    let nodes = worker_nodes(s);
    let mut b = SessionStateBuilder::new()
        .with_default_features()
        .with_config(cfg)
        .with_runtime_env(node.runtime.clone());
    if let Some(seed) = c.hand
        && !c.stock
    {
        b = b.with_physical_optimizer_rule(Arc::new(crate::hand::HandPlaced { seed: seed ^ q.id, max: 5 }));
    }
    if !c.stock {
        b = b.with_distributed_planner();
    }
    b = b
        .with_distributed_worker_resolver(SimWorkers(nodes.iter().map(|n| url(*n)).collect()))
        .with_distributed_user_codec(SimCodec(0))
        .with_distributed_user_codec(SimCodec(1))
        // Two of each: every leaf is known to only one of them.
        .with_distributed_desired_task_count_handler(|e: DesiredTaskCountEvent<'_>| data::desired(e, 0))
        .with_distributed_desired_task_count_handler(|e: DesiredTaskCountEvent<'_>| data::desired(e, 1))
        .with_distributed_scale_up_leaf_node_handler(|e: ScaleUpLeafNodeEvent<'_>| data::scale_up(e, 0))
        .with_distributed_scale_up_leaf_node_handler(|e: ScaleUpLeafNodeEvent<'_>| data::scale_up(e, 1))
        .with_distributed_work_unit_feed::<SimScan, ChunkFeed, _>(|p: &SimScan| p.feed.as_ref().filter(|_| p.scan % 2 == 0))
        .with_distributed_work_unit_feed::<SimScan, ChunkFeed, _>(|p: &SimScan| p.feed.as_ref().filter(|_| p.scan % 2 == 1))
        .with_distributed_metrics_collection(c.metrics)?
        .with_distributed_broadcast_joins(c.broadcast)?
        .with_distributed_children_isolator_unions(c.isolator)?
        .with_distributed_shuffle_batch_size(c.shuffle_batch)?
        .with_distributed_max_tasks_per_stage(c.max_tasks)?
        .with_distributed_partial_reduce(c.partial_reduce)?
        .with_distributed_worker_connection_buffer_budget_bytes(c.buffer_budget)?
        .with_distributed_cardinality_effect_task_scale_factor(c.cardinality)?
        .with_distributed_dynamic_task_count(q.dynamic.unwrap_or(c.dynamic))?
        .with_distributed_dynamic_bytes_per_partition(c.dynamic_bytes)?
        .with_distributed_compression(match c.compression.as_str() {
            "lz4" => Some(CompressionType::LZ4_FRAME),
            "zstd" => Some(CompressionType::ZSTD),
            _ => None,
        })?;
    if c.file_bytes > 0 {
        b = b.with_distributed_file_scan_config_bytes_per_partition(c.file_bytes)?;
    }
    if c.headers {
        b = b.with_distributed_option_extension(SimOptions {
            token: q.token.clone(),
            number: q.id * 7 + 1,
            flag: q.id % 2 == 1,
            note: q.note.clone(),
        });
        let mut headers = http::HeaderMap::new();
        headers.insert("x-sim-token", q.token.parse().expect("header"));
        headers.insert("x-sim-query", q.id.to_string().parse().expect("header"));
        headers.insert("x-sim-note", http::HeaderValue::from_bytes(q.note.as_bytes()).expect("header"));
        for value in &q.multi {
            headers.append("x-sim-multi", http::HeaderValue::from_bytes(value.as_bytes()).expect("header"));
        }
        b = b.with_distributed_passthrough_headers(headers)?;
    }
    if s.cluster.resolver != Resolver::Default {
        b = b.with_distributed_channel_resolver(SimResolver {
            node: 0,
            per_call: s.cluster.resolver == Resolver::PerCall,
            channels: node.channels.clone(),
        });
    }
    if s.cluster.local
        && let Some(worker) = &node.worker
    {
        b = b.with_distributed_local_worker_context(worker.to_local_worker_context(url(0)));
    }
    let (qid, route) = (q.id, c.route.clone());
    let seed = s.seed;
    b = b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent| {
        let n = ev.task_count;
        let urls: Vec<Url> = match &route {
            Route::Default => return None,
            Route::Seeded(x) => {
                let mut rng = Rng::fork(seed ^ x, n as u64);
                (0..n).map(|_| url(rng.pick(&nodes))).collect()
            }
            Route::WrongCount(d) => {
                (0..(n as i64 + d).max(0) as usize).map(|i| url(nodes[i % nodes.len()])).collect()
            }
            Route::Error => {
                world::fired("route-error");
                return Some(Err(DataFusionError::Execution("dst-route-error".into())));
            }
            Route::Same(k) => (0..n).map(|_| url(nodes[k % nodes.len()])).collect(),
        };
        world::with(|w| {
            w.history.routes.push((qid, n, urls.iter().map(|u| u.to_string()).collect()))
        });
        Some(Ok(RouteTasksEventResponse::new(urls)))
    });
    let ctx = SessionContext::from(b.build());
    for t in &s.tables {
        if crate::files::is_file(t) {
            crate::files::register(&ctx, t, q.id)?;
            continue;
        }
        ctx.register_table(
            t.name.as_str(),
            Arc::new(SimTable { table: Arc::new(t.clone()), query: q.id }),
        )?;
    }
    Ok(ctx)
}

pub fn render(batch: &RecordBatch, out: &mut Vec<String>) -> Result<(), DataFusionError> {
    let opts = FormatOptions::default().with_null("∅");
    let cols = batch
        .columns()
        .iter()
        .map(|c| ArrayFormatter::try_new(c.as_ref(), &opts))
        .collect::<Result<Vec<_>, _>>()?;
    for row in 0..batch.num_rows() {
        let mut line = String::new();
        for (i, c) in cols.iter().enumerate() {
            if i > 0 {
                line.push('|');
            }
            line.push_str(&c.value(row).to_string());
        }
        out.push(line);
    }
    Ok(())
}

fn kinds(e: &DataFusionError) -> Vec<String> {
    fn name(e: &DataFusionError) -> &'static str {
        match e {
            DataFusionError::ArrowError(..) => "ArrowError",
            DataFusionError::ParquetError(..) => "ParquetError",
            DataFusionError::ObjectStore(..) => "ObjectStore",
            DataFusionError::IoError(..) => "IoError",
            DataFusionError::SQL(..) => "SQL",
            DataFusionError::NotImplemented(..) => "NotImplemented",
            DataFusionError::Internal(..) => "Internal",
            DataFusionError::Plan(..) => "Plan",
            DataFusionError::Configuration(..) => "Configuration",
            DataFusionError::SchemaError(..) => "SchemaError",
            DataFusionError::Execution(..) => "Execution",
            DataFusionError::ExecutionJoin(..) => "ExecutionJoin",
            DataFusionError::ResourcesExhausted(..) => "ResourcesExhausted",
            DataFusionError::External(..) => "External",
            DataFusionError::Context(..) => "Context",
            DataFusionError::Substrait(..) => "Substrait",
            DataFusionError::Diagnostic(..) => "Diagnostic",
            DataFusionError::Collection(..) => "Collection",
            DataFusionError::Shared(..) => "Shared",
            #[allow(unreachable_patterns)]
            _ => "Other",
        }
    }
    let mut out = vec![];
    let mut cur: &DataFusionError = e;
    loop {
        out.push(name(cur).to_string());
        cur = match cur {
            DataFusionError::Context(_, inner) => inner,
            DataFusionError::Shared(inner) => inner,
            DataFusionError::Diagnostic(_, inner) => inner,
            DataFusionError::External(inner) => match inner.downcast_ref::<DataFusionError>() {
                Some(inner) => inner,
                None => break,
            },
            _ => break,
        };
    }
    out
}

pub fn new_run(q: &Query, rep: usize) -> QueryRun {
    QueryRun {
        id: q.id,
        rep,
        outcome: Outcome::Pending,
        rows: vec![],
        schema_ok: true,
        started_ms: rt::now_ms(),
        first_ms: None,
        ended_ms: 0,
        ended_ns: 0,
        ended_step: 0,
        kinds: vec![],
        sigs: vec![],
        plan: String::new(),
        distributed: false,
        batches: 0,
        metrics: None,
    }
}

/// Whether the plan is explained at length.
pub fn verbose(q: &Query) -> bool {
    q.consume == Consume::Analyze && q.sql.len() % 3 == 0
}

/// Sums the output rows of the leaves of a plan with metrics.
fn leaf_rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
    fn walk(plan: &Arc<dyn ExecutionPlan>, sum: &mut Option<usize>) {
        let is_scan = plan.name() == "SimScan"
            || plan.name() == "DistributedLeafExec"
            || (plan.name() == "MetricsWrapperExec" && plan.children().is_empty());
        if is_scan
            && let Some(rows) = plan.metrics().and_then(|m| m.output_rows())
        {
            *sum = Some(sum.unwrap_or(0) + rows);
        }
        let mut below: Vec<_> = plan.children().into_iter().cloned().collect();
        if below.is_empty()
            && let Some(b) = plan.as_network_boundary()
            && let Some(inner) = b.input_stage().local_plan()
        {
            below.push(inner.clone());
        }
        for c in &below {
            walk(c, sum);
        }
    }
    let mut sum = None;
    walk(plan, &mut sum);
    sum
}

/// A leaf whose metrics contradict each other.
fn leaf_contradiction(plan: &Arc<dyn ExecutionPlan>) -> Option<String> {
    let mut below: Vec<_> = plan.children().into_iter().cloned().collect();
    if below.is_empty()
        && let Some(b) = plan.as_network_boundary()
        && let Some(inner) = b.input_stage().local_plan()
    {
        below.push(inner.clone());
    }
    if below.is_empty()
        && let Some(set) = plan.metrics()
        && (plan.name() == "SimScan"
            || set.iter().any(|m| m.labels().iter().any(|l| l.name() == "dst-label")))
        && let Some(bad) = crate::data::contradiction(&set)
    {
        return Some(bad);
    }
    below.iter().find_map(leaf_contradiction)
}

/// The rows every operator reports.
fn row_counts(plan: &Arc<dyn ExecutionPlan>) -> Vec<Option<usize>> {
    let mut out = vec![plan.metrics().and_then(|m| m.output_rows())];
    for c in plan.children() {
        out.extend(row_counts(c));
    }
    if plan.children().is_empty()
        && let Some(b) = plan.as_network_boundary()
        && let Some(inner) = b.input_stage().local_plan()
    {
        out.extend(row_counts(inner));
    }
    out
}

/// Operators whose numbers of rows contradict each other, in a plan that was read to its end.
fn inconsistent(plan: &Arc<dyn ExecutionPlan>, returned: usize) -> Option<String> {
    fn rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
        plan.metrics().and_then(|m| m.output_rows())
    }
    fn walk(plan: &Arc<dyn ExecutionPlan>) -> Option<String> {
        let name = plan.name().to_string();
        let mut below: Vec<_> = plan.children().into_iter().cloned().collect();
        if below.is_empty()
            && let Some(b) = plan.as_network_boundary()
            && let Some(inner) = b.input_stage().local_plan()
        {
            below.push(inner.clone());
        }
        if let [child] = &below[..]
            && let (Some(own), Some(input)) = (rows(plan), rows(child))
        {
            let ok = match name.as_str() {
                "ProjectionExec" | "CoalescePartitionsExec" | "SortPreservingMergeExec" | "SortExec" | "WindowAggExec"
                | "BoundedWindowAggExec" | "RepartitionExec" | "NetworkCoalesceExec" | "NetworkShuffleExec" => own == input,
                "FilterExec" => own <= input,
                _ => true,
            };
            if !ok {
                return Some(format!("{name} reports {own} rows, its input {} {input}", child.name()));
            }
        }
        below.iter().find_map(walk)
    }
    let head = match plan.name() {
        "DistributedExec" => plan.children()[0],
        _ => plan,
    };
    if let Some(n) = rows(head)
        && n != returned
    {
        return Some(format!("the root reports {n} rows, {returned} were returned"));
    }
    walk(plan)
}

/// Runs a query to its end; every step is recorded in the world.
pub async fn run_query(s: Arc<Scenario>, q: Query, slot: usize) {
    let set = |f: &dyn Fn(&mut QueryRun)| world::with(|w| f(&mut w.history.queries[slot]));
    let end = |outcome: Outcome, (kinds, sigs): (Vec<String>, Vec<String>)| {
        world::note(format!("query {} ends: {}", q.id, brief(&format!("{outcome:?}"))));
        world::with(|w| {
            let r = &mut w.history.queries[slot];
            r.outcome = outcome;
            r.kinds = kinds;
            r.sigs = sigs;
            r.ended_ms = rt::now_ms();
            r.ended_ns = tokio::sim::now_nanos();
            r.ended_step = rt::steps();
        })
    };
    set(&|r| r.started_ms = rt::now_ms());
    world::note(format!("query {} starts: {}", q.id, q.sql));
    let planned = async {
        let ctx = session(&s, &q)?;
        let sql = match q.consume {
            Consume::Analyze if verbose(&q) => format!("EXPLAIN ANALYZE VERBOSE {}", q.sql),
            Consume::Analyze => format!("EXPLAIN ANALYZE {}", q.sql),
            _ => q.sql.clone(),
        };
        let plan = ctx.sql(&sql).await?.create_physical_plan().await?;
        Ok::<_, DataFusionError>((ctx, plan))
    };
    let (ctx, plan) = match planned.await {
        Ok(x) => x,
        Err(e) => {
            end(Outcome::PlanError(e.to_string()), (kinds(&e), crate::errs::sigs(&e)));
            return;
        }
    };
    world::with(|w| w.executing.insert(q.id));
    let distributed = plan.downcast_ref::<DistributedExec>().is_some()
        || plan.children().iter().any(|c| c.downcast_ref::<DistributedExec>().is_some());
    let text = display_plan_ascii(plan.as_ref(), false);
    set(&|r| {
        r.distributed = distributed;
        r.plan = text.clone();
    });
    let stream = match execute_stream(plan.clone(), ctx.task_ctx()) {
        Ok(x) => x,
        Err(e) => {
            end(Outcome::Error(e.to_string()), (kinds(&e), crate::errs::sigs(&e)));
            return;
        }
    };
    let schema = plan.schema();
    let consume = q.consume.clone();
    if consume == Consume::DropUnpolled {
        drop(stream);
        end(Outcome::Dropped, (vec![], vec![]));
        return;
    }
    let drop_after = match consume {
        Consume::DropAtMs(ms) => Some(Duration::from_millis(ms)),
        _ => None,
    };
    let mut stream = stream;
    let mut count = 0usize;
    let mut batches = 0usize;
    let body = async {
        loop {
            match stream.next().await {
                None => break Ok(Outcome::Ok),
                Some(Err(e)) => break Err(e),
                Some(Ok(batch)) => {
                    batches += 1;
                    count += batch.num_rows();
                    let ok = batch.schema().fields().len() == schema.fields().len()
                        && batch
                            .schema()
                            .fields()
                            .iter()
                            .zip(schema.fields().iter())
                            .all(|(a, b)| a.name() == b.name() && a.data_type() == b.data_type());
                    let mut rows = vec![];
                    if let Err(e) = render(&batch, &mut rows) {
                        break Err(e);
                    }
                    world::with(|w| {
                        let r = &mut w.history.queries[slot];
                        if !ok {
                            r.schema_ok = false;
                        }
                        r.first_ms.get_or_insert(rt::now_ms());
                        r.batches = batches;
                        r.rows.append(&mut rows);
                    });
                    match consume {
                        Consume::Slow(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
                        Consume::PauseAfter { batches: b, ms } if b == batches => {
                            crate::drive::consumer_paused(slot, ms).await
                        }
                        Consume::DropAfterRows(n) if count >= n => break Ok(Outcome::Dropped),
                        _ => {}
                    }
                }
            }
        }
    };
    let result = match drop_after {
        Some(after) => match tokio::time::timeout(after, body).await {
            Ok(r) => r,
            Err(_) => Ok(Outcome::Dropped),
        },
        None => body.await,
    };
    drop(stream);
    match result {
        Ok(outcome) => {
            let done = outcome == Outcome::Ok;
            if consume == Consume::ThenMetrics && done {
                // The metrics belong to the query: it ends when they are there.
                let before = rt::now_ms();
                let returned = world::with(|w| w.history.queries[slot].rows.len());
                let res = rewrite_distributed_plan_with_metrics(
                    plan.clone(),
                    DistributedMetricsFormat::Aggregated,
                )
                .await;
                let waited_ms = rt::now_ms() - before;
                let by_task =
                    rewrite_distributed_plan_with_metrics(plan.clone(), DistributedMetricsFormat::PerTask).await;
                let seen = match res {
                    Ok(p) => MetricsSeen {
                        ok: true,
                        error: String::new(),
                        text: display_plan_ascii(p.as_ref(), true),
                        leaf_rows: leaf_rows(&p),
                        inconsistent: inconsistent(&p, returned).or_else(|| match &by_task {
                            Err(e) => Some(format!("metrics per task: {e}")),
                            Ok(t) => {
                                let (a, b) = (row_counts(&p), row_counts(t));
                                (a != b).then(|| format!("aggregated {a:?}, per task {b:?}"))
                            }
                        }),
                        leaf: leaf_contradiction(&p).or_else(|| by_task.as_ref().ok().and_then(leaf_contradiction)),
                        waited_ms,
                    },
                    Err(e) => MetricsSeen { ok: false, error: e.to_string(), waited_ms, ..Default::default() },
                };
                set(&|r| r.metrics = Some(seen.clone()));
            }
            end(outcome, (vec![], vec![]));
        }
        Err(e) => end(Outcome::Error(e.to_string()), (kinds(&e), crate::errs::sigs(&e))),
    }
    drop(plan);
    drop(ctx);
}

pub fn brief(s: &str) -> String {
    let mut out: String = s.chars().take(160).collect();
    if out.len() < s.len() {
        out.push('…');
    }
    out.replace('\n', " ")
}
