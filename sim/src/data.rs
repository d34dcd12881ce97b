//! Simulated tables: seeded data, and leaf plans that read it on whichever node they run.
use crate::prng::Rng;
use crate::rt;
use crate::world::{self, LeafEvent, LeafKind};
use async_trait::async_trait;
use datafusion::arrow::array::*;
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::datatypes::{DataType, Field, Fields, Int32Type, Schema, SchemaRef, TimeUnit};
use datafusion::arrow::error::ArrowError;
use datafusion::arrow::record_batch::{RecordBatch, RecordBatchOptions};
use datafusion::catalog::Session;
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, Statistics, internal_err};
use datafusion::datasource::{TableProvider, TableType};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::Expr;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{
    Count, ExecutionPlanMetricsSet, Gauge, MetricBuilder, MetricValue, MetricsSet, PruningMetrics, RatioMetrics, Time,
};
use datafusion_distributed::{AvgLatencyMetric, BytesCounterMetric, BytesMetricExt, LatencyMetricExt};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use futures::stream::BoxStream;
use prost::Message;
use serde::{Deserialize, Serialize};
use std::fmt::Formatter;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LeafStyle {
    /// A different plan for every task.
    Variants,
    /// The same plan in every task, which reads its share by its task index.
    TaskIndex,
    /// Chunks are streamed by the coordinator as work units.
    Feed,
    /// Files in an object store, read by DataFusion's own scans.
    Parquet,
    Csv,
    Json,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    pub name: String,
    pub seed: u64,
    pub chunks: usize,
    /// Mean rows of a chunk.
    pub rows: usize,
    /// Every chunk has exactly that many.
    #[serde(default)]
    pub exact: bool,
    /// Rows of a batch.
    pub batch: usize,
    /// Number of different keys.
    pub keys: u64,
    pub null_pct: u64,
    pub sorted: bool,
    pub partitions: usize,
    pub tasks: usize,
    /// The desired task count is a maximum.
    pub max_tasks: bool,
    pub leaf: LeafStyle,
    pub stats: bool,
    /// Longest pause before a batch, in simulated milliseconds.
    pub delay_ms: u64,
    /// Bytes of the long strings.
    pub wide: usize,
    /// Longest pause before a work unit.
    pub feed_delay_ms: u64,
    /// Units the provider goes on emitting after the one that ends a partition, whose reader stops
    /// reading its feed there.
    #[serde(default)]
    pub tail: usize,
    /// Number of files, in every directory.
    #[serde(default)]
    pub files: usize,
    /// The column `h` comes from the names of directories.
    #[serde(default)]
    pub hive: bool,
    /// Number of directories.
    #[serde(default)]
    pub homes: usize,
    /// Empty batches are emitted between the others.
    pub empties: bool,
}

fn pair() -> Fields {
    vec![
        Field::new("p", DataType::Int32, true),
        Field::new("q", DataType::LargeUtf8, true),
    ]
    .into()
}

pub fn schema() -> SchemaRef {
    let dict = DataType::Dictionary(Box::new(DataType::Int32), Box::new(DataType::Utf8));
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Int64, false),
        Field::new("k", DataType::Int64, true),
        Field::new("g", DataType::Utf8View, true),
        Field::new("d", dict, true),
        Field::new("v", DataType::Int64, true),
        Field::new("s", DataType::Utf8, true),
        Field::new("f", DataType::Float64, true),
        Field::new("b", DataType::Boolean, true),
        Field::new("l", DataType::new_list(DataType::Int64, true), true),
        Field::new("t", DataType::Timestamp(TimeUnit::Millisecond, Some("UTC".into())), true),
        Field::new("e", DataType::Decimal128(12, 2), true),
        Field::new("y", DataType::Binary, true),
        Field::new("z", DataType::Struct(pair()), true),
        Field::new("u", DataType::UInt32, false),
        Field::new("h", DataType::Int64, false),
    ]))
}

impl Table {
    /// The number of directories the chunks are spread over.
    pub fn homes(&self) -> usize {
        if self.homes == 0 { 3 } else { self.homes }
    }

    fn chunk_rows(&self, chunk: usize) -> usize {
        if self.exact {
            return self.rows;
        }
        let mut rng = Rng::fork(self.seed, 7000 + chunk as u64);
        if rng.pct(12) { 0 } else { rng.usize(self.rows / 2, self.rows + self.rows / 2) }
    }

    pub fn total_rows(&self) -> usize {
        (0..self.chunks).map(|c| self.chunk_rows(c)).sum()
    }

    /// The batches of a chunk.
    pub fn chunk(&self, chunk: usize) -> Vec<RecordBatch> {
        let mut rng = Rng::fork(self.seed, chunk as u64);
        let rows = self.chunk_rows(chunk);
        let base: usize = (0..chunk).map(|c| self.chunk_rows(c)).sum();
        let mut out = vec![];
        let mut at = 0;
        while at < rows {
            if self.empties && rng.pct(20) {
                out.push(RecordBatch::new_empty(schema()));
            }
            let n = self.batch.max(1).min(rows - at);
            out.push(self.batch(&mut rng, base + at, n, chunk % self.homes()));
            at += n;
        }
        out
    }

    fn batch(&self, rng: &mut Rng, base: usize, n: usize, home: usize) -> RecordBatch {
        let mut id = Int64Builder::new();
        let mut k = Int64Builder::new();
        let mut g = StringViewBuilder::new();
        let mut d = StringDictionaryBuilder::<Int32Type>::new();
        let mut v = Int64Builder::new();
        let mut s = StringBuilder::new();
        let mut f = Float64Builder::new();
        let mut b = BooleanBuilder::new();
        let mut l = ListBuilder::new(Int64Builder::new());
        for i in 0..n {
            id.append_value((base + i) as i64);
            let null = |rng: &mut Rng| rng.pct(self.null_pct);
            let key = rng.below(self.keys.max(1)) as i64;
            if null(rng) { k.append_null() } else { k.append_value(key) };
            let gi = rng.below(5);
            if null(rng) {
                g.append_null()
            } else {
                g.append_value(match gi {
                    0 => "alpha".to_string(),
                    1 => "beta".to_string(),
                    2 => "a group name that does not fit in a view".to_string(),
                    3 => String::new(),
                    _ => format!("long group number {} of the table", key % 7),
                })
            };
            let di = rng.below(6);
            if null(rng) { d.append_null() } else { d.append_value(format!("dict-{di}")) };
            let vi = rng.below(2000) as i64 - 1000;
            if null(rng) { v.append_null() } else { v.append_value(vi) };
            let len = rng.usize(0, self.wide.max(8));
            if null(rng) {
                s.append_null()
            } else {
                s.append_value(format!("{:x}", rng.next()).repeat(len / 16 + 1))
            };
            f.append_value(vi as f64);
            if null(rng) { b.append_null() } else { b.append_value(rng.pct(50)) };
            if null(rng) {
                l.append_null()
            } else {
                for j in 0..rng.below(4) {
                    l.values().append_value(j as i64 * vi);
                }
                l.append(true);
            }
        }
        // A generator of its own: the columns above stay what they were.
        let mut rng = Rng::fork(self.seed, 500_000 + base as u64);
        let mut ts = TimestampMillisecondBuilder::new().with_timezone("UTC");
        let mut e = Decimal128Builder::new().with_data_type(DataType::Decimal128(12, 2));
        let mut y = BinaryBuilder::new();
        let mut p = Int32Builder::new();
        let mut q = LargeStringBuilder::new();
        let mut u = UInt32Builder::new();
        let mut valid = vec![];
        for _ in 0..n {
            let null = |rng: &mut Rng| rng.pct(self.null_pct);
            let day = rng.below(20) as i64 * 86_400_000 + 1_600_000_000_000;
            if null(&mut rng) { ts.append_null() } else { ts.append_value(day) };
            let cents = rng.below(4_000_000) as i128 - 2_000_000;
            if null(&mut rng) { e.append_null() } else { e.append_value(cents) };
            let bytes = rng.next().to_le_bytes();
            let len = rng.usize(0, 8);
            if null(&mut rng) { y.append_null() } else { y.append_value(&bytes[..len]) };
            if null(&mut rng) { p.append_null() } else { p.append_value(len as i32) };
            if null(&mut rng) { q.append_null() } else { q.append_value(format!("pair {len}")) };
            valid.push(!null(&mut rng));
            u.append_value(rng.below(u32::MAX as u64) as u32);
        }
        let z = StructArray::new(
            pair(),
            vec![Arc::new(p.finish()), Arc::new(q.finish())],
            Some(valid.into()),
        );
        RecordBatch::try_new(
            schema(),
            vec![
                Arc::new(id.finish()),
                Arc::new(k.finish()),
                Arc::new(g.finish()),
                Arc::new(d.finish()),
                Arc::new(v.finish()),
                Arc::new(s.finish()),
                Arc::new(f.finish()),
                Arc::new(b.finish()),
                Arc::new(l.finish()),
                Arc::new(ts.finish()),
                Arc::new(e.finish()),
                Arc::new(y.finish()),
                Arc::new(z),
                Arc::new(u.finish()),
                Arc::new(Int64Array::from(vec![home as i64; n])),
            ],
        )
        .expect("batch")
    }
}

fn project(batch: &RecordBatch, schema: &SchemaRef, projection: &Option<Vec<usize>>) -> RecordBatch {
    let columns = match projection {
        Some(p) => p.iter().map(|i| batch.column(*i).clone()).collect(),
        None => batch.columns().to_vec(),
    };
    RecordBatch::try_new_with_options(
        schema.clone(),
        columns,
        &RecordBatchOptions::new().with_row_count(Some(batch.num_rows())),
    )
    .expect("projection")
}

/// A failure of a leaf.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LeafFailure {
    Error(ErrKind),
    Panic,
    /// Simulated milliseconds during which it produces nothing.
    Stall(u64),
    /// Errors when it is executed, before there is a stream.
    AtExecute(ErrKind),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ErrKind {
    Execution,
    Resources,
    Internal,
    NotImplemented,
    Plan,
    Configuration,
    ArrowDivideByZero,
    ArrowCompute,
    External,
    Io,
    Context,
    Shared,
    Collection,
    /// One of the errors in `errs`.
    Nth(u16),
}

impl ErrKind {
    pub const ALL: &'static [ErrKind] = &[
        ErrKind::Execution,
        ErrKind::Resources,
        ErrKind::Internal,
        ErrKind::NotImplemented,
        ErrKind::Plan,
        ErrKind::Configuration,
        ErrKind::ArrowDivideByZero,
        ErrKind::ArrowCompute,
        ErrKind::External,
        ErrKind::Io,
        ErrKind::Context,
        ErrKind::Shared,
        ErrKind::Collection,
    ];
    pub fn build(&self, marker: &str) -> DataFusionError {
        let m = marker.to_string();
        match self {
            ErrKind::Execution => DataFusionError::Execution(m),
            ErrKind::Resources => DataFusionError::ResourcesExhausted(m),
            ErrKind::Internal => DataFusionError::Internal(m),
            ErrKind::NotImplemented => DataFusionError::NotImplemented(m),
            ErrKind::Plan => DataFusionError::Plan(m),
            ErrKind::Configuration => DataFusionError::Configuration(m),
            ErrKind::ArrowDivideByZero => {
                DataFusionError::ArrowError(Box::new(ArrowError::DivideByZero), None).context(m)
            }
            ErrKind::ArrowCompute => {
                DataFusionError::ArrowError(Box::new(ArrowError::ComputeError(m)), None)
            }
            ErrKind::External => DataFusionError::External(m.into()),
            ErrKind::Io => DataFusionError::IoError(std::io::Error::new(std::io::ErrorKind::Other, m)),
            ErrKind::Context => DataFusionError::Execution("inner".into()).context(m),
            ErrKind::Shared => DataFusionError::Shared(Arc::new(DataFusionError::Execution(m))),
            ErrKind::Collection => DataFusionError::Collection(vec![
                DataFusionError::Execution(m),
                DataFusionError::Plan("second".into()),
            ]),
            ErrKind::Nth(n) => crate::errs::build(*n, marker),
        }
    }
}

/// Reads chunks of a simulated table.
#[derive(Debug, Clone)]
pub struct SimScan {
    pub table: Arc<Table>,
    pub query: u64,
    pub scan: u64,
    /// Chunks of every partition.
    pub groups: Vec<Vec<usize>>,
    pub projection: Option<Vec<usize>>,
    /// Every task reads its share of every group.
    pub by_task: bool,
    pub feed: Option<WorkUnitFeed<ChunkFeed>>,
    /// Marks left by the plan rewriters of the node.
    pub mark: String,
    props: Arc<PlanProperties>,
    metrics: ExecutionPlanMetricsSet,
}

impl SimScan {
    pub fn new(
        table: Arc<Table>,
        query: u64,
        scan: u64,
        groups: Vec<Vec<usize>>,
        projection: Option<Vec<usize>>,
        by_task: bool,
        feed: Option<WorkUnitFeed<ChunkFeed>>,
    ) -> Self {
        let schema = match &projection {
            Some(p) => Arc::new(schema().project(p).expect("projection")),
            None => schema(),
        };
        let mut eq = EquivalenceProperties::new(schema.clone());
        if table.sorted
            && let Ok(at) = schema.index_of("id")
        {
            eq.add_ordering([PhysicalSortExpr::new(
                Arc::new(Column::new("id", at)),
                SortOptions::default(),
            )]);
        }
        let props = PlanProperties::new(
            eq,
            Partitioning::UnknownPartitioning(groups.len()),
            EmissionType::Incremental,
            Boundedness::Bounded,
        );
        SimScan {
            table,
            query,
            scan,
            groups,
            projection,
            by_task,
            feed,
            mark: String::new(),
            props: Arc::new(props),
            metrics: ExecutionPlanMetricsSet::new(),
        }
    }

    /// The chunks of a table in `n` groups.
    pub fn split(chunks: impl Iterator<Item = usize>, n: usize) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]; n.max(1)];
        for (i, c) in chunks.enumerate() {
            out[i % n.max(1)].push(c);
        }
        out
    }
}

impl DisplayAs for SimScan {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "SimScan: table={}, groups={:?}, by_task={}, feed={}", self.table.name, self.groups, self.by_task, self.feed.is_some())
    }
}

struct Cleanup {
    ev: LeafEvent,
    done: bool,
}
impl Cleanup {
    fn finish(&mut self) {
        self.done = true;
    }
}
impl Drop for Cleanup {
    fn drop(&mut self) {
        let mut ev = self.ev.clone();
        ev.kind = if self.done { LeafKind::Closed } else { LeafKind::Dropped };
        ev.node = rt::node();
        world::leaf(ev);
    }
}

/// The stream of one chunk, with its pauses and failures.
fn chunk_stream(
    table: Arc<Table>,
    query: u64,
    scan: u64,
    chunk: usize,
    schema: SchemaRef,
    projection: Option<Vec<usize>>,
) -> BoxStream<'static, Result<RecordBatch>> {
    let ev = LeafEvent {
        stream: world::next_stream(),
        at_ns: 0,
        step: 0,
        node: 0,
        query,
        scan,
        table: table.name.clone(),
        chunk,
        rows: 0,
        kind: LeafKind::Start,
    };
    let batches = table.chunk(chunk);
    let faults = world::leaf_faults(&table.name, chunk, query);
    let delay = table.delay_ms;
    let rng = Rng::fork(table.seed, 90_000 + chunk as u64 + query * 1000);
    struct St {
        it: std::vec::IntoIter<RecordBatch>,
        sent: usize,
        rng: Rng,
        faults: Vec<world::LeafFault>,
        guard: Cleanup,
        started: bool,
    }
    let st = St {
        it: batches.into_iter(),
        sent: 0,
        rng,
        faults,
        guard: Cleanup { ev: ev.clone(), done: false },
        started: false,
    };
    futures::stream::try_unfold(st, move |mut st| {
        let schema = schema.clone();
        let projection = projection.clone();
        let ev = ev.clone();
        async move {
            if !st.started {
                st.started = true;
                world::leaf(LeafEvent { node: rt::node(), ..ev.clone() });
            }
            let mut i = 0;
            while i < st.faults.len() {
                if st.faults[i].after == st.sent {
                    let fault = st.faults.remove(i);
                    world::hit(fault.index, &format!("leaf-{}", fault.name()));
                    let marker = fault.marker();
                    match fault.failure {
                        LeafFailure::Error(kind) => return Err(kind.build(&marker)),
                        LeafFailure::Panic => panic!("{marker}"),
                        LeafFailure::Stall(ms) => {
                            tokio::time::sleep(Duration::from_millis(ms)).await
                        }
                        LeafFailure::AtExecute(_) => {}
                    }
                } else {
                    i += 1;
                }
            }
            if delay > 0 && st.rng.pct(50) {
                let ms = st.rng.range(0, delay);
                if ms == 0 {
                    tokio::task::yield_now().await;
                } else {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
            }
            match st.it.next() {
                Some(batch) => {
                    st.sent += 1;
                    world::leaf(LeafEvent {
                        node: rt::node(),
                        kind: LeafKind::Batch,
                        rows: batch.num_rows(),
                        ..ev.clone()
                    });
                    Ok(Some((project(&batch, &schema, &projection), st)))
                }
                None => {
                    st.guard.finish();
                    world::leaf(LeafEvent { node: rt::node(), kind: LeafKind::End, ..ev.clone() });
                    Ok(None)
                }
            }
        }
    })
    .boxed()
}

impl ExecutionPlan for SimScan {
    fn name(&self) -> &str {
        "SimScan"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(
        &self,
        _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>,
    ) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(
        self: Arc<Self>,
        _: Vec<Arc<dyn ExecutionPlan>>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> {
        let mut fresh = Arc::unwrap_or_clone(self);
        fresh.metrics = ExecutionPlanMetricsSet::new();
        Ok(Arc::new(fresh))
    }
    fn execute(
        &self,
        partition: usize,
        ctx: Arc<TaskContext>,
    ) -> Result<SendableRecordBatchStream> {
        world::executed(self.query, self.scan, partition, &self.mark, &ctx);
        for fault in world::leaf_faults(&self.table.name, usize::MAX, self.query) {
            if let LeafFailure::AtExecute(kind) = &fault.failure
                && fault.after == partition
            {
                world::hit(fault.index, "leaf-at-execute");
                return Err(kind.build(&fault.marker()));
            }
        }
        let schema = self.schema();
        let (table, query, scan) = (self.table.clone(), self.query, self.scan);
        let projection = self.projection.clone();
        let rows = MetricBuilder::new(&self.metrics).output_rows(partition);
        let extra = ExtraMetrics::new(&self.metrics, partition);
        let open = move |chunk: usize, schema: SchemaRef| {
            chunk_stream(table.clone(), query, scan, chunk, schema, projection.clone())
        };
        let stream: BoxStream<'static, Result<RecordBatch>> = if let Some(feed) = &self.feed {
            let units = feed.feed(partition, ctx)?;
            let schema = schema.clone();
            futures::stream::unfold(units, |mut units| async move {
                match units.next().await? {
                    // Drops the feed, which might still hold further units.
                    Ok(unit) if unit.last => None,
                    unit => Some((unit, units)),
                }
            })
                .map(move |unit| -> BoxStream<'static, Result<RecordBatch>> {
                    match unit {
                        Ok(unit) => {
                            world::unit_received(query, scan, partition, unit.chunk as usize);
                            open(unit.chunk as usize, schema.clone())
                        }
                        Err(e) => futures::stream::once(async { Err(e) }).boxed(),
                    }
                })
                .flatten()
                .boxed()
        } else {
            let mut chunks = self.groups[partition].clone();
            if self.by_task {
                let task = DistributedTaskContext::from_ctx(&ctx);
                chunks = chunks
                    .into_iter()
                    .enumerate()
                    .filter(|(i, _)| i % task.task_count == task.task_index)
                    .map(|(_, c)| c)
                    .collect();
            }
            let schema = schema.clone();
            futures::stream::iter(chunks).map(move |c| open(c, schema.clone())).flatten().boxed()
        };
        let stream = stream.inspect(move |b| {
            if let Ok(b) = b {
                rows.add(b.num_rows());
                extra.add(b.num_rows());
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, stream)))
    }
    fn partition_statistics(&self, partition: Option<usize>) -> Result<Arc<Statistics>> {
        let mut stats = Statistics::new_unknown(&self.schema());
        if self.table.stats {
            let rows = match partition {
                None => self.table.total_rows(),
                Some(_) => self.table.total_rows() / self.groups.len().max(1),
            };
            stats.num_rows = Precision::Inexact(rows);
            stats.total_byte_size = Precision::Inexact(rows * (64 + self.table.wide));
        }
        Ok(Arc::new(stats))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(self.metrics.clone_inner())
    }
}

/// Metrics of all kinds, each a fixed multiple of the rows that were read.
struct ExtraMetrics {
    counts: Vec<(usize, Count)>,
    gauges: Vec<(usize, Gauge)>,
    times: Vec<(usize, Time)>,
    pruning: PruningMetrics,
    ratio: RatioMetrics,
    bytes: BytesCounterMetric,
    sum: AvgLatencyMetric,
}

impl ExtraMetrics {
    fn new(set: &ExecutionPlanMetricsSet, partition: usize) -> Self {
        let b = || MetricBuilder::new(set).with_new_label("dst-label", format!("p{partition}"));
        Self {
            counts: vec![
                (2, b().spill_count(partition)),
                (3, b().spilled_bytes(partition)),
                (4, b().spilled_rows(partition)),
                (5, b().output_bytes(partition)),
                (6, b().output_batches(partition)),
                (7, b().counter("dst_counter", partition)),
                (8, b().global_counter("dst_global")),
            ],
            gauges: vec![
                (9, b().mem_used(partition)),
                (10, b().gauge("dst_gauge", partition)),
                (11, b().peak_memory_usage("dst_peak", partition)),
            ],
            times: vec![(12_000, b().elapsed_compute(partition)), (13_000, b().subset_time("dst_time", partition))],
            pruning: b().pruning_metrics("dst_pruning", partition),
            ratio: b().ratio_metrics("dst_ratio", partition),
            bytes: b().bytes_counter("dst_bytes"),
            sum: b().avg_latency("dst_avg"),
        }
    }
    fn add(&self, rows: usize) {
        for (by, c) in &self.counts {
            c.add(by * rows);
        }
        for (by, g) in &self.gauges {
            g.add(by * rows);
        }
        if rows > 0 {
            for (by, t) in &self.times {
                t.add_duration(std::time::Duration::from_nanos((by * rows) as u64));
            }
        }
        self.pruning.add_pruned(14 * rows);
        self.pruning.add_matched(15 * rows);
        self.ratio.add_part(16 * rows);
        self.ratio.add_total(17 * rows);
        self.bytes.add_bytes(18 * rows);
        for _ in 0..rows {
            self.sum.add_nanos(19);
        }
    }
}

/// What the metrics of a leaf say about its rows, where they contradict each other.
pub fn contradiction(set: &MetricsSet) -> Option<String> {
    let mut sums: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut add = |name: &str, by: usize, value: usize| {
        let e = sums.entry(name.to_string()).or_insert((by, 0));
        e.1 += value;
    };
    for m in set.iter() {
        let labelled = m.labels().iter().any(|l| l.name() == "dst-label");
        match m.value() {
            MetricValue::OutputRows(c) => add("rows", 1, c.value()),
            _ if !labelled => {}
            MetricValue::SpillCount(c) => add("spill_count", 2, c.value()),
            MetricValue::SpilledBytes(c) => add("spilled_bytes", 3, c.value()),
            MetricValue::SpilledRows(c) => add("spilled_rows", 4, c.value()),
            MetricValue::OutputBytes(c) => add("output_bytes", 5, c.value()),
            MetricValue::OutputBatches(c) => add("output_batches", 6, c.value()),
            MetricValue::Count { name, count } if name == "dst_counter" => add("counter", 7, count.value()),
            MetricValue::Count { name, count } if name == "dst_global" => add("global", 8, count.value()),
            MetricValue::CurrentMemoryUsage(g) => add("memory", 9, g.value()),
            MetricValue::Gauge { name, gauge } if name == "dst_gauge" => add("gauge", 10, gauge.value()),
            MetricValue::PeakMemoryUsage { name, gauge } if name == "dst_peak" => add("peak", 11, gauge.value()),
            MetricValue::ElapsedCompute(t) => add("elapsed", 12_000, t.value()),
            MetricValue::Time { name, time } if name == "dst_time" => add("time", 13_000, time.value()),
            MetricValue::PruningMetrics { name, pruning_metrics: p } if name == "dst_pruning" => {
                add("pruned", 14, p.pruned());
                add("matched", 15, p.matched());
            }
            MetricValue::Ratio { name, ratio_metrics: r } if name == "dst_ratio" => {
                add("part", 16, r.part());
                add("total", 17, r.total());
            }
            MetricValue::Custom { name, value } if name == "dst_bytes" => {
                add("bytes", 18, value.as_any().downcast_ref::<BytesCounterMetric>().map_or(0, |b| b.value()))
            }
            MetricValue::Custom { name, value } if name == "dst_avg" => {
                add("avg", 19, value.as_any().downcast_ref::<AvgLatencyMetric>().map_or(0, |b| b.nanos_sum()))
            }
            _ => {}
        }
    }
    let rows = sums.get("rows").map(|(_, v)| *v)?;
    if rows > 0 && sums.len() != 19 {
        return Some(format!("{rows} rows, but only metrics {:?}", sums.keys()));
    }
    // A duration grows by a nanosecond when it is copied at zero.
    let off = |by: usize, v: usize| match by {
        12_000 | 13_000 => v < by * rows || v > by * rows + 2_000,
        _ => v != by * rows,
    };
    let bad: Vec<_> = sums.iter().filter(|(_, (by, v))| off(*by, *v)).collect();
    (!bad.is_empty()).then(|| format!("{rows} rows, but metrics (multiple, value) {bad:?}"))
}

// ----- work unit feed -----

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct ChunkUnit {
    #[prost(uint64, tag = "1")]
    pub chunk: u64,
    /// The reader does not need anything beyond this unit.
    #[prost(bool, tag = "2")]
    pub last: bool,
}

#[derive(Debug, Clone)]
pub struct ChunkFeed {
    pub table: Arc<Table>,
    pub query: u64,
    pub scan: u64,
    pub partitions: usize,
}

impl WorkUnitFeedProvider for ChunkFeed {
    type WorkUnit = ChunkUnit;

    fn feed(
        &self,
        partition: usize,
        ctx: Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<ChunkUnit>>> {
        let fan = DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks;
        let total = fan * self.partitions;
        assert!(total > 0, "a feed for no task");
        let chunks: Vec<usize> =
            (0..self.table.chunks).filter(|c| c % total.max(1) == partition).collect();
        let (query, scan) = (self.query, self.scan);
        let mut rng = Rng::fork(self.table.seed, 120_000 + partition as u64);
        let delay = self.table.feed_delay_ms;
        let tail = match self.table.tail {
            0 => 0,
            n => 1 + rng.range(0, n as u64) as usize,
        };
        let chunks: Vec<Option<usize>> =
            chunks.into_iter().map(Some).chain(std::iter::repeat_n(None, tail)).collect();
        let name = self.table.name.clone();
        world::feed_opened(query, scan, partition, total);
        let st = (chunks.into_iter(), rng, 0usize);
        Ok(futures::stream::try_unfold(st, move |(mut it, mut rng, n)| {
            let name = name.clone();
            async move {
                let next = it.next();
                for fault in world::feed_faults(&name, partition, query) {
                    if fault.after == n && next != Some(None) {
                        world::hit(fault.index, &format!("feed-{}", fault.name()));
                        match &fault.failure {
                            LeafFailure::Error(kind) => return Err(kind.build(&fault.marker())),
                            LeafFailure::Panic => panic!("{}", fault.marker()),
                            LeafFailure::Stall(ms) => {
                                tokio::time::sleep(Duration::from_millis(*ms)).await
                            }
                            LeafFailure::AtExecute(_) => {}
                        }
                    }
                }
                if delay > 0 && rng.pct(60) {
                    // Partitions whose reader stops early tick in unison, so that units for them
                    // travel together with units for others.
                    let ms = if tail > 0 { delay } else { rng.range(0, delay) };
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
                match next {
                    Some(Some(c)) => {
                        world::unit_sent(query, scan, partition, c);
                        Ok(Some((ChunkUnit { chunk: c as u64, last: false }, (it, rng, n + 1))))
                    }
                    Some(None) => {
                        Ok(Some((ChunkUnit { chunk: u64::MAX, last: true }, (it, rng, n + 1))))
                    }
                    None => Ok(None),
                }
            }
        })
        .boxed())
    }
}

// ----- table provider -----

#[derive(Debug)]
pub struct SimTable {
    pub table: Arc<Table>,
    pub query: u64,
}

#[async_trait]
impl TableProvider for SimTable {
    fn schema(&self) -> SchemaRef {
        schema()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        _: &dyn Session,
        projection: Option<&Vec<usize>>,
        _filters: &[Expr],
        _limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let t = &self.table;
        let scan = world::next_scan();
        let groups = SimScan::split(0..t.chunks, t.partitions);
        let feed = (t.leaf == LeafStyle::Feed).then(|| {
            WorkUnitFeed::new(ChunkFeed {
                table: t.clone(),
                query: self.query,
                scan,
                partitions: t.partitions,
            })
        });
        Ok(Arc::new(SimScan::new(
            t.clone(),
            self.query,
            scan,
            groups,
            projection.cloned(),
            t.leaf == LeafStyle::TaskIndex,
            feed,
        )))
    }
}

pub fn desired(ev: DesiredTaskCountEvent, half: u64) -> Option<Result<DesiredTaskCountEventResponse>> {
    let scan = ev.plan.downcast_ref::<SimScan>().filter(|s| s.scan % 2 == half)?;
    Some(Ok(if scan.table.max_tasks {
        DesiredTaskCountEventResponse::maximum(scan.table.tasks)
    } else {
        DesiredTaskCountEventResponse::desired(scan.table.tasks)
    }))
}

pub fn scale_up(ev: ScaleUpLeafNodeEvent, half: u64) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let scan = ev.plan.downcast_ref::<SimScan>().filter(|s| s.scan % 2 == half)?;
    if scan.table.leaf != LeafStyle::Variants {
        return None;
    }
    let tasks = ev.task_count;
    let variants = (0..tasks).map(|task| {
        let chunks = (0..scan.table.chunks).filter(move |c| c % tasks == task);
        Arc::new(SimScan::new(
            scan.table.clone(),
            scan.query,
            scan.scan,
            SimScan::split(chunks, scan.table.partitions),
            scan.projection.clone(),
            false,
            None,
        )) as Arc<dyn ExecutionPlan>
    });
    Some(
        DistributedLeafExec::try_new(ev.plan.clone(), variants.collect::<Vec<_>>())
            .map(|leaf| ScaleUpLeafNodeEventResponse::new(Arc::new(leaf))),
    )
}

// ----- codec -----

/// Knows every other scan.
#[derive(Debug)]
pub struct SimCodec(pub u64);

#[derive(Serialize, Deserialize)]
struct ScanWire {
    table: Table,
    query: u64,
    scan: u64,
    groups: Vec<Vec<usize>>,
    projection: Option<Vec<usize>>,
    by_task: bool,
    feed: Option<Vec<u8>>,
}

impl PhysicalExtensionCodec for SimCodec {
    fn try_decode(
        &self,
        buf: &[u8],
        _: &[Arc<dyn ExecutionPlan>],
        _: &TaskContext,
        _: &dyn PhysicalProtoConverterExtension,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let w: ScanWire =
            serde_json::from_slice(buf).map_err(|e| DataFusionError::External(Box::new(e)))?;
        if w.scan % 2 != self.0 {
            return internal_err!("scan {} is for the other codec", w.scan);
        }
        if let Some(e) = world::codec_fault(w.query) {
            return Err(e);
        }
        let feed = match &w.feed {
            Some(bytes) => {
                let proto = WorkUnitFeedProto::decode(bytes.as_slice())
                    .map_err(|e| DataFusionError::External(Box::new(e)))?;
                Some(WorkUnitFeed::<ChunkFeed>::from_proto(proto)?)
            }
            None => None,
        };
        Ok(Arc::new(SimScan::new(
            Arc::new(w.table),
            w.query,
            w.scan,
            w.groups,
            w.projection,
            w.by_task,
            feed,
        )))
    }
    fn try_encode(
        &self,
        node: Arc<dyn ExecutionPlan>,
        buf: &mut Vec<u8>,
        _: &dyn PhysicalProtoConverterExtension,
    ) -> Result<()> {
        let Some(scan) = node.downcast_ref::<SimScan>() else {
            return internal_err!("not a SimScan: {}", node.name());
        };
        if scan.scan % 2 != self.0 {
            return internal_err!("scan {} is for the other codec", scan.scan);
        }
        let w = ScanWire {
            table: scan.table.as_ref().clone(),
            query: scan.query,
            scan: scan.scan,
            groups: scan.groups.clone(),
            projection: scan.projection.clone(),
            by_task: scan.by_task,
            feed: scan.feed.as_ref().map(|f| f.to_proto().encode_to_vec()),
        };
        serde_json::to_writer(buf, &w).map_err(|e| DataFusionError::External(Box::new(e)))
    }
}
