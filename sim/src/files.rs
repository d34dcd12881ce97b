//! Tables whose rows lie in files of a simulated object store, read by DataFusion's own scans.
use crate::data::{LeafFailure, LeafStyle, Table, schema};
use crate::prng::Rng;
use crate::rt;
use crate::world::{self, LeafEvent, LeafKind};
use async_trait::async_trait;
use bytes::Bytes;
use datafusion::arrow::array::*;
use datafusion::arrow::compute::cast;
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::Result;
use datafusion::datasource::TableProvider;
use datafusion::datasource::file_format::FileFormat;
use datafusion::datasource::file_format::csv::CsvFormat;
use datafusion::datasource::file_format::json::JsonFormat;
use datafusion::datasource::file_format::parquet::ParquetFormat;
use datafusion::datasource::listing::{ListingOptions, ListingTable, ListingTableConfig, ListingTableUrl};
use datafusion::parquet::arrow::ArrowWriter;
use datafusion::parquet::file::properties::WriterProperties;
use datafusion::prelude::{SessionContext, col};
use futures::StreamExt;
use futures::stream::BoxStream;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::*;
use std::collections::BTreeMap;
use std::ops::Range;
use std::sync::Arc;
use std::time::Duration;

pub const URL: &str = "sim://files";

pub fn is_file(t: &Table) -> bool {
    matches!(t.leaf, LeafStyle::Parquet | LeafStyle::Csv | LeafStyle::Json)
}

/// The columns of the files of a table, without the one that comes from their paths.
fn file_schema(t: &Table) -> SchemaRef {
    let plain = |f: &Field| match f.data_type() {
        DataType::Dictionary(..) if t.leaf != LeafStyle::Parquet => {
            Field::new(f.name(), DataType::Utf8, f.is_nullable())
        }
        _ => f.clone(),
    };
    let without: &[&str] = match t.leaf {
        LeafStyle::Csv => &["l", "y", "z"],
        LeafStyle::Json => &["y"],
        _ => &[],
    };
    Arc::new(Schema::new(
        schema()
            .fields()
            .iter()
            .filter(|f| !without.contains(&f.name().as_str()) && !(t.hive && f.name() == "h"))
            .map(|f| plain(f))
            .collect::<Vec<_>>(),
    ))
}

/// Paths of the files of a table for a query, with the chunks in them.
fn layout(t: &Table) -> BTreeMap<String, Vec<usize>> {
    let ext = match t.leaf {
        LeafStyle::Csv => "csv",
        LeafStyle::Json => "json",
        _ => "parquet",
    };
    let files = t.files.max(1);
    let mut out: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for c in 0..t.chunks {
        let path = if t.hive {
            format!("h={}/f{:02}.{ext}", c % t.homes(), (c / t.homes()) % files)
        } else {
            format!("f{:02}.{ext}", c % files)
        };
        out.entry(path).or_default().push(c);
    }
    out
}

fn content(t: &Table, chunks: &[usize]) -> Result<Bytes> {
    let schema = file_schema(t);
    let batches = chunks
        .iter()
        .flat_map(|c| t.chunk(*c))
        .map(|b| {
            let columns = schema
                .fields()
                .iter()
                .map(|f| Ok(cast(b.column_by_name(f.name()).expect("column"), f.data_type())?))
                .collect::<Result<Vec<_>>>()?;
            Ok(RecordBatch::try_new(schema.clone(), columns)?)
        })
        .collect::<Result<Vec<_>>>()?;
    let mut out = vec![];
    match t.leaf {
        LeafStyle::Csv => {
            let mut w = arrow::csv::WriterBuilder::new().with_header(true).build(&mut out);
            if batches.is_empty() {
                w.write(&RecordBatch::new_empty(schema))?;
            }
            for b in &batches {
                w.write(b)?;
            }
        }
        LeafStyle::Json => {
            let mut w = arrow::json::LineDelimitedWriter::new(&mut out);
            for b in &batches {
                w.write(b)?;
            }
            w.finish()?;
        }
        _ => {
            let props = WriterProperties::builder()
                .set_max_row_group_row_count(Some(t.batch.clamp(4, 64) * 2))
                .set_data_page_row_count_limit(t.batch.clamp(4, 64))
                .set_created_by("dst".into())
                .build();
            let mut w = ArrowWriter::try_new(&mut out, schema, Some(props))?;
            for b in &batches {
                w.write(b)?;
            }
            w.close()?;
        }
    }
    Ok(out.into())
}

/// Registers a table of files with a session whose runtime knows the store.
pub fn register(ctx: &SessionContext, t: &Table, query: u64) -> Result<()> {
    ctx.register_table(t.name.as_str(), provider(t, query)?)?;
    Ok(())
}

fn provider(t: &Table, query: u64) -> Result<Arc<dyn TableProvider>> {
    let format: Arc<dyn FileFormat> = match t.leaf {
        LeafStyle::Csv => Arc::new(CsvFormat::default().with_has_header(true)),
        LeafStyle::Json => Arc::new(JsonFormat::default()),
        _ => Arc::new(ParquetFormat::default()),
    };
    let mut options = ListingOptions::new(format).with_file_extension("");
    if t.hive {
        options = options.with_table_partition_cols(vec![("h".into(), DataType::Int64)]);
    }
    if t.sorted {
        options = options.with_file_sort_order(vec![vec![col("id").sort(true, true)]]);
    }
    let url = ListingTableUrl::parse(format!("{URL}/q{query}/{}/", t.name))?;
    let config = ListingTableConfig::new(url).with_listing_options(options).with_schema(file_schema(t));
    Ok(Arc::new(ListingTable::try_new(config)?))
}

/// The store, which all nodes reach, with the files of all queries.
pub fn store(tables: &[Table], queries: &[u64], quiet: bool) -> Result<Arc<dyn ObjectStore>> {
    let inner = InMemory::new();
    for t in tables.iter().filter(|t| is_file(t)) {
        for (path, chunks) in layout(t) {
            let bytes = content(t, &chunks)?;
            for q in queries {
                let path = Path::from(format!("q{q}/{}/{path}", t.name));
                futures::executor::block_on(inner.put(&path, bytes.clone().into()))?;
            }
        }
    }
    if quiet {
        return Ok(Arc::new(inner));
    }
    let tables = tables.iter().map(|t| (t.name.clone(), t.clone())).collect();
    Ok(Arc::new(SimStore { inner, tables }))
}

/// An object store that delays, fails and records reads of queries that are being executed.
#[derive(Debug)]
struct SimStore {
    inner: InMemory,
    tables: BTreeMap<String, Table>,
}

impl std::fmt::Display for SimStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimStore")
    }
}

impl SimStore {
    async fn before(&self, location: &Path) -> object_store::Result<()> {
        let path = location.to_string();
        let mut parts = path.splitn(3, '/');
        let query: u64 = parts.next().and_then(|q| q[1..].parse().ok()).unwrap_or(0);
        let name = parts.next().unwrap_or_default();
        let file = parts.next().unwrap_or_default();
        let Some(t) = self.tables.get(name) else { return Ok(()) };
        if !world::executing(query) {
            return Ok(());
        }
        let nth = world::nth_read(&path);
        world::fired("object-store-read");
        let layout = layout(t);
        let (index, chunks) = match layout.iter().enumerate().find(|(_, (p, _))| p.as_str() == file) {
            Some((i, (_, chunks))) => (i, chunks.clone()),
            None => (0, vec![]),
        };
        for chunk in chunks {
            for fault in world::leaf_faults(name, chunk, query) {
                if fault.after != nth {
                    continue;
                }
                world::hit(fault.index, &format!("object-store-{}", fault.name()));
                match &fault.failure {
                    LeafFailure::Error(kind) => {
                        return Err(object_store::Error::Generic {
                            store: "SimStore",
                            source: Box::new(kind.build(&fault.marker())),
                        });
                    }
                    LeafFailure::Panic => panic!("{}", fault.marker()),
                    LeafFailure::Stall(ms) => tokio::time::sleep(Duration::from_millis(*ms)).await,
                    LeafFailure::AtExecute(_) => {}
                }
            }
        }
        if t.delay_ms > 0 {
            let mut rng = Rng::fork(t.seed, 200_000 + query * 1000 + index as u64 * 100 + nth as u64);
            if rng.pct(60) {
                tokio::time::sleep(Duration::from_millis(rng.range(0, t.delay_ms))).await;
            }
        }
        world::leaf(LeafEvent {
            stream: 0,
            at_ns: 0,
            step: 0,
            node: rt::node(),
            query,
            scan: 0,
            table: name.to_string(),
            chunk: index,
            rows: 0,
            kind: LeafKind::Batch,
        });
        Ok(())
    }
}

#[async_trait]
impl ObjectStore for SimStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> object_store::Result<PutResult> {
        self.inner.put_opts(location, payload, opts).await
    }
    async fn put_multipart_opts(
        &self,
        location: &Path,
        opts: PutMultipartOptions,
    ) -> object_store::Result<Box<dyn MultipartUpload>> {
        self.inner.put_multipart_opts(location, opts).await
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> object_store::Result<GetResult> {
        self.before(location).await?;
        self.inner.get_opts(location, options).await
    }
    async fn get_ranges(&self, location: &Path, ranges: &[Range<u64>]) -> object_store::Result<Vec<Bytes>> {
        self.before(location).await?;
        self.inner.get_ranges(location, ranges).await
    }
    fn delete_stream(
        &self,
        locations: BoxStream<'static, object_store::Result<Path>>,
    ) -> BoxStream<'static, object_store::Result<Path>> {
        self.inner.delete_stream(locations)
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'static, object_store::Result<ObjectMeta>> {
        // The modification time is the real one of this run.
        self.inner
            .list(prefix)
            .map(|m| {
                m.map(|mut m| {
                    m.last_modified = Default::default();
                    m
                })
            })
            .boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> object_store::Result<ListResult> {
        self.inner.list_with_delimiter(prefix).await
    }
    async fn copy_opts(&self, from: &Path, to: &Path, options: CopyOptions) -> object_store::Result<()> {
        self.inner.copy_opts(from, to, options).await
    }
}

pub fn url() -> url::Url {
    url::Url::parse(URL).expect("url")
}
