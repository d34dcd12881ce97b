//! Every kind of error that can be raised, and what has to be left of it after a trip over the network.
use arrow::error::ArrowError;
use datafusion::common::{Column, DataFusionError, Diagnostic, SchemaError, TableReference};
use datafusion::parquet::errors::ParquetError;
use datafusion::sql::sqlparser::parser::ParserError;
use object_store::Error as StoreError;
use std::io::{Error as IoError, ErrorKind};
use std::sync::Arc;

const IO: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Interrupted,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

const ARROW: u16 = 20;
const PARQUET: u16 = 7;
const STORE: u16 = 9;
const SQL: u16 = 3;
const SCHEMA: u16 = 6;
const NESTED: u16 = 9;
const SIZES: &[usize] = &[100, 3_000, 6_000, 12_000, 20_000, 100_000];

pub const COUNT: u16 = IO.len() as u16 + 2 * ARROW + PARQUET + STORE + 2 * SQL + 2 * SCHEMA + NESTED + SIZES.len() as u16;

fn source(m: &str) -> Box<dyn std::error::Error + Send + Sync> {
    m.to_string().into()
}

fn arrow(n: u16, m: String) -> ArrowError {
    match n {
        0 => ArrowError::NotYetImplemented(m),
        1 => ArrowError::ExternalError(m.into()),
        2 => ArrowError::CastError(m),
        3 => ArrowError::MemoryError(m),
        4 => ArrowError::ParseError(m),
        5 => ArrowError::SchemaError(m),
        6 => ArrowError::ComputeError(m),
        7 => ArrowError::DivideByZero,
        8 => ArrowError::ArithmeticOverflow(m),
        9 => ArrowError::CsvError(m),
        10 => ArrowError::JsonError(m),
        11 => ArrowError::IoError(m.clone(), IoError::new(ErrorKind::TimedOut, format!("io {m}"))),
        12 => ArrowError::IpcError(m),
        13 => ArrowError::InvalidArgumentError(m),
        14 => ArrowError::ParquetError(m),
        15 => ArrowError::CDataInterface(m),
        16 => ArrowError::DictionaryKeyOverflowError,
        17 => ArrowError::RunEndIndexOverflowError,
        18 => ArrowError::OffsetOverflowError(5_000_000_000),
        _ => ArrowError::AvroError(m),
    }
}

fn parquet(n: u16, m: String) -> ParquetError {
    match n {
        0 => ParquetError::General(m),
        1 => ParquetError::NYI(m),
        2 => ParquetError::EOF(m),
        3 => ParquetError::ArrowError(m),
        4 => ParquetError::IndexOutOfBound(6_000_000_000, 7),
        5 => ParquetError::External(m.into()),
        _ => ParquetError::NeedMoreData(8_000_000_000),
    }
}

fn store(n: u16, m: &str) -> StoreError {
    let (path, source) = (format!("a/é/{m}"), source(m));
    match n {
        0 => StoreError::Generic { store: "S3", source },
        1 => StoreError::NotFound { path, source },
        2 => StoreError::NotSupported { source },
        3 => StoreError::AlreadyExists { path, source },
        4 => StoreError::Precondition { path, source },
        5 => StoreError::NotModified { path, source },
        6 => StoreError::PermissionDenied { path, source },
        7 => StoreError::Unauthenticated { path, source },
        _ => StoreError::UnknownConfigurationKey { key: m.to_string(), store: "LocalFileSystem" },
    }
}

fn sql(n: u16, m: String) -> ParserError {
    match n {
        0 => ParserError::TokenizerError(m),
        1 => ParserError::ParserError(m),
        _ => ParserError::RecursionLimitExceeded,
    }
}

fn schema(n: u16, m: String) -> SchemaError {
    let full = TableReference::full("Cat", "sch.ema", m.as_str());
    let partial = TableReference::partial("sch", m.as_str());
    match n {
        0 => SchemaError::AmbiguousReference { field: Box::new(Column::new_unqualified(m)) },
        1 => SchemaError::AmbiguousReference { field: Box::new(Column::new(Some(full), "f")) },
        2 => SchemaError::DuplicateQualifiedField { qualifier: Box::new(partial), name: m },
        3 => SchemaError::DuplicateQualifiedField { qualifier: Box::new(full), name: "Na me".into() },
        4 => SchemaError::DuplicateUnqualifiedField { name: m },
        _ => SchemaError::FieldNotFound {
            field: Box::new(Column::new(Some(TableReference::bare("T")), m)),
            valid_fields: vec![
                Column::new_unqualified("a"),
                Column::new(Some(partial), "B b"),
                Column::new(Some(full), "c"),
            ],
        },
    }
}

fn nested(n: u16, m: String) -> DataFusionError {
    use DataFusionError as E;
    match n {
        0 => E::Substrait(m),
        1 => E::Diagnostic(Box::new(Diagnostic::new_error("d", None)), Box::new(E::Plan(m))),
        2 => E::Execution("inner".into()).context("middle").context(m),
        3 => E::Collection(vec![
            E::Plan(m).context("c"),
            E::Collection(vec![E::Internal("x".into()), E::ResourcesExhausted("y".into())]),
            E::External("last".into()),
        ]),
        4 => (0..20).fold(E::ResourcesExhausted(m), |e, i| e.context(format!("level {i}"))),
        5 => E::Shared(Arc::new(E::Configuration(m).context("shared"))),
        6 => E::NotImplemented(format!("{m} ünïcödé \u{1F980} \"quoted\" 100%\n\ttab")),
        7 => E::Collection(vec![E::External(m.into())]).context(""),
        _ => E::ArrowError(Box::new(ArrowError::CastError(String::new())), Some(String::new())).context(m),
    }
}

/// The `n`th error, with the marker somewhere in what it displays.
pub fn build(mut n: u16, marker: &str) -> DataFusionError {
    use DataFusionError as E;
    let m = marker.to_string();
    let io = IO.len() as u16;
    if n < io {
        return E::IoError(IoError::new(IO[n as usize], m));
    }
    n -= io;
    let silent = |e: DataFusionError| {
        if e.to_string().contains(marker) { e } else { e.context(m.clone()) }
    };
    if n < 2 * ARROW {
        let backtrace = (n >= ARROW).then(|| format!("backtrace {m}"));
        return silent(E::ArrowError(Box::new(arrow(n % ARROW, m.clone())), backtrace));
    }
    n -= 2 * ARROW;
    if n < PARQUET {
        return silent(E::ParquetError(Box::new(parquet(n, m.clone()))));
    }
    n -= PARQUET;
    if n < STORE {
        return silent(E::ObjectStore(Box::new(store(n, &m))));
    }
    n -= STORE;
    if n < 2 * SQL {
        return silent(E::SQL(Box::new(sql(n % SQL, m.clone())), (n >= SQL).then(|| "at sql".to_string())));
    }
    n -= 2 * SQL;
    if n < 2 * SCHEMA {
        let backtrace = (n >= SCHEMA).then(|| "at schema".to_string());
        return silent(E::SchemaError(Box::new(schema(n % SCHEMA, m.clone())), Box::new(backtrace)));
    }
    n -= 2 * SCHEMA;
    if n < NESTED {
        return nested(n, m);
    }
    n -= NESTED;
    let size = SIZES[n as usize % SIZES.len()];
    E::Execution(format!("{m} {}", "long message ".repeat(size / 13 + 1)))
}

fn short(s: &str) -> String {
    match s.char_indices().nth(600) {
        None => s.to_string(),
        Some((i, _)) => format!("{}… {} bytes", &s[..i], s.len()),
    }
}

/// What an error is and says, node by node.
pub fn sig(e: &DataFusionError) -> String {
    use DataFusionError as E;
    match e {
        E::ArrowError(e, bt) => match e.as_ref() {
            ArrowError::ExternalError(e) => format!("Arrow.External({e}, {bt:?})"),
            ArrowError::IoError(m, e) => format!("Arrow.Io({m}, {:?}, {e}, {bt:?})", e.kind()),
            e => format!("Arrow({e:?}, {bt:?})"),
        },
        E::ParquetError(e) => match e.as_ref() {
            ParquetError::External(e) => format!("Parquet.External({e})"),
            e => format!("Parquet({e:?})"),
        },
        E::ObjectStore(e) => {
            let kind = format!("{e:?}");
            let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap_or_default();
            format!("ObjectStore.{kind}({e})")
        }
        E::IoError(e) => format!("Io({:?}, {e})", e.kind()),
        E::SQL(e, bt) => format!("Sql({e:?}, {bt:?})"),
        E::NotImplemented(m) => format!("NotImplemented({})", short(m)),
        E::Internal(m) => format!("Internal({})", short(m)),
        E::Plan(m) => format!("Plan({})", short(m)),
        E::Configuration(m) => format!("Configuration({})", short(m)),
        E::SchemaError(e, bt) => format!("Schema({e:?}, {bt:?})"),
        E::Execution(m) => format!("Execution({})", short(m)),
        E::ExecutionJoin(e) => format!("ExecutionJoin({e})"),
        E::ResourcesExhausted(m) => format!("ResourcesExhausted({})", short(m)),
        E::External(inner) => match inner.downcast_ref::<DataFusionError>() {
            Some(e) => format!("External.{}", sig(e)),
            None => format!("External({})", short(&inner.to_string())),
        },
        E::Context(c, e) => format!("Context({}, {})", short(c), sig(e)),
        E::Substrait(m) => format!("Substrait({m})"),
        E::Diagnostic(_, e) => format!("Diagnostic({})", sig(e)),
        E::Collection(es) => format!("Collection[{}]", es.iter().map(sig).collect::<Vec<_>>().join(", ")),
        E::Shared(e) => format!("Shared({})", sig(e)),
        #[allow(unreachable_patterns)]
        e => format!("Other({e})"),
    }
}

/// The error and all the errors it wraps.
pub fn sigs(e: &DataFusionError) -> Vec<String> {
    use DataFusionError as E;
    let mut out = vec![sig(e)];
    match e {
        E::Context(_, e) | E::Diagnostic(_, e) => out.extend(sigs(e)),
        E::Shared(e) => out.extend(sigs(e)),
        E::Collection(es) => out.extend(es.iter().flat_map(sigs)),
        E::External(e) => {
            if let Some(e) = e.downcast_ref::<DataFusionError>() {
                out.extend(sigs(e))
            }
        }
        _ => {}
    }
    out
}
