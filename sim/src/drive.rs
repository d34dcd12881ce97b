//! Drives one simulation from a scenario to its history.
use crate::cluster::{self, node_state};
use crate::data;
use crate::net;
use crate::rt::{self, CONTROL};
use crate::world::{self, *};
use datafusion::common::DataFusionError;
use datafusion::datasource::MemTable;
use datafusion::prelude::{SessionConfig, SessionContext};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::watch;

/// The results of a single node without any of the repository's code.
pub fn expectations(s: &Scenario) -> BTreeMap<u64, Expected> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
    rt.block_on(async {
        let ctx = SessionContext::new_with_config(
            SessionConfig::new().with_target_partitions(1).with_batch_size(8192),
        );
        if s.tables.iter().any(crate::files::is_file) {
            let store = crate::files::store(&s.tables, &[0], true).expect("files");
            ctx.runtime_env().register_object_store(&crate::files::url(), store);
        }
        for t in &s.tables {
            if crate::files::is_file(t) {
                crate::files::register(&ctx, t, 0).expect("register");
                continue;
            }
            let batches: Vec<_> = (0..t.chunks).flat_map(|c| t.chunk(c)).collect();
            let mem = MemTable::try_new(data::schema(), vec![batches]).expect("table");
            ctx.register_table(t.name.as_str(), Arc::new(mem)).expect("register");
        }
        let mut out = BTreeMap::new();
        for q in &s.queries {
            let sql = q.subset_of.as_ref().unwrap_or(&q.sql);
            let res = async {
                let batches = ctx.sql(sql).await?.collect().await?;
                let mut rows = vec![];
                for b in &batches {
                    cluster::render(b, &mut rows)?;
                }
                Ok::<_, DataFusionError>(rows)
            }
            .await;
            out.insert(
                q.id,
                match res {
                    Ok(rows) => Expected { rows, error: None },
                    Err(e) => Expected { rows: vec![], error: Some(e.to_string()) },
                },
            );
        }
        out
    })
}

/// Where a panic happened, with its message; the default output is suppressed.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic at {at}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        world::panicked(rt::node(), format!("{at}: {msg}"));
    }));
}

pub fn run(s: &Scenario, traced: bool) -> History {
    let expected = expectations(s);
    world::install(s);
    install_panic_hook();
    let _ = datafusion_distributed::grpc::sim::CONNECT.set(cluster::connect_default);
    let shared = Arc::new(s.clone());
    let root = root(shared);
    let (_, sched, trace) = rt::simulate(&s.sched, s.seed, traced, root);
    let mut h = world::take().history;
    net::forget();
    h.sched = sched;
    h.expected = expected;
    h.fingerprint = fingerprint(&h);
    h.trace = trace;
    h
}

pub fn fingerprint(h: &History) -> u64 {
    let text = serde_json::to_string(h).expect("history");
    let mut x: u64 = 0xcbf2_9ce4_8422_2325;
    for b in text.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    x
}

async fn root(s: Arc<Scenario>) {
    if s.tables.iter().any(crate::files::is_file) {
        let queries: Vec<u64> = s.queries.iter().map(|q| q.id).collect();
        let store = crate::files::store(&s.tables, &queries, false).expect("files");
        world::with(|w| w.store = Some(store));
    }
    net::install(&s.net);
    for node in 0..=s.cluster.workers {
        cluster::start(&s, node);
    }
    match s.mode.as_str() {
        "rendezvous" => crate::direct::rendezvous(&s).await,
        _ => queries(&s).await,
    }
    settle(&s).await;
}

async fn at(ms: u64) {
    let now = rt::now_ms();
    if ms > now {
        tokio::time::sleep(Duration::from_millis(ms - now)).await;
    }
}

pub fn start_faults(s: &Arc<Scenario>) {
    for f in s.faults.clone() {
        let s = s.clone();
        if let Fault::BreakAfter { from, to, nth, request, bytes } = f {
            net::break_after(from, to, nth, request, bytes);
            continue;
        }
        rt::spawn_on(CONTROL, async move { fault(&s, f).await });
    }
}

async fn fault(s: &Arc<Scenario>, f: Fault) {
    let name = f.name();
    match f {
        Fault::Reset { at_ms, a, b } => {
            at(at_ms).await;
            let n = net::reset_where(|x, y| (x, y) == (a, b) || (x, y) == (b, a));
            if n > 0 {
                world::fired(name);
            }
        }
        Fault::Partition { at_ms, a, b, for_ms, then_reset } => {
            at(at_ms).await;
            net::stall(a, b, true);
            world::fired(name);
            at(at_ms + for_ms).await;
            if then_reset {
                net::reset_where(|x, y| (x, y) == (a, b) || (x, y) == (b, a));
            }
            net::stall(a, b, false);
        }
        Fault::Refuse { at_ms, from, to, times } => {
            at(at_ms).await;
            net::refuse(from, to, times);
        }
        Fault::Crash { at_ms, node, silent, restart_ms } => {
            at(at_ms).await;
            world::fired(name);
            cluster::crash(s, node, silent);
            let down = restart_ms.unwrap_or(5_000);
            tokio::time::sleep(Duration::from_millis(down)).await;
            if silent {
                net::reset_where(|x, y| x == node || y == node);
                for other in 0..=s.cluster.workers {
                    if other != node {
                        net::stall(node, other, false);
                    }
                }
            }
            if restart_ms.is_some() {
                world::note(format!("restart of node {node}"));
                cluster::start(s, node);
            }
        }
        Fault::Pause { at_ms, node, for_ms } => {
            at(at_ms).await;
            rt::pause(node, true);
            world::fired(name);
            at(at_ms + for_ms).await;
            rt::pause(node, false);
        }
        Fault::ClockJump { at_ms, node, by_ms } => {
            at(at_ms).await;
            rt::jump(node, by_ms * 1_000_000);
            world::fired(name);
        }
        Fault::CoordinatorCrash { at_ms } => {
            at(at_ms).await;
            world::fired(name);
            cluster::crash(s, 0, false);
        }
        Fault::BreakAfter { .. }
        | Fault::StreamReset { .. }
        | Fault::Leaf { .. }
        | Fault::Feed { .. }
        | Fault::Session { .. }
        | Fault::Codec { .. }
        | Fault::Rewrite { .. } => {}
    }
}

async fn queries(s: &Arc<Scenario>) {
    start_faults(s);
    let mut done = vec![];
    let mut previous: Option<watch::Receiver<bool>> = None;
    for (slot, q) in s.queries.iter().cloned().enumerate() {
        world::with(|w| w.history.queries.push(cluster::new_run(&q, 0)));
        let (tx, rx) = watch::channel(false);
        let wait_for = q.after_previous.then(|| previous.clone()).flatten();
        previous = Some(rx.clone());
        done.push(rx);
        let s = s.clone();
        rt::spawn_on(CONTROL, async move {
            at(q.at_ms).await;
            if let Some(mut p) = wait_for {
                let _ = p.wait_for(|x| *x).await;
            }
            if rt::is_dead(0) {
                finish(slot, Outcome::Killed);
            } else {
                let res = rt::spawn_on(0, cluster::run_query(s, q, slot)).await;
                if let Err(e) = res {
                    if e.is_panic() {
                        let p = e.into_panic();
                        let msg = p
                            .downcast_ref::<&str>()
                            .map(|s| s.to_string())
                            .or_else(|| p.downcast_ref::<String>().cloned())
                            .unwrap_or_default();
                        finish(slot, Outcome::Panic(msg));
                    } else {
                        finish(slot, Outcome::Killed);
                    }
                }
            }
            let _ = tx.send(true);
        });
    }
    let all = async {
        for mut rx in done {
            let _ = rx.wait_for(|x| *x).await;
        }
    };
    let horizon = Duration::from_millis(s.horizon_ms);
    let started = rt::now_ms();
    tokio::pin!(all);
    let mut late = tokio::time::timeout(horizon, all.as_mut()).await.is_err();
    // A slow network may need longer: what counts is that it goes on carrying something.
    for _ in 0..40 {
        let before = net::stats().bytes;
        if !late || rt::overrun() {
            break;
        }
        late = tokio::time::timeout(Duration::from_secs(60), all.as_mut()).await.is_err();
        if late && net::stats().bytes < before + 2_000 {
            break;
        }
    }
    if late {
        world::note("horizon reached");
        world::with(|w| w.history.horizon_hit = true);
    }
    world::value("queries_ms", (rt::now_ms() - started) as i64);
}

fn finish(slot: usize, outcome: Outcome) {
    world::with(|w| {
        let r = &mut w.history.queries[slot];
        r.outcome = outcome;
        r.ended_ms = rt::now_ms();
        r.ended_ns = tokio::sim::now_nanos();
        r.ended_step = rt::steps();
    })
}

/// Tasks that live as long as a connection or a server.
fn infrastructure(file: &str) -> bool {
    ["/tonic-", "/hyper-", "/hyper_util", "/h2-", "/tower-", "dst/src", "src/drive.rs", "src/cluster.rs", "src/net.rs", "src/direct.rs"]
        .iter()
        .any(|p| file.contains(p))
}

async fn settle(s: &Arc<Scenario>) {
    if rt::overrun() {
        return;
    }
    // Faults that are still under way end now.
    let last = s.faults.iter().map(|f| f.last_ms()).max().unwrap_or(0);
    if !world::with(|w| w.history.horizon_hit) {
        at(last).await;
    }
    net::heal_all();
    for node in 0..=s.cluster.workers {
        rt::pause(node, false);
    }
    tokio::time::sleep(Duration::from_millis(s.settle_ms)).await;
    rt::print_spawns();
    let live: BTreeSet<_> = rt::live_tasks()
        .into_iter()
        .filter(|(node, file, _)| *node != CONTROL && !infrastructure(file))
        .collect();
    let mut held = false;
    for node in 0..=s.cluster.workers {
        let Some(state) = node_state(node) else { continue };
        let Some(worker) = state.worker.clone() else { continue };
        if rt::is_dead(node) {
            continue;
        }
        let tasks_running = worker.tasks_running().await;
        held |= tasks_running > 0;
        let plans_held = worker.sim_tasks_held().await.len();
        let end = NodeEnd { tasks_running, plans_held, tasks_late: 0, memory: state.pool.reserved() };
        world::with(|w| w.history.nodes.insert(node, end));
    }
    if std::env::var_os("DST_SPAWNS").is_some() {
        for i in 0..60 {
            let live: Vec<_> = rt::live_tasks().into_iter().filter(|(node, file, _)| *node != CONTROL && !infrastructure(file)).collect();
            eprintln!("LIVE after {i}: {live:?}");
            tokio::time::sleep(Duration::from_secs(10)).await;
        }
    }
    let memory0 = node_state(0).map(|n| n.pool.reserved()).unwrap_or(0);
    world::value("coordinator_memory", memory0 as i64);
    if held {
        // Workers forget abandoned tasks after ten minutes.
        tokio::time::sleep(Duration::from_secs(11 * 60)).await;
        for node in 0..=s.cluster.workers {
            let Some(worker) = node_state(node).and_then(|n| n.worker.clone()) else { continue };
            if rt::is_dead(node) {
                continue;
            }
            let late = worker.tasks_running().await;
            world::with(|w| w.history.nodes.entry(node).or_default().tasks_late = late);
        }
    }
    let (net, open) = (net::stats(), net::open_conns());
    world::with(|w| {
        w.history.live = live.into_iter().collect();
        w.history.net = net;
        w.history.open = open;
    });
}

/// The consumer of a query stops reading for a while: how much does the cluster move meanwhile?
pub async fn consumer_paused(slot: usize, ms: u64) {
    let batches = || world::with(|w| w.history.leaves.iter().filter(|l| l.kind == LeafKind::Batch).count());
    let rows = || world::with(|w| w.history.leaves.iter().filter(|l| l.kind == LeafKind::Batch).map(|l| l.rows).sum::<usize>());
    let half = Duration::from_millis(ms / 2);
    tokio::time::sleep(half).await;
    let (middle, batches_middle) = (net::stats().bytes, batches());
    tokio::time::sleep(half).await;
    let (end, batches_end) = (net::stats().bytes, batches());
    // Everything moved since the query started, mostly while nobody was reading.
    world::value(&format!("pause_{slot}_bytes"), end as i64);
    world::value(&format!("pause_{slot}_rows"), rows() as i64);
    world::value(&format!("pause_{slot}_tail_bytes"), (end - middle) as i64);
    world::value(&format!("pause_{slot}_tail_batches"), (batches_end - batches_middle) as i64);
    world::note(format!("consumer paused: {end} bytes moved, {} in the second half", end - middle));
}
