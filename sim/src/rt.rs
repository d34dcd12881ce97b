//! The simulated machine: a seeded scheduler over the tasks of every node, and node lifecycles.
use crate::prng::Rng;
use crate::sys;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::Location;
use std::time::Duration;
use tokio::task::AbortHandle;

/// The node on which the simulator's own tasks run. It cannot fail.
pub const CONTROL: usize = 99;
const EVERY_OLDEST: u64 = 64;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// Oldest runnable task first.
    Fifo,
    /// Uniformly random.
    Random,
    /// Newest runnable task, `pct` percent of the time.
    Lifo { pct: u64 },
    /// Random priorities that change at random points.
    Priority { changes: u64 },
    /// The tasks of a node run last, almost always.
    Starve { node: usize },
    /// Keeps running the same node for a while.
    Sticky { pct: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub policy: Policy,
    pub seed: u64,
    /// Decisions after this one are oldest-first (set by the minimiser).
    pub limit: Option<u64>,
    pub max_steps: u64,
}

pub struct Task {
    pub node: usize,
    pub at: &'static Location<'static>,
    pub abort: AbortHandle,
    prio: u64,
    trace: Option<String>,
}

#[derive(Clone, Default)]
struct Node {
    dead: bool,
    paused: bool,
    skew_ns: i64,
}

struct Sim {
    sched: Sched,
    rng: Rng,
    prio_rng: Rng,
    tasks: BTreeMap<u64, Task>,
    nodes: Vec<Node>,
    current: usize,
    steps: u64,
    choices: u64,
    hash: u64,
    last_node: usize,
    overrun: bool,
    blocking: u64,
    max_runnable: usize,
    trace: Option<Vec<String>>,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
}

fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> Option<T> {
    SIM.try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(f)))
        .ok()
        .flatten()
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct SchedStats {
    pub steps: u64,
    pub choices: u64,
    pub hash: u64,
    pub tasks: u64,
    pub max_runnable: u64,
    pub blocking: u64,
    pub overrun: bool,
    pub sim_ns: u64,
}

fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5)
}

fn pick(ids: &[u64]) -> usize {
    with(|sim| {
        // A run that takes too many steps is stopped: the clock jumps to its horizon.
        if sim.overrun {
            return usize::MAX;
        }
        let any_paused = sim.nodes.iter().any(|n| n.paused);
        let mut runnable: Vec<usize> = Vec::with_capacity(ids.len());
        for (i, id) in ids.iter().enumerate() {
            let paused = any_paused
                && sim.tasks.get(id).map(|t| sim.nodes[t.node].paused).unwrap_or(false);
            if !paused {
                runnable.push(i);
            }
        }
        if runnable.is_empty() {
            return usize::MAX;
        }
        sim.max_runnable = sim.max_runnable.max(runnable.len());
        if runnable.len() == 1 {
            return runnable[0];
        }
        sim.choices += 1;
        let free = sim.sched.limit.is_none_or(|l| sim.choices <= l);
        let k = if !free || sim.choices % EVERY_OLDEST == 0 {
            0
        } else {
            let n = runnable.len();
            let node = |sim: &Sim, k: usize| {
                sim.tasks.get(&ids[runnable[k]]).map(|t| t.node).unwrap_or(CONTROL)
            };
            match sim.sched.policy.clone() {
                Policy::Fifo => 0,
                Policy::Random => sim.rng.usize(0, n - 1),
                Policy::Lifo { pct } => {
                    if sim.rng.pct(pct) { n - 1 } else { sim.rng.usize(0, n - 1) }
                }
                Policy::Priority { changes } => {
                    let best = (0..n)
                        .max_by_key(|k| {
                            sim.tasks.get(&ids[runnable[*k]]).map(|t| t.prio).unwrap_or(0)
                        })
                        .unwrap_or(0);
                    if sim.rng.below(1000) < changes {
                        let p = sim.prio_rng.next() >> 8;
                        if let Some(t) = sim.tasks.get_mut(&ids[runnable[best]]) {
                            t.prio = p;
                        }
                    }
                    best
                }
                Policy::Starve { node: starved } => {
                    let others: Vec<usize> = (0..n).filter(|k| node(sim, *k) != starved).collect();
                    if others.is_empty() || sim.rng.below(24) == 0 {
                        sim.rng.usize(0, n - 1)
                    } else {
                        others[sim.rng.usize(0, others.len() - 1)]
                    }
                }
                Policy::Sticky { pct } => {
                    let same: Vec<usize> =
                        (0..n).filter(|k| node(sim, *k) == sim.last_node).collect();
                    if !same.is_empty() && sim.rng.pct(pct) {
                        same[sim.rng.usize(0, same.len() - 1)]
                    } else {
                        sim.rng.usize(0, n - 1)
                    }
                }
            }
        };
        runnable[k]
    })
    .unwrap_or(0)
}

fn runnable(ids: &[u64]) -> bool {
    with(|sim| {
        !sim.overrun && ids.iter().any(|id| sim.tasks.get(id).map(|t| !sim.nodes[t.node].paused).unwrap_or(true))
    })
    .unwrap_or(true)
}

fn spawned(id: u64, abort: AbortHandle, at: &'static Location<'static>) {
    let dead = with(|sim| {
        let node = sim.current;
        let prio = sim.prio_rng.next() >> 8;
        let abort = abort.clone();
        let trace = std::env::var_os("DST_SPAWNS").map(|_| std::backtrace::Backtrace::force_capture().to_string());
        sim.tasks.insert(id, Task { node, at, abort, prio, trace });
        sim.nodes[node].dead
    })
    .unwrap_or(false);
    if dead {
        abort.abort();
    }
}

fn before_poll(id: u64) {
    let skew = with(|sim| {
        sim.steps += 1;
        if sim.steps > sim.sched.max_steps {
            sim.overrun = true;
        }
        let (node, line) = sim
            .tasks
            .get(&id)
            .map(|t| (t.node, t.at.line() as u64))
            .unwrap_or((CONTROL, 0));
        sim.current = node;
        sim.last_node = node;
        sim.hash = fnv(fnv(sim.hash, id), (node as u64) << 32 | line);
        if let Some(trace) = &mut sim.trace {
            if let Some(t) = sim.tasks.get(&id) {
                let file = t.at.file();
                let file = file.rsplit("/src/").next().unwrap_or(file);
                trace.push(format!(
                    "{:>8} {:>12}ns node{} task{} {}:{}",
                    sim.steps,
                    tokio::sim::now_nanos(),
                    node,
                    id,
                    file,
                    t.at.line()
                ));
            }
        }
        sim.nodes[node].skew_ns
    });
    sys::set_skew(skew.unwrap_or(0));
}

fn after_poll(_: u64) {
    with(|sim| sim.current = CONTROL);
    sys::set_skew(0);
}

fn blocking() {
    with(|sim| sim.blocking += 1);
}

fn seed() -> u64 {
    with(|sim| sim.prio_rng.next()).unwrap_or(7)
}

/// Runs a future as the root of a simulation on this thread.
pub fn simulate<F: Future>(sched: &Sched, seed_: u64, traced: bool, root: F) -> (F::Output, SchedStats, Vec<String>) {
    SIM.with(|s| {
        *s.borrow_mut() = Some(Sim {
            sched: sched.clone(),
            rng: Rng::fork(sched.seed, 1),
            prio_rng: Rng::fork(sched.seed, 2),
            tasks: BTreeMap::new(),
            nodes: vec![Node::default(); CONTROL + 1],
            current: CONTROL,
            steps: 0,
            choices: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            last_node: 0,
            overrun: false,
            blocking: 0,
            max_runnable: 0,
            trace: traced.then(Vec::new),
        })
    });
    sys::enter(seed_);
    tokio::sim::install(Some(tokio::sim::Hooks {
        pick,
        runnable,
        spawned,
        before_poll,
        after_poll,
        blocking,
        seed,
    }));
    let runtime = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let out = runtime.block_on(root);
    let stats = stats();
    let trace = with(|s| s.trace.take()).flatten().unwrap_or_default();
    // The process is about to exit: nothing that is still alive is worth dropping.
    std::mem::forget(runtime);
    tokio::sim::install(None);
    sys::leave();
    SIM.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            std::mem::forget(s.take());
        }
    });
    (out, stats, trace)
}

pub fn stats() -> SchedStats {
    with(|s| SchedStats {
        steps: s.steps,
        choices: s.choices,
        hash: s.hash,
        tasks: s.tasks.len() as u64,
        max_runnable: s.max_runnable as u64,
        blocking: s.blocking,
        overrun: s.overrun,
        sim_ns: tokio::sim::now_nanos(),
    })
    .unwrap_or_default()
}

pub fn overrun() -> bool {
    with(|s| s.overrun).unwrap_or(false)
}

pub fn steps() -> u64 {
    with(|s| s.steps).unwrap_or(0)
}

/// The node whose code is running.
pub fn node() -> usize {
    with(|s| s.current).unwrap_or(CONTROL)
}

/// Spawns a task on a node.
#[track_caller]
pub fn spawn_on<F>(node: usize, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let before = with(|s| std::mem::replace(&mut s.current, node));
    let handle = tokio::spawn(f);
    with(|s| s.current = before.unwrap_or(CONTROL));
    handle
}

/// Aborts every task of a node, and every task they spawn while unwinding.
pub fn kill(node: usize) -> usize {
    let handles: Vec<AbortHandle> = with(|s| {
        s.nodes[node].dead = true;
        s.tasks
            .values()
            .filter(|t| t.node == node && !t.abort.is_finished())
            .map(|t| t.abort.clone())
            .collect()
    })
    .unwrap_or_default();
    let n = handles.len();
    for handle in handles {
        handle.abort();
    }
    n
}

pub fn revive(node: usize) {
    with(|s| s.nodes[node].dead = false);
}

pub fn is_dead(node: usize) -> bool {
    with(|s| s.nodes[node].dead).unwrap_or(false)
}

pub fn pause(node: usize, paused: bool) {
    with(|s| s.nodes[node].paused = paused);
}

pub fn skew(node: usize, ns: i64) {
    with(|s| s.nodes[node].skew_ns = ns);
}

/// Moves the wall clock of a node.
pub fn jump(node: usize, by_ns: i64) {
    with(|s| s.nodes[node].skew_ns += by_ns);
}

pub fn now() -> Duration {
    Duration::from_nanos(tokio::sim::now_nanos())
}

pub fn now_ms() -> u64 {
    tokio::sim::now_nanos() / 1_000_000
}

/// Debugging aid: where every task that has not finished was started from (DST_SPAWNS=1).
pub fn print_spawns() {
    with(|s| {
        for t in s.tasks.values().filter(|t| !t.abort.is_finished()) {
            if let Some(trace) = &t.trace {
                eprintln!("node {} {}:{}\n{trace}", t.node, t.at.file(), t.at.line());
            }
        }
    });
}

/// (node, source file, line) of every task that has not finished.
pub fn live_tasks() -> Vec<(usize, String, u32)> {
    with(|s| {
        s.tasks
            .values()
            .filter(|t| !t.abort.is_finished())
            .map(|t| (t.node, t.at.file().to_string(), t.at.line()))
            .collect()
    })
    .unwrap_or_default()
}
