//! Deterministic simulation of datafusion-distributed.
//!
//!   dst check PROP          searches seeds for a violation (VERIF_SEED, VERIF_TIER)
//!   dst replay FILE         replays a minimised violation
//!   dst run PROP SEED       runs one seed and prints its history
//!   dst selftest [N]        runs N seeds twice each and compares their histories
#![allow(dead_code)]
mod check;
mod cluster;
mod data;
mod direct;
mod drive;
mod files;
mod gen_;
mod errs;
mod hand;
mod mini;
mod net;
mod pool;
mod prng;
mod props;
mod reset;
mod rt;
mod sys;
mod world;

use check::Violation;
use pool::Report;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};
use world::Scenario;

const ROOT: &str = "/verif";

pub fn run_report(s: &Scenario, traced: bool) -> Report {
    let h = drive::run(s, traced);
    let violations = check::judge(s, &h);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut features: BTreeMap<String, u64> = BTreeMap::new();
    for q in &h.queries {
        let text = format!("{:?}", q.outcome);
        let name = text.split('(').next().unwrap_or("").to_string();
        *outcomes.entry(name).or_default() += 1;
        for f in ["NetworkShuffle", "NetworkCoalesce", "NetworkBroadcast", "ChildrenIsolatorUnion", "DistributedLeaf", "HashJoin", "SortMergeJoin", "SortPreservingMerge", "Window"] {
            if q.plan.contains(f) {
                *features.entry(f.to_string()).or_default() += 1;
            }
        }
    }
    if !h.received.is_empty() {
        features.insert("WorkUnitFeed".into(), 1);
    }
    Report {
        seed: s.seed,
        violations,
        fingerprint: h.fingerprint,
        sched_hash: h.sched.hash,
        steps: h.sched.steps,
        choices: h.sched.choices,
        tasks: h.sched.tasks,
        sim_ms: h.sched.sim_ns / 1_000_000,
        wall_us: 0,
        fired: h.fired.clone(),
        distributed: h.queries.iter().any(|q| q.distributed) || h.net.conns > 0,
        conns: h.net.conns,
        resets: h.net.resets,
        refused: h.net.refused,
        bytes: h.net.bytes,
        segments: h.net.segments,
        short_writes: h.net.short_writes,
        outcomes,
        features,
        rows: h.queries.iter().map(|q| q.rows.len() as u64).sum(),
        trace: h.trace.clone(),
        notes: if traced { h.notes.clone() } else { vec![] },
        crash: None,
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    fingerprint: u64,
    original: Scenario,
    scenario: Scenario,
    notes: Vec<String>,
    trace: Vec<String>,
}

/// Lines `known: property=ID class=CLASS match=TEXT` of the known findings.
fn known(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{ROOT}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={prop} class="))?;
            let (class, m) = rest.split_once(" match=")?;
            Some((class.to_string(), m.to_string()))
        })
        .collect()
}

fn corpus(prop: &str) -> Vec<(String, Scenario)> {
    let mut files: Vec<_> = std::fs::read_dir(format!("{ROOT}/corpus"))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files
        .into_iter()
        .filter(|f| f.file_name().is_some_and(|n| n.to_string_lossy().starts_with(&format!("{prop}-"))))
        .filter_map(|f| {
            let text = std::fs::read_to_string(&f).ok()?;
            let s = serde_json::from_str(&text).expect("corpus scenario");
            Some((f.file_name()?.to_string_lossy().to_string(), s))
        })
        .collect()
}

fn relevant(prop: &props::Prop, v: &Violation) -> bool {
    prop.decides(&v.class)
}

fn env_u64(name: &str, or: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(or)
}

fn width() -> usize {
    env_u64("DST_WIDTH", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize
}

fn warm_up() {
    // Statics of the libraries are initialised before the first fork, the same way in every mode.
    let s = gen_::scenario("T01", 1);
    let _ = drive::expectations(&s);
}

const LIMIT: Duration = Duration::from_secs(60);

fn check(prop: &'static props::Prop) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let base = env_u64("VERIF_SEED", 1);
    let default = if tier == "thorough" { 1800 } else { 25 };
    let budget = Duration::from_secs(env_u64("DST_BUDGET", default));
    let max_runs = env_u64("DST_RUNS", u64::MAX);
    println!("property {} tier {tier} seed {base} budget {}s", prop.id, budget.as_secs());
    let known = known(prop.id);
    let known_seen = std::cell::RefCell::new(BTreeSet::new());
    let is_known = |v: &Violation| {
        let hit = known.iter().find(|(c, m)| *c == v.class && v.detail.contains(m.as_str()));
        if let Some((c, m)) = hit {
            known_seen.borrow_mut().insert(format!("{c}: {m}"));
        }
        hit.is_some()
    };
    let mut index = 0u64;
    let mut again: Vec<u64> = vec![];
    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
    let mut mismatches: Vec<u64> = vec![];
    let mut rechecked = 0u64;
    let mut unreproduced: Vec<String> = vec![];
    let mut stock: Vec<String> = vec![];
    let mut reports: Vec<Report> = vec![];
    let mut found: Option<(Scenario, Violation)> = None;
    let mut other: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    // Scenarios worth running every time: histories of known findings and of repaired defects.
    for (name, s) in corpus(prop.id) {
        let r = pool::one(&s, false, LIMIT * 2);
        if let Some(v) = r.violations.iter().find(|v| relevant(prop, v) && !is_known(v)) {
            let again = pool::one(&s, false, LIMIT * 2);
            if again.violations.iter().any(|x| x.class == v.class && !is_known(x)) && found.is_none() {
                println!("corpus {name}: {}", v.class);
                found = Some((s, v.clone()));
            }
        }
        reports.push(r);
    }
    let corpus_runs = reports.len();
    let seed_of = |i: u64| base.wrapping_mul(1_000_003).wrapping_add(i) & 0x7fff_ffff_ffff;
    while found.is_none() && t0.elapsed() < budget && (reports.len() as u64) < max_runs {
        let mut bad: Vec<(u64, Violation)> = vec![];
        let pending = std::cell::RefCell::new(&mut again);
        pool::run(
            width(),
            || {
                if t0.elapsed() > budget || index >= max_runs {
                    return None;
                }
                let waiting = pending.borrow_mut().pop();
                let seed = match waiting {
                    Some(seed) => seed,
                    None => {
                        index += 1;
                        if index % 40 == 0 {
                            // A sample of the seeds runs twice, in different processes.
                            pending.borrow_mut().push(seed_of(index));
                        }
                        seed_of(index)
                    }
                };
                let scenario = gen_::scenario(prop.id, seed);
                Some((0, pool::Job { scenario, traced: false, limit: LIMIT }))
            },
            |_, r| {
                if r.crash.is_none()
                    && let Some(before) = first.insert(r.seed, r.fingerprint)
                {
                    rechecked += 1;
                    if before != r.fingerprint {
                        mismatches.push(r.seed);
                    }
                }
                for v in &r.violations {
                    if relevant(prop, v) {
                        if !is_known(v) {
                            bad.push((r.seed, v.clone()));
                        }
                    } else {
                        let e = other.entry(v.class.clone()).or_insert((0, r.seed));
                        e.0 += 1;
                    }
                }
                reports.push(r);
                bad.is_empty()
            },
        );
        // A violation counts if it happens again.
        for (seed, v) in bad {
            if pool::stock_too(&gen_::scenario(prop.id, seed), &v, LIMIT * 2) {
                stock.push(format!("seed {seed}: {}: {}", v.class, v.detail));
                continue;
            }
            let r = pool::one(&gen_::scenario(prop.id, seed), false, LIMIT * 2);
            if r.violations.iter().any(|x| x.class == v.class && relevant(prop, x) && !is_known(x)) {
                found = Some((gen_::scenario(prop.id, seed), v));
                break;
            }
            unreproduced.push(format!("seed {seed}: {}: {}", v.class, v.detail));
        }
    }
    let explored = t0.elapsed();
    for k in known_seen.borrow().iter() {
        println!("KNOWN-FINDING: property={} {k}", prop.id);
    }
    for u in &unreproduced {
        println!("unreproduced: {u}");
    }
    for u in &stock {
        println!("also of DataFusion without the distributed planner, not counted: {u}");
    }
    let mut violations = vec![];
    if let Some((original, v)) = &found {
        let original = original.clone();
        let seed = &original.seed.clone();
        println!("seed {seed}: {}: {}", v.class, v.detail);
        let (small, tried) = mini::minimise(&original, &v.class, Duration::from_secs(env_u64("DST_MINIMISE", 45)), width());
        let report = pool::one(&small, true, LIMIT * 2);
        let last = report.violations.iter().find(|x| x.class == v.class).cloned().unwrap_or(v.clone());
        let replay = Replay {
            property: prop.id.into(),
            class: v.class.clone(),
            detail: last.detail.clone(),
            seed: *seed,
            fingerprint: report.fingerprint,
            original,
            scenario: small,
            notes: report.notes.clone(),
            trace: report.trace.iter().take(4000).cloned().collect(),
        };
        let dir = format!("{ROOT}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{seed}.json", prop.id, v.class);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).expect("replay"));
        println!("minimised in {tried} runs: {} steps, {} faults", report.steps, replay.scenario.faults.len());
        for n in report.notes.iter().take(60) {
            println!("  {n}");
        }
        println!("{}: {}", v.class, last.detail);
        violations.push(serde_json::json!({"class": v.class, "detail": last.detail, "seed": seed, "replay": path}));
        println!("VIOLATION property={} replay={path}", prop.id);
    }
    write_evidence(prop, &tier, base, &reports, explored, t0.elapsed(), rechecked, &mismatches, &other, &unreproduced, known_seen.borrow().iter().cloned().collect(), &violations);
    if !other.is_empty() {
        println!("violations of other properties seen (class: runs, first seed): {other:?}");
    }
    if !mismatches.is_empty() {
        println!("seeds whose history was not the same twice: {:?}", mismatches);
    }
    println!(
        "{} runs ({corpus_runs} of the corpus), {:.1} s, {} distinct schedules",
        reports.len(),
        explored.as_secs_f64(),
        reports.iter().map(|r| r.sched_hash).collect::<BTreeSet<_>>().len()
    );
    if found.is_some() { 1 } else { 0 }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &props::Prop,
    tier: &str,
    seed: u64,
    reports: &[Report],
    explored: Duration,
    wall: Duration,
    rechecked: u64,
    mismatches: &[u64],
    other: &BTreeMap<String, (u64, u64)>,
    unreproduced: &[String],
    known: Vec<String>,
    violations: &[serde_json::Value],
) {
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut features: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial = BTreeSet::new();
    let (mut resets, mut refused, mut segments, mut short, mut bytes, mut sim, mut steps, mut rows) = (0, 0, 0, 0, 0, 0, 0, 0);
    let mut all = BTreeSet::new();
    for r in reports {
        for (k, v) in &r.fired {
            *fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.outcomes {
            *outcomes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.features {
            *features.entry(k.clone()).or_default() += v;
        }
        resets += r.resets;
        refused += r.refused;
        segments += r.segments;
        short += r.short_writes;
        bytes += r.bytes;
        sim += r.sim_ms;
        steps += r.steps;
        rows += r.rows;
        all.insert(r.sched_hash);
        let faulty = !r.fired.is_empty() || r.resets > 0 || r.refused > 0;
        if r.crash.is_none() && r.distributed && r.choices > 20 && (!prop.needs_fault || faulty) {
            nontrivial.insert(r.sched_hash);
        }
    }
    fired.insert("network connections broken".into(), resets);
    fired.insert("network connections refused".into(), refused);
    fired.insert("network short writes".into(), short);
    let hours = (explored.as_secs_f64() / 3600.0).max(1e-9);
    let samples: Vec<serde_json::Value> = reports
        .iter()
        .skip(corpus(prop.id).len())
        .filter(|r| r.distributed)
        .take(5)
        .map(|r| {
            let s = gen_::scenario(prop.id, r.seed);
            let queries: Vec<_> = s.queries.iter().map(|q| q.sql.clone()).collect();
            let faults: Vec<_> = s.faults.iter().map(|f| format!("{f:?}")).collect();
            serde_json::json!({"seed": r.seed, "workers": s.cluster.workers, "queries": queries, "faults": faults, "steps": r.steps, "choices": r.choices, "sim_ms": r.sim_ms, "fired": r.fired, "outcomes": r.outcomes, "fingerprint": format!("{:016x}", r.fingerprint)})
        })
        .collect();
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reports.len(),
            "distinct_nontrivial": nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "runs_per_hour": (reports.len() as f64 / hours) as u64,
            "seeds_per_hour": (reports.iter().map(|r| r.seed).collect::<BTreeSet<_>>().len() as f64 / hours) as u64,
            "simulated_seconds": sim / 1000,
            "scheduler_steps": steps,
            "distinct_schedules": all.len(),
            "distinct_schedules_measure": "hash of the sequence (task, node, spawn location) of every poll of the run",
            "faults_injected": fired,
            "outcomes": outcomes,
            "plan_features": features,
            "result_rows_compared": rows,
            "network_segments": segments,
            "network_bytes": bytes,
            "determinism": {"seeds_run_twice_in_two_processes": rechecked, "different_histories": mismatches},
            "violations_of_other_properties": other,
            "unreproduced": unreproduced,
            "known_findings_seen": known,
            "violation_details": violations,
            "real": ["the whole crate under test: planner, coordinator, workers, channels, codecs, work unit feeds, metrics", "tonic, hyper, h2, prost, arrow-flight encoding", "DataFusion planning and execution", "tokio primitives, timers and JoinSets (its scheduler asks the simulator which task to poll)"],
            "stub": ["TCP: in-memory byte pipes with latency, windows, segmentation, resets, stalls", "threads: one thread polls every task, in seeded order", "clocks and entropy: interposed libc calls", "input files: a leaf operator over seeded in-memory chunks", "process death: all tasks of a node are dropped, its connections reset or silent"]
        },
        "assumptions": ["the scheduler interleaves tasks at await points only: data races inside one poll are out of reach", "a connection to a dead host is reported broken by the transport within 5 simulated seconds"],
        "wall_s": wall.as_secs_f64(),
        "violations": violations.len(),
    });
    let path = format!("{ROOT}/evidence/{}.json", prop.id);
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    std::fs::write(path, serde_json::to_string_pretty(&ev).expect("evidence")).expect("evidence");
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let r: Replay = serde_json::from_str(&text).expect("replay file");
    let report = pool::one(&r.scenario, true, LIMIT * 2);
    for n in &report.notes {
        println!("  {n}");
    }
    for v in &report.violations {
        println!("{}: {}", v.class, v.detail);
    }
    println!("fingerprint {:016x}, recorded {:016x}", report.fingerprint, r.fingerprint);
    if report.violations.iter().any(|v| v.class == r.class) {
        println!("VIOLATION property={} replay={path}", r.property);
        1
    } else {
        println!("not reproduced");
        0
    }
}

fn show(prop: &str, seed: u64, verbose: bool) {
    let s = gen_::scenario(prop, seed);
    if verbose {
        println!("{}", serde_json::to_string_pretty(&s).unwrap());
    }
    show_scenario(s, verbose);
}

fn show_scenario(s: Scenario, verbose: bool) {
    let t = Instant::now();
    let (s, h) = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let h = drive::run(&s, false);
            (s, h)
        })
        .unwrap()
        .join()
        .unwrap();
    println!("{:016x} {:?} wall {:?}", h.fingerprint, h.sched, t.elapsed());
    for q in &h.queries {
        println!("q{} `{}` distributed={} {:?} rows {} expected {:?} {}..{}ms {:?}", q.id, q.sql_of(&s), q.distributed, q.outcome, q.rows.len(), h.expected.get(&q.id).map(|e| (e.rows.len(), e.error.clone())), q.started_ms, q.ended_ms, q.kinds);
        if verbose {
            println!("{}", q.plan);
        }
        if verbose && let Some(m) = &q.metrics {
            println!("{m:?}\n{}", m.text);
        }
    }
    for p in &h.panics {
        println!("panic {p:?}");
    }
    println!("nodes {:?} live {:?} open {:?} values {:?} fired {:?}", h.nodes, h.live, h.open, h.values, h.fired);
    for n in &h.notes {
        println!("  {n}");
    }
    if verbose {
        println!("{:?}", h.net);
        for e in &h.executed {
            println!("{e:?}");
        }
        for l in &h.leaves {
            println!("leaf {:>8.3}ms node{} q{} scan{} chunk{} {:?} {}", l.at_ns as f64 / 1e6, l.node, l.query, l.scan, l.chunk, l.kind, l.rows);
        }
    }
    for v in check::judge(&s, &h) {
        println!("! {}: {}", v.class, v.detail);
    }
}

type Trait = (&'static str, fn(&Scenario) -> bool);
const TRAITS: &[Trait] = &[
    ("dynamic", |s| s.cfg.dynamic),
    ("local", |s| s.cluster.local),
    ("default-resolver", |s| s.cluster.resolver == world::Resolver::Default),
    ("broadcast", |s| s.cfg.broadcast),
    ("isolator", |s| s.cfg.isolator),
    ("metrics", |s| s.cfg.metrics),
    ("small-buffer", |s| s.cfg.buffer_budget < 1 << 20),
    ("partial-reduce", |s| s.cfg.partial_reduce),
    ("max-tasks", |s| s.cfg.max_tasks > 0),
    ("cardinality", |s| s.cfg.cardinality > 1.0),
    ("hash-join", |s| s.cfg.hash_join),
    ("collect0", |s| s.cfg.collect_bytes == 0),
    ("route", |s| s.cfg.route != world::Route::Default),
    ("one-worker", |s| s.cluster.workers == 1),
    ("builder-delay", |s| s.cluster.builder_delay_ms > 0),
    ("max-message", |s| s.cluster.max_message.is_some()),
    ("compress", |s| s.cfg.compression != "none"),
    ("small-batches", |s| s.cfg.batch_size < 100),
    ("shuffle-batch", |s| s.cfg.shuffle_batch > 0),
    ("tiny-dynamic-bytes", |s| s.cfg.dynamic_bytes < 1000),
    ("feed", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::Feed)),
    ("by-task", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::TaskIndex)),
    ("parquet", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::Parquet)),
    ("csv", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::Csv)),
    ("json", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::Json)),
    ("hive", |s| s.tables.iter().any(|t| t.hive)),
    ("variants", |s| s.tables.iter().any(|t| t.leaf == data::LeafStyle::Variants)),
    ("stats", |s| s.tables.iter().any(|t| t.stats)),
    ("sorted", |s| s.tables.iter().any(|t| t.sorted)),
    ("one-key", |s| s.tables.iter().any(|t| t.keys == 1)),
    ("tp1", |s| s.cfg.target_partitions == 1),
    ("fifo", |s| s.sched.policy == rt::Policy::Fifo),
    ("union", |s| s.queries.iter().any(|q| q.sql.contains("UNION"))),
    ("join", |s| s.queries.iter().any(|q| q.sql.contains("JOIN"))),
    ("order", |s| s.queries.iter().any(|q| q.ordered)),
    ("limit", |s| s.queries.iter().any(|q| q.sql.contains("LIMIT"))),
];

fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    for p in props::PROPS {
        let ss: Vec<_> = (0..n).map(|i| gen_::scenario(p.id, 777_000 + i)).collect();
        let a = pool::many(ss.clone(), width(), LIMIT);
        let b = pool::many(ss, 3, LIMIT);
        for (x, y) in a.iter().zip(&b) {
            total += 1;
            if x.fingerprint != y.fingerprint || x.sched_hash != y.sched_hash {
                println!("{} seed {}: {:016x} {:016x}", p.id, x.seed, x.fingerprint, y.fingerprint);
                bad += 1;
            }
        }
    }
    println!("{total} seeds run twice, {bad} differ");
    if bad > 0 { 1 } else { 0 }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    warm_up();
    let code = match arg(0) {
        "check" => match props::find(arg(1)) {
            Some(p) => check(p),
            None => {
                eprintln!("no property {}", arg(1));
                2
            }
        },
        "replay" => replay(arg(1)),
        "run" => {
            show(arg(1), arg(2).parse().expect("seed"), args.len() > 3);
            0
        }
        "gen" => {
            println!("{}", serde_json::to_string_pretty(&gen_::scenario(arg(1), arg(2).parse().expect("seed"))).unwrap());
            0
        }
        // Minimised scenario of a violation, for the corpus.
        "small" => {
            let s = gen_::scenario(arg(1), arg(2).parse().expect("seed"));
            let (small, _) = mini::minimise(&s, arg(3), Duration::from_secs(45), width());
            println!("{}", serde_json::to_string_pretty(&small).unwrap());
            0
        }
        "show" => {
            let r: Replay = serde_json::from_str(&std::fs::read_to_string(arg(1)).unwrap()).unwrap();
            println!("{}", serde_json::to_string_pretty(&r.scenario).unwrap());
            show_scenario(r.scenario, true);
            0
        }
        "survey" => {
            let n: u64 = arg(2).parse().unwrap_or(500);
            let from: u64 = arg(3).parse().unwrap_or(0);
            let t0 = Instant::now();
            let rs = pool::many((0..n).map(|i| gen_::scenario(arg(1), from + i)).collect(), width(), LIMIT);
            let mut by: BTreeMap<String, Vec<(u64, u64, String)>> = BTreeMap::new();
            for r in &rs {
                for v in &r.violations {
                    let s = gen_::scenario(arg(1), r.seed);
                    let class = if pool::stock_too(&s, v, LIMIT) { format!("{} (stock)", v.class) } else { v.class.clone() };
                    by.entry(class).or_default().push((r.steps, r.seed, v.detail.clone()));
                }
            }
            for (class, mut v) in by {
                v.sort();
                let seeds: BTreeSet<u64> = v.iter().map(|x| x.1).collect();
                println!("== {class}: {} seeds", seeds.len());
                let all: Vec<Scenario> = (0..n).map(|i| gen_::scenario(arg(1), from + i)).collect();
                let mut line = String::new();
                for (name, f) in TRAITS {
                    let base = all.iter().filter(|s| f(s)).count() as f64 / all.len() as f64;
                    let here = all.iter().filter(|s| seeds.contains(&s.seed) && f(s)).count() as f64 / seeds.len() as f64;
                    if here > base * 1.4 || here < base * 0.5 {
                        line += &format!("{name} {:.0}%/{:.0}%  ", here * 100.0, base * 100.0);
                    }
                }
                println!("   {line}");
                for (steps, seed, d) in v.iter().take(4) {
                    println!("   seed {seed} ({steps} steps): {}", cluster::brief(d));
                }
            }
            let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
            let mut fired: BTreeMap<String, u64> = BTreeMap::new();
            for r in &rs {
                for (k, v) in &r.outcomes { *outcomes.entry(k.clone()).or_default() += v; }
                for (k, v) in &r.fired { *fired.entry(k.clone()).or_default() += v; }
            }
            println!("{n} runs in {:?}; {} distributed; outcomes {outcomes:?}; fired {fired:?}; mean steps {}", t0.elapsed(), rs.iter().filter(|r| r.distributed).count(), rs.iter().map(|r| r.steps).sum::<u64>() / n.max(1));
            0
        }
        "selftest" => selftest(arg(1).parse().unwrap_or(20)),
        other => {
            eprintln!("unknown command {other}");
            2
        }
    };
    std::process::exit(code);
}
