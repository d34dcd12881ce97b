//! Oracles: what a recorded history must satisfy.
use crate::data::{ErrKind, LeafFailure, LeafStyle};
use crate::prng::Rng;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

/// Queries from this id on are issued after the faults, and must succeed.
/// Queries that may not read all of their input.
const PARTIAL: [&str; 9] =
    ["LIMIT", "JOIN", "IN (", "EXISTS", "INTERSECT", "EXCEPT", "RECURSIVE", "= x.k)", "> (SELECT"];

pub const AFTER: u64 = 100;

pub struct Judge<'a> {
    pub s: &'a Scenario,
    pub h: &'a History,
    out: Vec<Violation>,
}

pub fn fault_kind(f: &Fault) -> Option<&ErrKind> {
    match f {
        Fault::Leaf { failure: LeafFailure::Error(k) | LeafFailure::AtExecute(k), .. }
        | Fault::Feed { failure: LeafFailure::Error(k), .. }
        | Fault::Session { kind: k, .. }
        | Fault::Codec { kind: k, .. }
        | Fault::Rewrite { kind: k, panic: false, .. } => Some(k),
        _ => None,
    }
}

/// Faults that only ever fail with their own error.
pub fn is_error(f: &Fault) -> bool {
    fault_kind(f).is_some()
}

pub fn is_panic(f: &Fault) -> bool {
    matches!(
        f,
        Fault::Leaf { failure: LeafFailure::Panic, .. }
            | Fault::Feed { failure: LeafFailure::Panic, .. }
            | Fault::Rewrite { panic: true, .. }
    )
}

pub fn is_harmless(f: &Fault) -> bool {
    matches!(
        f,
        Fault::Leaf { failure: LeafFailure::Stall(_), .. }
            | Fault::Feed { failure: LeafFailure::Stall(_), .. }
            | Fault::ClockJump { .. }
    ) || matches!(f, Fault::Pause { for_ms, .. } if *for_ms < 4_000)
        || matches!(f, Fault::Partition { for_ms, then_reset: false, .. } if *for_ms < 4_000)
}

fn sorted(rows: &[String]) -> Vec<&String> {
    let mut v: Vec<&String> = rows.iter().collect();
    v.sort();
    v
}

fn diff(got: &[String], want: &[String]) -> String {
    let mut count: BTreeMap<&String, i64> = BTreeMap::new();
    for r in want {
        *count.entry(r).or_default() += 1;
    }
    for r in got {
        *count.entry(r).or_default() -= 1;
    }
    let missing: Vec<_> = count.iter().filter(|(_, n)| **n > 0).take(3).collect();
    let extra: Vec<_> = count.iter().filter(|(_, n)| **n < 0).take(3).collect();
    format!("got {} rows, expected {}; missing {missing:?}, extra {extra:?}", got.len(), want.len())
}

/// Whether every row of `got` is, with its multiplicity, in `of`.
fn sub_multiset(got: &[String], of: &[String]) -> bool {
    let mut count: HashMap<&String, i64> = HashMap::new();
    for r in of {
        *count.entry(r).or_default() += 1;
    }
    got.iter().all(|r| {
        let n = count.entry(r).or_default();
        *n -= 1;
        *n >= 0
    })
}

impl<'a> Judge<'a> {
    fn bad(&mut self, class: &str, detail: impl Into<String>) {
        let mut detail = detail.into();
        if detail.len() > 900 {
            let mut cut = 900;
            while !detail.is_char_boundary(cut) {
                cut -= 1;
            }
            detail.truncate(cut);
        }
        if self.out.iter().filter(|v| v.class == class).count() < 3 {
            self.out.push(Violation { class: class.into(), detail });
        }
    }

    /// DataFusion itself may execute a plan again after an error of its execution.
    fn clean(&self, id: u64) -> bool {
        let again = self.s.faults.iter().enumerate().any(|(i, f)| {
            matches!(f, Fault::Leaf { failure: LeafFailure::AtExecute(_), .. }) && self.h.hits.contains(&i)
        });
        if again {
            return false;
        }
        self.h.queries.iter().filter(|r| r.id == id).all(|r| {
            matches!(r.outcome, Outcome::Ok | Outcome::Dropped | Outcome::Pending | Outcome::Killed)
        })
    }

    fn in_file(&self, f: &Fault) -> bool {
        let Fault::Leaf { table, .. } = f else { return false };
        self.s.tables.iter().any(|t| t.name == *table && crate::files::is_file(t))
    }

    fn query(&self, id: u64) -> &Query {
        self.s.queries.iter().find(|q| q.id == id).expect("query")
    }

    /// A failing feed reaches the client as an error at the end of its query.
    fn feed_fails(&self) -> bool {
        self.s.faults.iter().enumerate().any(|(i, f)| {
            matches!(f, Fault::Feed { failure, .. } if !matches!(failure, LeafFailure::Stall(_)))
                && self.h.hits.contains(&i)
        })
    }

    /// Faults that may make a query fail.
    fn faults_of(&self, q: &Query) -> Vec<(usize, &'a Fault)> {
        if q.id >= AFTER {
            return vec![];
        }
        let s = self.s;
        s.faults
            .iter()
            .enumerate()
            .filter(|(_, f)| match f {
                Fault::Leaf { query, table, .. } | Fault::Feed { query, table, .. } => {
                    query.is_none_or(|x| x == q.id) && q.sql.contains(table.as_str())
                }
                Fault::Codec { query, .. } => *query == q.id,
                _ => true,
            })
            .filter(|(_, f)| !is_harmless(f))
            .filter(|(i, f)| !(is_error(f) || is_panic(f)) || self.h.hits.contains(i))
            .collect()
    }

    fn outcomes(&mut self) {
        let coordinator_dies =
            self.s.faults.iter().any(|f| matches!(f, Fault::CoordinatorCrash { .. }));
        for run in &self.h.queries {
            let q = self.query(run.id).clone();
            let what = format!("query {} `{}`", q.id, q.sql);
            let exp = self.h.expected.get(&q.id).cloned().unwrap_or_default();
            let faults = self.faults_of(&q);
            let bad_route = matches!(self.s.cfg.route, Route::WrongCount(d) if d != 0)
                || self.s.cfg.route == Route::Error;
            match &run.outcome {
                Outcome::Pending => {
                    if self.h.sched.overrun {
                        self.bad("livelock", format!("{what}: still not done after {} steps", self.h.sched.steps));
                    } else {
                        self.bad("hang", format!("{what}: not done at the horizon ({} ms), {} rows", self.s.horizon_ms, run.rows.len()));
                    }
                }
                Outcome::Killed => {
                    if !coordinator_dies {
                        self.bad("killed", what.to_string());
                    }
                }
                Outcome::Panic(msg) => {
                    let injected = faults.iter().any(|(i, f)| is_panic(f) && msg.contains(&format!("dst-fault-{i}")));
                    if !injected {
                        self.bad("client-panic", format!("{what}: {msg}"));
                    }
                }
                Outcome::PlanError(msg) => {
                    if exp.error.is_none() {
                        self.bad("plan-error", format!("{what}: {msg}"));
                    }
                }
                Outcome::Ok => {
                    if let Some(e) = &exp.error {
                        self.bad("missing-error", format!("{what}: succeeded, expected {e}"));
                        continue;
                    }
                    if bad_route && run.distributed && run.plan.contains("Stage") {
                        self.bad("route-accepted", what.clone());
                    }
                    if q.consume == Consume::Analyze {
                        if self.s.cfg.metrics
                            && !q.sql.contains("LIMIT 0")
                            && !run.rows.iter().any(|r| r.contains("output_rows"))
                        {
                            self.bad("metrics-missing", format!("{what}: EXPLAIN ANALYZE without metrics"));
                        }
                        if crate::cluster::verbose(&q) && q.subset_of.is_none() && !run.plan.is_empty() && exp.error.is_none() {
                            let count = exp.rows.len();
                            // One row per heading, the last but one of which has the number of rows.
                            if run.rows.len() != 4 || !run.rows[2].ends_with(&format!("|{count}")) {
                                let got: Vec<_> = run.rows.iter().map(|r| r.chars().take(60).collect::<String>()).collect();
                                self.bad("analyze-wrong", format!("{what}: expected {count} rows, explained {got:?}"));
                            }
                        }
                        continue;
                    }
                    self.rows(&q, run, &exp, &what);
                    // All the input of these queries is read to its end, and with it its errors.
                    let full = q.consume == Consume::All
                        && !PARTIAL.iter().any(|x| q.sql.contains(x));
                    let alone = self.s.queries.len() == 1 && q.repeat == 0;
                    for (i, f) in &faults {
                        let own = match f {
                            Fault::Leaf { query, .. } | Fault::Feed { query, .. } => *query == Some(q.id) && q.repeat == 0,
                            _ => false,
                        };
                        if full && (alone || own) && (is_error(f) || is_panic(f)) {
                            self.bad("swallowed-error", format!("{what}: succeeded although fault {i} was hit: {f:?}"));
                        }
                    }
                }
                Outcome::Dropped => {
                    if !self.feed_fails() && !sub_multiset(&run.rows, &exp.rows) {
                        self.bad("rows", format!("{what} (dropped): {}", diff(&run.rows, &exp.rows)));
                    }
                }
                Outcome::Error(msg) => {
                    if exp.error.is_some() {
                        continue;
                    }
                    if !self.feed_fails() && !sub_multiset(&run.rows, &exp.rows) {
                        self.bad("rows", format!("{what} (failed): {}", diff(&run.rows, &exp.rows)));
                    }
                    if bad_route {
                        continue;
                    }
                    if self.s.cluster.memory.is_some() && msg.contains("Resources exhausted") {
                        continue;
                    }
                    if faults.is_empty() {
                        self.bad("spurious-error", format!("{what}: {msg}"));
                        continue;
                    }
                    // Only errors were injected: the client sees one of them.
                    if faults.iter().all(|(_, f)| is_error(f)) {
                        let seen: Vec<_> = faults
                            .iter()
                            .filter(|(i, f)| msg.contains(&format!("dst-fault-{i}")) && is_error(f))
                            .collect();
                        // DataFusion executes a repartitioned input again after it failed to execute,
                        // while a feed can only be consumed once.
                        let again = msg.contains("was already consumed")
                            && faults.iter().any(|(_, f)| matches!(f, Fault::Leaf { failure: LeafFailure::AtExecute(_), .. }));
                        if again {
                            continue;
                        }
                        if seen.is_empty() {
                            self.bad("wrong-error", format!("{what}: {msg}"));
                        } else if seen.iter().any(|(_, f)| self.in_file(f)) {
                            // File scans wrap the errors of the object store in their own ways.
                        } else {
                            let injected: Vec<_> = seen
                                .iter()
                                .map(|(i, f)| crate::errs::sig(&fault_kind(f).expect("kind").build(&format!("dst-fault-{i}"))))
                                .collect();
                            if !injected.iter().any(|x| run.sigs.contains(x)) {
                                self.bad("error-kind", format!("{what}: injected {injected:?}, seen {:?}", run.sigs));
                            }
                        }
                    }
                }
            }
        }
    }

    fn rows(&mut self, q: &Query, run: &QueryRun, exp: &Expected, what: &str) {
        if !run.schema_ok {
            self.bad("schema", format!("{what}: batches of another schema"));
        }
        if q.subset_of.is_some() {
            let limit: usize =
                q.sql.rsplit("LIMIT ").next().and_then(|x| x.trim().parse().ok()).unwrap_or(0);
            let want = limit.min(exp.rows.len());
            if run.rows.len() != want || !sub_multiset(&run.rows, &exp.rows) {
                self.bad("rows", format!("{what}: got {} rows, expected any {want} of {}; {}", run.rows.len(), exp.rows.len(), diff(&run.rows, &exp.rows)));
            }
        } else if sorted(&run.rows) != sorted(&exp.rows) {
            self.bad("rows", format!("{what}: {}", diff(&run.rows, &exp.rows)));
        } else if q.ordered && run.rows != exp.rows {
            let at = run.rows.iter().zip(&exp.rows).position(|(a, b)| a != b).unwrap_or(0);
            self.bad("order", format!("{what}: row {at} is {}, expected {}", run.rows[at], exp.rows[at]));
        }
    }

    fn panics(&mut self) {
        // A panic of a future shared by several streams is seen by all of them.
        let injected = self.s.faults.iter().enumerate().any(|(i, f)| is_panic(f) && self.h.hits.contains(&i));
        for (node, p) in &self.h.panics {
            if !p.contains("dst-fault") && !(injected && p.contains("inner future panicked during poll")) {
                self.bad("internal-panic", format!("node {node}: {p}"));
            }
        }
    }

    /// Input is read at most once, and every partition of every task executed at most once.
    fn exactly_once(&mut self) {
        let mut starts: BTreeMap<(u64, u64, usize), Vec<usize>> = BTreeMap::new();
        for l in self.h.leaves.iter().filter(|l| l.kind == LeafKind::Start && self.clean(l.query)) {
            starts.entry((l.query, l.scan, l.chunk)).or_default().push(l.node);
        }
        for ((q, scan, chunk), nodes) in starts {
            if nodes.len() > 1 {
                self.bad("read-twice", format!("query {q} scan {scan} chunk {chunk} read on nodes {nodes:?}"));
            }
        }
        let mut execs: BTreeMap<(u64, u64, usize, usize, usize), Vec<usize>> = BTreeMap::new();
        for e in self.h.executed.iter().filter(|e| self.clean(e.query)) {
            execs.entry((e.query, e.scan, e.task_count, e.task_index, e.partition)).or_default().push(e.node);
        }
        for (k, nodes) in execs {
            if nodes.len() > 1 {
                self.bad("executed-twice", format!("(query, scan, tasks, task, partition) {k:?} on nodes {nodes:?}"));
            }
        }
    }

    fn slack_ms(&self) -> u64 {
        let n = &self.s.net;
        let worst = n.lat_us.1 * if n.spike_pct > 0 { 100 } else { 1 } / 1000 + 1;
        let leaf = self.s.tables.iter().map(|t| t.delay_ms.max(t.feed_delay_ms)).max().unwrap_or(0);
        500 + 8 * worst + leaf
    }

    /// After a query ends, its work on the workers ends.
    fn stops(&mut self) {
        let faults_end = self.s.faults.iter().map(|f| f.last_ms()).max().unwrap_or(0);
        let slack = self.slack_ms();
        for run in &self.h.queries {
            if matches!(run.outcome, Outcome::Pending) {
                continue;
            }
            let until = (run.ended_ms.max(faults_end) + slack) * 1_000_000;
            let late: Vec<_> = self
                .h
                .leaves
                .iter()
                .filter(|l| l.query == run.id && l.kind == LeafKind::Batch && l.at_ns > until)
                .collect();
            if !late.is_empty() {
                let d = format!(
                    "query {} ended ({:?}) at {} ms, {} batches were read after {} ms, up to {} ms",
                    run.id,
                    crate::cluster::brief(&format!("{:?}", run.outcome)),
                    run.ended_ms,
                    late.len(),
                    until / 1_000_000,
                    late.last().map(|l| l.at_ns / 1_000_000).unwrap_or(0)
                );
                self.bad("work-after-end", d);
            }
        }
    }

    fn leaks(&mut self) {
        if self.h.sched.overrun || self.h.queries.iter().any(|q| q.outcome == Outcome::Pending) {
            return;
        }
        // A request that arrives after its query has ended early may leave an abandoned task behind
        // for as long as workers keep those. Nothing ends early when every query is read fully, but
        // for a join with an empty side, which might not wait for its connections to the other one.
        let strict = self.s.faults.is_empty()
            && self.h.queries.iter().zip(&self.s.queries).all(|(r, q)| {
                r.outcome == Outcome::Ok
                    && !q.sql.contains("LIMIT")
                    && !r.plan.contains("fetch=")
                    && !r.plan.contains("JoinExec")
            });
        for (node, end) in &self.h.nodes {
            if end.tasks_late > 0 || (strict && end.tasks_running > 0) {
                let n = end.tasks_running.max(end.tasks_late);
                self.bad("leak-task-entries", format!("node {node} still holds {n} tasks"));
            }
            if end.plans_held > 0 {
                let n = end.plans_held;
                self.bad("leak-plans", format!("node {node} still holds the plans of {n} tasks"));
            }
            if end.memory > 0 {
                self.bad("leak-memory", format!("node {node} still reserves {} bytes", end.memory));
            }
        }
        if self.h.values.get("coordinator_memory").copied().unwrap_or(0) > 0 {
            self.bad("leak-memory", "the coordinator still reserves memory");
        }
        if !self.h.live.is_empty() {
            self.bad("leak-running", format!("background work still running: {:?}", self.h.live));
        }
        let mut open: BTreeMap<u64, (u64, u64, usize)> = BTreeMap::new();
        for l in &self.h.leaves {
            match l.kind {
                // Streams of a node that crashed are gone with it.
                LeafKind::Start
                    if !self.h.crashes.iter().any(|(node, step)| *node == l.node && *step >= l.step) =>
                {
                    open.insert(l.stream, (l.query, l.scan, l.chunk));
                }
                LeafKind::Closed | LeafKind::Dropped => {
                    open.remove(&l.stream);
                }
                _ => {}
            }
        }
        let held: Vec<_> = open.values().take(3).collect();
        if !held.is_empty() {
            self.bad("leak-streams", format!("input streams still open (query, scan, chunk): {held:?}"));
        }
    }

    fn metrics(&mut self) {
        for run in &self.h.queries {
            let Some(m) = &run.metrics else { continue };
            if !m.ok {
                self.bad("metrics-missing", format!("query {}: {}", run.id, m.error));
                continue;
            }
            if !self.s.cfg.metrics {
                continue;
            }
            // Known, see below.
            let union = run.plan.contains("UnionExec") && run.plan.contains("CAST(");
            if let Some(what) = &m.leaf
                && !union
            {
                self.bad("metrics-kinds", format!("query {}: {what}\n{}", run.id, m.text));
            }
            let read: usize = self
                .h
                .leaves
                .iter()
                .filter(|l| l.query == run.id && l.kind == LeafKind::Batch)
                .map(|l| l.rows)
                .sum();
            if run.outcome == Outcome::Ok
                && self.query(run.id).subset_of.is_none()
                && !self.query(run.id).sql.contains("LIMIT")
                && !self.s.tables.iter().any(|t| crate::files::is_file(t))
                && m.leaf_rows.unwrap_or(0) != read
            {
                // Known: the inputs of a union are coerced differently in the plan of the worker.
                self.bad(
                    if union { "metrics-wrong-union" } else { "metrics-wrong" },
                    format!("query {}: leaves report {:?} rows, {} were read\n{}", run.id, m.leaf_rows, read, m.text),
                );
            }
            if run.outcome == Outcome::Ok
                && self.query(run.id).consume == Consume::ThenMetrics
                && !PARTIAL.iter().any(|x| self.query(run.id).sql.contains(x))
                && let Some(what) = &m.inconsistent
            {
                // See above.
                if !(run.plan.contains("UnionExec") && run.plan.contains("CAST(")) {
                    self.bad("metrics-inconsistent", format!("query {}: {what}\n{}", run.id, m.text));
                }
            }
        }
    }

    fn feeds(&mut self) {
        let mut sent: BTreeMap<(u64, u64), Vec<usize>> = BTreeMap::new();
        for (q, scan, _, c) in &self.h.sent {
            sent.entry((*q, *scan)).or_default().push(*c);
        }
        let mut received: BTreeMap<(u64, u64), Vec<usize>> = BTreeMap::new();
        for (q, scan, _, c) in &self.h.received {
            received.entry((*q, *scan)).or_default().push(*c);
        }
        for ((q, scan), units) in &received {
            let mut seen = BTreeSet::new();
            for u in units {
                if !seen.insert(*u) {
                    self.bad("feed-duplicate", format!("query {q} scan {scan}: unit {u} delivered twice"));
                }
                if !sent.get(&(*q, *scan)).is_some_and(|s| s.contains(u)) {
                    self.bad("feed-invented", format!("query {q} scan {scan}: unit {u} was never sent"));
                }
            }
        }
        // Order within every sender partition, as seen by whoever received its units.
        let mut home: HashMap<(u64, u64, usize), (usize, usize)> = HashMap::new();
        for (q, scan, p, c) in &self.h.sent {
            let at = self.h.sent.iter().filter(|x| (x.0, x.1, x.2) == (*q, *scan, *p)).position(|x| x.3 == *c);
            home.insert((*q, *scan, *c), (*p, at.unwrap_or(0)));
        }
        let mut last: HashMap<(u64, u64, usize), usize> = HashMap::new();
        for (q, scan, _, c) in &self.h.received {
            if let Some((p, at)) = home.get(&(*q, *scan, *c)) {
                let l = last.entry((*q, *scan, *p)).or_insert(0);
                if *at < *l {
                    self.bad("feed-order", format!("query {q} scan {scan} partition {p}: unit {c} out of order"));
                }
                *l = *at;
            }
        }
        let mut opened: BTreeMap<(u64, u64, usize), u64> = BTreeMap::new();
        for (q, scan, p, _) in self.h.feeds.iter().filter(|f| self.clean(f.0)) {
            *opened.entry((*q, *scan, *p)).or_default() += 1;
        }
        for (k, n) in opened {
            if n > 1 {
                self.bad("feed-duplicate", format!("(query, scan, partition) {k:?} opened {n} times"));
            }
        }
    }

    fn routes(&mut self) {
        let nodes = crate::cluster::worker_nodes(self.s);
        let mut checked: Vec<&Executed> = vec![];
        for e in &self.h.executed {
            // The children of an isolated union see their own task indexes.
            if self.s.cfg.isolator && self.query(e.query).sql.contains("UNION") {
                continue;
            }
            checked.push(e);
            if self.s.cfg.max_tasks > 0 && self.s.cfg.hand.is_none() && e.task_count > self.s.cfg.max_tasks {
                self.bad("too-many-tasks", format!("query {}: {} tasks, at most {}", e.query, e.task_count, self.s.cfg.max_tasks));
            }
            let expected: Vec<usize> = match &self.s.cfg.route {
                Route::Seeded(x) => {
                    let mut rng = Rng::fork(self.s.seed ^ x, e.task_count as u64);
                    (0..e.task_count).map(|_| rng.pick(&nodes)).collect()
                }
                Route::Same(k) => (0..e.task_count).map(|_| nodes[k % nodes.len()]).collect(),
                _ => continue,
            };
            // The coordinator's own stage is not routed.
            if e.task_count == 1 && e.node == 0 {
                continue;
            }
            if expected.get(e.task_index) != Some(&e.node) {
                self.bad(
                    "routed-elsewhere",
                    format!("query {} scan {} task {}/{} ran on node {}, routed to {:?}", e.query, e.scan, e.task_index, e.task_count, e.node, expected),
                );
            }
        }
        if self.s.cfg.route == Route::Default {
            // One URL per task of a stage while there are enough workers.
            let mut used: BTreeMap<(u64, u64, usize), BTreeMap<usize, usize>> = BTreeMap::new();
            for e in checked {
                used.entry((e.query, e.scan, e.task_count)).or_default().insert(e.task_index, e.node);
            }
            for ((q, scan, count), by_task) in used {
                let distinct: BTreeSet<_> = by_task.values().collect();
                let spread = by_task.len().min(nodes.len());
                if count <= nodes.len() && distinct.len() < spread {
                    self.bad("unbalanced", format!("query {q} scan {scan}: {} tasks on {} nodes of {}", by_task.len(), distinct.len(), nodes.len()));
                }
            }
        }
    }

    fn headers(&mut self) {
        if !self.s.cfg.headers {
            return;
        }
        for b in &self.h.sessions {
            let Some(qid) = b.headers.get("x-sim-query").and_then(|x| x.parse::<u64>().ok()) else {
                self.bad("headers-missing", format!("node {}: session without the query's headers: {:?}", b.node, b.headers));
                continue;
            };
            let Some(q) = self.s.queries.iter().find(|q| q.id == qid) else {
                self.bad("headers-wrong", format!("node {}: {:?}", b.node, b.headers));
                continue;
            };
            if b.headers.get("x-sim-token") != Some(&q.token) {
                self.bad("headers-wrong", format!("node {}: token {:?}, expected {}", b.node, b.headers.get("x-sim-token"), q.token));
            }
            if b.headers.get("x-sim-note") != Some(&q.note) {
                self.bad("headers-wrong", format!("node {}: note {:?}, expected {:?}", b.node, b.headers.get("x-sim-note"), q.note));
            }
            let multi = b.headers.get("x-sim-multi").cloned().unwrap_or_default();
            if multi != q.multi.join("|") {
                self.bad("headers-wrong", format!("node {}: the values {multi:?}, expected {:?}", b.node, q.multi));
            }
            let want = format!("{}/{}/{}/{}", q.token, q.id * 7 + 1, q.id % 2 == 1, q.note);
            if b.option.as_ref() != Some(&want) {
                self.bad("options-wrong", format!("node {}: options {:?}, expected {want}", b.node, b.option));
            }
        }
        for e in &self.h.executed {
            let want = self.s.queries.iter().find(|q| q.id == e.query).map(|q| q.token.clone());
            if e.token != want {
                self.bad("options-wrong", format!("query {} on node {}: token {:?}, expected {want:?}", e.query, e.node, e.token));
            }
        }
    }

    fn rewrites(&mut self) {
        let want: String = (0..self.s.cfg.rewriters).map(|i| i.to_string()).collect();
        for e in &self.h.executed {
            let head = e.node == 0 && e.mark.is_empty();
            if e.mark != want && !head {
                self.bad("rewrite-wrong", format!("query {} scan {} task {} on node {}: rewritten by `{}`, expected `{want}`", e.query, e.scan, e.task_index, e.node, e.mark));
            }
        }
    }

    fn shortcuts(&mut self) {
        for n in 1..=self.s.cluster.workers {
            if let Some((a, b)) = self.h.net.per_link.get(&format!("{n}-{n}")) {
                self.bad("self-connection", format!("node {n} talks to itself over the network: {a}+{b} bytes"));
            }
        }
        if self.s.cluster.local
            && let Some((a, b)) = self.h.net.per_link.get("0-0")
        {
            self.bad("self-connection", format!("the coordinator talks to itself over the network: {a}+{b} bytes"));
        }
    }

    fn backpressure(&mut self) {
        for (slot, q) in self.s.queries.iter().enumerate() {
            let get = |k: &str| self.h.values.get(&format!("pause_{slot}_{k}")).copied();
            let (Some(bytes), Some(tail)) = (get("bytes"), get("tail_bytes")) else { continue };
            let limit = self.s.params.get("pause_limit").copied().unwrap_or(i64::MAX);
            let (rows, most) = (get("rows").unwrap_or(0), self.s.params.get("pause_rows").copied().unwrap_or(i64::MAX));
        if rows > most {
                self.bad("unbounded-buffer", format!("query {}: {rows} rows were produced while nothing was read, at most {most} expected", q.id));
            }
            if bytes > limit {
                self.bad("unbounded-buffer", format!("query {}: {bytes} bytes arrived while nothing was read, at most {limit} expected ({tail} of them late)", q.id));
            }
        }
    }
}

/// What a run violates, whatever property it was generated for.
pub fn judge(s: &Scenario, h: &History) -> Vec<Violation> {
    let mut j = Judge { s, h, out: vec![] };
    for (class, detail) in &h.violations {
        j.bad(class, detail.clone());
    }
    if s.mode.is_empty() {
        j.outcomes();
        j.exactly_once();
        j.stops();
        j.metrics();
        j.feeds();
        j.routes();
        j.headers();
        j.rewrites();
        j.shortcuts();
        j.backpressure();
    }
    j.panics();
    j.leaks();
    let _ = LeafStyle::Feed;
    j.out
}
