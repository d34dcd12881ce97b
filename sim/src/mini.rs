//! Minimises a failing scenario while the same class of violation persists.
use crate::data::LeafStyle;
use crate::pool::{self, Report};
use crate::rt::Policy;
use crate::world::*;
use std::time::{Duration, Instant};

fn candidates(s: &Scenario, choices: u64) -> Vec<Scenario> {
    let mut out: Vec<Scenario> = vec![];
    let mut add = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if serde_json::to_string(&c).ok() != serde_json::to_string(s).ok() {
            out.push(c);
        }
    };
    if s.queries.len() > 1 {
        for i in 0..s.queries.len() {
            add(&|c| {
                let q = c.queries.remove(i);
                if let Some(next) = c.queries.get_mut(i) {
                    next.after_previous = next.after_previous && q.after_previous;
                }
            });
        }
    }
    for i in 0..s.faults.len() {
        // The index of a fault is part of its error message: replace it, do not move the others.
        add(&|c| {
            if i + 1 == c.faults.len() {
                c.faults.pop();
            } else {
                c.faults[i] = Fault::ClockJump { at_ms: 0, node: 0, by_ms: 0 };
            }
        });
    }
    for i in 0..s.tables.len() {
        let name = s.tables[i].name.clone();
        if !s.queries.iter().any(|q| q.sql.contains(&name)) {
            add(&|c| {
                c.tables.remove(i);
            });
        }
    }
    add(&|c| c.sched.policy = Policy::Fifo);
    for l in [0, choices / 8, choices / 4, choices / 2, choices * 3 / 4, choices * 15 / 16] {
        if s.sched.limit.is_none_or(|x| l < x) {
            add(&|c| c.sched.limit = Some(l));
        }
    }
    add(&|c| {
        c.net.lat_us = (1, 50);
        c.net.spike_pct = 0;
        c.net.window = 1 << 20;
        c.net.segment = 0;
    });
    add(&|c| c.net.spike_pct = 0);
    add(&|c| c.net.segment = 0);
    add(&|c| c.cluster.local = false);
    add(&|c| c.cluster.builder_delay_ms = 0);
    add(&|c| c.cluster.skew_ms.clear());
    add(&|c| c.cluster.max_message = None);
    add(&|c| c.cluster.memory = None);
    add(&|c| c.cluster.resolver = Resolver::Default);
    if s.cluster.workers > 1 {
        add(&|c| c.cluster.workers -= 1);
    }
    add(&|c| c.cfg.headers = false);
    add(&|c| c.cfg.rewriters = 0);
    add(&|c| c.cfg.dynamic = false);
    add(&|c| c.cfg.metrics = false);
    add(&|c| c.cfg.compression = "none".into());
    add(&|c| c.cfg.shuffle_batch = 0);
    add(&|c| c.cfg.partial_reduce = false);
    add(&|c| c.cfg.isolator = false);
    add(&|c| c.cfg.broadcast = false);
    add(&|c| c.cfg.cardinality = 1.0);
    add(&|c| c.cfg.max_tasks = 0);
    add(&|c| c.cfg.buffer_budget = 64 << 20);
    add(&|c| c.cfg.batch_size = 8192);
    add(&|c| c.cfg.route = Route::Default);
    if s.cfg.target_partitions > 1 {
        add(&|c| c.cfg.target_partitions -= 1);
    }
    for i in 0..s.tables.len() {
        let t = &s.tables[i];
        if t.chunks > 1 {
            add(&|c| c.tables[i].chunks /= 2);
        }
        if t.rows > 1 {
            add(&|c| c.tables[i].rows /= 2);
        }
        if t.tasks > 1 {
            add(&|c| c.tables[i].tasks -= 1);
        }
        if t.partitions > 1 {
            add(&|c| c.tables[i].partitions -= 1);
        }
        add(&|c| c.tables[i].delay_ms = 0);
        add(&|c| c.tables[i].feed_delay_ms = 0);
        add(&|c| c.tables[i].tail = 0);
        add(&|c| c.tables[i].wide = 8);
        add(&|c| c.tables[i].empties = false);
        add(&|c| c.tables[i].null_pct = 0);
        add(&|c| c.tables[i].sorted = false);
        add(&|c| c.tables[i].leaf = LeafStyle::Variants);
        add(&|c| c.tables[i].batch = 8192);
    }
    for i in 0..s.queries.len() {
        add(&|c| c.queries[i].consume = Consume::All);
        add(&|c| c.queries[i].at_ms = 0);
    }
    out
}

pub fn minimise(start: &Scenario, class: &str, budget: Duration, width: usize) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut tried = 0;
    let mut choices = pool::one(&best, false, Duration::from_secs(60)).choices;
    loop {
        let cands = candidates(&best, choices);
        let mut improved = false;
        for group in cands.chunks(width) {
            if t0.elapsed() > budget {
                return (best, tried);
            }
            let reports = pool::many(group.to_vec(), width, Duration::from_secs(20));
            tried += reports.len() as u64;
            let fails = |(r, s): (&Report, &Scenario)| {
                r.crash.as_deref() != Some("wall-timeout")
                    && r.violations.iter().any(|v| v.class == class && !pool::stock_too(s, v, Duration::from_secs(20)))
            };
            if let Some(i) = reports.iter().zip(group).position(fails) {
                best = group[i].clone();
                choices = reports[i].choices;
                improved = true;
                break;
            }
        }
        if !improved {
            return (best, tried);
        }
    }
}
