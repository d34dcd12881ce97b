//! Seeded scenarios.
use crate::check::AFTER;
use crate::data::{ErrKind, LeafFailure, LeafStyle, Table};
use crate::net::NetCfg;
use crate::prng::Rng;
use crate::rt::{Policy, Sched};
use crate::world::*;
use std::collections::BTreeMap;

pub struct Gen {
    pub r: Rng,
}

impl Gen {
    pub fn sched(&mut self) -> Sched {
        let r = &mut self.r;
        let policy = match r.below(10) {
            0 => Policy::Fifo,
            1..=3 => Policy::Random,
            4 => Policy::Lifo { pct: r.pick(&[50, 80, 95]) },
            5 | 6 => Policy::Priority { changes: r.pick(&[1, 5, 20]) },
            7 => Policy::Starve { node: r.usize(0, 3) },
            _ => Policy::Sticky { pct: r.pick(&[70, 90, 97]) },
        };
        Sched { policy, seed: r.next() >> 1, limit: None, max_steps: 400_000 }
    }

    pub fn net(&mut self) -> NetCfg {
        let r = &mut self.r;
        NetCfg {
            seed: r.next() >> 1,
            lat_us: r.pick(&[(1, 50), (100, 900), (500, 5_000), (1, 40_000)]),
            spike_pct: r.pick(&[0, 0, 1, 5]),
            window: r.pick(&[1 << 20, 1 << 16, 1 << 13]),
            segment: r.pick(&[0, 0, 0, 4096, 701]),
        }
    }

    pub fn cluster(&mut self) -> Cluster {
        let r = &mut self.r;
        Cluster {
            workers: r.pick(&[1, 2, 2, 3, 3, 4]),
            local: r.pct(40),
            resolver: r.pick(&[Resolver::Default, Resolver::Default, Resolver::Lazy, Resolver::PerCall]),
            memory: None,
            skew_ms: vec![],
            max_message: r.pick(&[None, None, Some(2048), Some(64 << 10)]),
            builder_delay_ms: r.pick(&[0, 0, 5, 200]),
        }
    }

    pub fn cfg(&mut self) -> Cfg {
        let r = &mut self.r;
        Cfg {
            stock: false,
            hand: None,
            target_partitions: r.pick(&[1, 2, 2, 3, 4]),
            batch_size: r.pick(&[3, 16, 64, 8192]),
            dynamic: r.pct(40),
            dynamic_bytes: r.pick(&[1, 200, 2_000, 50_000, 64 << 20]),
            metrics: r.pct(60),
            compression: r.pick(&["none", "lz4", "zstd"]).to_string(),
            shuffle_batch: r.pick(&[0, 0, 4, 8192]),
            max_tasks: r.pick(&[0, 0, 1, 2, 5]),
            partial_reduce: r.pct(40),
            broadcast: r.pct(60),
            isolator: r.pct(50),
            cardinality: r.pick(&[1.0, 1.0, 1.5, 3.0]),
            buffer_budget: r.pick(&[64 << 20, 64 << 20, 64 << 10, 4096, 256]),
            hash_join: r.pct(80),
            collect_bytes: r.pick(&[0, 4096, 1 << 20]),
            rewriters: r.pick(&[0, 0, 0, 1, 2]),
            headers: r.pct(50),
            route: match r.below(6) {
                0 | 1 => Route::Seeded(r.next() >> 1),
                2 => Route::Same(r.usize(0, 3)),
                _ => Route::Default,
            },
            file_bytes: 0,
            file_pushdown: false,
            file_partitions: 0,
            file_split: false,
        }
    }

    pub fn table(&mut self, name: &str) -> Table {
        let r = &mut self.r;
        let tasks = r.pick(&[1, 2, 2, 3, 3, 4]);
        Table {
            exact: false,
            name: name.to_string(),
            seed: r.next() >> 1,
            chunks: r.pick(&[1, 2, 4, 6, 9, 9, 12]),
            rows: r.pick(&[1, 6, 20, 20, 50]),
            batch: r.pick(&[1, 5, 16, 8192]),
            keys: r.pick(&[1, 3, 10, 40]),
            null_pct: r.pick(&[0, 10, 40]),
            sorted: r.pct(40),
            partitions: r.usize(1, 4),
            tasks,
            max_tasks: r.pct(30),
            leaf: r.pick(&[LeafStyle::Variants, LeafStyle::TaskIndex, LeafStyle::Feed]),
            stats: r.pct(60),
            delay_ms: r.pick(&[0, 0, 2, 40]),
            wide: r.pick(&[8, 40, 400]),
            feed_delay_ms: r.pick(&[0, 0, 3, 60]),
            tail: if r.pct(12) { r.pick(&[1, 4]) } else { 0 },
            files: 0,
            hive: false,
            homes: 0,
            empties: r.pct(30),
        }
    }

    fn key(&mut self) -> &'static str {
        self.r.pick(&["k", "g", "d", "b", "k % 3", "v % 5", "h"])
    }

    fn t(&mut self, tables: &[Table]) -> String {
        self.r.pick(tables).name.clone()
    }

    fn filter(&mut self) -> String {
        match self.r.below(7) {
            0 => format!("v > {}", self.r.below(1500) as i64 - 1000),
            1 => format!("k <> {}", self.r.below(10)),
            2 => "g IS NOT NULL".to_string(),
            3 => format!("id % {} = 0", self.r.range(1, 4)),
            4 => "d LIKE 'dict-%' OR b".to_string(),
            5 => "v > 5000".to_string(),
            _ => "true".to_string(),
        }
    }

    /// SQL text, whether its rows come in a total order, and what a LIMIT is a subset of.
    pub fn sql(&mut self, tables: &[Table], kinds: &[u64]) -> (String, bool, Option<String>) {
        let a = self.t(tables);
        let b = self.t(tables);
        let c = self.t(tables);
        let f = self.filter();
        let key = self.key();
        let n = self.r.pick(&[0, 1, 3, 10, 50]);
        let kind = self.r.pick(kinds);
        let s = match kind {
            0 => format!("SELECT id, k, s, f FROM {a} WHERE {f}"),
            1 => format!("SELECT {key} AS x, count(*) AS c, sum(v) AS sv, min(id) AS mi, max(f) AS mf FROM {a} WHERE {f} GROUP BY {key}"),
            2 => format!("SELECT count(*) AS c, sum(v) AS sv, min(s) AS ms FROM {a} WHERE {f}"),
            3 => match self.r.below(3) {
                0 => format!("SELECT count(DISTINCT k) AS ck, count(DISTINCT g) AS cg FROM {a}"),
                1 => format!("SELECT b, count(DISTINCT k) AS ck FROM {a} GROUP BY b"),
                _ => format!("SELECT DISTINCT k, g FROM {a} WHERE {f}"),
            },
            4 => {
                let join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"]);
                let on = self.r.pick(&["a.k = b.k", "a.k = b.k AND a.g = b.g", "a.id = b.id", "a.id = b.v"]);
                format!("SELECT a.id AS ai, a.g AS ag, b.id AS bi, b.d AS bd FROM {a} a {join} JOIN {b} b ON {on} AND a.v > -900")
            }
            5 => {
                let join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"]);
                format!("SELECT b.{key2} AS x, count(*) AS c, sum(a.v) AS sv FROM {a} a {join} JOIN {b} b ON a.k = b.k GROUP BY b.{key2}", key2 = self.r.pick(&["k", "g", "d", "b"]))
            }
            6 => match self.r.below(3) {
                0 => format!("SELECT id, s FROM {a} WHERE k IN (SELECT k FROM {b} WHERE {f})"),
                1 => format!("SELECT id, g FROM {a} x WHERE NOT EXISTS (SELECT 1 FROM {b} y WHERE y.id = x.id AND y.v > 0)"),
                _ => format!("SELECT id, v FROM {a} WHERE v > (SELECT avg(v) FROM {b})"),
            },
            7 => match self.r.below(3) {
                0 => format!("SELECT id, g FROM {a} WHERE {f} UNION ALL SELECT id, s FROM {b} UNION ALL SELECT k, g FROM {c}"),
                1 => format!("SELECT k, g FROM {a} UNION SELECT k, g FROM {b}"),
                _ => format!("SELECT x, count(*) AS c FROM (SELECT k AS x FROM {a} UNION ALL SELECT v % 7 AS x FROM {b}) GROUP BY x"),
            },
            8 => match self.r.below(3) {
                0 => format!("SELECT id, row_number() OVER (PARTITION BY k ORDER BY id) AS rn FROM {a}"),
                1 => format!("SELECT id, sum(v) OVER (PARTITION BY g ORDER BY id ROWS BETWEEN 2 PRECEDING AND CURRENT ROW) AS w FROM {a} WHERE {f}"),
                _ => format!("SELECT id, count(*) OVER (PARTITION BY d) AS w, max(v) OVER () AS m FROM {a}"),
            },
            9 => return (format!("SELECT id, v, g FROM {a} WHERE {f} ORDER BY v DESC NULLS LAST, id"), true, None),
            10 => {
                let lim = if self.r.pct(60) { format!(" LIMIT {n}") } else { String::new() };
                let off = if self.r.pct(20) { " OFFSET 2" } else { "" };
                return (format!("SELECT id, k FROM {a} WHERE {f} ORDER BY id{lim}{off}"), true, None);
            }
            11 => {
                let all = match self.r.below(6) {
                    0 => format!("SELECT id, k, s FROM {a} WHERE {f}"),
                    3 => format!("SELECT id, count(*) OVER (PARTITION BY k) AS c, lead(v) OVER (PARTITION BY k ORDER BY id) AS l FROM {a}"),
                    4 => format!("SELECT DISTINCT k, g FROM {a}"),
                    5 => format!("SELECT id, s FROM {a} WHERE {f} UNION ALL SELECT id, g AS s FROM {b}"),
                    1 => format!("SELECT a.id AS ai, b.id AS bi FROM {a} a JOIN {b} b ON a.k = b.k"),
                    _ => format!("SELECT k, count(*) AS c FROM {a} GROUP BY k"),
                };
                return (format!("{all} LIMIT {n}"), false, Some(all));
            }
            12 => format!(
                "WITH x AS (SELECT k, g, count(*) AS c FROM {a} GROUP BY k, g), y AS (SELECT k, max(c) AS m FROM x GROUP BY k) SELECT y.k AS yk, y.m AS ym, count(b.id) AS n FROM y LEFT JOIN {b} b ON y.k = b.k GROUP BY y.k, y.m"
            ),
            13 => format!("SELECT a.k AS ak, count(*) AS n, max(c.v) AS mv FROM {a} a JOIN {b} b ON a.id = b.id JOIN {c} c ON b.k = c.id GROUP BY a.k"),
            14 => match self.r.below(2) {
                0 => format!("SELECT count(*) AS n FROM (SELECT id FROM {a} WHERE {f}) x CROSS JOIN (SELECT k FROM {b} WHERE id < 20) y"),
                _ => format!("SELECT count(*) AS n, min(a.id) AS mi FROM {a} a JOIN (SELECT * FROM {b} WHERE id < 20) b ON a.v < b.v"),
            },
            15 => format!("SELECT g, CASE WHEN b THEN 'y' ELSE 'n' END AS yn, sum(f) AS sf, avg(f) AS af FROM {a} GROUP BY g, CASE WHEN b THEN 'y' ELSE 'n' END HAVING count(*) > 1"),
            16 => format!("SELECT id, l, d, g, b FROM {a} WHERE {f}"),
            17 => format!("SELECT g, k, count(*) AS c, sum(v) AS sv FROM {a} GROUP BY ROLLUP (g, k)"),
            18 => {
                let key2 = self.r.pick(&["k", "g", "d"]);
                return (format!("SELECT {key2} AS x, sum(v) AS sv, count(*) AS c FROM {a} WHERE {f} GROUP BY {key2} ORDER BY sv DESC NULLS LAST, x NULLS FIRST LIMIT {n}"), true, None);
            }
            19 => {
                let lim = if self.r.pct(50) { format!(" LIMIT {n}") } else { String::new() };
                return (format!("SELECT a.id AS ai, b.id AS bi, a.s AS s FROM {a} a JOIN {b} b ON a.k = b.k WHERE b.id < 30 ORDER BY ai, bi{lim}"), true, None);
            }
            20 => return (format!("SELECT id, k FROM (SELECT id, k FROM {a} UNION ALL SELECT id + 1000 AS id, k FROM {b}) ORDER BY id, k NULLS FIRST"), true, None),
            21 => format!("SELECT median(v) AS m, count(*) AS c FROM {a} GROUP BY d"),
            22 => format!("SELECT id, k FROM {a} WHERE {key3} NOT IN (SELECT {key3} FROM {b} WHERE {f})", key3 = self.r.pick(&["k", "id", "v", "g"])),
            23 => {
                let op = self.r.pick(&["INTERSECT", "INTERSECT ALL", "EXCEPT", "EXCEPT ALL"]);
                let cols = self.r.pick(&["k", "k, b", "g, d", "v % 10"]);
                format!("SELECT {cols} FROM {a} WHERE {f} {op} SELECT {cols} FROM {b}")
            }
            24 => {
                let sets = self.r.pick(&["CUBE (k, b)", "GROUPING SETS ((k, g), (g), ())", "GROUPING SETS ((d), (b))"]);
                let cols = match sets {
                    "CUBE (k, b)" => "k, b",
                    "GROUPING SETS ((d), (b))" => "d, b",
                    _ => "k, g",
                };
                format!("SELECT {cols}, grouping({}) AS gr, count(*) AS c, sum(e) AS se FROM {a} WHERE {f} GROUP BY {sets}", &cols[..1])
            }
            25 => match self.r.below(3) {
                0 => format!("SELECT k, count(*) AS c FROM (SELECT id, k FROM {a} WHERE {f} ORDER BY id LIMIT {n}) GROUP BY k"),
                1 => format!("SELECT x.id AS xi, b.id AS bi FROM (SELECT id, k FROM {a} ORDER BY id LIMIT {n} OFFSET 1) x JOIN {b} b ON x.k = b.k"),
                _ => format!("SELECT count(*) AS c FROM (SELECT id FROM {a} LIMIT {n})"),
            },
            26 => format!(
                "SELECT {key} AS x, sum(v) FILTER (WHERE v > 0) AS p, count(*) FILTER (WHERE b) AS cb, first_value(v ORDER BY id) AS fv, last_value(g ORDER BY id) AS lg, bool_or(b) AS bo, bit_xor(id) AS bx, max(t) AS mt, sum(e) AS se FROM {a} WHERE {f} GROUP BY {key}"
            ),
            27 => match self.r.below(4) {
                0 => format!("SELECT id, rank() OVER (PARTITION BY g ORDER BY v NULLS LAST) AS r, dense_rank() OVER (PARTITION BY g ORDER BY v NULLS LAST) AS dr FROM {a}"),
                1 => format!("SELECT id, lag(v) OVER (ORDER BY id) AS p, lead(v, 2, 0) OVER (ORDER BY id) AS n FROM {a} WHERE {f}"),
                2 => format!("SELECT id, ntile(3) OVER (PARTITION BY b ORDER BY id) AS nt, first_value(v) OVER (PARTITION BY b ORDER BY id) AS fv FROM {a}"),
                _ => format!("SELECT id, sum(v) OVER (PARTITION BY k ORDER BY id RANGE BETWEEN 5 PRECEDING AND 5 FOLLOWING) AS w, count(*) OVER (PARTITION BY k) AS c FROM {a}"),
            },
            28 => format!("SELECT k, c, rank() OVER (ORDER BY c DESC, k NULLS LAST) AS r FROM (SELECT k, count(*) AS c FROM {a} WHERE {f} GROUP BY k)"),
            29 => format!("SELECT id, (SELECT count(*) FROM {b} y WHERE y.k = x.k) AS n, (SELECT max(v) FROM {b}) AS m FROM {a} x WHERE {f}"),
            30 => format!("SELECT id, k FROM {a} WHERE k IN (SELECT k FROM {b} WHERE v > 0) OR v > 500"),
            31 => return (format!("SELECT DISTINCT ON (k) k, id, v FROM {a} WHERE {f} ORDER BY k NULLS FIRST, id"), true, None),
            32 => format!("SELECT a.id AS ai, x.name AS n FROM {a} a {join} JOIN (VALUES (1, 'one'), (2, 'two'), (NULL, 'none')) AS x(key, name) ON a.k = x.key", join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"])),
            33 => match self.r.below(2) {
                0 => format!("SELECT id, unnest(l) AS x FROM {a} WHERE {f}"),
                _ => format!("SELECT x, count(*) AS c FROM (SELECT unnest(l) % 3 AS x FROM {a}) GROUP BY x"),
            },
            34 => match self.r.below(3) {
                0 => format!("SELECT id, NULL AS x, k FROM {a} UNION ALL SELECT k, v AS x, NULL AS w FROM {b} UNION ALL SELECT 1, 2, 3"),
                1 => format!("SELECT k, count(*) AS c FROM {a} GROUP BY k UNION ALL SELECT id, v FROM {b} WHERE {f}"),
                _ => format!("SELECT id, k FROM (SELECT id, k FROM {a} ORDER BY id LIMIT {n}) UNION ALL SELECT id, k FROM {b}"),
            },
            35 => format!("WITH RECURSIVE r AS (SELECT 0 AS x UNION ALL SELECT x + 1 FROM r WHERE x < 6) SELECT r.x AS x, count(a.id) AS c FROM r LEFT JOIN {a} a ON a.k = r.x GROUP BY r.x"),
            36 => format!("WITH c AS (SELECT k, sum(v) AS s, count(*) AS n FROM {a} GROUP BY k) SELECT p.k AS k, p.s AS s, q.n AS n FROM c p JOIN c q ON p.k = q.k WHERE p.n > (SELECT avg(n) FROM c)"),
            37 => {
                let join = self.r.pick(&["LEFT SEMI", "LEFT ANTI", "RIGHT SEMI", "RIGHT ANTI"]);
                let on = self.r.pick(&["a.k = b.k", "a.g = b.g", "a.d = b.d", "a.id = b.v", "a.k = b.k AND a.b = b.b"]);
                let side = if join.starts_with("LEFT") { "a" } else { "b" };
                format!("SELECT {side}.id AS i, {side}.s AS s FROM {a} a {join} JOIN {b} b ON {on}")
            }
            38 => format!("SELECT id, t, e, y, z, u FROM {a} WHERE {f}"),
            39 => {
                let by = self.r.pick(&["t", "e", "y", "get_field(z, 'p')", "date_trunc('week', t)", "u % 4", "l"]);
                format!("SELECT {by} AS x, count(*) AS c, min(e) AS me, max(u) AS mu, min(t) AS mt FROM {a} WHERE {f} GROUP BY {by}")
            }
            40 => {
                let on = self.r.pick(&["a.t = b.t", "a.y = b.y", "a.d = b.d AND a.b = b.b", "get_field(a.z, 'q') = get_field(b.z, 'q') AND a.k = b.k"]);
                let join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"]);
                format!("SELECT a.id AS ai, b.id AS bi, b.z AS bz FROM {a} a {join} JOIN {b} b ON {on}")
            }
            41 => format!("SELECT count(*) AS c FROM {a} CROSS JOIN (SELECT id FROM {b} WHERE id < 10) x"),
            42 => {
                let by = self.r.pick(&["t NULLS FIRST, id", "e DESC, id", "g, d, id", "b, u DESC, id", "y NULLS LAST, id"]);
                let lim = if self.r.pct(40) { format!(" LIMIT {n}") } else { String::new() };
                return (format!("SELECT id, t, e, g, d, y FROM {a} WHERE {f} ORDER BY {by}{lim}"), true, None);
            }
            44 => match self.r.below(5) {
                0 => format!("SELECT h, count(*) AS c, sum(v) AS s, min(id) AS mi FROM {a} WHERE {f} GROUP BY h"),
                1 => format!("SELECT a.h AS h, a.id AS ai, b.v AS bv FROM {a} a {join} JOIN {b} b ON a.h = b.h AND a.id = b.id", join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"])),
                2 => format!("SELECT id, sum(v) OVER (PARTITION BY h ORDER BY id) AS w FROM {a}"),
                3 => format!("SELECT DISTINCT h, k FROM {a} WHERE h = {}", self.r.below(4)),
                _ => format!("SELECT h, k, count(*) AS c FROM {a} GROUP BY h, k"),
            },
            45 => {
                // How many rows a side has is certain, which ones is not.
                let join = self.r.pick(&["INNER", "LEFT", "LEFT", "RIGHT", "RIGHT", "FULL"]);
                if self.r.pct(50) {
                    let on = self.r.pick(&["x.id = y.id", "x.id < y.id + 100000"]);
                    let n = self.r.pick(&[1, 2, 3, 5, 8]);
                    if self.r.pct(20) {
                        let not = self.r.pick(&["", "NOT "]);
                        return (format!("SELECT count(*) AS c FROM (SELECT id FROM {a} LIMIT {n}) x WHERE {not}EXISTS (SELECT 1 FROM {a} y WHERE {on})"), false, None);
                    }
                    let (l, r) = (format!("(SELECT id FROM {a} LIMIT {n}) x"), format!("{a} y"));
                    // Mostly with the limit on the side whose rows all come out.
                    let swap = match join {
                        "LEFT" => 15,
                        "RIGHT" => 85,
                        _ => 50,
                    };
                    let (l, r) = if self.r.pct(swap) { (r, l) } else { (l, r) };
                    return (format!("SELECT count(*) AS c, count(x.id) AS cx, count(y.id) AS cy FROM {l} {join} JOIN {r} ON {on}"), false, None);
                }
                let side = match self.r.below(3) {
                    0 => format!("SELECT id, abs(id) - id AS o FROM {a} LIMIT {n}"),
                    1 => format!("SELECT id, abs(id) - id AS o FROM {a} WHERE {f} LIMIT {n}"),
                    _ => format!("SELECT k AS id, min(id) - min(id) AS o FROM {a} WHERE k IS NOT NULL GROUP BY k LIMIT {n}"),
                };
                let on = self.r.pick(&["x.o = y.o", "x.id < y.i + 100000"]);
                let (l, r) = (format!("({side}) x"), format!("(SELECT id AS i, abs(id) - id AS o, v FROM {b} WHERE id < 40) y"));
                let (l, r) = if self.r.pct(70) { (l, r) } else { (r, l) };
                format!("SELECT count(*) AS c, count(x.o) AS cx, count(y.o) AS cy FROM {l} {join} JOIN {r} ON {on}")
            }
            46 => {
                // Few rows on one side: some partitions have none, and stop reading the other side.
                let few = match self.r.below(4) {
                    0 => format!("SELECT id, k, v FROM {a} WHERE v > {}", self.r.pick(&[800, 900, 950])),
                    1 => format!("SELECT min(id) AS id, k, max(v) AS v FROM {a} GROUP BY k HAVING count(*) > {}", self.r.pick(&[1, 5, 12])),
                    2 => format!("SELECT id, k, v FROM {a} ORDER BY v DESC NULLS LAST, id LIMIT {}", self.r.pick(&[1, 2, 4])),
                    _ => format!("SELECT max(id) AS id, max(k) AS k, max(v) AS v FROM {a}"),
                };
                let many = match self.r.below(3) {
                    0 | 1 => format!("{b}"),
                    _ => format!("(SELECT id, k, g, count(*) AS v FROM {b} GROUP BY id, k, g)"),
                };
                let on = self.r.pick(&["x.id = y.id", "x.id = y.id", "x.id = y.id", "x.k = y.k", "x.id = y.v"]);
                let join = self.r.pick(&["JOIN", "JOIN", "JOIN", "LEFT JOIN", "LEFT SEMI JOIN"]);
                match (join, self.r.below(2)) {
                    ("LEFT SEMI JOIN", _) => format!("SELECT x.id AS xi FROM ({few}) x LEFT SEMI JOIN {many} y ON {on}"),
                    (_, 0) => format!("SELECT x.id AS xi, y.id AS yi, y.v AS yv FROM ({few}) x {join} {many} y ON {on}"),
                    _ => format!("SELECT y.k AS k, count(*) AS c, sum(y.v) AS s FROM ({few}) x {join} {many} y ON {on} GROUP BY y.k"),
                }
            }
            _ => format!("SELECT a.id AS ai, b.id AS bi FROM {a} a {join} JOIN {b} b ON a.k < b.k AND a.v > b.v WHERE b.id < 25 AND a.id < 40", join = self.r.pick(&["INNER", "LEFT", "RIGHT", "FULL"])),
        };
        (s, false, None)
    }

    pub fn query(&mut self, id: u64, tables: &[Table], kinds: &[u64]) -> Query {
        let (sql, ordered, subset_of) = self.sql(tables, kinds);
        Query {
            id,
            sql,
            ordered,
            subset_of,
            at_ms: 0,
            consume: Consume::All,
            dynamic: None,
            after_previous: false,
            repeat: 0,
            token: format!("token-{id}-{:x}", self.r.next() >> 40),
            note: String::new(),
            multi: vec![],
        }
    }

    pub fn err_kind(&mut self) -> ErrKind {
        if self.r.pct(60) {
            return ErrKind::Nth(self.r.below(crate::errs::COUNT as u64) as u16);
        }
        self.r.pick(ErrKind::ALL)
    }

    pub fn leaf_fault(&mut self, tables: &[Table]) -> Fault {
        let t = self.r.pick(tables);
        let failure = match self.r.below(10) {
            0..=4 => LeafFailure::Error(self.err_kind()),
            5 | 6 => LeafFailure::Panic,
            7 => LeafFailure::AtExecute(self.err_kind()),
            _ => LeafFailure::Stall(self.r.pick(&[50, 3_000])),
        };
        let at_execute = matches!(failure, LeafFailure::AtExecute(_));
        Fault::Leaf {
            chunk: self.r.usize(0, t.chunks.max(1) - 1),
            after: if at_execute { self.r.usize(0, t.partitions - 1) } else { self.r.usize(0, 3) },
            table: t.name,
            query: None,
            failure,
        }
    }

    pub fn feed_fault(&mut self, tables: &[Table]) -> Option<Fault> {
        let feeds: Vec<_> = tables.iter().filter(|t| t.leaf == LeafStyle::Feed).cloned().collect();
        if feeds.is_empty() {
            return None;
        }
        let t = self.r.pick(&feeds);
        let failure = match self.r.below(10) {
            0..=4 => LeafFailure::Error(self.err_kind()),
            5 | 6 => LeafFailure::Panic,
            _ => LeafFailure::Stall(self.r.pick(&[50, 3_000])),
        };
        Some(Fault::Feed {
            partition: self.r.usize(0, t.partitions * t.tasks - 1),
            after: self.r.usize(0, 2),
            table: t.name,
            query: None,
            failure,
        })
    }

    /// A failure of the network or of a node.
    pub fn net_fault(&mut self, workers: usize, span_ms: u64) -> Fault {
        let r = &mut self.r;
        let a = r.usize(0, workers);
        let mut b = r.usize(1, workers);
        if a == b {
            b = 0;
        }
        let at_ms = r.below(span_ms.max(1));
        match r.below(13) {
            11 => Fault::StreamReset {
                node: r.usize(1, workers),
                tasks: r.pct(70),
                nth: r.pick(&[0, 0, 1, 2, 5]),
                frames: r.pick(&[0, 1, 2, 3, 5, 9]),
                // NO_ERROR, INTERNAL_ERROR, REFUSED_STREAM, CANCEL, ENHANCE_YOUR_CALM.
                reason: r.pick(&[0, 2, 7, 8, 8, 11]),
                until_ms: at_ms + 2_000,
            },
            0 | 1 => Fault::Reset { at_ms, a, b },
            2..=5 => Fault::BreakAfter {
                from: a,
                to: if b == 0 { 1 } else { b },
                nth: r.pick(&[0, 0, 0, 1, 2, 5]),
                request: r.pct(40),
                bytes: r.pick(&[1, 100, 600, 1500, 4000, 9000, 20000]),
            },
            6 => Fault::Partition {
                at_ms,
                a,
                b,
                for_ms: r.pick(&[20, 500, 4_000, 30_000]),
                then_reset: r.pct(50),
            },
            7 => Fault::Refuse { at_ms: 0, from: a, to: if b == 0 { 1 } else { b }, times: r.range(1, 3) },
            8 | 9 => Fault::Crash {
                at_ms,
                node: r.usize(1, workers),
                silent: r.pct(40),
                restart_ms: r.pick(&[None, Some(1), Some(300), Some(8_000)]),
            },
            10 => Fault::Pause { at_ms, node: r.usize(0, workers), for_ms: r.pick(&[20, 700, 12_000]) },
            _ => Fault::ClockJump {
                at_ms,
                node: r.usize(0, workers),
                by_ms: r.pick(&[-86_400_000, -1_000, -1, 1, 1_000, 86_400_000]),
            },
        }
    }
}

pub const ALL_SQL: &[u64] =
    &[0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23,
      24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46];


/// Joins of two tables.
pub const JOIN_SQL: &[u64] = &[4, 4, 5, 5, 6, 12, 13, 19, 22, 29, 30, 32, 36, 37, 40, 43, 44, 45, 45, 45, 45, 46, 46];
/// Rows in a total order.
pub const ORDER_SQL: &[u64] = &[9, 10, 18, 19, 20, 31, 42];
/// Every row of the input is needed, and no join may skip a side.
pub const FULL_SQL: &[u64] = &[0, 1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 21, 24, 26, 27, 28, 38, 39];

pub fn base(prop: &str, seed: u64) -> (Gen, Scenario) {
    base_of(prop, seed, ALL_SQL)
}

pub fn base_of(prop: &str, seed: u64, kinds: &[u64]) -> (Gen, Scenario) {
    let mut label = 0u64;
    for b in prop.bytes() {
        label = label * 131 + b as u64;
    }
    let mut g = Gen { r: Rng::fork(seed, label) };
    let sched = g.sched();
    let net = g.net();
    let cluster = g.cluster();
    let cfg = g.cfg();
    let n = g.r.usize(1, 3);
    let tables: Vec<Table> = (0..n).map(|i| g.table(&format!("t{i}"))).collect();
    let q = g.query(1, &tables, kinds);
    let s = Scenario {
        prop: prop.to_string(),
        seed,
        sched,
        net,
        cluster,
        cfg,
        tables,
        queries: vec![q],
        faults: vec![],
        horizon_ms: 120_000,
        settle_ms: 60_000,
        mode: String::new(),
        params: BTreeMap::new(),
    };
    (g, s)
}

/// A query that the partitioning by directory helps with.
fn by_directory(r: &mut Rng, tables: &[Table]) -> String {
    let a = r.pick(tables).name.clone();
    let b = r.pick(tables).name.clone();
    let join = r.pick(&["INNER", "LEFT", "RIGHT", "FULL", "INNER"]);
    let grouped = |t: &str, n: &str| format!("(SELECT h, count(*) AS {n}, sum(v) AS s{n} FROM {t} GROUP BY h)");
    match r.below(12) {
        0 => format!("SELECT h, count(*) AS c, sum(v) AS s, min(id) AS mi FROM {a} GROUP BY h"),
        1 => format!("SELECT h, k, count(*) AS c, max(g) AS mg FROM {a} GROUP BY h, k"),
        2 => format!("SELECT h, count(DISTINCT k) AS c, sum(DISTINCT v) AS s FROM {a} GROUP BY h"),
        3 => format!("SELECT x.h AS h, x.c AS c, y.d AS d FROM {} x {join} JOIN {} y ON x.h = y.h", grouped(&a, "c"), grouped(&b, "d")),
        4 => format!("SELECT a.h AS h, a.id AS ai, b.v AS bv FROM {a} a {join} JOIN {b} b ON a.h = b.h AND a.id = b.id"),
        5 => format!("SELECT a.id AS ai, x.c AS c FROM {a} a {join} JOIN {} x ON a.h = x.h", grouped(&b, "c")),
        6 => format!("SELECT h, id, sum(v) OVER (PARTITION BY h ORDER BY id) AS w, row_number() OVER (PARTITION BY h ORDER BY id) AS n FROM {a}"),
        7 => format!("SELECT h, c, rank() OVER (ORDER BY h) AS r FROM {} x", grouped(&a, "c")),
        8 => format!("SELECT DISTINCT h FROM {a} WHERE h IN (SELECT h FROM {b} WHERE v > 0 GROUP BY h HAVING count(*) > 2)"),
        9 => format!("SELECT h, count(*) AS c FROM (SELECT h FROM {a} UNION ALL SELECT h FROM {b}) x GROUP BY h"),
        10 => format!("SELECT h, id, v FROM {a} ORDER BY h, id"),
        _ => format!("SELECT h, first_value(v ORDER BY id) AS fv, last_value(v ORDER BY id) AS lv FROM {a} WHERE h <> 1 GROUP BY h"),
    }
}

/// Some plans have their boundaries placed by hand.
fn by_hand(s: &mut Scenario) {
    let pct = match s.prop.as_str() {
        "C03" | "C04" | "C06" | "C07" | "C16" | "C17" | "C20" | "C23" | "C24" | "C25" => 10,
        _ => return,
    };
    let mut r = Rng::fork(s.seed, 0x4a2d);
    if s.params.contains_key("firehose") || !s.mode.is_empty() || !r.pct(pct) {
        return;
    }
    s.cfg.hand = Some(r.next() >> 1);
    s.cfg.target_partitions = s.cfg.target_partitions.max(2);
}

/// Some tables become files in an object store.
fn into_files(s: &mut Scenario) {
    let pct = match s.prop.as_str() {
        "C01" | "C02" => 30,
        "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C16" | "C17" | "C18" | "C19" | "C23" | "C24" | "C25" => 15,
        "C08" | "C26" => 20,
        _ => return,
    };
    if s.params.contains_key("firehose") || !s.mode.is_empty() {
        return;
    }
    let mut r = Rng::fork(s.seed, 0xf11e);
    s.cfg.file_bytes = r.pick(&[1, 200, 2_000, 20_000, 1 << 24]);
    s.cfg.file_pushdown = r.pct(50);
    s.cfg.file_partitions = r.pick(&[0, 0, 1, 2]);
    s.cfg.file_split = r.pct(50);
    let fed: Vec<String> = s
        .faults
        .iter()
        .filter_map(|f| match f {
            Fault::Feed { table, .. } => Some(table.clone()),
            _ => None,
        })
        .collect();
    // Scans that declare how they are partitioned, and queries that can make use of it.
    if matches!(s.prop.as_str(), "C01" | "C02" | "C08" | "C09") && s.queries.len() == 1 && fed.is_empty() && r.pct(12) {
        s.cfg.file_partitions = r.pick(&[1, 1, 2, 4]);
        let homes = r.pick(&[2, 3, 4, 5, 8]);
        // Stock DataFusion joins tables with different directories wrongly.
        for t in s.tables.iter_mut() {
            t.leaf = LeafStyle::Parquet;
            (t.files, t.hive, t.homes) = (r.pick(&[1, 2, 3]), true, homes);
            t.tail = 0;
            t.chunks = r.pick(&[8, 12, 16]);
        }
        let q = by_directory(&mut r, &s.tables);
        s.queries[0].ordered = q.contains("ORDER BY h, id");
        s.queries[0].subset_of = None;
        s.queries[0].sql = q;
        s.net.window = s.net.window.max(8192);
        s.net.segment = s.net.segment.max(200);
        return;
    }
    // Sorted files whose ranges overlap, and queries that need their order.
    if s.prop == "C18" && s.queries.len() == 1 && fed.is_empty() && r.pct(20) {
        s.cfg.file_bytes = r.pick(&[1, 200, 2_000]);
        s.cfg.file_partitions = 0;
        s.cfg.target_partitions = r.pick(&[2, 3, 4]);
        s.cluster.workers = s.cluster.workers.max(2);
        for t in s.tables.iter_mut() {
            t.leaf = LeafStyle::Parquet;
            (t.files, t.hive, t.sorted, t.tail) = (r.pick(&[2, 3]), false, true, 0);
            (t.chunks, t.rows, t.batch) = (r.pick(&[6, 12]), r.pick(&[20, 50]), r.pick(&[4, 8]));
        }
        let t = s.tables[0].name.clone();
        let q = r.pick(&[
            "SELECT id, v FROM {t} ORDER BY id",
            "SELECT id, v, sum(v) OVER (ORDER BY id) AS w FROM {t} ORDER BY id",
            "SELECT id, count(*) AS c FROM {t} GROUP BY id ORDER BY id",
            "SELECT a.id AS ai, b.v AS bv FROM {t} a JOIN {t} b ON a.id = b.id ORDER BY a.id",
        ]);
        (s.queries[0].sql, s.queries[0].ordered, s.queries[0].subset_of) = (q.replace("{t}", &t), true, None);
        s.net.window = s.net.window.max(8192);
        s.net.segment = s.net.segment.max(200);
        return;
    }
    let mentions = |q: &Query| s.tables.iter().map(|t| q.sql.matches(&t.name).count()).sum::<usize>();
    if s.queries.iter().any(|q| mentions(q) > 1) {
        s.cfg.file_partitions = 0;
    }
    // Only parquet can store all types.
    let nested = ["(l", " l", "(y", " y", "(z", " z", ".z"];
    let all = s.queries.iter().any(|q| nested.iter().any(|x| q.sql.contains(x)));
    let every = r.pct(pct / 3);
    for t in s.tables.iter_mut() {
        let chosen = every || r.pct(pct);
        let leaf = r.pick(&[LeafStyle::Parquet, LeafStyle::Parquet, LeafStyle::Csv, LeafStyle::Json]);
        let (files, hive) = (r.pick(&[1, 2, 3, 7]), r.pct(35));
        if !chosen || t.tail > 0 && t.leaf == LeafStyle::Feed || fed.contains(&t.name) {
            continue;
        }
        t.leaf = if all { LeafStyle::Parquet } else { leaf };
        t.files = files;
        t.hive = hive;
    }
    // The plans of such tables are large, and workers wait ten seconds for them.
    if s.tables.iter().any(crate::files::is_file) && s.net.window < 8192 {
        s.net.window = 8192;
        s.net.segment = s.net.segment.max(200);
    }
}

/// What the generator must not produce.
fn fixup(mut s: Scenario) -> Scenario {
    into_files(&mut s);
    by_hand(&mut s);
    // DataFusion's own sort-merge join is wrong for outer joins with a filter, on one node too.
    let outer = |q: &Query| {
        ["LEFT JOIN", "RIGHT JOIN", "FULL JOIN"].iter().any(|j| q.sql.contains(j)) && q.sql.contains("a.v > -900")
    };
    if s.queries.iter().any(outer) {
        s.cfg.hash_join = true;
    }
    // Nor can it compare dictionary values.
    let dict = |q: &Query| {
        [" d FROM ", "a.d = b.d", "a.d = "].iter().any(|d| q.sql.contains(d))
            && [" EXCEPT", " INTERSECT", " JOIN "].iter().any(|j| q.sql.contains(j))
    };
    if s.queries.iter().any(dict) {
        s.cfg.hash_join = true;
    }
    bound_joins(&mut s);
    s
}

/// Joins on few different keys are quadratic: the tables of such scenarios are kept small.
fn bound_joins(s: &mut Scenario) {
    let joins = s.queries.iter().any(|q| q.sql.contains("JOIN"));
    // One side is small there.
    if !joins || s.params.contains_key("sparse") || s.params.contains_key("firehose") {
        return;
    }
    loop {
        let size = |t: &Table| (t.total_rows() as u64, t.keys.max(1));
        let mut worst = 0;
        for a in &s.tables {
            for b in &s.tables {
                let ((n, ka), (m, kb)) = (size(a), size(b));
                worst = worst.max(n * m / ka.min(kb));
            }
        }
        // What a join emits goes over the network in batches of this size.
        let most = 200 * (s.cfg.batch_size as u64).min(200);
        if worst <= most {
            return;
        }
        let t = s.tables.iter_mut().max_by_key(|t| t.total_rows() as u64 * 50 / t.keys.max(1)).expect("table");
        if t.rows > 6 {
            t.rows /= 2;
        } else if t.keys < 10 {
            t.keys *= 3;
        } else if t.chunks > 1 {
            t.chunks /= 2;
        } else {
            return;
        }
    }
}

/// Longer queries: faults at a time find them running.
fn stretch(g: &mut Gen, s: &mut Scenario) {
    for t in s.tables.iter_mut() {
        if g.r.pct(60) {
            t.delay_ms = g.r.pick(&[5, 40, 150]);
        }
        if g.r.pct(50) {
            t.chunks = g.r.pick(&[4, 8, 12]);
            t.rows = g.r.pick(&[20, 50]);
            t.batch = g.r.pick(&[5, 16]);
            t.wide = g.r.pick(&[40, 400]);
        }
    }
}

/// The connection that feeds a leaf breaks, while the rest of the query lives elsewhere.
fn feedcut(g: &mut Gen, s: &mut Scenario) {
    for t in s.tables.iter_mut() {
        t.leaf = LeafStyle::Feed;
        t.chunks = g.r.pick(&[9, 16]);
        t.rows = g.r.pick(&[6, 20]);
        t.feed_delay_ms = g.r.pick(&[20, 100, 400]);
        t.delay_ms = 0;
        t.stats = true;
    }
    s.cfg.metrics = g.r.pct(15);
    s.cfg.route = Route::Seeded(g.r.next() >> 1);
    s.cluster.workers = g.r.pick(&[2, 3, 4]);
    s.cluster.local = false;
    let t = s.tables[0].name.clone();
    s.queries.truncate(1);
    s.queries[0].ordered = false;
    s.queries[0].subset_of = None;
    s.queries[0].consume = Consume::All;
    s.queries[0].sql = g.r.pick(&[
        format!("SELECT k, count(*) AS n, sum(v) AS s FROM {t} GROUP BY k"),
        format!("SELECT id, count(*) AS n FROM {t} GROUP BY id"),
        format!("SELECT count(*) AS n, sum(d) AS d FROM (SELECT k, count(DISTINCT id) AS d FROM {t} GROUP BY k)"),
    ]);
    let b = g.r.usize(1, s.cluster.workers);
    s.faults = vec![if g.r.pct(50) {
        Fault::Reset { at_ms: g.r.range(5, 2_000), a: 0, b }
    } else {
        Fault::BreakAfter { from: 0, to: b, nth: 0, request: g.r.pct(80), bytes: g.r.pick(&[2_000, 3_000, 4_000, 6_000]) }
    }];
}

/// A query issued after all the faults of the scenario have ended.
fn after_faults(g: &mut Gen, s: &mut Scenario, n: u64) {
    let last = s.faults.iter().map(|f| f.last_ms()).max().unwrap_or(0);
    for i in 0..n {
        let mut q = g.query(AFTER + i, &s.tables.clone(), ALL_SQL);
        q.at_ms = last + 6_000 + i * 10;
        q.after_previous = true;
        s.queries.push(q);
    }
}

fn error_fault(g: &mut Gen, s: &Scenario) -> Fault {
    let w = s.cluster.workers;
    match g.r.below(12) {
        0 => Fault::Session { node: g.r.usize(if s.cluster.local { 0 } else { 1 }, w), nth: g.r.below(4), kind: g.err_kind() },
        1 => Fault::Codec { query: 1, kind: g.err_kind() },
        2 if s.cfg.rewriters > 0 => {
            Fault::Rewrite { node: g.r.usize(1, w), nth: g.r.below(5), kind: g.err_kind(), panic: false }
        }
        3 | 4 => {
            if let Some(Fault::Feed { table, partition, after, query, .. }) = g.feed_fault(&s.tables) {
                let kind = g.err_kind();
                return Fault::Feed { table, partition, after, query, failure: LeafFailure::Error(kind) };
            }
            error_leaf(g, s)
        }
        _ => error_leaf(g, s),
    }
}

fn error_leaf(g: &mut Gen, s: &Scenario) -> Fault {
    loop {
        let f = g.leaf_fault(&s.tables);
        if matches!(&f, Fault::Leaf { failure: LeafFailure::Error(_) | LeafFailure::AtExecute(_), .. }) {
            return f;
        }
    }
}

fn panic_fault(g: &mut Gen, s: &Scenario) -> Fault {
    let t = g.r.pick(&s.tables);
    match g.r.below(6) {
        0 if s.cfg.rewriters > 0 => Fault::Rewrite {
            node: g.r.usize(1, s.cluster.workers),
            nth: g.r.below(5),
            kind: ErrKind::Execution,
            panic: true,
        },
        1 | 2 if t.leaf == LeafStyle::Feed => Fault::Feed {
            partition: g.r.usize(0, t.partitions * t.tasks - 1),
            after: g.r.usize(0, 2),
            table: t.name,
            query: None,
            failure: LeafFailure::Panic,
        },
        _ => Fault::Leaf {
            chunk: g.r.usize(0, t.chunks.max(1) - 1),
            after: g.r.usize(0, 3),
            table: t.name,
            query: None,
            failure: LeafFailure::Panic,
        },
    }
}

/// Any kind of fault.
fn any_fault(g: &mut Gen, s: &Scenario) -> Fault {
    let span = g.r.pick(&[30, 300, 2_000]);
    match g.r.below(10) {
        0..=3 => g.net_fault(s.cluster.workers, span),
        4 | 5 => error_fault(g, s),
        6 => panic_fault(g, s),
        7 => g.feed_fault(&s.tables).unwrap_or_else(|| error_leaf(g, s)),
        8 => g.leaf_fault(&s.tables),
        _ => g.net_fault(s.cluster.workers, span),
    }
}

/// The consumer gives up early.
fn cancel(g: &mut Gen) -> Consume {
    match g.r.below(6) {
        0 => Consume::DropUnpolled,
        1 | 2 => Consume::DropAfterRows(g.r.pick(&[1, 1, 5, 40])),
        _ => Consume::DropAtMs(g.r.pick(&[0, 1, 3, 10, 30, 100, 400, 1_500])),
    }
}

/// Faults may hit the configuration's route choice too: these properties leave routing alone.
fn plain_route(s: &mut Scenario) {
    if matches!(s.cfg.route, Route::WrongCount(_) | Route::Error) {
        s.cfg.route = Route::Default;
    }
}

/// A query whose result is far bigger than everything the cluster is allowed to buffer, and a client
/// that stops reading it.
fn firehose(g: &mut Gen, s: &mut Scenario) {
    for (i, t) in s.tables.iter_mut().enumerate() {
        t.stats = true;
        t.null_pct = 0;
        t.empties = false;
        t.delay_ms = 0;
        t.feed_delay_ms = 0;
        t.keys = 40;
        t.max_tasks = false;
        t.batch = g.r.pick(&[5, 16]);
        if i == 0 {
            t.chunks = 24;
            t.rows = 100;
            t.exact = true;
            t.wide = 10_000;
            // Not the same share for all would let a partition end early, see DESIGN.md.
            t.tasks = 2;
            t.partitions = g.r.pick(&[1, 2, 3]);
        } else {
            t.chunks = 2;
            t.rows = 3;
            t.wide = 8;
        }
    }
    s.cluster.workers = s.cluster.workers.min(2);
    s.cfg.compression = "none".into();
    // The sampler takes all that is ready at once, so the sources have to pause now and then.
    s.cfg.dynamic = s.tables.len() > 1 && g.r.pct(50);
    s.cfg.max_tasks = 0;
    s.cfg.batch_size = g.r.pick(&[3, 16]);
    s.cfg.shuffle_batch = g.r.pick(&[0, 4]);
    s.cfg.buffer_budget = g.r.pick(&[1, 4096, 64 << 10]);
    s.net.window = g.r.pick(&[1 << 16, 1 << 18]);
    s.cluster.max_message = Some(64 << 10);
    s.queries.truncate(1);
    let q = &mut s.queries[0];
    q.ordered = false;
    q.subset_of = None;
    q.sql = format!("SELECT id, k, s FROM {}", s.tables[0].name);
    if s.cfg.dynamic {
        // Samplers are where rows are shuffled.
        s.tables[0].delay_ms = 1;
        s.tables[0].rows = 220;
        s.tables[0].wide = 20_000;
        // What a repartitioning collects before it passes anything on counts too.
        s.cfg.shuffle_batch = g.r.pick(&[2, 4]);
        s.cfg.target_partitions = 2;
        s.cfg.broadcast = false;
        s.cfg.hash_join = true;
        s.cfg.collect_bytes = 0;
        q.sql = format!(
            "SELECT a.id, a.s, b.v FROM {} a LEFT JOIN {} b ON a.id = b.id",
            s.tables[0].name, s.tables[1].name
        );
    }
    q.consume = Consume::PauseAfter { batches: 1, ms: 20_000 };
    s.params.insert("firehose".into(), 1);
    // 12 MB in 2400 rows; HTTP/2 windows are 2 MB per connection, its send buffers 400 KB.
    s.params.insert("pause_limit".into(), 7_500_000);
    s.params.insert("pause_rows".into(), 2_100);
    if s.cfg.dynamic {
        // Two hops, and 53 MB in 5280 rows.
        s.params.insert("pause_limit".into(), 30_000_000);
        s.params.insert("pause_rows".into(), 4_500);
    }
}

/// Joins whose sides both go through shuffles of many small messages, where some partitions
/// have nothing to join and stop reading, next to others that share a connection with them.
fn sparse(g: &mut Gen, s: &mut Scenario) -> bool {
    if s.queries.len() != 1 || !g.r.pct(12) {
        return false;
    }
    s.cluster.workers = s.cluster.workers.max(2);
    s.cfg.target_partitions = g.r.pick(&[2, 3, 4]);
    s.cfg.max_tasks = 0;
    s.cfg.broadcast = false;
    s.cfg.hash_join = g.r.pct(80);
    s.cfg.collect_bytes = 0;
    s.cfg.batch_size = g.r.pick(&[3, 16, 64]);
    s.cfg.shuffle_batch = g.r.pick(&[0, 4]);
    for t in s.tables.iter_mut().filter(|t| !crate::files::is_file(t)) {
        t.tasks = g.r.pick(&[2, 3]);
        t.chunks = 9;
        t.rows = 50;
        t.batch = t.batch.max(16);
        t.keys = g.r.pick(&[10, 40]);
        t.partitions = t.partitions.max(2);
        t.delay_ms = g.r.pick(&[0, 2, 40]);
    }
    s.queries[0] = g.query(1, &s.tables.clone(), &[46]);
    s.params.insert("sparse".into(), 1);
    true
}

/// Something fails under a stream of which some partitions have already lost their reader.
fn sparse_fault(g: &mut Gen, s: &mut Scenario) {
    for t in s.tables.iter_mut().filter(|t| !crate::files::is_file(t)) {
        t.delay_ms = g.r.pick(&[20, 60, 150]);
        t.chunks = g.r.pick(&[9, 16]);
    }
    let w = s.cluster.workers;
    let a = g.r.usize(1, w);
    let b = g.r.usize(1, w);
    let b = if a == b { b % w + 1 } else { b };
    s.cfg.hash_join = true;
    s.cfg.dynamic = g.r.pct(20);
    s.cfg.batch_size = 3;
    s.cfg.shuffle_batch = g.r.pick(&[1, 4]);
    s.queries[0].sql = s.queries[0].sql.replace("LEFT JOIN", "JOIN");
    // Most rows of the partitions that are still read have a partner, so that a lost one is missed.
    for on in ["x.id = y.id", "x.id = y.v"] {
        s.queries[0].sql = s.queries[0].sql.replace(on, "x.k = y.k");
    }
    s.faults = vec![match g.r.below(8) {
        0..=3 => Fault::StreamReset {
            node: a,
            tasks: true,
            nth: g.r.range(0, 7),
            frames: g.r.pick(&[1, 1, 2, 3, 4, 6, 9]),
            reason: g.r.pick(&[0, 2, 8]),
            until_ms: 60_000,
        },
        4 => Fault::BreakAfter { from: a, to: b, nth: 0, request: false, bytes: g.r.pick(&[4_000, 9_000, 20_000, 40_000]) },
        5 => {
            let t = g.r.pick(&s.tables);
            Fault::Leaf {
                chunk: g.r.usize(t.chunks / 2, t.chunks.max(1) - 1),
                after: g.r.usize(0, 2),
                table: t.name,
                query: None,
                failure: LeafFailure::Error(g.err_kind()),
            }
        }
        _ => Fault::Reset { at_ms: g.r.range(50, 1_500), a, b },
    }];
}

pub fn scenario(prop: &str, seed: u64) -> Scenario {
    fixup(raw(prop, seed))
}

fn raw(prop: &str, seed: u64) -> Scenario {
    let kinds = match prop {
        "C09" => JOIN_SQL,
        "C18" => ORDER_SQL,
        "C08" | "C12" => FULL_SQL,
        "C19" => &[10, 11, 11, 11, 18, 19, 25, 45][..],
        _ => ALL_SQL,
    };
    let (mut g, mut s) = base_of(prop, seed, kinds);
    plain_route(&mut s);
    match prop {
        // Result equivalence, tasks planned statically.
        "C01" => {
            s.cfg.dynamic = false;
            sparse(&mut g, &mut s);
        }
        // Boundaries placed by hand.
        "C26" => {
            s.cfg.hand = Some(g.r.next() >> 1);
            s.cfg.dynamic = g.r.pct(15);
            s.cfg.target_partitions = s.cfg.target_partitions.max(2);
        }
        // Result equivalence, task counts decided while running.
        "C02" => {
            s.cfg.dynamic = true;
            s.cfg.dynamic_bytes = g.r.pick(&[1, 1, 100, 1_000, 10_000, 100_000, 64 << 20]);
            sparse(&mut g, &mut s);
        }
        // Connections and nodes fail.
        "C03" => {
            stretch(&mut g, &mut s);
            let span = g.r.pick(&[30, 300, 2_000]);
            for _ in 0..g.r.pick(&[1, 1, 2, 3]) {
                let f = g.net_fault(s.cluster.workers, span);
                s.faults.push(f);
            }
            if g.r.pct(10) {
                feedcut(&mut g, &mut s);
            } else if sparse(&mut g, &mut s) {
                sparse_fault(&mut g, &mut s);
            }
        }
        // Errors of leaves, feeds, session builders, codecs, rewriters.
        "C04" => {
            for _ in 0..g.r.pick(&[1, 1, 1, 2]) {
                let f = error_fault(&mut g, &s);
                s.faults.push(f);
            }
            if sparse(&mut g, &mut s) {
                sparse_fault(&mut g, &mut s);
            }
        }
        // Everything at once: the query ends.
        "C05" => {
            stretch(&mut g, &mut s);
            for _ in 0..g.r.pick(&[1, 2, 3, 5]) {
                let f = any_fault(&mut g, &s);
                s.faults.push(f);
            }
            s.queries[0].consume = match g.r.below(6) {
                0 => Consume::ThenMetrics,
                1 => Consume::Analyze,
                2 => Consume::Slow(g.r.pick(&[1, 20])),
                3 => Consume::PauseAfter { batches: 1, ms: g.r.pick(&[50, 5_000]) },
                _ => Consume::All,
            };
            if g.r.pct(15) {
                let at_ms = g.r.below(500);
                s.faults.push(Fault::CoordinatorCrash { at_ms });
            }
        }
        // Whatever happened to a query, nothing of it stays behind.
        "C06" => {
            stretch(&mut g, &mut s);
            let n = g.r.pick(&[1, 1, 2, 3]);
            for i in 1..n {
                let mut q = g.query(1 + i, &s.tables.clone(), ALL_SQL);
                q.at_ms = g.r.pick(&[0, 0, 20, 300]);
                s.queries.push(q);
            }
            for q in s.queries.iter_mut() {
                if g.r.pct(40) {
                    q.consume = cancel(&mut g);
                }
            }
            for _ in 0..g.r.pick(&[0, 0, 1, 1, 2]) {
                let f = any_fault(&mut g, &s);
                s.faults.push(f);
            }
            if g.r.pct(12) {
                let at_ms = g.r.below(500);
                s.faults.push(Fault::CoordinatorCrash { at_ms });
            }
        }
        // Cancellation.
        "C07" => {
            for t in s.tables.iter_mut() {
                t.delay_ms = g.r.pick(&[5, 40, 150]);
                t.chunks = g.r.pick(&[6, 12, 24]);
                t.rows = g.r.pick(&[20, 50]);
                t.batch = g.r.pick(&[1, 5]);
            }
            s.queries[0].consume = cancel(&mut g);
            if g.r.pct(20) {
                let t = g.r.pick(&s.tables);
                s.faults.push(Fault::Leaf {
                    chunk: g.r.usize(0, t.chunks - 1),
                    after: g.r.usize(0, 3),
                    table: t.name,
                    query: None,
                    failure: LeafFailure::Stall(30_000),
                });
            }
            if g.r.pct(15) {
                s.queries[0].consume = Consume::All;
                let at_ms = g.r.below(400);
                s.faults = vec![Fault::CoordinatorCrash { at_ms }];
            }
        }
        // Input is read exactly once.
        "C08" => {
            if g.r.pct(30) {
                let mut q = g.query(2, &s.tables.clone(), FULL_SQL);
                q.at_ms = g.r.pick(&[0, 20]);
                s.queries.push(q);
            }
        }
        // Broadcast joins.
        "C09" => {
            s.cfg.broadcast = true;
            s.cfg.hash_join = true;
            s.cfg.collect_bytes = g.r.pick(&[1 << 20, 1 << 24]);
            for t in s.tables.iter_mut() {
                t.stats = t.stats || g.r.pct(70);
            }
        }
        // Backpressure.
        "C10" => {
            for t in s.tables.iter_mut() {
                t.delay_ms = 0;
                t.feed_delay_ms = 0;
                t.chunks = g.r.pick(&[12, 24]);
                t.rows = g.r.pick(&[50, 150]);
                t.batch = g.r.pick(&[5, 16, 50]);
                t.wide = g.r.pick(&[40, 400, 2_000]);
                t.empties = false;
            }
            s.cfg.buffer_budget = g.r.pick(&[0, 1, 4096, 64 << 10]);
            s.cfg.batch_size = g.r.pick(&[3, 16, 64]);
            s.queries[0].consume = match g.r.below(4) {
                0 => Consume::Slow(g.r.pick(&[1, 10])),
                1 => Consume::All,
                _ => Consume::PauseAfter { batches: g.r.usize(1, 4), ms: 20_000 },
            };
            if g.r.pct(10) {
                firehose(&mut g, &mut s);
            }
            s.horizon_ms = 400_000;
        }
        // Work unit feeds.
        "C11" => {
            for t in s.tables.iter_mut() {
                t.leaf = LeafStyle::Feed;
                t.chunks = g.r.pick(&[1, 4, 9, 16, 30]);
                t.rows = g.r.pick(&[1, 6, 20]);
                t.feed_delay_ms = g.r.pick(&[0, 1, 20, 100]);
                if g.r.pct(40) {
                    t.tail = g.r.pick(&[1, 4, 12]);
                }
            }
            match g.r.below(7) {
                0 | 1 => {
                    if let Some(f) = g.feed_fault(&s.tables) {
                        s.faults.push(f);
                    }
                }
                2 => {
                    let span = g.r.pick(&[30, 300]);
                    let f = g.net_fault(s.cluster.workers, span);
                    s.faults.push(f);
                }
                3 => s.queries[0].consume = cancel(&mut g),
                4 => feedcut(&mut g, &mut s),
                _ => {}
            }
        }
        // Metrics.
        "C12" => {
            s.cfg.metrics = g.r.pct(90);
            s.queries[0].consume = if g.r.pct(50) { Consume::Analyze } else { Consume::ThenMetrics };
            if g.r.pct(25) {
                stretch(&mut g, &mut s);
                let f = any_fault(&mut g, &s);
                s.faults.push(f);
            }
        }
        // Routing.
        "C13" => {
            s.cfg.route = match g.r.below(8) {
                0 => Route::WrongCount(g.r.pick(&[-1, 1, -2, 3])),
                1 => Route::Error,
                2 => Route::Same(g.r.usize(0, 3)),
                3 | 4 => Route::Seeded(g.r.next() >> 1),
                _ => Route::Default,
            };
            s.cluster.workers = g.r.pick(&[1, 2, 3, 4, 6]);
        }
        // Headers, options and settings.
        "C14" => {
            s.cfg.headers = true;
            let n = g.r.pick(&[1, 2, 3]);
            for i in 1..n {
                let mut q = g.query(1 + i, &s.tables.clone(), ALL_SQL);
                q.at_ms = g.r.pick(&[0, 0, 20]);
                s.queries.push(q);
            }
            const NOTES: &[&str] = &[
                "plain", "", " lead", "trail ", "two words", "sim.note", "a,b;c=d", "100%25", "\"quoted\"", "café", "数据", "tab\there",
                "x-datafusion-distributed-config-", "ÿ\u{80}", "🦀",
            ];
            for q in s.queries.iter_mut() {
                if g.r.pct(70) {
                    q.note = g.r.pick(NOTES).to_string();
                }
                for i in 0..g.r.below(4) {
                    q.multi.push(format!("{}-{i}-{}", q.id, g.r.pick(NOTES)));
                }
            }
        }
        "C15" => {
            s.mode = "rendezvous".into();
        }
        // Concurrent queries, some of which fail.
        "C16" => {
            let n = g.r.pick(&[2, 3, 4, 5]);
            for i in 1..n {
                let mut q = g.query(1 + i, &s.tables.clone(), ALL_SQL);
                q.at_ms = g.r.pick(&[0, 0, 0, 5, 50, 300]);
                if g.r.pct(30) {
                    q.dynamic = Some(g.r.pct(50));
                }
                if g.r.pct(30) {
                    q.consume = cancel(&mut g);
                }
                s.queries.push(q);
            }
            for q in 1..=n {
                if g.r.pct(25) {
                    let mut f = match g.r.below(3) {
                        0 => panic_fault(&mut g, &s),
                        _ => error_leaf(&mut g, &s),
                    };
                    if let Fault::Leaf { query, .. } | Fault::Feed { query, .. } = &mut f {
                        *query = Some(q);
                        s.faults.push(f);
                    }
                }
                if g.r.pct(6) {
                    let kind = g.err_kind();
                    s.faults.push(Fault::Codec { query: q, kind });
                }
            }
        }
        // The cluster works again after faults.
        "C17" => {
            stretch(&mut g, &mut s);
            for _ in 0..g.r.pick(&[1, 2, 3]) {
                let mut f = any_fault(&mut g, &s);
                let workers = s.cluster.workers;
                match &mut f {
                    Fault::Leaf { query, .. } | Fault::Feed { query, .. } => *query = Some(1),
                    Fault::Session { .. } | Fault::Rewrite { .. } | Fault::Refuse { .. } => {
                        f = g.net_fault(workers, 300)
                    }
                    _ => {}
                }
                match &mut f {
                    Fault::Crash { restart_ms, .. } => {
                        restart_ms.get_or_insert(400);
                    }
                    Fault::Refuse { .. } | Fault::BreakAfter { .. } | Fault::StreamReset { .. } => {
                        f = Fault::Reset { at_ms: g.r.below(300), a: 0, b: g.r.usize(1, workers) }
                    }
                    _ => {}
                }
                s.faults.push(f);
            }
            after_faults(&mut g, &mut s, 2);
            s.horizon_ms = 400_000;
        }
        "C18" => {}
        "C19" => {
            for t in s.tables.iter_mut() {
                t.chunks = g.r.pick(&[4, 12, 24]);
                t.delay_ms = g.r.pick(&[0, 2, 40, 150]);
            }
        }
        // Clocks.
        "C20" => {
            for _ in 0..=s.cluster.workers {
                let ms = g.r.pick(&[0, -1, 1, 50, -50, -3_600_000, 3_600_000, -400_000_000_000, 400_000_000_000]);
                s.cluster.skew_ms.push(ms);
            }
            for t in s.tables.iter_mut() {
                if g.r.pct(60) {
                    t.leaf = LeafStyle::Feed;
                }
            }
            for _ in 0..g.r.pick(&[0, 1, 2]) {
                let f = Fault::ClockJump {
                    at_ms: g.r.below(100),
                    node: g.r.usize(0, s.cluster.workers),
                    by_ms: g.r.pick(&[-86_400_000, -1_000, -1, 1, 1_000, 86_400_000]),
                };
                s.faults.push(f);
            }
            if g.r.pct(30) {
                s.cfg.metrics = true;
                s.queries[0].consume = if g.r.pct(50) { Consume::Analyze } else { Consume::ThenMetrics };
            }
        }
        // Plan rewriters of the workers.
        "C21" => {
            s.cfg.rewriters = g.r.pick(&[1, 2, 3]);
            if g.r.pct(25) {
                let f = Fault::Rewrite {
                    node: g.r.usize(1, s.cluster.workers),
                    nth: g.r.below(6),
                    kind: g.err_kind(),
                    panic: false,
                };
                s.faults.push(f);
            }
        }
        // The coordinator is one of the workers.
        "C22" => {
            s.cluster.local = true;
            s.cluster.workers = g.r.pick(&[1, 1, 2, 3]);
            if g.r.pct(30) {
                s.cfg.route = Route::Same(0);
            }
            if g.r.pct(25) {
                let f = error_leaf(&mut g, &s);
                s.faults.push(f);
            }
        }
        // Panics.
        "C23" => {
            let f = panic_fault(&mut g, &s);
            s.faults.push(f);
            if g.r.pct(60) {
                let mut q = g.query(AFTER, &s.tables.clone(), ALL_SQL);
                q.at_ms = g.r.pick(&[2_000, 20_000]);
                for f in s.faults.iter_mut() {
                    if let Fault::Leaf { query, .. } | Fault::Feed { query, .. } = f {
                        *query = Some(1);
                    }
                }
                if !s.faults.iter().any(|f| matches!(f, Fault::Rewrite { .. })) {
                    s.queries.push(q);
                }
            }
        }
        // Transport settings.
        "C24" => {
            s.cluster.max_message = g.r.pick(&[None, Some(1024), Some(2048), Some(64 << 10)]);
            s.net.window = g.r.pick(&[1 << 20, 1 << 13, 700]);
            s.net.segment = g.r.pick(&[0, 17, 301, 4096]);
            s.cfg.shuffle_batch = g.r.pick(&[0, 1, 2, 7, 8192]);
            for t in s.tables.iter_mut() {
                t.wide = g.r.pick(&[8, 400, 3_000]);
            }
        }
        // Memory.
        "C25" => {
            s.cluster.memory = Some(g.r.pick(&[1, 2_000, 20_000, 100_000, 1 << 20]));
            for t in s.tables.iter_mut() {
                t.chunks = g.r.pick(&[4, 12]);
                t.rows = g.r.pick(&[20, 50, 150]);
                t.wide = g.r.pick(&[40, 400]);
            }
        }
        _ => {}
    }
    s
}
