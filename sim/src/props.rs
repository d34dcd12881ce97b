//! The properties: which violations decide them, and what counts as a non-trivial run.
pub struct Prop {
    pub id: &'static str,
    pub classes: &'static [&'static [&'static str]],
    /// Runs without an injected fault count as trivial.
    pub needs_fault: bool,
    pub rule: &'static str,
}

impl Prop {
    pub fn decides(&self, class: &str) -> bool {
        ALWAYS.contains(&class) || self.classes.iter().any(|c| c.contains(&"*") || c.contains(&class))
    }
}

/// Violations of any property: the process of the run died, or never came back.
pub const ALWAYS: &[&str] = &["process-crash", "stuck", "livelock"];

/// The query answers what a single node answers.
const BASE: &[&str] = &[
    "rows", "schema", "order", "hang", "spurious-error", "plan-error", "missing-error", "client-panic", "killed",
];
const ERRORS: &[&str] = &["wrong-error", "error-kind", "swallowed-error"];
const LEAKS: &[&str] = &["leak-task-entries", "leak-plans", "leak-memory", "leak-running", "leak-streams"];
const ONCE: &[&str] = &["read-twice", "executed-twice"];
const FEEDS: &[&str] = &["feed-duplicate", "feed-invented", "feed-order"];
const METRICS: &[&str] = &["metrics-missing", "metrics-wrong", "metrics-wrong-union", "metrics-inconsistent", "metrics-kinds", "analyze-wrong"];
const HEADERS: &[&str] = &["headers-missing", "headers-wrong", "options-wrong"];
const PANIC: &[&str] = &["internal-panic"];

const PLAIN: &str = "a run counts if the query was distributed over the simulated network, no infrastructure failure occurred and the scheduler had more than 20 real choices; runs are distinct if the sequence (task, node, spawn location) of their polls differs";
const FAULTY: &str = "a run counts if the query was distributed over the simulated network, at least one fault was injected and took effect, and the scheduler had more than 20 real choices; runs are distinct if the sequence (task, node, spawn location) of their polls differs";

const fn p(id: &'static str, classes: &'static [&'static [&'static str]], needs_fault: bool) -> Prop {
    Prop { id, classes, needs_fault, rule: if needs_fault { FAULTY } else { PLAIN } }
}

pub const PROPS: &[Prop] = &[
    p("T01", &[&["*"]], false),
    p("T02", &[&["*"]], true),
    p("C01", &[BASE, PANIC], false),
    p("C02", &[BASE, PANIC, &["too-many-tasks"]], false),
    p("C03", &[&["rows", "schema", "order", "missing-error", "spurious-error", "swallowed-error", "hang", "client-panic"]], true),
    p("C04", &[ERRORS, &["client-panic", "hang", "spurious-error", "rows", "missing-error"]], true),
    p("C05", &[&["hang", "killed", "client-panic"]], true),
    p("C06", &[LEAKS, &["hang"]], false),
    p("C07", &[LEAKS, &["work-after-end", "hang"]], false),
    p("C08", &[ONCE, &["rows", "hang", "spurious-error", "feed-duplicate"]], false),
    p("C09", &[BASE, ONCE], false),
    p("C10", &[&["unbounded-buffer", "hang", "rows", "spurious-error"]], false),
    p("C11", &[FEEDS, BASE, ERRORS, LEAKS, &["work-after-end"]], false),
    p("C12", &[METRICS, BASE], false),
    p("C13", &[BASE, &["routed-elsewhere", "unbalanced", "route-accepted", "too-many-tasks"]], false),
    p("C14", &[HEADERS, &["spurious-error", "plan-error", "rows"]], false),
    p("C15", &[&["*"]], false),
    p("C16", &[BASE, ERRORS, HEADERS], false),
    p("C17", &[BASE], true),
    p("C18", &[BASE], false),
    p("C19", &[&["rows", "hang", "work-after-end", "leak-streams", "spurious-error"]], false),
    p("C20", &[BASE, METRICS, PANIC], false),
    p("C21", &[BASE, ERRORS, &["rewrite-wrong"]], false),
    p("C22", &[BASE, &["self-connection", "executed-twice", "error-kind", "wrong-error"]], false),
    p("C23", &[LEAKS, PANIC, &["client-panic", "hang", "swallowed-error", "rows"]], true),
    p("C24", &[BASE], false),
    p("C26", &[BASE, PANIC, ONCE], false),
    p("C25", &[BASE, &["leak-memory", "wrong-error"]], false),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
