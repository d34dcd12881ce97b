//! One process per simulated run, forked from a warm single-threaded parent.
use crate::check::Violation;
use crate::world::Scenario;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::{FromRawFd, RawFd};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub seed: u64,
    pub violations: Vec<Violation>,
    pub fingerprint: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub choices: u64,
    pub tasks: u64,
    pub sim_ms: u64,
    pub wall_us: u64,
    pub fired: BTreeMap<String, u64>,
    pub distributed: bool,
    pub conns: u64,
    pub resets: u64,
    pub refused: u64,
    pub bytes: u64,
    pub segments: u64,
    pub short_writes: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub features: BTreeMap<String, u64>,
    pub rows: u64,
    pub trace: Vec<String>,
    pub notes: Vec<String>,
    /// How the process of the run ended, if it did not report.
    pub crash: Option<String>,
}

pub struct Job {
    pub scenario: Scenario,
    pub traced: bool,
    pub limit: Duration,
}

struct Child {
    id: usize,
    pid: libc::pid_t,
    fd: RawFd,
    buf: Vec<u8>,
    deadline: Instant,
    seed: u64,
}

fn fork_job(job: &Job) -> (libc::pid_t, RawFd) {
    let mut fds = [0 as RawFd; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let s = job.scenario.clone();
            let traced = job.traced;
            let report = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || crate::run_report(&s, traced))
                .expect("thread")
                .join();
            let code = match report {
                Ok(report) => {
                    let bytes = serde_json::to_vec(&report).expect("report");
                    let mut at = 0;
                    while at < bytes.len() {
                        let n = libc::write(fds[1], bytes[at..].as_ptr() as *const _, bytes.len() - at);
                        if n <= 0 {
                            break;
                        }
                        at += n as usize;
                    }
                    0
                }
                Err(_) => 77,
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        (pid, fds[0])
    }
}

/// Runs jobs on `width` processes. `next` yields jobs; `done` gets their reports (in any order) and
/// says whether to go on.
pub fn run(
    width: usize,
    mut next: impl FnMut() -> Option<(usize, Job)>,
    mut done: impl FnMut(usize, Report) -> bool,
) {
    let mut children: Vec<Child> = vec![];
    let mut going = true;
    loop {
        while going && children.len() < width {
            match next() {
                None => {
                    going = false;
                }
                Some((id, job)) => {
                    let (pid, fd) = fork_job(&job);
                    children.push(Child {
                        id,
                        pid,
                        fd,
                        buf: vec![],
                        deadline: Instant::now() + job.limit,
                        seed: job.scenario.seed,
                    });
                }
            }
        }
        if children.is_empty() {
            return;
        }
        let mut polls: Vec<libc::pollfd> = children
            .iter()
            .map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(polls.as_mut_ptr(), polls.len() as u64, 200) };
        let mut i = 0;
        let now = Instant::now();
        while i < children.len() {
            let mut finished: Option<Report> = None;
            {
                let c = &mut children[i];
                if polls.iter().any(|p| p.fd == c.fd && p.revents != 0) {
                    let mut file = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(c.fd) });
                    let mut chunk = [0u8; 65536];
                    loop {
                        match file.read(&mut chunk) {
                            Ok(0) => {
                                let mut status = 0;
                                unsafe { libc::waitpid(c.pid, &mut status, 0) };
                                let report = match serde_json::from_slice::<Report>(&c.buf) {
                                    Ok(r) if status == 0 => r,
                                    _ => {
                                        let how = if libc::WIFSIGNALED(status) {
                                            format!("signal {}", libc::WTERMSIG(status))
                                        } else {
                                            format!("exit {}", libc::WEXITSTATUS(status))
                                        };
                                        Report { seed: c.seed, crash: Some(how), ..Default::default() }
                                    }
                                };
                                finished = Some(report);
                                break;
                            }
                            Ok(n) => c.buf.extend_from_slice(&chunk[..n]),
                            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                            Err(_) => break,
                        }
                    }
                }
                if finished.is_none() && now > c.deadline {
                    unsafe {
                        libc::kill(c.pid, libc::SIGKILL);
                        let mut status = 0;
                        libc::waitpid(c.pid, &mut status, 0);
                    }
                    finished = Some(Report {
                        seed: c.seed,
                        crash: Some("wall-timeout".into()),
                        ..Default::default()
                    });
                }
            }
            if let Some(mut report) = finished {
                let c = children.swap_remove(i);
                polls.retain(|p| p.fd != c.fd);
                unsafe { libc::close(c.fd) };
                if let Some(how) = &report.crash {
                    let class = if how == "wall-timeout" { "stuck" } else { "process-crash" };
                    report.violations.push(Violation {
                        class: class.into(),
                        detail: format!("the simulated run ended with {how}"),
                    });
                }
                if !done(c.id, report) {
                    going = false;
                }
            } else {
                i += 1;
            }
        }
        if !going && children.iter().all(|c| c.deadline < now) && children.is_empty() {
            return;
        }
    }
}

/// Runs one scenario in a process of its own.
pub fn one(scenario: &Scenario, traced: bool, limit: Duration) -> Report {
    let mut job = Some((0, Job { scenario: scenario.clone(), traced, limit }));
    let mut out = None;
    run(1, || job.take(), |_, r| {
        out = Some(r);
        true
    });
    out.expect("report")
}

/// Runs scenarios on `width` processes, and returns their reports in order.
pub fn many(scenarios: Vec<Scenario>, width: usize, limit: Duration) -> Vec<Report> {
    let n = scenarios.len();
    let mut out: Vec<Option<Report>> = vec![None; n];
    let mut it = scenarios.into_iter().enumerate();
    run(
        width,
        || it.next().map(|(i, scenario)| (i, Job { scenario, traced: false, limit })),
        |i, r| {
            out[i] = Some(r);
            true
        },
    );
    out.into_iter().map(|r| r.expect("report")).collect()
}

/// Whether DataFusion without the distributed planner shows the same violation for the same query: then it is not
/// one of the code under test.
pub fn stock_too(s: &Scenario, v: &Violation, limit: Duration) -> bool {
    if !["rows", "order", "schema", "spurious-error", "plan-error"].contains(&v.class.as_str()) || s.cfg.stock {
        return false;
    }
    let Some(query) = v.detail.split('`').nth(1) else {
        return false;
    };
    let mut c = s.clone();
    c.cfg.stock = true;
    c.faults.clear();
    let r = one(&c, false, limit);
    r.violations.iter().any(|x| x.class == v.class && x.detail.split('`').nth(1) == Some(query))
}
