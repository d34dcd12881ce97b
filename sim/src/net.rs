//! The simulated network: one byte pipe per direction of every connection, with seeded latency,
//! segmentation, bounded windows, resets, stalls, refused connections and dead hosts.
use crate::prng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender, unbounded_channel};
use tokio::time::{Instant, Sleep};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetCfg {
    pub seed: u64,
    /// Latency of a segment, in microseconds.
    pub lat_us: (u64, u64),
    /// Percent of the segments that take ten to a hundred times longer.
    pub spike_pct: u64,
    /// Bytes in flight per direction before the sender blocks.
    pub window: usize,
    /// Largest segment; 0 for no segmentation.
    pub segment: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Open,
    /// The writer is gone: readers see the end of the stream after the data.
    Eof,
    /// The connection was reset.
    Reset,
}

struct Pipe {
    data: VecDeque<(Instant, Vec<u8>)>,
    queued: usize,
    last_ready: Option<Instant>,
    end: End,
    end_at: Option<Instant>,
    reader_gone: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    stalled: bool,
    rng: Rng,
    /// Bytes written so far, and the count at which the connection breaks.
    written: u64,
    read: u64,
    break_at: Option<u64>,
}

impl Pipe {
    fn new(rng: Rng) -> Self {
        Pipe {
            data: VecDeque::new(),
            queued: 0,
            last_ready: None,
            end: End::Open,
            end_at: None,
            reader_gone: false,
            reader: None,
            writer: None,
            stalled: false,
            rng,
            written: 0,
            read: 0,
            break_at: None,
        }
    }
    fn wake(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake();
        }
        if let Some(w) = self.writer.take() {
            w.wake();
        }
    }
}

struct Conn {
    from: usize,
    to: usize,
    up: Arc<Mutex<Pipe>>,
    down: Arc<Mutex<Pipe>>,
    /// Ends of it that were dropped.
    open_ends: Arc<Mutex<u8>>,
}

pub struct Io {
    rx: Arc<Mutex<Pipe>>,
    tx: Arc<Mutex<Pipe>>,
    timer: Option<Pin<Box<Sleep>>>,
    open_ends: Arc<Mutex<u8>>,
    cfg: NetCfg,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct NetStats {
    pub conns: u64,
    pub refused: u64,
    pub resets: u64,
    pub stalls: u64,
    pub bytes: u64,
    pub segments: u64,
    pub spikes: u64,
    pub short_writes: u64,
    pub window_blocks: u64,
    pub per_link: BTreeMap<String, (u64, u64)>,
}

struct Net {
    cfg: NetCfg,
    conns: Vec<Conn>,
    listeners: BTreeMap<String, (usize, UnboundedSender<Io>)>,
    hosts: BTreeMap<String, usize>,
    /// Links on which the next connections are refused: how many more.
    refuse: BTreeMap<(usize, usize), u64>,
    /// Stalled pairs of nodes (partitions, black holes).
    stalled: Vec<(usize, usize)>,
    /// (from, to, connection of that link counted from 0) -> (direction is request, bytes).
    breaks: Vec<(usize, usize, u64, bool, u64)>,
    link_conns: BTreeMap<(usize, usize), u64>,
    stats: NetStats,
}

thread_local! {
    static NET: RefCell<Option<Net>> = const { RefCell::new(None) };
}

fn with<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    NET.with(|n| f(n.borrow_mut().as_mut().expect("no network")))
}

fn try_with<T>(f: impl FnOnce(&mut Net) -> T) -> Option<T> {
    NET.try_with(|n| n.try_borrow_mut().ok().and_then(|mut n| n.as_mut().map(f))).ok().flatten()
}

pub fn install(cfg: &NetCfg) {
    NET.with(|n| {
        *n.borrow_mut() = Some(Net {
            cfg: cfg.clone(),
            conns: vec![],
            listeners: BTreeMap::new(),
            hosts: BTreeMap::new(),
            refuse: BTreeMap::new(),
            stalled: vec![],
            breaks: vec![],
            link_conns: BTreeMap::new(),
            stats: NetStats::default(),
        })
    });
}

pub fn forget() {
    NET.with(|n| std::mem::forget(n.borrow_mut().take()));
}

pub fn stats() -> NetStats {
    with(|n| {
        let mut stats = n.stats.clone();
        for c in &n.conns {
            let up = c.up.lock().unwrap().written;
            let down = c.down.lock().unwrap().written;
            let e = stats.per_link.entry(format!("{}-{}", c.from, c.to)).or_default();
            e.0 += up;
            e.1 += down;
            stats.bytes += up + down;
        }
        stats
    })
}

/// Bytes a node has read from its peers so far.
pub fn read_by(node: usize) -> u64 {
    with(|n| {
        n.conns
            .iter()
            .map(|c| {
                let mut total = 0;
                if c.from == node {
                    total += c.down.lock().unwrap().read;
                }
                if c.to == node {
                    total += c.up.lock().unwrap().read;
                }
                total
            })
            .sum()
    })
}

/// Connections between live ends.
pub fn open_conns() -> Vec<(usize, usize)> {
    with(|n| {
        n.conns
            .iter()
            .filter(|c| *c.open_ends.lock().unwrap() == 2)
            .map(|c| (c.from, c.to))
            .collect()
    })
}

pub fn conns_opened(from: usize, to: usize) -> u64 {
    with(|n| n.link_conns.get(&(from, to)).copied().unwrap_or(0))
}

/// Starts accepting connections for a host on a node.
pub fn listen(host: &str, node: usize) -> UnboundedReceiver<Io> {
    let (tx, rx) = unbounded_channel();
    with(|n| {
        n.hosts.insert(host.to_string(), node);
        n.listeners.insert(host.to_string(), (node, tx));
    });
    rx
}

/// The node stops accepting connections, and its connections break.
pub fn down(node: usize, silent: bool) {
    with(|n| n.listeners.retain(|_, (at, _)| *at != node));
    if !silent {
        reset_where(|from, to| from == node || to == node);
    }
}

/// Breaks the connections for which the predicate holds.
pub fn reset_where(pred: impl Fn(usize, usize) -> bool) -> u64 {
    let pipes: Vec<Arc<Mutex<Pipe>>> = with(|n| {
        let mut out = vec![];
        for c in &n.conns {
            if pred(c.from, c.to) && *c.open_ends.lock().unwrap() > 0 {
                out.push(c.up.clone());
                out.push(c.down.clone());
            }
        }
        n.stats.resets += out.len() as u64 / 2;
        out
    });
    for p in &pipes {
        let mut p = p.lock().unwrap();
        p.end = End::Reset;
        p.end_at = None;
        p.stalled = false;
        p.data.clear();
        p.queued = 0;
        p.wake();
    }
    pipes.len() as u64 / 2
}

/// Stalls (or heals) everything between two nodes.
pub fn stall(a: usize, b: usize, on: bool) {
    let pipes: Vec<Arc<Mutex<Pipe>>> = with(|n| {
        n.stalled.retain(|p| *p != (a, b) && *p != (b, a));
        if on {
            n.stalled.push((a, b));
            n.stats.stalls += 1;
        }
        n.conns
            .iter()
            .filter(|c| (c.from, c.to) == (a, b) || (c.from, c.to) == (b, a))
            .flat_map(|c| [c.up.clone(), c.down.clone()])
            .collect()
    });
    for p in pipes {
        let mut p = p.lock().unwrap();
        p.stalled = on;
        p.wake();
    }
}

pub fn heal_all() {
    let pairs = with(|n| {
        n.refuse.clear();
        n.breaks.clear();
        std::mem::take(&mut n.stalled)
    });
    for (a, b) in pairs {
        stall(a, b, false);
    }
    let pipes: Vec<_> =
        with(|n| n.conns.iter().flat_map(|c| [c.up.clone(), c.down.clone()]).collect());
    for p in pipes {
        p.lock().unwrap().break_at = None;
    }
}

pub fn refuse(from: usize, to: usize, times: u64) {
    with(|n| n.refuse.insert((from, to), times));
}

/// The `nth` connection from a node to another breaks after some bytes of one direction.
pub fn break_after(from: usize, to: usize, nth: u64, request: bool, bytes: u64) {
    with(|n| n.breaks.push((from, to, nth, request, bytes)));
}

fn err(kind: io::ErrorKind, what: &str) -> io::Error {
    io::Error::new(kind, what.to_string())
}

/// Connects from the current node to a host.
pub async fn connect(from: usize, host: &str) -> io::Result<Io> {
    let delay = with(|n| {
        let id = n.stats.conns + n.stats.refused;
        let mut rng = Rng::fork(n.cfg.seed, 0x1000 + id);
        rng.range(n.cfg.lat_us.0, n.cfg.lat_us.1)
    });
    tokio::time::sleep(Duration::from_micros(delay)).await;
    loop {
        let wait = with(|n| {
            let Some(to) = n.hosts.get(host).copied() else { return false };
            n.stalled.iter().any(|p| *p == (from, to) || *p == (to, from))
        });
        if !wait {
            break;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    with(|n| {
        let Some((to, listener)) = n.listeners.get(host).map(|(a, b)| (*a, b.clone())) else {
            n.stats.refused += 1;
            return Err(err(io::ErrorKind::ConnectionRefused, "simulated: connection refused"));
        };
        if let Some(times) = n.refuse.get_mut(&(from, to))
            && *times > 0
        {
            *times -= 1;
            n.stats.refused += 1;
            return Err(err(io::ErrorKind::ConnectionRefused, "simulated: connection refused"));
        }
        let id = n.stats.conns;
        n.stats.conns += 1;
        let nth = n.link_conns.entry((from, to)).or_default();
        let this = *nth;
        *nth += 1;
        let mut up = Pipe::new(Rng::fork(n.cfg.seed, 2 * id + 1));
        let mut down = Pipe::new(Rng::fork(n.cfg.seed, 2 * id + 2));
        for (f, t, k, request, bytes) in &n.breaks {
            if (*f, *t, *k) == (from, to, this) {
                if *request {
                    up.break_at = Some(*bytes);
                } else {
                    down.break_at = Some(*bytes);
                }
            }
        }
        let up = Arc::new(Mutex::new(up));
        let down = Arc::new(Mutex::new(down));
        let open_ends = Arc::new(Mutex::new(2));
        let io = |rx: &Arc<Mutex<Pipe>>, tx: &Arc<Mutex<Pipe>>| Io {
            rx: rx.clone(),
            tx: tx.clone(),
            timer: None,
            open_ends: open_ends.clone(),
            cfg: n.cfg.clone(),
        };
        let client = io(&down, &up);
        let server = io(&up, &down);
        if listener.send(server).is_err() {
            n.stats.refused += 1;
            return Err(err(io::ErrorKind::ConnectionRefused, "simulated: connection refused"));
        }
        n.conns.push(Conn { from, to, up, down, open_ends });
        Ok(client)
    })
}

impl AsyncRead for Io {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let this = &mut *self;
        loop {
            let wait_until = {
                let mut p = this.rx.lock().unwrap();
                let now = Instant::now();
                if p.end == End::Reset {
                    return Poll::Ready(Err(err(
                        io::ErrorKind::ConnectionReset,
                        "simulated: connection reset",
                    )));
                }
                if p.stalled {
                    p.reader = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                match p.data.front() {
                    Some((ready, _)) if *ready <= now => {
                        let (_, mut chunk) = p.data.pop_front().unwrap();
                        let n = chunk.len().min(buf.remaining());
                        buf.put_slice(&chunk[..n]);
                        if n < chunk.len() {
                            chunk.drain(..n);
                            p.data.push_front((now, chunk));
                        }
                        p.queued -= n;
                        p.read += n as u64;
                        if let Some(w) = p.writer.take() {
                            w.wake();
                        }
                        return Poll::Ready(Ok(()));
                    }
                    Some((ready, _)) => {
                        let ready = *ready;
                        p.reader = Some(cx.waker().clone());
                        ready
                    }
                    None if p.end == End::Eof && p.end_at.is_none_or(|t| t <= now) => {
                        return Poll::Ready(Ok(()));
                    }
                    None => {
                        p.reader = Some(cx.waker().clone());
                        match p.end_at {
                            Some(at) => at,
                            None => return Poll::Pending,
                        }
                    }
                }
            };
            let timer = this.timer.get_or_insert_with(|| Box::pin(tokio::time::sleep_until(wait_until)));
            if timer.deadline() != wait_until {
                timer.as_mut().reset(wait_until);
            }
            match timer.as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => {
                    this.timer = None;
                    // The timer's resolution is a millisecond: it may have fired a little early.
                    let mut p = this.rx.lock().unwrap();
                    let now = Instant::now();
                    if let Some((ready, _)) = p.data.front_mut()
                        && *ready > now
                        && *ready == wait_until
                    {
                        *ready = now;
                    }
                    if p.end_at == Some(wait_until) {
                        p.end_at = Some(now);
                    }
                }
            }
        }
    }
}

impl AsyncWrite for Io {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let cfg = self.cfg.clone();
        let mut spikes = 0;
        let (result, broke) = {
            let mut p = self.tx.lock().unwrap();
            if p.end == End::Reset {
                return Poll::Ready(Err(err(io::ErrorKind::ConnectionReset, "simulated: connection reset")));
            }
            if p.reader_gone || p.end == End::Eof {
                return Poll::Ready(Err(err(io::ErrorKind::BrokenPipe, "simulated: broken pipe")));
            }
            if p.queued >= cfg.window {
                p.writer = Some(cx.waker().clone());
                drop(p);
                try_with(|n| n.stats.window_blocks += 1);
                return Poll::Pending;
            }
            let mut n = buf.len().min(cfg.window - p.queued).max(1).min(buf.len());
            if cfg.segment > 0 && n > cfg.segment {
                n = p.rng.usize(1, cfg.segment);
            }
            let mut broke = false;
            if let Some(at) = p.break_at
                && p.written + n as u64 >= at
            {
                broke = true;
            }
            let mut latency = p.rng.range(cfg.lat_us.0, cfg.lat_us.1);
            if p.rng.pct(cfg.spike_pct) {
                latency *= p.rng.range(10, 100);
                // Each window of a connection can meet a spike: with small ones, longer spikes would
                // make the delivery of a plan last longer than workers wait for it.
                if cfg.window <= 8192 || (cfg.segment > 0 && cfg.segment < 1024) {
                    latency = latency.min(400_000).max(cfg.lat_us.1);
                }
                spikes = 1;
            }
            let mut ready = Instant::now() + Duration::from_micros(latency);
            if let Some(last) = p.last_ready {
                ready = ready.max(last);
            }
            p.last_ready = Some(ready);
            p.data.push_back((ready, buf[..n].to_vec()));
            p.queued += n;
            p.written += n as u64;
            if let Some(w) = p.reader.take() {
                w.wake();
            }
            (n, broke)
        };
        try_with(|n| {
            n.stats.segments += 1;
            n.stats.spikes += spikes;
            if result < buf.len() {
                n.stats.short_writes += 1;
            }
        });
        if broke {
            for p in [&self.tx, &self.rx] {
                let mut p = p.lock().unwrap();
                p.end = End::Reset;
                p.data.clear();
                p.queued = 0;
                p.wake();
            }
            try_with(|n| n.stats.resets += 1);
            return Poll::Ready(Err(err(io::ErrorKind::ConnectionReset, "simulated: connection reset")));
        }
        Poll::Ready(Ok(result))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.tx.lock().unwrap();
        if p.end == End::Open {
            p.end = End::Eof;
            p.end_at = p.last_ready;
            p.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl Drop for Io {
    fn drop(&mut self) {
        *self.open_ends.lock().unwrap() -= 1;
        {
            let mut p = self.tx.lock().unwrap();
            if p.end == End::Open {
                p.end = End::Eof;
                p.end_at = p.last_ready;
                p.wake();
            }
        }
        let mut p = self.rx.lock().unwrap();
        p.reader_gone = true;
        p.wake();
    }
}

impl tonic::transport::server::Connected for Io {
    type ConnectInfo = ();
    fn connect_info(&self) {}
}

pub fn now_node() -> usize {
    rt::node()
}
