//! Watching searches: a wrapper around rewrite strategies that records the
//! circuits visited, and a runner that tells a search that waits for nothing
//! from one that works.
use crate::report::{catch, Panicked};
use hugr::ops::OpType;
use hugr::{HugrView, Node};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use tket::circuit::CircuitHash;
use tket::rewrite::strategy::{RewriteResult, RewriteStrategy};
use tket::rewrite::CircuitRewrite;
use tket::Circuit;

#[derive(Debug)]
pub struct Log<C> {
    /// (hash of the circuit, its cost, seconds since the start)
    pub visits: Vec<(u64, C, f64)>,
    /// rewrites offered to the strategy
    pub offered: usize,
    /// circuits the strategy made
    pub made: usize,
    /// circuits made that are cyclic
    pub cyclic: usize,
}

#[derive(Debug)]
pub struct Shared<C> {
    pub log: Mutex<Log<C>>,
    start: Instant,
    delays: Mutex<u64>,
    pub stop: std::sync::atomic::AtomicBool,
}

/// A strategy that records what it is asked to do.
#[derive(Debug)]
pub struct Watch<S: RewriteStrategy> {
    pub inner: S,
    pub shared: Arc<Shared<S::Cost>>,
    /// longest injected delay, microseconds
    max_delay: u64,
}
impl<S: RewriteStrategy + Clone> Clone for Watch<S> {
    fn clone(&self) -> Self {
        Watch { inner: self.inner.clone(), shared: self.shared.clone(), max_delay: self.max_delay }
    }
}
impl<S: RewriteStrategy> Watch<S> {
    pub fn new(inner: S, delay_seed: u64, max_delay: u64) -> Self {
        let log = Log { visits: vec![], offered: 0, made: 0, cyclic: 0 };
        let shared = Shared { log: Mutex::new(log), start: Instant::now(), delays: Mutex::new(delay_seed | 1), stop: false.into() };
        Watch { inner, shared: Arc::new(shared), max_delay }
    }
    fn delay(&self) {
        if self.max_delay == 0 {
            return;
        }
        let d = {
            let mut s = self.shared.delays.lock().unwrap();
            *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (*s >> 33) % (self.max_delay + 1)
        };
        match d % 4 {
            0 => std::thread::yield_now(),
            1 => {}
            _ => std::thread::sleep(Duration::from_micros(d)),
        }
    }
}

impl<S: RewriteStrategy> RewriteStrategy for Watch<S> {
    type Cost = S::Cost;
    fn apply_rewrites(&self, rewrites: impl IntoIterator<Item = CircuitRewrite>, circ: &Circuit) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
        let rws: Vec<CircuitRewrite> = rewrites.into_iter().collect();
        let hash = circ.circuit_hash(circ.parent()).unwrap_or(0);
        let cost = self.inner.circuit_cost(circ);
        {
            let mut l = self.shared.log.lock().unwrap();
            let t = self.shared.start.elapsed().as_secs_f64();
            l.visits.push((hash, cost, t));
            l.offered += rws.len();
        }
        self.delay();
        let stop = self.shared.stop.load(std::sync::atomic::Ordering::Relaxed);
        let res: Vec<_> = if stop { vec![] } else { self.inner.apply_rewrites(rws, circ).collect() };
        self.delay();
        let mut l = self.shared.log.lock().unwrap();
        l.made += res.len();
        l.cyclic += res.iter().filter(|r| r.circ.circuit_hash(r.circ.parent()).is_err()).count();
        drop(l);
        res.into_iter()
    }
    fn op_cost(&self, op: &OpType) -> Self::Cost {
        self.inner.op_cost(op)
    }
    fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Self::Cost {
        self.inner.circuit_cost(circ)
    }
    fn pre_rewrite_cost(&self, rw: &CircuitRewrite, circ: &Circuit) -> Self::Cost {
        self.inner.pre_rewrite_cost(rw, circ)
    }
    fn post_rewrite_cost(&self, rw: &CircuitRewrite) -> Self::Cost {
        self.inner.post_rewrite_cost(rw)
    }
}

pub enum Ran<T> {
    Done(T),
    Panicked(Panicked),
    /// every thread waits and nothing happens any more
    Stuck,
    /// used too much processor time, or too many visits
    TooLong,
}

/// Time used by this process, in clock ticks.
fn ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 2..].split(' ').collect();
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}

/// Run a search on its own thread. `pulse` counts what the search did so far;
/// `limit` is the number above which it is stopped by `stop`. `quiet` is the
/// number of seconds without any activity after which it counts as stuck.
pub fn watched<T: Send + 'static>(quiet: u64, pulse: &dyn Fn() -> usize, limit: usize, stop: &dyn Fn(), f: impl FnOnce() -> T + Send + 'static) -> Ran<T> {
    let (tx, rx) = mpsc::channel();
    let spawned = std::thread::Builder::new().stack_size(64 << 20).name("search".into()).spawn(move || {
        let _ = tx.send(catch(f));
    });
    spawned.unwrap();
    let mut last = (0, 0);
    let mut still = 0;
    let mut cpu0 = ticks();
    let mut stopped = false;
    loop {
        match rx.recv_timeout(Duration::from_millis(if still == 0 { 20 } else { 50 })) {
            Ok(_) if stopped => return Ran::TooLong,
            Ok(Ok(x)) => return Ran::Done(x),
            Ok(Err(p)) => return Ran::Panicked(p),
            Err(mpsc::RecvTimeoutError::Disconnected) => return Ran::Panicked(Panicked { file: "?".into(), msg: "the search thread died".into() }),
            Err(mpsc::RecvTimeoutError::Timeout) => {}
        }
        let n = pulse();
        if n > limit && !stopped {
            stop();
            stopped = true;
        }
        let now = (ticks(), n);
        // the poll itself uses a little time
        if now.1 == last.1 && now.0 <= last.0 + 1 {
            still += 1;
        } else {
            still = 1;
        }
        last = now;
        if still == 1 {
            cpu0 = now.0;
        }
        if still as u64 > quiet * 20 && now.0 < cpu0 + 20 {
            return if stopped { Ran::TooLong } else { Ran::Stuck };
        }
    }
}
