use super::search::{watched, Ran};
use crate::report::*;
use crate::rng::{hash_str, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tket::optimiser::{BacktrackingOptimiser, Optimiser, OptimiserOptions, State};

pub static CHECK: Check = Check {
    id: "C17",
    rule: "case = a search of the backtracking optimiser over a random space of states (finite or infinite graph; random, equal, tied and improving costs; distinct states with equal hashes; states without hash or cost; several identical successors), with random queue size, visit and time limits and number of best states to track. The states log every expansion. The log is replayed against a model of the bounded queue: every expanded state must be one of the cheapest the model holds, nothing is expanded twice, the search ends exactly when the model is empty or a limit is reached, the returned state is the cheapest expanded one and the tracked best ones are the cheapest accepted ones. Non-trivial = distinct search with at least three expansions.",
    assumptions: &["among states of equal cost in a full queue any may be the one dropped", "a state is dropped when the queue is full and it is not cheaper than the most expensive one there"],
    cases: |t| if t == Tier::Quick { 60_000 } else { 5_000_000 },
    min_nontrivial: 5000,
    budget: (60, 800),
    case_timeout: 120,
    f: case,
};

#[derive(Clone, Debug)]
struct Space {
    /// successors; `None` for an infinite tree
    next: Option<Vec<Vec<u64>>>,
    salt: u64,
    branching: u64,
    costs: Costs,
    /// states that share a hash with the previous one
    twins: bool,
    /// one state in this many has no hash or no cost
    invalid: u64,
    /// milliseconds spent in each expansion
    pace: u64,
    improving: u64,
}
#[derive(Clone, Copy, Debug)]
enum Costs {
    Random(u64),
    /// increasing with the number of the state
    Up,
    Down,
    /// cheapest states behind expensive ones
    Hills(u64),
}
impl Space {
    fn rnd(&self, what: &str, s: u64) -> u64 {
        hash_str(&format!("{} {what} {s}", self.salt))
    }
    fn next(&self, s: u64) -> Vec<u64> {
        match &self.next {
            Some(t) => t[s as usize].clone(),
            None if s < self.improving => vec![s + 1],
            None => (0..self.branching).map(|i| (s * self.branching + 1 + i) % (1 << 60)).collect(),
        }
    }
    fn hash(&self, s: u64) -> Option<u64> {
        if self.invalid > 0 && self.rnd("hash", s) % self.invalid == 0 {
            return None;
        }
        Some(if self.twins { s / 2 } else { s } ^ 0x9e3779b97f4a7c15)
    }
    fn cost(&self, s: u64) -> Option<u64> {
        if self.invalid > 0 && self.rnd("cost?", s) % self.invalid == 0 {
            return None;
        }
        if self.improving > 0 {
            return Some(1000 - s.min(self.improving));
        }
        Some(match self.costs {
            Costs::Random(m) => self.rnd("cost", s) % (m + 1),
            Costs::Up => s,
            Costs::Down => 1 << 61 - s.min(60),
            Costs::Hills(w) => (s % w) * 10 + self.rnd("cost", s) % 3,
        })
    }
}

#[derive(Clone, Debug)]
struct St {
    id: u64,
    space: Arc<Space>,
}
#[derive(Clone, Debug)]
struct Event {
    state: u64,
    next: Vec<u64>,
    t: f64,
}
#[derive(Debug)]
struct Log {
    events: Vec<Event>,
    start: Instant,
    stop: bool,
}
type C = Arc<Mutex<Log>>;
impl State<C> for St {
    type Cost = u64;
    fn hash(&self, _: &C) -> Option<u64> {
        self.space.hash(self.id)
    }
    fn cost(&self, _: &C) -> Option<u64> {
        self.space.cost(self.id)
    }
    fn next_states(&self, c: &mut C) -> Vec<St> {
        if self.space.pace > 0 {
            std::thread::sleep(Duration::from_millis(self.space.pace));
        }
        let mut l = c.lock().unwrap();
        let next = if l.stop { vec![] } else { self.space.next(self.id) };
        let t = l.start.elapsed().as_secs_f64();
        l.events.push(Event { state: self.id, next: next.clone(), t });
        next.into_iter().map(|id| St { id, space: self.space.clone() }).collect()
    }
}

fn space(rng: &mut Rng) -> Space {
    let n = *rng.pick(&[1, 2, 3, 6, 12, 30, 80, 200]);
    let costs = match rng.below(6) {
        0 => Costs::Up,
        1 => Costs::Down,
        2 => Costs::Hills(rng.range(2, 9) as u64),
        3 => Costs::Random(*rng.pick(&[0, 1, 2])),
        _ => Costs::Random(*rng.pick(&[5, 20, 100_000])),
    };
    let next = rng.chance(0.7).then(|| {
        let deg = *rng.pick(&[1, 2, 3, 8]);
        let shape = rng.below(4);
        (0..n)
            .map(|i| {
                let k = rng.below(deg + 1);
                let mut v: Vec<u64> = (0..k).map(|_| rng.below(n) as u64).collect();
                match shape {
                    0 if i + 1 < n => v.push(i as u64 + 1),
                    1 => v = [2 * i + 1, 2 * i + 2].into_iter().filter(|x| *x < n).map(|x| x as u64).collect(),
                    2 if i == 0 => {
                        v = (0..n as u64).collect();
                        rng.shuffle(&mut v);
                    }
                    _ => {}
                }
                v
            })
            .collect()
    });
    Space {
        next,
        salt: rng.next(),
        branching: rng.range(1, 4) as u64,
        costs,
        twins: rng.chance(0.1),
        invalid: if rng.chance(0.2) { *rng.pick(&[2, 4, 10]) } else { 0 },
        pace: 0,
        improving: 0,
    }
}

/// States of one cost: the candidates, and how many of them are really held.
#[derive(Default, Debug)]
struct Group {
    cand: BTreeSet<u64>,
    held: usize,
}
/// Model of the bounded queue.
struct Model {
    cap: usize,
    groups: BTreeMap<u64, Group>,
    len: usize,
    seen: BTreeSet<u64>,
    /// costs of everything ever accepted
    accepted: BTreeMap<u64, u64>,
}
impl Model {
    fn push(&mut self, sp: &Space, s: u64) {
        let (Some(h), Some(c)) = (sp.hash(s), sp.cost(s)) else { return };
        if self.len >= self.cap && self.groups.keys().next_back().is_none_or(|m| c >= *m) {
            return;
        }
        if !self.seen.insert(h) {
            return;
        }
        if self.len >= self.cap {
            let mut last = self.groups.last_entry().unwrap();
            last.get_mut().held -= 1;
            if last.get().held == 0 {
                last.remove();
            }
            self.len -= 1;
        }
        let g = self.groups.entry(c).or_default();
        g.cand.insert(h);
        g.held += 1;
        self.len += 1;
        self.accepted.insert(h, c);
    }
    fn pop(&mut self, sp: &Space, s: u64) -> Result<(), String> {
        let Some(mut e) = self.groups.first_entry() else { return Err(format!("state {s} expanded although the queue is empty")) };
        let (h, c) = (sp.hash(s), sp.cost(s));
        if c != Some(*e.key()) {
            return Err(format!("state {s} of cost {c:?} expanded, the cheapest in the queue costs {}", e.key()));
        }
        let g = e.get_mut();
        if !g.cand.remove(&h.unwrap_or(0)) {
            return Err(format!("state {s} expanded, it is not in the queue"));
        }
        g.held -= 1;
        if g.held == 0 {
            e.remove();
        }
        self.len -= 1;
        Ok(())
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let mut sp = space(&mut rng);
    let mut o = BacktrackingOptimiser {
        queue_size: *rng.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20, 100, 1000, usize::MAX]),
        timeout: None,
        progress_timeout: None,
        max_visited_count: if sp.next.is_none() || rng.chance(0.3) { Some(*rng.pick(&[0, 1, 2, 3, 10, 30, 100, 300])) } else { None },
    };
    match rng.below(60) {
        0 => o.timeout = Some(0),
        1 => o.progress_timeout = Some(0),
        2 => o.timeout = Some(1000),
        3 => o.progress_timeout = Some(1000),
        _ => {}
    }
    if ctx.idx % 5000 == 7 {
        // a real time limit on an endless search
        o = BacktrackingOptimiser { queue_size: 10, timeout: None, progress_timeout: None, max_visited_count: None };
        sp = Space { next: None, invalid: 0, twins: false, pace: 20, ..sp };
        if rng.chance(0.5) {
            o.timeout = Some(1);
        } else {
            o.progress_timeout = Some(1);
            sp.pace = 200;
            sp.improving = 8;
        }
        ctx.count("searches with a time limit", 1);
    }
    let n_best = rng.chance(0.5).then(|| *rng.pick(&[0, 1, 2, 3, 5, 10, 50, 500, usize::MAX]));
    run(ctx, sp, o, n_best);
}

fn run(ctx: &mut Ctx, sp: Space, o: BacktrackingOptimiser, n_best: Option<usize>) {
    let sp = Arc::new(sp);
    let log: C = Arc::new(Mutex::new(Log { events: vec![], start: Instant::now(), stop: false }));
    let art = || format!("{o:?} n_best {n_best:?}\n{sp:?}");
    let mut opts = OptimiserOptions::default();
    opts.track_n_best = n_best;
    let start = St { id: 0, space: sp.clone() };
    ctx.eval();
    let timed = sp.pace > 0;
    let limit = o.max_visited_count.unwrap_or(5000).max(1);
    let (l2, l3) = (log.clone(), log.clone());
    let res = if timed {
        let l = log.clone();
        let r = watched(30, &|| l2.lock().unwrap().events.len(), limit, &|| l3.lock().unwrap().stop = true, move || {
            let mut opts = OptimiserOptions::default();
            opts.track_n_best = n_best;
            o.optimise_with_options(start, l, opts).map(|r| (r.best_state.id, r.n_best_states.map(|v| v.iter().map(|s| s.id).collect::<Vec<_>>())))
        });
        match r {
            Ran::Done(x) => x,
            Ran::Panicked(p) => return ctx.violation(format!("panic:{}:{}", stem(&p.file), norm(&p.msg)), p.msg, art()),
            Ran::Stuck => return ctx.violation("never returns", "the search waits for nothing", art()),
            Ran::TooLong => return ctx.violation("limit", "the search does not end", art()),
        }
    } else {
        let Some(r) = ctx.guard("optimise", &art, || o.optimise_with_options(start, log.clone(), opts)) else { return };
        r.map(|r| (r.best_state.id, r.n_best_states.map(|v| v.iter().map(|s| s.id).collect::<Vec<_>>())))
    };
    let log = log.lock().unwrap();
    ctx.count("expansions", log.events.len() as u64);
    if log.events.len() > 2 {
        ctx.nontrivial(&art());
    }
    let art = || format!("{}\nexpanded {:?}", art(), log.events.iter().map(|e| (e.state, sp.cost(e.state), e.next.len())).collect::<Vec<_>>());
    let invalid = sp.hash(0).is_none() || sp.cost(0).is_none();
    let Some((best, tracked)) = res else {
        if !invalid {
            ctx.violation("no result", "no result although the first state is valid", art());
        }
        ctx.count("searches from invalid states", 1);
        return;
    };
    if invalid {
        return ctx.violation("result from an invalid state", format!("returned state {best}"), art());
    }
    // the queue always has room for the state to start from
    let mut m = Model { cap: o.queue_size.max(1), groups: BTreeMap::new(), len: 0, seen: BTreeSet::new(), accepted: BTreeMap::new() };
    m.push(&sp, 0);
    for (i, e) in log.events.iter().enumerate() {
        if let Err(s) = m.pop(&sp, e.state) {
            return ctx.violation("expansion", format!("expansion {i}: {s}"), art());
        }
        for n in &e.next {
            m.push(&sp, *n);
        }
    }
    // when it ended
    let n = log.events.len();
    let max = o.max_visited_count.unwrap_or(usize::MAX).max(1);
    let timed_out = o.timeout == Some(0) || o.progress_timeout == Some(0);
    let max = if timed_out { 1 } else { max };
    if n > max {
        ctx.violation("limit", format!("{n} states expanded, limit {max}"), art());
    }
    if n < max && m.len > 0 && !timed {
        ctx.violation("stopped early", format!("{n} states expanded, {} in the queue, limit {max}", m.len), art());
    }
    // the best one
    let want = log.events.iter().filter_map(|e| sp.cost(e.state)).min();
    if sp.cost(best) != want || !log.events.iter().any(|e| e.state == best) {
        ctx.violation("best state", format!("returned state {best} of cost {:?}, the cheapest expanded costs {want:?}", sp.cost(best)), art());
    }
    match (n_best, tracked) {
        (None, None) => {}
        (Some(k), Some(v)) => {
            let costs: Vec<u64> = v.iter().filter_map(|s| sp.cost(*s)).collect();
            let hashes: BTreeSet<u64> = v.iter().filter_map(|s| sp.hash(*s)).collect();
            let mut want: Vec<u64> = m.accepted.values().copied().collect();
            want.sort();
            want.truncate(k);
            ctx.count("best states returned", v.len() as u64);
            if costs.len() != v.len() || hashes.len() != v.len() {
                ctx.violation("tracked: repeated", format!("tracked best {v:?}"), art());
            } else if v.iter().any(|s| *s != 0 && !log.events.iter().any(|e| e.next.contains(s))) {
                ctx.violation("tracked: unknown", format!("tracked best {v:?}"), art());
            } else if !costs.is_sorted() {
                ctx.violation("tracked: order", format!("costs {costs:?}"), art());
            } else if v.len() > k || v.len() < want.len() || costs.iter().zip(&want).any(|(a, b)| a > b) {
                ctx.violation("tracked: not the best", format!("{k} best tracked, costs {costs:?}, the cheapest seen cost {want:?}"), art());
            }
        }
        (k, v) => ctx.violation("tracked", format!("asked for {k:?}, got {v:?}"), art()),
    }
    if timed {
        let mut gap: f64 = 0.;
        let mut last = 0.;
        for e in &log.events {
            gap = gap.max(e.t - last);
            last = e.t;
        }
        if last > 15. {
            ctx.violation("time limit", format!("still expanding after {last} s"), art());
        }
        if gap < 0.8 && o.progress_timeout.is_some() && best < sp.improving {
            ctx.violation("progress limit", format!("stopped at state {best} although every expansion had improved"), art());
        }
        if gap < 0.8 && o.timeout.is_some() && last < 0.9 {
            ctx.violation("time limit", format!("stopped after {last} s"), art());
        }
    }
    if o.max_visited_count.is_none() && m.len == 0 && !timed_out {
        ctx.count("searches to the end", 1);
    }
}
