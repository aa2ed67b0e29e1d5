use super::c01::{scene, with_strategy, Run};
use super::search::*;
use crate::report::*;
use crate::rng::{hash_str, Rng};
use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::extension::prelude::qb_t;
use hugr::ops::OpType;
use hugr::types::Signature;
use hugr::{HugrView, Node};
use std::collections::{BTreeMap, BTreeSet};
use tket::circuit::cost::{CircuitCost, LexicographicCost};
use tket::circuit::CircuitHash;
use tket::optimiser::badger::BadgerOptions;
use tket::optimiser::BadgerOptimiser;
use tket::rewrite::strategy::{RewriteResult, RewriteStrategy};
use tket::rewrite::{CircuitRewrite, Rewriter};
use tket::{Circuit, TketOp};

pub static CHECK: Check = Check {
    id: "C02",
    rule: "case = a search by the real optimiser. One in five: rewriter, strategy, host and options as for C01. Otherwise an artificial search space: a random graph of states (finite, or infinite), each encoded as a circuit, with random costs (many equal) and random edges, searched with one to six threads, any queue size, count, time and progress limits, and random delays at every visit. The monitor records every visit and compares: the optimiser returns, what it returns is reachable, costs at most what the input and every visited circuit cost, visits stop at the limit, no circuit is visited twice, and when the queue is large enough and no limit set, every reachable circuit is visited and the cheapest returned. Non-trivial = distinct search with more than one visit.",
    assumptions: &["with several threads, stopping at a count limit is judged with a slack of 2000 visits", "a search counts as stuck after 15 s in which no thread used the processor and no circuit was visited"],
    cases: |t| if t == Tier::Quick { 4_000 } else { 300_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 120,
    f: case,
};

/// Costs and visits of a search over real rewrites.
#[allow(clippy::too_many_arguments)]
pub fn costs<S: RewriteStrategy>(ctx: &mut Ctx, kind: &str, s: &S, opt: &BadgerOptions, c: &Circuit, out: &Circuit, log: &Log<S::Cost>, art: &dyn Fn() -> String)
where
    S::Cost: std::fmt::Debug,
{
    if log.visits.len() > 1 {
        ctx.nontrivial(&art());
    }
    let (before, after) = (s.circuit_cost(c), s.circuit_cost(out));
    if after > before {
        return ctx.violation(format!("{kind}:worse"), format!("cost {before:?} became {after:?}"), art());
    }
    if after < before {
        ctx.count(format!("circuits improved: {kind}"), 1);
    }
    let seen: BTreeSet<u64> = log.visits.iter().map(|v| v.0).collect();
    if opt.split_circuit {
        return;
    }
    if seen.len() != log.visits.len() {
        ctx.violation(format!("{kind}:visited twice"), format!("{} visits of {} circuits", log.visits.len(), seen.len()), art());
    }
    if let Some(best) = log.visits.iter().map(|v| &v.1).min() {
        if after > *best {
            ctx.violation(format!("{kind}:not the best visited"), format!("visited a circuit of cost {best:?}, returned one of cost {after:?}"), art());
        }
    }
    if opt.n_threads.get() == 1 {
        let max = opt.max_circuit_count.unwrap().max(1);
        if log.visits.len() > max {
            ctx.violation(format!("{kind}:count limit"), format!("{} circuits visited, limit {max}", log.visits.len()), art());
        }
    }
}

/// A graph of states. `None` for the table: infinite, edges and costs by hash.
#[derive(Clone, Debug)]
struct Graph {
    table: Option<Vec<(Vec<u64>, usize)>>,
    salt: u64,
    branching: usize,
    max_cost: usize,
    /// infinite graphs: states up to this one improve on the previous one
    improving: u64,
}
impl Graph {
    fn next(&self, s: u64) -> Vec<u64> {
        match &self.table {
            Some(t) => t[s as usize].0.clone(),
            None if s < self.improving => vec![s + 1],
            None => (0..self.branching as u64).map(|i| (s * self.branching as u64 + 1 + i) % (1 << 40)).collect(),
        }
    }
    fn cost(&self, s: u64) -> usize {
        match &self.table {
            Some(t) => t[s as usize].1,
            None if s <= self.improving && self.improving > 0 => 100_000 - s as usize,
            None if self.improving > 0 => 100_000,
            None => (hash_str(&format!("{} {s}", self.salt)) % (self.max_cost as u64 + 1)) as usize,
        }
    }
    fn reachable(&self) -> BTreeSet<u64> {
        let mut seen = BTreeSet::new();
        let mut open = vec![0];
        while let Some(s) = open.pop() {
            if seen.insert(s) {
                open.extend(self.next(s));
            }
        }
        seen
    }
}

fn encode(s: u64) -> Circuit {
    let mut f = FunctionBuilder::new("state", Signature::new_endo(vec![qb_t()])).unwrap();
    let [mut q] = f.input_wires_arr();
    // bijective: a leading one in front of the binary digits
    let v = s + 1;
    for i in (0..64 - v.leading_zeros() as u64 - 1).rev() {
        let g = if v >> i & 1 == 1 { TketOp::X } else { TketOp::H };
        [q] = f.add_dataflow_op(g, [q]).unwrap().outputs_arr();
    }
    Circuit::new(f.finish_hugr_with_outputs([q]).unwrap())
}
fn decode(c: &Circuit<impl HugrView<Node = Node>>) -> Option<u64> {
    let h = c.hugr();
    let [inp, out] = c.io_nodes();
    let mut v = 1;
    let mut at = h.single_linked_input(inp, 0)?.0;
    while at != out {
        let t: TketOp = h.get_optype(at).cast()?;
        v = v << 1 | (t == TketOp::X) as u64;
        at = h.single_linked_input(at, 0)?.0;
    }
    Some(v - 1)
}

#[derive(Clone, Debug)]
struct NoRewriter;
impl Rewriter for NoRewriter {
    fn get_rewrites(&self, _: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        vec![]
    }
}
#[derive(Clone, Debug)]
struct Walk(Graph);
type Cost = LexicographicCost<usize, 2>;
impl Walk {
    fn price(&self, s: u64) -> Cost {
        let c = self.0.cost(s);
        [c / 4, c % 4].into()
    }
}
impl RewriteStrategy for Walk {
    type Cost = Cost;
    fn apply_rewrites(&self, _: impl IntoIterator<Item = CircuitRewrite>, circ: &Circuit) -> impl Iterator<Item = RewriteResult<Cost>> {
        let s = decode(circ).unwrap();
        let here = self.price(s);
        let v: Vec<_> = self.0.next(s).into_iter().map(|t| RewriteResult { circ: encode(t), cost_delta: self.price(t).sub_cost(&here) }).collect();
        v.into_iter()
    }
    fn op_cost(&self, _: &OpType) -> Cost {
        [0, 1].into()
    }
    fn circuit_cost(&self, c: &Circuit<impl HugrView<Node = Node>>) -> Cost {
        self.price(decode(c).unwrap())
    }
}

fn finite(rng: &mut Rng) -> Graph {
    let n = *rng.pick(&[1, 1, 2, 3, 5, 8, 15, 30, 60]);
    let max_cost = *rng.pick(&[0, 1, 3, 10, 1000]);
    let deg = *rng.pick(&[1, 2, 3, 6]);
    let shape = rng.below(4);
    let table = (0..n)
        .map(|i| {
            let k = rng.below(deg + 1);
            let mut next: Vec<u64> = (0..k).map(|_| rng.below(n) as u64).collect();
            match shape {
                0 => {}
                // a chain with detours
                1 if i + 1 < n => next.push(i as u64 + 1),
                // a tree
                2 => next = [2 * i + 1, 2 * i + 2].into_iter().filter(|x| *x < n).map(|x| x as u64).collect(),
                // a star: everything at once, then nothing
                3 => next = if i == 0 { (0..n as u64).collect() } else { vec![] },
                _ => {}
            }
            (next, rng.below(max_cost + 1))
        })
        .collect();
    Graph { table: Some(table), salt: 0, branching: 0, max_cost, improving: 0 }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    if ctx.idx % 5 == 0 {
        let Some((rw, host, text, split_ok)) = scene(ctx, &mut rng, 14) else { return };
        for _ in 0..2 {
            let mut run = Run { rng: rng.fork(), rw: rw.clone(), host: host.clone(), text: &|| text.clone(), split_ok, behaviour: false };
            with_strategy(ctx, &mut rng, &mut run);
        }
        return;
    }
    if ctx.idx % 400 == 1 {
        return timed(ctx, &mut rng);
    }
    let infinite = rng.chance(0.3);
    let g = if infinite {
        Graph { table: None, salt: rng.next(), branching: rng.range(1, 3), max_cost: *rng.pick(&[0, 3, 1000]), improving: 0 }
    } else {
        finite(&mut rng)
    };
    let n_threads = *rng.pick(&[1, 2, 2, 3, 4, 6]);
    let count = if infinite || rng.chance(0.2) { Some(*rng.pick(&[0, 1, 2, 7, 30, 100])) } else { None };
    let opt = BadgerOptions {
        timeout: if rng.chance(0.03) { Some(0) } else { None },
        progress_timeout: if rng.chance(0.03) { Some(0) } else { None },
        max_circuit_count: count,
        n_threads: n_threads.try_into().unwrap(),
        split_circuit: false,
        queue_size: *rng.pick(&[0, 1, 1, 2, 3, 5, 20, 100, 1000]),
    };
    search(ctx, &mut rng, g, opt, 0);
}

/// Time limits: a search that never runs out of states.
fn timed(ctx: &mut Ctx, rng: &mut Rng) {
    let n_threads = *rng.pick(&[1, 3]);
    let progress = rng.chance(0.5);
    let g = Graph { table: None, salt: 0, branching: rng.range(1, 2), max_cost: 50, improving: if progress { 8 } else { 0 } };
    let opt = BadgerOptions {
        timeout: if progress { None } else { Some(1) },
        progress_timeout: if progress { Some(1) } else { None },
        max_circuit_count: None,
        n_threads: n_threads.try_into().unwrap(),
        split_circuit: false,
        queue_size: 20,
    };
    ctx.count("searches with a time limit", 1);
    search(ctx, rng, g, opt, 200_000);
}

fn search(ctx: &mut Ctx, rng: &mut Rng, g: Graph, opt: BadgerOptions, pace: u64) {
    let multi = opt.n_threads.get() > 1;
    let delay = if pace > 0 { pace } else if rng.chance(0.4) { *rng.pick(&[1, 50, 400]) } else { 0 };
    let watch = Watch::new(Walk(g.clone()), rng.next(), delay);
    let sh = watch.shared.clone();
    let badger = BadgerOptimiser::new(NoRewriter, watch.clone());
    let c = encode(0);
    let kind = if multi { "graph, threads" } else { "graph, one thread" };
    let reach = g.table.is_some().then(|| g.reachable());
    let slack = if multi { 2000 } else { 0 };
    let limit = match (&reach, opt.max_circuit_count) {
        (Some(r), _) => r.len(),
        (None, Some(m)) => m.max(1) + slack,
        (None, None) => 50_000,
    };
    let art = || format!("{opt:?} delay {delay} {}\n{:?}", if reach.is_some() { "finite" } else { "infinite" }, g);
    ctx.eval();
    let quiet = 15;
    let sh2 = sh.clone();
    let sh3 = sh.clone();
    let ran = watched(
        quiet,
        &move || sh2.log.lock().map(|l| l.visits.len()).unwrap_or(0),
        limit,
        &move || sh3.stop.store(true, std::sync::atomic::Ordering::Relaxed),
        move || badger.optimise(&c, opt),
    );
    ctx.count(format!("searches: {kind}"), 1);
    let out = match ran {
        Ran::Done(x) => x,
        Ran::Panicked(p) => return ctx.violation(format!("{kind}:panic:{}:{}", stem(&p.file), norm(&p.msg)), format!("panicked at {}: {}", p.file, p.msg), art()),
        Ran::Stuck => return ctx.violation(format!("{kind}:never returns"), "every thread waits and the optimiser does not return".to_string(), art()),
        Ran::TooLong => return ctx.violation(format!("{kind}:limit"), format!("more than {limit} circuits visited"), art()),
    };
    let log = sh.log.lock().unwrap();
    let walk = Walk(g.clone());
    ctx.count(format!("circuits visited: {kind}"), log.visits.len() as u64);
    if log.visits.len() > 1 {
        ctx.nontrivial(&art());
    }
    let Some(s) = decode(&out) else { return ctx.violation(format!("{kind}:result"), "not a state of the graph".to_string(), art()) };
    if reach.as_ref().is_some_and(|r| !r.contains(&s)) {
        return ctx.violation(format!("{kind}:result"), format!("state {s} cannot be reached"), art());
    }
    let cost = walk.price(s);
    if cost > walk.price(0) {
        ctx.violation(format!("{kind}:worse"), format!("cost {:?} became {cost:?}", walk.price(0)), art());
    }
    let best = log.visits.iter().map(|v| v.1).min();
    if best.is_some_and(|b| cost > b) {
        ctx.violation(format!("{kind}:not the best visited"), format!("visited a circuit of cost {best:?}, returned one of cost {cost:?}"), art());
    }
    let mut times: BTreeMap<u64, usize> = BTreeMap::new();
    log.visits.iter().for_each(|v| *times.entry(v.0).or_default() += 1);
    if let Some((h, n)) = times.iter().find(|x| *x.1 > 1) {
        ctx.violation(format!("{kind}:visited twice"), format!("circuit {h} visited {n} times"), art());
    }
    if !multi {
        if let Some(m) = opt.max_circuit_count {
            if log.visits.len() > m.max(1) {
                ctx.violation(format!("{kind}:count limit"), format!("{} circuits visited, limit {m}", log.visits.len()), art());
            }
        }
    }
    if pace > 0 {
        // time limits
        let end = log.visits.last().map_or(0., |v| v.2);
        let start = log.visits[0].2;
        if end - start > 12. {
            ctx.violation(format!("{kind}:time limit"), format!("still visiting after {} s with {opt:?}", end - start), art());
        }
        let mut gap: f64 = 0.;
        let mut last = start;
        for v in &log.visits {
            gap = gap.max(v.2 - last);
            last = v.2;
        }
        if opt.progress_timeout.is_some() {
            if gap < 0.8 && cost > walk.price(g.improving) {
                ctx.violation(format!("{kind}:progress limit"), format!("stopped at cost {cost:?} after {} s although each visit had improved the circuit", end - start), art());
            }
        } else if gap < 0.8 && end - start < 0.1 {
            ctx.violation(format!("{kind}:time limit"), format!("stopped after {} s", end - start), art());
        }
        return;
    }
    let unlimited = opt.timeout.is_none() && opt.progress_timeout.is_none();
    if let Some(r) = &reach {
        let want: BTreeSet<u64> = r.iter().map(|s| { let c = encode(*s); c.circuit_hash(c.parent()).unwrap() }).collect();
        if want.len() != r.len() {
            return ctx.inconclusive("states with equal hashes");
        }
        if let Some(h) = times.keys().find(|h| !want.contains(h)) {
            ctx.violation(format!("{kind}:strange visit"), format!("circuit {h} is not a state"), art());
        }
        // nothing was ever dropped from the queue
        if unlimited && opt.max_circuit_count.is_none_or(|m| m > r.len()) && opt.queue_size >= r.len() {
            if times.len() != r.len() {
                ctx.violation(format!("{kind}:unfinished"), format!("{} of {} reachable circuits visited", times.len(), r.len()), art());
            }
            let best = r.iter().map(|s| walk.price(*s)).min().unwrap();
            if cost != best {
                ctx.violation(format!("{kind}:not the best"), format!("the best reachable cost is {best:?}, returned {cost:?}"), art());
            }
            ctx.count(format!("searches to the end: {kind}"), 1);
        }
    }
}
