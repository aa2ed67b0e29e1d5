use super::search::*;
use super::util::*;
use super::{c03, c06};
use crate::gen::circ::{self, Ang, Op};
use crate::gen::{dump, ecc};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::hugr::hugrmut::HugrMut;
use hugr::extension::prelude::qb_t;
use hugr::ops::{Const, LoadConstant, OpType, Value};
use hugr::{Hugr, HugrView, Node};
use tket::circuit::CircuitHash;
use tket::extension::rotation::{rotation_type, ConstRotation};
use tket::optimiser::badger::BadgerOptions;
use tket::optimiser::BadgerOptimiser;
use tket::rewrite::strategy::{ExhaustiveGreedyStrategy, GammaStrategyCost, GreedyRewriteStrategy, LexicographicCostFunction, RewriteStrategy};
use tket::rewrite::ECCRewriter;
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C01",
    rule: "case = one rewriter (classes of equivalent circuits found by running random circuits, files of classes, saved and loaded), a host (circuit with class members among measurements, conditionals, allocations; or a region of a generated or compiled program into which class members were inserted), one of eight strategies and random options (queue size, visit limit, 1 to 4 threads, split into chunks, injected delays at every visit). The optimiser runs; the result is validated, its signature compared, and executed against the input. Non-trivial = the result differs from the input; distinct by input and options.",
    assumptions: &["the reference interpreter in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 1_600 } else { 120_000 },
    min_nontrivial: 300,
    budget: (60, 800),
    case_timeout: 120,
    f: case,
};

/// Insert members of the classes on the qubit wires of the entrypoint region.
fn insert(r: &mut Rng, h: &mut Hugr, set: &ecc::EccSet, times: usize) -> usize {
    let region = h.entrypoint();
    let mut done = 0;
    for _ in 0..times {
        if set.classes.is_empty() {
            break;
        }
        let class = r.pick(&set.classes);
        let m = r.pick(class).clone();
        // symbolic angles need a wire of angles; take constants
        let c = circ::Circ { nrot: 0, ops: m.ops.iter().map(|o| konst(r, o)).collect(), ..m };
        let wires: Vec<(Node, usize, Node, usize)> = h
            .children(region)
            .flat_map(|n| h.value_types(n, hugr::Direction::Outgoing).filter(|(_, t)| *t == qb_t()).map(move |(p, _)| (n, p)).collect::<Vec<_>>())
            .filter_map(|(n, p)| {
                let p = p.as_outgoing().unwrap();
                let t = h.linked_inputs(n, p).next()?;
                (h.get_parent(t.0) == Some(region)).then(|| (n, hugr::PortIndex::index(p), t.0, hugr::PortIndex::index(t.1)))
            })
            .collect();
        if wires.len() < c.nq {
            continue;
        }
        let pick: Vec<_> = r.distinct(wires.len(), c.nq).into_iter().map(|i| wires[i]).collect();
        let before = h.clone();
        let mut src: Vec<(Node, usize)> = pick.iter().map(|w| (w.0, w.1)).collect();
        for w in &pick {
            h.disconnect(w.2, hugr::IncomingPort::from(w.3));
        }
        for o in &c.ops {
            match o {
                Op::Swap(a, b) => src.swap(*a, *b),
                Op::G(g, qs, a) => {
                    let n = h.add_node_with_parent(region, *g);
                    for (i, q) in qs.iter().enumerate() {
                        h.connect(src[*q].0, src[*q].1, n, i);
                        src[*q] = (n, i);
                    }
                    if let Some(Ang::C(x)) = a {
                        let v: Value = ConstRotation::new(*x).unwrap().into();
                        let k = h.add_node_with_parent(region, Const::new(v));
                        let l = h.add_node_with_parent(region, LoadConstant { datatype: rotation_type() });
                        h.connect(k, 0, l, 0);
                        h.connect(l, 0, n, qs.len());
                    }
                }
                _ => unreachable!(),
            }
        }
        for (i, w) in pick.iter().enumerate() {
            h.connect(src[i].0, src[i].1, w.2, w.3);
        }
        if h.validate().is_err() {
            *h = before;
            continue;
        }
        done += 1;
    }
    done
}

/// The operation with a constant for its angle.
fn konst(r: &mut Rng, o: &Op) -> Op {
    match o {
        Op::G(g, qs, Some(Ang::C(x))) => Op::G(*g, qs.clone(), Some(Ang::C(*x))),
        Op::G(g, qs, Some(_)) => Op::G(*g, qs.clone(), Some(Ang::C((r.below(9) as f64 - 4.) / 4.))),
        o => o.clone(),
    }
}

pub type L = LexicographicCostFunction<fn(&OpType) -> usize, 2>;

/// Something to do with each of the strategies.
pub trait WithStrategy {
    fn go<S>(&mut self, ctx: &mut Ctx, name: &'static str, s: S, composes: bool)
    where
        S: RewriteStrategy + Clone + Send + Sync + 'static,
        S::Cost: serde::Serialize + Send + Sync + std::fmt::Debug;
}
pub fn with_strategy(ctx: &mut Ctx, rng: &mut Rng, w: &mut impl WithStrategy) {
    let gamma = 0.5 + rng.f() * 1.5;
    match rng.below(8) {
        0 => w.go(ctx, "greedy", GreedyRewriteStrategy, false),
        1 => w.go(ctx, "exhaustive greedy cx", L::cx_count().into_greedy_strategy(), true),
        2 => w.go(ctx, "exhaustive greedy rz", L::rz_count().into_greedy_strategy(), true),
        3 => w.go(ctx, "threshold cx", L::cx_count().into_threshold_strategy(), false),
        4 => w.go(ctx, "threshold rz", L::rz_count().into_threshold_strategy(), false),
        5 => w.go(ctx, "gamma cx", GammaStrategyCost::exhaustive_cx_with_gamma(gamma), false),
        6 => w.go(ctx, "gamma ops", GammaStrategyCost::new(gamma, |o: &OpType| tket::circuit::cost::is_quantum(o) as usize), false),
        _ => {
            let s: ExhaustiveGreedyStrategy<_> = GammaStrategyCost { gamma, op_cost: |o: &OpType| o.is_extension_op() as usize + tket::circuit::cost::is_cx(o) as usize }.into();
            w.go(ctx, "exhaustive greedy gamma", s, true)
        }
    }
}

pub struct Run<'a> {
    pub rng: Rng,
    pub rw: ECCRewriter,
    pub host: Hugr,
    pub text: &'a dyn Fn() -> String,
    pub split_ok: bool,
    /// the result and what was seen
    pub behaviour: bool,
}

pub fn options(rng: &mut Rng, split_ok: bool) -> BadgerOptions {
    let n_threads = *rng.pick(&[1, 1, 1, 2, 3, 4]);
    BadgerOptions {
        timeout: None,
        progress_timeout: None,
        max_circuit_count: Some(*rng.pick(&[0, 1, 2, 5, 10, 20, 40])),
        n_threads: n_threads.try_into().unwrap(),
        split_circuit: split_ok && n_threads > 1 && rng.chance(0.5),
        queue_size: *rng.pick(&[0, 1, 2, 3, 5, 20, 100]),
    }
}

impl WithStrategy for Run<'_> {
    fn go<S>(&mut self, ctx: &mut Ctx, name: &'static str, s: S, _composes: bool)
    where
        S: RewriteStrategy + Clone + Send + Sync + 'static,
        S::Cost: serde::Serialize + Send + Sync + std::fmt::Debug,
    {
        let rng = &mut self.rng;
        let opt = options(rng, self.split_ok);
        let delay = if opt.n_threads.get() > 1 && rng.chance(0.5) { 500 } else { 0 };
        let watch = Watch::new(s.clone(), rng.next(), delay);
        let badger = BadgerOptimiser::new(self.rw.clone(), watch.clone());
        let c = Circuit::new(self.host.clone());
        let art = || format!("strategy {name} {opt:?}\n{}\n{}", (self.text)(), dump(&self.host));
        let sh = watch.shared.clone();
        let limit = 400 + 60 * opt.n_threads.get();
        let kind = if opt.split_circuit { "chunks" } else if opt.n_threads.get() > 1 { "threads" } else { "one thread" };
        ctx.eval();
        let sh2 = sh.clone();
        let ran = watched(15, &|| sh.log.lock().map(|l| l.visits.len()).unwrap_or(0), limit, &|| sh2.stop.store(true, std::sync::atomic::Ordering::Relaxed), {
            let c = c.clone();
            move || badger.optimise(&c, opt)
        });
        ctx.count(format!("searches: {kind}"), 1);
        let out = match ran {
            Ran::Done(x) => x,
            Ran::Panicked(p) => return ctx.violation(format!("{kind}:panic:{}:{}", stem(&p.file), norm(&p.msg)), format!("panicked at {}: {}", p.file, p.msg), art()),
            Ran::Stuck => return ctx.violation(format!("{kind}:never returns"), "every thread waits and the optimiser does not return".to_string(), art()),
            Ran::TooLong => return ctx.violation(format!("{kind}:limit"), format!("more than {limit} circuits visited with {opt:?}"), art()),
        };
        let log = sh.log.lock().unwrap();
        ctx.count(format!("circuits visited: {kind}"), log.visits.len() as u64);
        ctx.count("rewrites offered", log.offered as u64);
        if self.behaviour {
            behaviour(ctx, kind, &c, &out, &art);
        } else {
            super::c02::costs(ctx, kind, &s, &opt, &c, &out, &log, &art);
        }
    }
}

fn behaviour(ctx: &mut Ctx, kind: &str, c: &Circuit, out: &Circuit, art: &dyn Fn() -> String) {
    let changed = out.circuit_hash(out.parent()).ok() != c.circuit_hash(c.parent()).ok();
    if changed {
        ctx.count(format!("results that differ from the input: {kind}"), 1);
        ctx.nontrivial(&art());
    }
    if out.circuit_signature() != c.circuit_signature() {
        return ctx.violation(format!("{kind}:signature"), format!("{} became {}", c.circuit_signature(), out.circuit_signature()), art());
    }
    let cfg = interp::Cfg::default();
    if !check_same(ctx, kind, c.hugr(), out.hugr(), &cfg, 1, false, &art()) {
        return;
    }
    // the program around the region
    let (mut a, mut b) = (c.hugr().clone(), out.hugr().clone());
    let up = |h: &Hugr| {
        let mut n = h.entrypoint();
        while let Some(p) = h.get_parent(n) {
            if p == h.module_root() {
                return Some(n);
            }
            n = p;
        }
        None
    };
    let (Some(x), Some(y)) = (up(&a), up(&b)) else { return };
    if x == a.entrypoint() {
        return;
    }
    a.set_entrypoint(x);
    b.set_entrypoint(y);
    ctx.count("programs around the region compared", 1);
    check_same(ctx, &format!("{kind}, the program around"), &a, &b, &cfg, 1, false, &art());
}

/// A rewriter and a host to run it on.
pub fn scene(ctx: &mut Ctx, rng: &mut Rng, len: usize) -> Option<(ECCRewriter, Hugr, String, bool)> {
    use tket::TketOp::*;
    if ctx.idx % 10 == 0 {
        let (set, host) = ecc::interlocked(rng);
        let rw = c03::rewriter(ctx, rng, &set, 12)?;
        return Some((rw, host.hugr(), host.text(), true));
    }
    let (set, rw) = if ctx.idx % 10 == 1 {
        // files of the repository
        let (set, name) = match rng.below(3) {
            0 => (ecc::EccSet { gates: vec![H, CX, Rz, Rz], classes: vec![] }, "nam_4_2"),
            1 => (ecc::EccSet { gates: vec![H, CX, Rz], classes: vec![] }, "small_eccs"),
            _ => (ecc::EccSet { gates: vec![CX, CX, H], classes: vec![] }, "cx_cx_eccs"),
        };
        let p = format!("/repo/test_files/eccs/{name}.json");
        let rw = ctx.guard("load", &|| name.to_string(), || ECCRewriter::try_from_eccs_json_file(&p))?.ok()?;
        (set, rw)
    } else {
        let set = ecc::generate(rng, 120);
        let rw = c03::rewriter(ctx, rng, &set, 12)?;
        (set, rw)
    };
    let (h, text, split_ok) = if rng.chance(0.6) || set.classes.is_empty() {
        let c = set.host(rng, len);
        let mut h = c.hugr();
        if rng.chance(0.3) {
            ecc::share_constants(&mut h, rng);
        }
        (h, c.text(), true)
    } else {
        let mut h = some_region(ctx, rng)?;
        let n = rng.range(1, 5);
        let k = insert(rng, &mut h, &set, n);
        ctx.count("class members inserted in regions of programs", k as u64);
        (h, "region of a program".to_string(), false)
    };
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return None;
    }
    let text = format!("{text}\nclasses {:?}", set.classes.iter().take(12).map(|c| c.iter().map(|c| c.text()).collect::<Vec<_>>()).collect::<Vec<_>>());
    Some((rw, h, text, split_ok))
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    if ctx.idx == 1 {
        return probe(ctx, "chunks: call", c06::probe_call());
    }
    let Some((rw, host, text, split_ok)) = scene(ctx, &mut rng, 14) else { return };
    for _ in 0..2 {
        let mut run = Run { rng: rng.fork(), rw: rw.clone(), host: host.clone(), text: &|| text.clone(), split_ok, behaviour: true };
        with_strategy(ctx, &mut rng, &mut run);
    }
}

/// What splitting into chunks is known to lose.
fn probe(ctx: &mut Ctx, name: &str, h: Hugr) {
    let rw = ECCRewriter::try_from_eccs_json_file("/repo/test_files/eccs/small_eccs.json").unwrap();
    let badger = BadgerOptimiser::new(rw, L::cx_count().into_greedy_strategy());
    let c = Circuit::new(h.clone());
    let opt = BadgerOptions { n_threads: 2.try_into().unwrap(), split_circuit: true, ..Default::default() };
    let text = dump(&h);
    let Some(out) = ctx.guard(name, &|| text.clone(), || badger.optimise(&c, opt)) else { return };
    check_same(ctx, name, &h, out.hugr(), &interp::Cfg::default(), 8, false, &text);
}
