use super::util::*;
use crate::gen::{circ::Circ, dump, ecc};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::{Hugr, HugrView};
use tket::circuit::cost::CircuitCost;
use tket::circuit::CircuitHash;
use tket::optimiser::badger::{load_eccs_json_file, EqCircClass};
use tket::rewrite::strategy::{ExhaustiveGreedyStrategy, ExhaustiveThresholdStrategy, GammaStrategyCost, GreedyRewriteStrategy, LexicographicCostFunction, RewriteStrategy};
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C03",
    rule: "case = one rewriter and three host circuits. The rewriter is built from classes of equivalent circuits found by running random circuits over a random gate palette (constant and symbolic angles, swaps, empty members), from class files (the repository's and generated ones), or is a saved and loaded one; hosts contain class members, also interleaved, among measurements, conditionals, nested regions and shared constants. Up to 8 proposed rewrites per host are applied one by one, the circuit validated, executed against the host, and its node count compared with the reported change; then one of seven strategies runs on all rewrites and up to 6 of its results are executed and their cost compared with the reported change. Non-trivial = distinct host with at least one rewrite.",
    assumptions: &["the reference interpreter in mon/src/interp.rs", "an exhaustive greedy strategy may return a circuit with a cycle (the code documents it and the optimiser drops such circuits); the greedy strategy may not", "constants have no weight in the monitor's cost functions"],
    cases: |t| if t == Tier::Quick { 3_000 } else { 200_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

pub fn rewriter(ctx: &mut Ctx, rng: &mut Rng, set: &ecc::EccSet, max: usize) -> Option<ECCRewriter> {
    let funcs = rng.chance(0.15);
    let eccs: Vec<EqCircClass> = set
        .classes
        .iter()
        .take(max)
        .map(|c| {
            let cs = c.iter().map(|c| Circuit::new(if funcs { c.hugr() } else { ecc::dfg(c) }));
            EqCircClass::from_circuits(cs).unwrap()
        })
        .collect();
    let text = || set.classes.iter().take(max).map(|c| c.iter().map(|c| c.text()).collect::<Vec<_>>().join("\n = ")).collect::<Vec<_>>().join("\n");
    let rw = ctx.guard("ECCRewriter::from_eccs", &text, || ECCRewriter::from_eccs(eccs))?;
    if rng.chance(0.3) {
        ctx.count("rewriters saved and loaded", 1);
        let res = ctx.guard("save and load", &text, || -> Result<ECCRewriter, String> {
            let mut buf = vec![];
            rw.save_binary_io(&mut buf).map_err(|e| e.to_string())?;
            ECCRewriter::load_binary_io(&buf[..]).map_err(|e| e.to_string())
        })?;
        match res {
            Ok(r) => return Some(r),
            Err(e) => ctx.violation(format!("save and load:{}", norm(&e)), e, text()),
        }
    }
    Some(rw)
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    if ctx.idx % 12 == 0 {
        let (set, host) = ecc::interlocked(&mut rng);
        let Some(rw) = rewriter(ctx, &mut rng, &set, 12) else { return };
        for _ in 0..3 {
            one(ctx, &mut rng, &rw, &host, &set);
        }
        return;
    }
    if ctx.idx % 12 == 1 {
        return files(ctx, &mut rng);
    }
    let set = ecc::generate(&mut rng, 150);
    ctx.count("classes", set.classes.len() as u64);
    let Some(rw) = rewriter(ctx, &mut rng, &set, 12) else { return };
    for _ in 0..3 {
        let host = set.host(&mut rng, 16);
        one(ctx, &mut rng, &rw, &host, &set);
    }
}

/// A rewriter from the files in the repository, or from a file of generated classes.
fn files(ctx: &mut Ctx, rng: &mut Rng) {
    use tket::TketOp::*;
    let dir = std::path::Path::new("/repo/test_files/eccs");
    const FILES: &[&str] = &["small_eccs", "nam_4_2", "h_rz_cxcomplete_ECC_set", "cx_cx_eccs", "h_h_eccs"];
    let k = rng.below(2 * FILES.len());
    let (set, eccs, rw) = if k < FILES.len() {
        ctx.count("class files of the repository", 1);
        let p = dir.join(format!("{}.json", FILES[k]));
        let set = ecc::EccSet { gates: vec![H, H, CX, CX, Rz, X, T], classes: vec![] };
        let what = || FILES[k].to_string();
        let Some(Ok(eccs)) = ctx.guard("load_eccs_json_file", &what, || load_eccs_json_file(&p)) else { return };
        let bin = dir.join(format!("{}.rwr", FILES[k]));
        let Some(rw) = ctx.guard("load rewriter", &what, || {
            if bin.exists() && rng.chance(0.5) { ECCRewriter::load_binary(&bin).unwrap() } else { ECCRewriter::try_from_eccs_json_file(&p).unwrap() }
        }) else {
            return;
        };
        (set, eccs, rw)
    } else {
        ctx.count("class files written", 1);
        let set = ecc::generate_from(rng, 150, true);
        let text = ecc::to_json(&set.classes);
        let p = std::env::temp_dir().join(format!("c03-{}-{}.json", std::process::id(), ctx.idx));
        std::fs::write(&p, &text).unwrap();
        let eccs = ctx.guard("load_eccs_json_file", &|| text.clone(), || load_eccs_json_file(&p));
        let rw = ctx.guard("try_from_eccs_json_file", &|| text.clone(), || ECCRewriter::try_from_eccs_json_file(&p));
        let _ = std::fs::remove_file(&p);
        let (Some(Ok(eccs)), Some(Ok(rw))) = (eccs, rw) else { return };
        if eccs.len() != set.classes.len() {
            ctx.violation("file:classes", format!("{} classes written, {} loaded", set.classes.len(), eccs.len()), text.clone());
        }
        (set, eccs, rw)
    };
    // the members of every class agree
    let cfg = interp::Cfg::default();
    for c in &eccs {
        let hs: Vec<&Hugr> = c.circuits().collect();
        if rng.chance(0.5) {
            continue;
        }
        let o = &hs[rng.below(hs.len())];
        if !check_same(ctx, "class loaded from a file", hs[0], o, &cfg, 1, false, "") {
            return;
        }
    }
    for _ in 0..3 {
        let mut host = set.host(rng, 16);
        if set.classes.is_empty() {
            let cs = ecc::generate_from(rng, 40, true);
            cs.splice(rng, &mut host, 2);
        }
        one(ctx, rng, &rw, &host, &set);
    }
}

fn one(ctx: &mut Ctx, rng: &mut Rng, rw: &ECCRewriter, host: &Circ, set: &ecc::EccSet) {
    let mut h = host.hugr();
    if rng.chance(0.4) {
        ecc::share_constants(&mut h, rng);
    }
    let h = h;
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let art = || format!("host {}\n{}\nclasses {:?}", host.text(), dump(&h), set.classes.iter().take(12).map(|c| c.iter().map(|c| c.text()).collect::<Vec<_>>()).collect::<Vec<_>>());
    let c = Circuit::new(h.clone());
    let Some(rws) = ctx.guard("get_rewrites", &art, || rw.get_rewrites(&c)) else { return };
    ctx.count("rewrites proposed", rws.len() as u64);
    if !rws.is_empty() {
        ctx.nontrivial(&host.text());
    }
    let mut idx: Vec<usize> = (0..rws.len()).collect();
    rng.shuffle(&mut idx);
    for &i in idx.iter().take(8) {
        apply(ctx, &rws[i], &h, &art);
    }
    strategies(ctx, rng, &rws, &h, &art);
}

fn apply(ctx: &mut Ctx, r: &CircuitRewrite, h: &Hugr, art: &dyn Fn() -> String) {
    let mut c = Circuit::new(h.clone());
    let nodes = |h: &Hugr| h.children(h.entrypoint()).count() as isize;
    let before = nodes(c.hugr());
    let art = || format!("{}\nsubgraph {:?}\nreplacement\n{}", art(), r.subgraph().nodes(), dump(r.replacement().hugr()));
    let delta = r.node_count_delta();
    let Some(res) = ctx.guard("apply", &art, || r.clone().apply(&mut c)) else { return };
    if let Err(e) = res {
        ctx.violation(format!("apply:{}", norm(&e.to_string())), e.to_string(), art());
        return;
    }
    let after = nodes(c.hugr());
    if after - before != delta {
        ctx.violation("node_count_delta", format!("reported {delta}, measured {}", after - before), art());
    }
    check_same(ctx, "rewrite", h, c.hugr(), &interp::Cfg::default(), 1, false, &art());
}

fn strategies(ctx: &mut Ctx, rng: &mut Rng, rws: &[CircuitRewrite], h: &Hugr, art: &dyn Fn() -> String) {
    type L = LexicographicCostFunction<fn(&hugr::ops::OpType) -> usize, 2>;
    let gamma = 0.5 + rng.f() * 2.;
    match rng.below(8) {
        0 | 1 => strat(ctx, rng, "greedy", GreedyRewriteStrategy, rws, h, art, false),
        2 => strat(ctx, rng, "exhaustive greedy cx", L::cx_count().into_greedy_strategy(), rws, h, art, true),
        3 => strat(ctx, rng, "exhaustive greedy rz", L::rz_count().into_greedy_strategy(), rws, h, art, true),
        4 => strat(ctx, rng, "threshold cx", L::cx_count().into_threshold_strategy(), rws, h, art, false),
        5 => strat(ctx, rng, "gamma cx", GammaStrategyCost::exhaustive_cx_with_gamma(gamma), rws, h, art, false),
        6 => strat(ctx, rng, "gamma ops", GammaStrategyCost::new(gamma, |o: &hugr::ops::OpType| tket::circuit::cost::is_quantum(o) as usize), rws, h, art, false),
        _ => {
            let s: ExhaustiveGreedyStrategy<_> = GammaStrategyCost { gamma, op_cost: |o: &hugr::ops::OpType| o.is_extension_op() as usize + tket::circuit::cost::is_cx(o) as usize }.into();
            strat(ctx, rng, "exhaustive greedy gamma", s, rws, h, art, true)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn strat<S: RewriteStrategy>(ctx: &mut Ctx, rng: &mut Rng, name: &str, s: S, rws: &[CircuitRewrite], h: &Hugr, art: &dyn Fn() -> String, composes: bool)
where
    S::Cost: std::fmt::Debug,
{
    let c = Circuit::new(h.clone());
    let art = || format!("strategy {name}\n{}", art());
    let what = format!("strategy {name}");
    let Some(res) = ctx.guard(&what, &art, || s.apply_rewrites(rws.to_vec(), &c).collect::<Vec<_>>()) else { return };
    ctx.count(format!("results of {name}"), res.len() as u64);
    if name == "greedy" && res.len() != 1 {
        ctx.violation("greedy:results", format!("{} results", res.len()), art());
    }
    let base = s.circuit_cost(&c);
    let mut idx: Vec<usize> = (0..res.len()).collect();
    rng.shuffle(&mut idx);
    for &i in idx.iter().take(6) {
        let r = &res[i];
        let cyclic = r.circ.circuit_hash(r.circ.parent()).is_err();
        if cyclic {
            ctx.count(format!("cyclic results of {name}"), 1);
            if !composes {
                ctx.violation(format!("{what}:cyclic"), "result is cyclic".to_string(), art());
            }
            continue;
        }
        let cost = s.circuit_cost(&r.circ);
        if base.add_delta(&r.cost_delta) != cost {
            ctx.violation(
                format!("{what}:cost delta"),
                format!("cost {base:?} with reported delta {:?}, but the new circuit costs {cost:?}", r.cost_delta),
                format!("{}\nresult\n{}", art(), dump(r.circ.hugr())),
            );
        }
        check_same(ctx, &what, h, r.circ.hugr(), &interp::Cfg::default(), 1, false, &art());
    }
    let _: Option<ExhaustiveThresholdStrategy<()>> = None;
}
