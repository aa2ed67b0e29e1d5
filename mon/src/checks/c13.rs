use super::util::*;
use crate::gen::{assets, circ, dump, prog};
use crate::interp;
use crate::report::*;
use hugr::algorithms::ComposablePass;
use hugr::{Hugr, HugrView};
use tket::TketOp;
use tket_qsystem::extension::qsystem::{check_lowered, lower_tk2_op, LowerTketToQSystemPass};

pub static CHECK: Check = Check {
    id: "C13",
    rule: "case = every gate alone at special and random angles (first cases), then random circuits and generated programs; each is lowered (pass or lower_tk2_op) and run before and after on random entangled inputs, the final states compared up to global phase in every measurement branch. Non-trivial = distinct program with at least one lowered operation.",
    assumptions: &["the reference interpreter in mon/src/interp.rs gives the meaning of tket and qsystem operations"],
    cases: |t| if t == Tier::Quick { 12_000 } else { 300_000 },
    min_nontrivial: 1000,
    budget: (50, 800),
    case_timeout: 60,
    f: case,
};

const SPECIAL: &[f64] = &[0., 1., -1., 0.5, -0.5, 0.25, 1.5, 2., -2., 3., 4., 1e-9, 1e-3, 0.3, 1. / 3., 1.999999, 7.25, -12.7, 1000.1];

fn gates() -> Vec<circ::Circ> {
    use circ::{Ang, Circ, Op};
    let mut out = vec![];
    for &g in circ::ALLG {
        let n = circ::arity(g);
        let qs: Vec<usize> = (0..n).collect();
        // on fewer and more qubits than it needs, in both orders
        let mut orders = vec![qs.clone()];
        if n > 1 {
            orders.push(qs.iter().rev().copied().collect());
        }
        for q in orders {
            if circ::has_angle(g) {
                for &a in SPECIAL {
                    for f in [Ang::C(a), Ang::Float(a)] {
                        out.push(Circ { nq: n, nrot: 0, ops: vec![Op::G(g, q.clone(), Some(f))], out: qs.clone(), bools: vec![] });
                    }
                }
                out.push(Circ { nq: n, nrot: 1, ops: vec![Op::G(g, q.clone(), Some(Ang::In(0)))], out: qs.clone(), bools: vec![] });
            } else {
                out.push(Circ { nq: n, nrot: 0, ops: vec![Op::G(g, q.clone(), None)], out: qs.clone(), bools: vec![] });
            }
        }
    }
    for ops in [vec![Op::Meas(0, 0)], vec![Op::Reset(0)], vec![Op::Meas(0, 0), Op::Meas(0, 1)], vec![Op::Alloc(1), Op::G(TketOp::CX, vec![0, 1], None), Op::Meas(1, 0), Op::Free(1)]] {
        let bools = ops.iter().filter_map(|o| if let Op::Meas(_, b) = o { Some(*b) } else { None }).collect();
        out.push(Circ { nq: 1, nrot: 0, ops, out: vec![0], bools });
    }
    out.push(Circ { nq: 1, nrot: 0, ops: vec![Op::MeasFree(0, 0)], out: vec![], bools: vec![0] });
    out
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let gs = gates();
    let cfg = interp::Cfg::default();
    let (h, inputs): (Hugr, usize) = if ctx.idx < gs.len() {
        (gs[ctx.idx].hugr(), 4)
    } else if let Some((name, h)) = assets::GUPPY.get(ctx.idx - gs.len()).filter(|f| f.1.entrypoint() != f.1.module_root()) {
        ctx.count("compiled Guppy files", 1);
        ctx.sample(name);
        (h.clone(), 1)
    } else if ctx.idx % 3 == 0 {
        let c = circ::generate(&mut rng, &circ::Cfg::dynamic((1, 5), (2, 30), circ::ALLG));
        (c.hugr(), 1)
    } else {
        let mut f = prog::Feat::all().thin(&mut rng);
        f.io_tbool = rng.chance(0.3);
        f.qsys &= rng.chance(0.4);
        f.ext_edges = rng.chance(0.2);
        (prog::generate(&mut rng, f), 1)
    };
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let before = h.nodes().filter(|n| h.get_optype(*n).cast::<TketOp>().is_some()).count();
    let as_pass = rng.chance(0.5);
    let mut k = h.clone();
    let art = || dump(&h);
    let Some(res) = ctx.guard("lowering", &art, || {
        if as_pass {
            LowerTketToQSystemPass.run(&mut k).map(|_| None)
        } else {
            lower_tk2_op(&mut k).map(Some)
        }
    }) else {
        return;
    };
    match res {
        Err(e) => {
            ctx.violation(format!("error:{}", norm(&e.to_string())), e.to_string(), art());
            return;
        }
        Ok(Some(nodes)) => {
            let lowered = nodes.iter().filter(|n| h.contains_node(**n) && h.get_optype(**n).cast::<TketOp>().is_some()).count();
            if lowered != before {
                ctx.violation("replaced nodes", format!("{lowered} nodes reported as replaced, the program has {before} operations to replace"), art());
            }
        }
        Ok(None) => {}
    }
    if let Err(left) = check_lowered(&k) {
        ctx.violation("left over", format!("operations left after lowering: {:?}", left.iter().map(|n| k.get_optype(*n).to_string()).collect::<Vec<_>>()), art());
    }
    // independent of check_lowered
    for n in k.nodes() {
        if let Some(e) = k.get_optype(n).as_extension_op() {
            if e.def().extension_id().to_string() == "tket.quantum" {
                ctx.violation("left over op", format!("{} left after lowering", e.def().name()), art());
            }
        }
    }
    if k.entrypoint() != h.entrypoint() || k.entrypoint_optype() != h.entrypoint_optype() {
        ctx.violation("entrypoint", "the entrypoint changed", art());
    }
    ctx.count("operations lowered", before as u64);
    if before > 0 {
        ctx.nontrivial(&dump(&h));
    }
    ctx.sample(dump(&h));
    check_same(ctx, "lowering", &h, &k, &cfg, inputs, false, "");
}
