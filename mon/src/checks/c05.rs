use super::c06::region_ops;
use super::util::*;
use crate::gen::{circ, dump};
use crate::interp;
use crate::report::*;
use hugr::ops::{OpTrait, OpType};
use hugr::{Hugr, HugrView, Node};
use std::collections::HashMap;

pub static CHECK: Check = Check {
    id: "C05",
    rule: "case = random circuit (pure gates; or with measurements, allocations, resets, conditionals, nested regions, barriers, symbolic angles), or the same over gate types most of which commute; the pass runs, operations and depth are compared and both circuits executed. Non-trivial = distinct circuits in which at least one operation was moved.",
    assumptions: &["the reference interpreter in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 30_000 } else { 2_000_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    use tket::TketOp::*;
    let cfg = match ctx.idx % 4 {
        0 => circ::Cfg::pure((1, 5), (2, 30), circ::ALLG),
        // mostly commuting
        1 => circ::Cfg::pure((2, 6), (4, 40), &[CX, CX, CX, CZ, Rz, Rx, T, X, Z, H]),
        2 => circ::Cfg { cond: 0.02, barrier: 0.02, ..circ::Cfg::dynamic((2, 5), (4, 30), &[CX, CX, CZ, CY, Rz, Rx, Ry, T, V, S, Toffoli, CRz]) },
        _ => circ::Cfg::dynamic((1, 4), (2, 25), circ::ALLG),
    };
    let c = circ::generate(&mut rng, &cfg);
    let h = c.hugr();
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {e}"));
        return;
    }
    let mut circ = tket::Circuit::new(h.clone());
    let text = c.text();
    let Some(res) = ctx.guard("apply_greedy_commutation", &|| text.clone(), || {
        tket::passes::apply_greedy_commutation(&mut circ)
    }) else {
        return;
    };
    match res {
        Err(e) => {
            ctx.count("returned an error", 1);
            ctx.violation(format!("error:{}", norm(&e.to_string())), e.to_string(), text.clone());
            return;
        }
        Ok(n) => {
            ctx.count("moves", n as u64);
            if n > 0 {
                ctx.nontrivial(&text);
            }
        }
    }
    ctx.sample(format!("{text}\n{}", dump(circ.hugr())));
    if region_ops(&h) != region_ops(circ.hugr()) {
        ctx.violation("operations changed", format!("{:?} became {:?}", region_ops(&h), region_ops(circ.hugr())), text.clone());
        return;
    }
    if circ.hugr().validate().is_ok() {
        let (a, b) = (depth(&h), depth(circ.hugr()));
        if b > a {
            ctx.violation("depth increased", format!("depth {a} became {b}"), format!("{text}\n{}", dump(circ.hugr())));
            return;
        }
        ctx.count("depth reduced by", (a - b) as u64);
    }
    check_same(ctx, "greedy commutation", &h, circ.hugr(), &interp::Cfg::default(), 1, false, &text);
}
/// Longest chain of operations on qubits in the top-level region.
fn depth(h: &Hugr) -> usize {
    let kids: Vec<Node> = h.children(h.entrypoint()).collect();
    let pos: HashMap<Node, usize> = kids.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut indeg = vec![0; kids.len()];
    let succ: Vec<Vec<usize>> = kids.iter().map(|n| h.output_neighbours(*n).filter_map(|m| pos.get(&m).copied()).collect()).collect();
    succ.iter().flatten().for_each(|&j| indeg[j] += 1);
    let mut ready: Vec<usize> = (0..kids.len()).filter(|&i| indeg[i] == 0).collect();
    let mut d = vec![0; kids.len()];
    let mut best = 0;
    while let Some(i) = ready.pop() {
        let op = h.get_optype(kids[i]);
        let q = !matches!(op, OpType::Input(_) | OpType::Output(_)) && op.dataflow_signature().is_some_and(|s| s.input().iter().any(|t| !t.copyable()));
        let e = d[i] + q as usize;
        best = best.max(e);
        for &j in &succ[i] {
            d[j] = d[j].max(e);
            indeg[j] -= 1;
            if indeg[j] == 0 {
                ready.push(j);
            }
        }
    }
    best
}
