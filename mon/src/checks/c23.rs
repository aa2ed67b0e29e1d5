use super::util::*;
use crate::gen::dump;
use crate::report::*;
use crate::rng::Rng;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use std::num::NonZeroUsize;
use tket::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
use tket::rewrite::strategy::{GammaStrategyCost, GreedyRewriteStrategy, LexicographicCostFunction, RewriteStrategy, StrategyCost};
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C23",
    rule: "case = one region and a batch of random cost triples. The costs the circuit and each strategy report are compared with a recount of the graph (by operation name, weighted at random); the algebra of costs and deltas (addition, difference, sum, order, division, projection) is observed on random values against plain integer arithmetic; threshold decisions are compared with their definition. Non-trivial = distinct region with at least three operations.",
    assumptions: &["dividing a zero cost may give zero or one", "commands of unused constants may be left out of a circuit cost (the monitor's cost functions give constants no weight)"],
    cases: |t| if t == Tier::Quick { 30_000 } else { 1_000_000 },
    min_nontrivial: 2000,
    budget: (60, 800),
    case_timeout: 30,
    f: case,
};

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    algebra(ctx, &mut rng);
    let Some(h) = some_region(ctx, &mut rng) else { return };
    counts(ctx, &h, &mut rng);
}

fn value(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => r.below(3),
        2 => r.below(20),
        3 => r.below(1000),
        4 => r.below(1 << 30),
        _ => (r.next() >> 3) as usize,
    }
}

fn algebra(ctx: &mut Ctx, r: &mut Rng) {
    fn lex<const N: usize>(ctx: &mut Ctx, r: &mut Rng) {
        let mk = |r: &mut Rng| -> [usize; N] {
            let base = value(r);
            std::array::from_fn(|_| if r.chance(0.5) { base } else { value(r) })
        };
        let (a, b, c) = (mk(r), mk(r), mk(r));
        let l = |x: [usize; N]| LexicographicCost::<usize, N>::from(x);
        let n = NonZeroUsize::new(1 + if r.chance(0.8) { r.below(9) } else { value(r) }).unwrap();
        laws(ctx, l(a), l(b), l(c), n, &a, &b, &c, |x| serde_json::to_string(x).unwrap() == format!("\"{:?}\"", x));
        // components one by one
        let s = l(a).sub_cost(&l(b));
        let d: [isize; N] = std::array::from_fn(|i| a[i] as isize - b[i] as isize);
        expect(ctx, "sub_cost", s == LexicographicCost::from(d), || format!("{a:?} - {b:?} = {s:?}"));
        let e: [usize; N] = std::array::from_fn(|i| b[i] + c[i]);
        expect(ctx, "add", l(b) + l(c) == l(e), || format!("{b:?} + {c:?}"));
        let mut t = l(b);
        t += l(c);
        expect(ctx, "add_assign", t == l(e), || format!("{b:?} += {c:?}"));
        let v = l(a).div_cost(n);
        let ok = (0..=1usize).any(|z| v == l(std::array::from_fn(|i| if a[i] == 0 { z } else { a[i].div_ceil(n.get()) })));
        expect(ctx, "div_cost", ok, || format!("{a:?} / {n} = {v:?}"));
        expect(ctx, "projection", l(a).as_usize() == a.first().copied().unwrap_or(0) && s.as_isize() == d.first().copied().unwrap_or(0), || {
            format!("{a:?} {s:?}")
        });
        let mut ds = s;
        ds += LexicographicCost::from(d);
        expect(ctx, "delta add", ds == s + s && ds == [s, s].into_iter().sum(), || format!("{s:?}"));
    }
    match r.below(6) {
        0 => lex::<0>(ctx, r),
        1 => lex::<1>(ctx, r),
        2 | 3 => lex::<2>(ctx, r),
        4 => lex::<3>(ctx, r),
        _ => {
            let (a, b, c) = (value(r), value(r), value(r));
            let n = NonZeroUsize::new(1 + r.below(20)).unwrap();
            laws(ctx, a, b, c, n, &[a], &[b], &[c], |_| true);
            let v = a.div_cost(n);
            expect(ctx, "div_cost", v == a.div_ceil(n.get()) || (a == 0 && v == 1), || format!("{a} / {n} = {v}"));
            expect(ctx, "projection", a.as_usize() == a && a.sub_cost(&b).as_isize() == a as isize - b as isize, || format!("{a} {b}"));
        }
    }
}

fn expect(ctx: &mut Ctx, what: &str, ok: bool, m: impl FnOnce() -> String) {
    ctx.count("cost laws observed", 1);
    if !ok {
        ctx.violation(format!("{what}:law broken"), format!("{what}: {}", m()), String::new());
    }
}

#[allow(clippy::too_many_arguments)]
fn laws<C: CircuitCost>(ctx: &mut Ctx, a: C, b: C, c: C, n: NonZeroUsize, va: &[usize], vb: &[usize], vc: &[usize], ser: impl Fn(&C) -> bool) {
    let r = catch(|| {
        let mut bad = vec![];
        let d = b.sub_cost(&a);
        if a.add_delta(&d) != b {
            bad.push(("difference", format!("{a:?} + ({b:?} - {a:?}) = {:?}", a.add_delta(&d))));
        }
        if a.cmp(&b) != va.cmp(vb) || (a == b) != (va == vb) || a.partial_cmp(&b) != Some(a.cmp(&b)) {
            bad.push(("order", format!("{a:?} against {b:?}: {:?}", a.cmp(&b))));
        }
        // the order of the deltas is the order of the costs
        let e = c.sub_cost(&a);
        if d.cmp(&e) != vb.cmp(vc) {
            bad.push(("order of deltas", format!("{d:?} against {e:?}: {:?}", d.cmp(&e))));
        }
        let zero = C::CostDelta::default();
        if d.cmp(&zero) != vb.cmp(va) {
            bad.push(("sign of delta", format!("{d:?}")));
        }
        if a.clone() + C::default() != a || a.add_delta(&zero) != a {
            bad.push(("neutral", format!("{a:?}")));
        }
        if a.clone() + b.clone() != b.clone() + a.clone() || (a.clone() + b.clone()).sub_cost(&b) != a.sub_cost(&C::default()) {
            bad.push(("sum and difference", format!("{a:?} {b:?}")));
        }
        let s: C = [a.clone(), b.clone(), c.clone()].into_iter().sum();
        if s != a.clone() + b.clone() + c.clone() || std::iter::empty::<C>().sum::<C>() != C::default() {
            bad.push(("sum", format!("{a:?} {b:?} {c:?}: {s:?}")));
        }
        let f = c.sub_cost(&b);
        if d.clone() + f.clone() != e || [d.clone(), f.clone()].into_iter().sum::<C::CostDelta>() != e {
            bad.push(("sum of deltas", format!("{d:?} {f:?} {e:?}")));
        }
        let mut g = d.clone();
        g += f;
        if g != e {
            bad.push(("delta add_assign", format!("{g:?} {e:?}")));
        }
        let _ = a.div_cost(n);
        if !ser(&a) {
            bad.push(("serialisation", format!("{a:?}")));
        }
        bad
    });
    ctx.count("cost laws observed", 11);
    ctx.eval();
    match r {
        Err(p) => ctx.violation(format!("panic:cost algebra:{}", norm(&p.msg)), format!("cost arithmetic panicked on {a:?} {b:?} {c:?}: {}", p.msg), String::new()),
        Ok(bad) => {
            for (w, m) in bad {
                ctx.violation(format!("{w}:law broken"), format!("{w}: {m}"), String::new());
            }
        }
    }
}

const QUANTUM: &[&str] = &["H", "CX", "T", "S", "V", "X", "Y", "Z", "Tdg", "Sdg", "Vdg", "Rz", "Rx", "Toffoli", "Ry", "CZ", "CY", "CRz"];

fn id(op: &OpType) -> Option<(String, String)> {
    match op {
        OpType::ExtensionOp(e) => Some((e.extension_id().to_string(), e.unqualified_id().to_string())),
        OpType::OpaqueOp(e) => Some((e.extension().to_string(), e.unqualified_id().to_string())),
        _ => None,
    }
}
fn quantum(op: &OpType) -> bool {
    id(op).is_some_and(|(e, n)| e == "tket.quantum" && QUANTUM.contains(&n.as_str()))
}
fn named(op: &OpType, x: &str) -> bool {
    id(op).is_some_and(|(e, n)| e == "tket.quantum" && n == x)
}
fn counted(op: &OpType) -> bool {
    id(op).is_some_and(|(e, n)| !(e == "prelude" && ["Noop", "MakeTuple", "UnpackTuple"].contains(&n.as_str())))
}

fn counts(ctx: &mut Ctx, h: &Hugr, rng: &mut Rng) {
    let art = || dump(h);
    let Ok(circ) = Circuit::try_new(h) else { return };
    ctx.eval();
    let parent = h.entrypoint();
    let io = h.get_io(parent).unwrap();
    let nodes: Vec<Node> = h.children(parent).filter(|n| !io.contains(n)).collect();
    let mut bad: Vec<(&str, String)> = vec![];
    let salt = rng.next();
    let w = |op: &OpType| -> [usize; 3] {
        if matches!(op, OpType::Const(_) | OpType::LoadConstant(_)) {
            return [0; 3];
        }
        let k = crate::rng::hash_str(&format!("{salt}{op}"));
        [(k % 3) as usize, (k / 3 % 5) as usize, (k / 15 % 100) as usize]
    };
    let r = ctx.guard("costs", &art, || {
        let c: LexicographicCost<usize, 3> = circ.circuit_cost(|op| LexicographicCost::from(w(op)));
        let u: usize = circ.circuit_cost(|op| w(op)[2]);
        let sub: Vec<Node> = nodes.iter().copied().filter(|_| rng.chance(0.5)).collect();
        let s: LexicographicCost<usize, 3> = circ.nodes_cost(sub.iter().copied(), |op| LexicographicCost::from(w(op)));
        let owned = circ.to_owned();
        let cx = LexicographicCostFunction::cx_count().into_threshold_strategy();
        let cxd = LexicographicCostFunction::default_cx_strategy();
        let rz = LexicographicCostFunction::rz_count().into_greedy_strategy();
        let g = GammaStrategyCost::exhaustive_cx();
        let g2 = GammaStrategyCost::with_cost(|op: &OpType| w(op)[1]);
        (
            c,
            u,
            s,
            sub,
            circ.num_operations(),
            circ.operations().map(|c| c.node()).collect::<Vec<_>>(),
            circ.qubit_count(),
            [cx.circuit_cost(&owned), cxd.circuit_cost(&owned), rz.circuit_cost(&owned)],
            [g.circuit_cost(&owned), g2.circuit_cost(&owned), GreedyRewriteStrategy.circuit_cost(&owned)],
        )
    });
    let Some((c, u, s, sub, nops, ops, qubits, lexs, flats)) = r else { return };
    let sum = |ns: &[Node], f: &dyn Fn(&OpType) -> usize| -> usize { ns.iter().map(|n| f(h.get_optype(*n))).sum() };
    let sum3 = |ns: &[Node]| -> [usize; 3] { std::array::from_fn(|i| sum(ns, &|o| w(o)[i])) };
    if c != LexicographicCost::from(sum3(&nodes)) {
        bad.push(("circuit_cost", format!("{c:?} instead of {:?}", sum3(&nodes))));
    }
    if u != sum3(&nodes)[2] {
        bad.push(("circuit_cost", format!("{u} instead of {}", sum3(&nodes)[2])));
    }
    if s != LexicographicCost::from(sum3(&sub)) {
        bad.push(("nodes_cost", format!("{s:?} instead of {:?} for {sub:?}", sum3(&sub))));
    }
    let all: Vec<Node> = h.nodes().collect();
    let total = sum(&all, &|o| counted(o) as usize);
    if nops != total {
        bad.push(("num_operations", format!("{nops} instead of {total}")));
    }
    let mut got = ops.clone();
    got.sort();
    let mut want: Vec<Node> = nodes.iter().copied().filter(|n| h.get_optype(*n).is_extension_op() && counted(h.get_optype(*n))).collect();
    want.sort();
    if got != want {
        bad.push(("operations", format!("{got:?} instead of {want:?}")));
    }
    let qin = match h.get_optype(io[0]) {
        OpType::Input(i) => i.types.iter().filter(|t| **t == hugr::extension::prelude::qb_t()).count(),
        _ => 0,
    };
    if qubits != qin {
        bad.push(("qubit_count", format!("{qubits} instead of {qin}")));
    }
    let ncx = sum(&nodes, &|o| named(o, "CX") as usize);
    let nrz = sum(&nodes, &|o| named(o, "Rz") as usize);
    let nq = sum(&nodes, &|o| quantum(o) as usize);
    for (l, want, name) in [(&lexs[0], [ncx, nq], "cx_count"), (&lexs[1], [ncx, nq], "default_cx_strategy"), (&lexs[2], [nrz, nq], "rz_count")] {
        if *l != LexicographicCost::from(want) {
            bad.push(("strategy circuit_cost", format!("{name}: {l:?} instead of {want:?}")));
        }
    }
    for (got, want, name) in [(flats[0], ncx, "exhaustive_cx"), (flats[1], sum3(&nodes)[1], "with_cost"), (flats[2], total, "greedy")] {
        if got != want {
            bad.push(("strategy circuit_cost", format!("{name}: {got} instead of {want}")));
        }
    }
    for n in &nodes {
        let o = h.get_optype(*n);
        if is_cx(o) != named(o, "CX") || is_quantum(o) != quantum(o) {
            bad.push(("is_cx/is_quantum", format!("{o}: {} {}", is_cx(o), is_quantum(o))));
        }
    }
    // thresholds
    let lx = LexicographicCostFunction::cx_count();
    for _ in 0..4 {
        let (a, b): ([usize; 2], [usize; 2]) = ([rng.below(4), rng.below(9)], [rng.below(4), rng.below(9)]);
        let got = lx.under_threshold(&LexicographicCost::from(a), &LexicographicCost::from(b));
        if got != (b[0] <= a[0]) {
            bad.push(("lexicographic threshold", format!("{a:?} to {b:?}: {got}")));
        }
        let gamma = *rng.pick(&[1.0, 1.0001, 1.2, 0.9, 2.0]);
        let g = GammaStrategyCost { gamma, op_cost: |_: &OpType| 1usize };
        let got = g.under_threshold(&a[1], &b[1]);
        if got != ((b[1] as f64) < gamma * a[1] as f64) {
            bad.push(("gamma threshold", format!("{gamma}: {} to {}: {got}", a[1], b[1])));
        }
    }
    ctx.count("operations recounted", total as u64);
    ctx.count("regions recounted", 1);
    for (w, m) in bad {
        ctx.violation(format!("{w}:wrong"), format!("{w}: {m}"), dump(h));
    }
    if want.len() >= 3 {
        ctx.nontrivial(&dump(h));
        ctx.sample(format!("region of {} nodes: {} operations in the module, {ncx} CX, {nq} quantum", nodes.len(), nops));
    }
}
