use super::util::*;
use crate::gen::circ::{self, Op};
use crate::gen::flat::Flat;
use crate::gen::dump;
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, PortIndex};
use std::collections::BTreeMap;
use tket::circuit::cost::{CircuitCost, LexicographicCost};
use tket::passes::CircuitChunks;
use tket::{Circuit, TketOp};

pub static CHECK: Check = Check {
    id: "C06",
    rule: "case = random circuit (pure, or with measurement/allocation/conditionals/constants) x a bound (gate count, weighted cost, lexicographic cost); the chunks are costed and validated, reassembled unchanged, and reassembled after random chunks were simplified (inverse pairs cancelled, CX triples turned into crossed wires); all circuits are executed and compared. Non-trivial: at least two chunks; distinct by circuit and bound.",
    assumptions: &["the reference interpreter in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 30_000 } else { 2_000_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

fn op_cost(kind: usize, op: &OpType) -> usize {
    let t: Option<TketOp> = op.cast();
    match kind {
        0 => 1,
        1 => match t {
            Some(TketOp::CX | TketOp::CZ) => 3,
            Some(TketOp::Toffoli) => 7,
            Some(_) => 1,
            None => 0,
        },
        2 => t.is_some_and(|t| t == TketOp::CX) as usize,
        _ => t.is_some() as usize,
    }
}
fn lex(op: &OpType) -> LexicographicCost<usize, 2> {
    [op_cost(2, op), op_cost(3, op)].into()
}

/// All the operations of the entrypoint region.
pub fn region_ops(h: &Hugr) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for n in h.children(h.entrypoint()) {
        let op = h.get_optype(n);
        if matches!(op, OpType::Input(_) | OpType::Output(_)) {
            continue;
        }
        let s = match op {
            OpType::Const(c) => format!("{:?}", c.value()),
            o => format!("{o}"),
        };
        *m.entry(s).or_default() += 1;
    }
    m
}

fn add_blocks(r: &mut Rng, ops: &mut Vec<Op>, nq: usize) {
    use TketOp::*;
    let n = r.range(1, 5);
    for _ in 0..n {
        // keep to places where all the original qubits are surely alive
        let last = ops
            .iter()
            .position(|o| matches!(o, Op::Free(_) | Op::MeasFree(..)))
            .unwrap_or(ops.len());
        let at = r.below(last + 1);
        let q = r.below(nq);
        let p = (q + 1 + r.below(nq.max(2) - 1)) % nq;
        let g = |g, q: &[usize]| Op::G(g, q.to_vec(), None);
        let blk = match r.below(if nq > 1 { 6 } else { 3 }) {
            0 => vec![g(H, &[q]), g(H, &[q])],
            1 => vec![g(S, &[q]), g(Sdg, &[q])],
            2 => vec![g(X, &[q]), g(X, &[q])],
            3 => vec![g(CX, &[q, p]), g(CX, &[q, p])],
            _ => vec![g(CX, &[q, p]), g(CX, &[p, q]), g(CX, &[q, p])],
        };
        ops.splice(at..at, blk);
    }
}

fn inverse(a: &OpType, b: &OpType) -> bool {
    use TketOp::*;
    let (Some(a), Some(b)): (Option<TketOp>, Option<TketOp>) = (a.cast(), b.cast()) else { return false };
    matches!(
        (a, b),
        (H, H) | (X, X) | (Y, Y) | (Z, Z) | (CX, CX) | (CZ, CZ) | (CY, CY) | (S, Sdg) | (Sdg, S) | (T, Tdg) | (Tdg, T) | (V, Vdg) | (Vdg, V) | (Toffoli, Toffoli)
    )
}

/// Cancel inverse pairs; turn CX triples into crossed wires.
pub fn simplify(mut f: Flat) -> (Flat, usize) {
    let mut n = 0;
    loop {
        let mut hit: Option<(Vec<usize>, Vec<((usize, usize), (usize, usize))>)> = None;
        for j in 1..f.nodes.len() {
            let nj = &f.nodes[j];
            if nj.ins.is_empty() {
                continue;
            }
            let i = nj.ins[0].0;
            if i == 0 {
                continue;
            }
            let ni = &f.nodes[i];
            if ni.ins.len() == nj.ins.len()
                && nj.ins.iter().enumerate().all(|(k, s)| *s == (i, k))
                && inverse(&ni.op, &nj.op)
            {
                hit = Some((vec![i, j], (0..nj.ins.len()).map(|k| ((j, k), ni.ins[k])).collect()));
                break;
            }
            let is_cx = |k: usize| f.nodes[k].op.cast::<TketOp>() == Some(TketOp::CX);
            if is_cx(j) && is_cx(i) && nj.ins == vec![(i, 1), (i, 0)] {
                let h = ni.ins[0].0;
                if h != 0 && is_cx(h) && ni.ins == vec![(h, 1), (h, 0)] {
                    let src = f.nodes[h].ins.clone();
                    hit = Some((vec![h, i, j], vec![((j, 0), src[1]), ((j, 1), src[0])]));
                    break;
                }
            }
        }
        let Some((dead, alias)) = hit else { break };
        n += 1;
        let fix = |s: &mut (usize, usize)| {
            if let Some((_, t)) = alias.iter().find(|(a, _)| a == s) {
                *s = *t;
            }
        };
        for (k, nd) in f.nodes.iter_mut().enumerate() {
            if !dead.contains(&k) {
                nd.ins.iter_mut().for_each(fix);
            }
        }
        f.outs.iter_mut().for_each(fix);
        let d: Vec<bool> = (0..f.nodes.len()).map(|k| dead.contains(&k)).collect();
        f = f.compact(&d);
    }
    (f, n)
}

/// Two reported results whose order only a state order edge fixes.
pub fn probe_order() -> Hugr {
    use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
    use hugr::extension::prelude::bool_t;
    use hugr::types::Signature;
    use tket_qsystem::extension::result::ResultOp;
    let mut f = FunctionBuilder::new("main", Signature::new(vec![bool_t()], vec![])).unwrap();
    let [b] = f.input_wires_arr();
    let x = f.add_dataflow_op(ResultOp::new_bool("a"), [b]).unwrap();
    let y = f.add_dataflow_op(ResultOp::new_bool("b"), [b]).unwrap();
    f.set_order(&x, &y);
    f.finish_hugr_with_outputs([]).unwrap()
}
/// A circuit that calls another function of its module.
pub fn probe_call() -> Hugr {
    use hugr::builder::{Dataflow, DataflowHugr, DataflowSubContainer, HugrBuilder, ModuleBuilder};
    use hugr::extension::prelude::qb_t;
    use hugr::hugr::hugrmut::HugrMut;
    use hugr::ops::handle::NodeHandle;
    use hugr::types::Signature;
    let mut m = ModuleBuilder::new();
    let sig = Signature::new(vec![qb_t()], vec![qb_t()]);
    let callee = {
        let mut f = m.define_function("callee", sig.clone()).unwrap();
        let [q] = f.input_wires_arr();
        let o = f.add_dataflow_op(TketOp::T, [q]).unwrap();
        f.finish_with_outputs(o.outputs()).unwrap()
    };
    let mut f = m.define_function("main", sig).unwrap();
    let [q] = f.input_wires_arr();
    let o = f.add_dataflow_op(TketOp::H, [q]).unwrap();
    let o = f.call(callee.handle(), &[], o.outputs()).unwrap();
    let o = f.add_dataflow_op(TketOp::H, o.outputs()).unwrap();
    let f = f.finish_with_outputs(o.outputs()).unwrap();
    let mut h = m.finish_hugr().unwrap();
    h.set_entrypoint(f.node());
    h
}
fn probe(ctx: &mut Ctx, name: &str, h: Hugr) {
    let circ = Circuit::new(h.clone());
    let text = dump(&h);
    ctx.eval();
    let Some(re) = ctx.guard(name, &|| text.clone(), || CircuitChunks::split(&circ, 1).reassemble()) else { return };
    check_same(ctx, name, &h, re.unwrap().hugr(), &interp::Cfg::default(), 8, false, &text);
}

fn case(ctx: &mut Ctx) {
    match ctx.idx {
        0 => return probe(ctx, "order edge between chunks", probe_order()),
        1 => return probe(ctx, "call in a chunk", probe_call()),
        _ => {}
    }
    let mut rng = ctx.rng.fork();
    let cfg = match ctx.idx % 3 {
        0 => circ::Cfg::pure((1, 5), (0, 25), circ::ALLG),
        1 => circ::Cfg::pure((2, 5), (2, 20), &[TketOp::CX, TketOp::CX, TketOp::H, TketOp::S, TketOp::Sdg, TketOp::X]),
        _ => circ::Cfg::dynamic((1, 4), (2, 25), circ::ALLG),
    };
    let mut c = circ::generate(&mut rng, &cfg);
    add_blocks(&mut rng, &mut c.ops, c.nq);
    let h = c.hugr();
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {e}"));
        return;
    }
    let circ = Circuit::new(h.clone());
    let kind = rng.below(5);
    let bound = rng.below(10);
    let text = format!("cost kind {kind} bound {bound} of {}", c.text());
    let Some(chunks) = ctx.guard("split", &|| text.clone(), || match kind {
        0 => CircuitChunks::split(&circ, bound),
        4 => CircuitChunks::split_with_cost(&circ, [bound, bound].into(), lex),
        k => CircuitChunks::split_with_cost(&circ, bound, |op| op_cost(k, op)),
    }) else {
        return;
    };
    ctx.count("chunks", chunks.len() as u64);
    if chunks.len() > 1 {
        ctx.nontrivial(&text);
    }
    ctx.sample(text.clone());
    // chunks: valid, within the bound, nothing lost
    let mut total: BTreeMap<String, usize> = BTreeMap::new();
    for (i, ch) in chunks.iter().enumerate() {
        ctx.eval();
        if let Err(e) = ch.hugr().validate() {
            ctx.violation(format!("chunk invalid:{}", norm(&e.to_string())), format!("chunk {i} is invalid: {e}"), format!("{text}\n{}", dump(ch.hugr())));
            return;
        }
        // constants are data, not operations
        let ops: Vec<&OpType> = ch
            .hugr()
            .children(ch.parent())
            .map(|n| ch.hugr().get_optype(n))
            .filter(|o| !matches!(o, OpType::Input(_) | OpType::Output(_) | OpType::Const(_)))
            .collect();
        let too_big = match kind {
            4 => {
                let s: LexicographicCost<usize, 2> = ops.iter().map(|o| lex(o)).sum();
                s > [bound, bound].into()
            }
            k => ops.iter().map(|o| op_cost(k, o)).sum::<usize>() > bound,
        };
        if too_big && ops.len() > 1 {
            ctx.violation("chunk exceeds the bound".to_string(), format!("chunk {i} has {} operations and exceeds the bound", ops.len()), format!("{text}\n{}", dump(ch.hugr())));
            return;
        }
        for (k, n) in region_ops(ch.hugr()) {
            *total.entry(k).or_default() += n;
        }
    }
    if total != region_ops(&h) {
        ctx.violation("operations lost in split", format!("operations {:?} became {total:?}", region_ops(&h)), text.clone());
        return;
    }
    let sig = circ.circuit_signature().into_owned();
    let two = chunks.clone();
    let Some(Ok(re)) = ctx.guard("reassemble", &|| text.clone(), || chunks.reassemble()) else {
        return;
    };
    if re.circuit_signature().into_owned() != sig {
        ctx.violation("signature changed", format!("{} became {}", sig, re.circuit_signature()), text.clone());
        return;
    }
    if !check_same(ctx, "reassemble", &h, re.hugr(), &interp::Cfg::default(), 1, false, &text) {
        return;
    }
    if re.name() != circ.name() {
        ctx.violation("name changed", format!("{:?} became {:?}", circ.name(), re.name()), text.clone());
        return;
    }
    if region_ops(re.hugr()) != region_ops(&h) {
        ctx.violation("operations lost in reassembly", format!("operations {:?} became {:?}", region_ops(&h), region_ops(re.hugr())), text.clone());
        return;
    }
    // replacement of chunks by equivalent ones
    let mut two = two;
    let mut note = String::new();
    for (i, ch) in two.iter_mut().enumerate() {
        if rng.chance(0.2) {
            continue;
        }
        let Some(f) = Flat::from_hugr(ch.hugr(), ch.parent()) else { continue };
        let (g, n) = simplify(f);
        if n == 0 {
            continue;
        }
        let [inp, out] = { 
            let nh = g.to_hugr("Chunk", None);
            let c2 = Circuit::new(nh);
            let io = c2.io_nodes();
            *ch = c2;
            io
        };
        let hh = ch.hugr();
        let pass = hh.node_outputs(inp).flat_map(|p| hh.linked_inputs(inp, p).map(move |(n, q)| (n, p.index(), q.index()))).filter(|x| x.0 == out).collect::<Vec<_>>();
        ctx.count("chunks simplified", 1);
        ctx.count("chunk wires passing straight through", pass.len() as u64);
        ctx.count("chunk wires passing through to another position", pass.iter().filter(|x| x.1 != x.2).count() as u64);
        if g.nodes.len() == 1 {
            ctx.count("chunks emptied", 1);
        }
        note += &format!(" chunk {i}: {n} simplifications;");
        if let Err(e) = ch.hugr().validate() {
            ctx.inconclusive(format!("harness: replacement invalid {e}"));
            return;
        }
    }
    if note.is_empty() {
        return;
    }
    let text = format!("{text}\nreplaced:{note}");
    let Some(Ok(re)) = ctx.guard("reassemble", &|| text.clone(), || two.reassemble()) else {
        return;
    };
    check_same(ctx, "reassemble after replacement", &h, re.hugr(), &interp::Cfg::default(), 1, false, &text);
}
#[allow(dead_code)]
fn _u(c: usize) -> usize {
    c.as_usize()
}
