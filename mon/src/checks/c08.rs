use super::util::*;
use crate::gen::{dump, flat};
use crate::report::*;
use crate::rng::Rng;
use hugr::extension::simple_op::MakeRegisteredOp;
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr::ops::{Const, OpTag, OpTrait, OpType, Value};
use hugr::types::{EdgeKind, Type};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use std::collections::HashMap;
use tket::circuit::CircuitHash;
use tket::TketOp;

pub static CHECK: Check = Check {
    id: "C08",
    rule: "case = one region (as for C07, with nested regions); its hash is observed on renumbered, reconnected, renamed and annotated isomorphic copies (must be equal) and after single structural edits of it (operation replaced by another of the same signature, constant or string argument changed, two equally typed inputs exchanged, order edge added or removed, boundary rows permuted, callee changed): where the monitor's own interned term of the causal past of the output differs, the hash must differ. Non-trivial = distinct region hashed with at least one edit that changed its term.",
    assumptions: &["64 bit hash collisions by chance are negligible"],
    cases: |t| if t == Tier::Quick { 40_000 } else { 400_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

/// Interned terms: the causal past of each node.
#[derive(Default)]
struct Terms {
    ids: HashMap<String, usize>,
    cyclic: bool,
}
impl Terms {
    fn intern(&mut self, s: String) -> usize {
        let n = self.ids.len();
        *self.ids.entry(s).or_insert(n)
    }
    fn op(&self, h: &Hugr, n: Node) -> String {
        match h.get_optype(n) {
            // the surrounding function's name is not part of the circuit
            OpType::FuncDefn(f) => format!("fn {} {}", f.func_name(), serde_json::to_string(f.signature()).unwrap()),
            o => serde_json::to_string(o).unwrap(),
        }
    }
    /// A node's contents (its own children), without its inputs.
    fn inside(&mut self, h: &Hugr, n: Node) -> usize {
        let op = h.get_optype(n);
        if h.get_io(n).is_some() {
            self.region(h, n)
        } else if matches!(op, OpType::CFG(_)) {
            // number the blocks in the order they are reached from the entry
            let entry = h.children(n).next().unwrap();
            let mut seen = vec![entry];
            let mut k = 0;
            let mut s = String::from("cfg");
            while k < seen.len() {
                let b = seen[k];
                k += 1;
                let o = self.op(h, b);
                let t = if h.get_io(b).is_some() { self.region(h, b) } else { 0 };
                s += &format!("({o}:{t}:");
                for p in h.node_outputs(b) {
                    for (m, _) in h.linked_inputs(b, p) {
                        let j = seen.iter().position(|x| *x == m).unwrap_or_else(|| {
                            seen.push(m);
                            seen.len() - 1
                        });
                        s += &format!("{j},");
                    }
                }
                s += ")";
            }
            self.intern(s)
        } else {
            let mut s = String::from("kids");
            for c in h.children(n) {
                let o = self.op(h, c);
                let t = self.inside(h, c);
                s += &format!("({o}:{t})");
            }
            self.intern(s)
        }
    }
    fn region(&mut self, h: &Hugr, parent: Node) -> usize {
        let out = h.get_io(parent).unwrap()[1];
        let mut memo = HashMap::new();
        self.node(h, parent, out, &mut memo)
    }
    fn node(&mut self, h: &Hugr, parent: Node, n: Node, memo: &mut HashMap<Node, usize>) -> usize {
        match memo.get(&n) {
            Some(&usize::MAX) => {
                self.cyclic = true;
                return 0;
            }
            Some(&t) => return t,
            None => (),
        }
        memo.insert(n, usize::MAX);
        let mut s = self.op(h, n);
        let here = h.get_parent(n) == Some(parent);
        if here && h.children(n).next().is_some() {
            let t = self.inside(h, n);
            s += &format!("{{{t}}}");
        }
        if here {
            for p in h.node_inputs(n) {
                let mut srcs: Vec<(usize, usize)> = h.linked_outputs(n, p).map(|(m, q)| (self.node(h, parent, m, memo), q.index())).collect();
                srcs.sort();
                s += &format!("|{}", srcs.iter().map(|(a, b)| format!("{a}.{b}")).collect::<Vec<_>>().join(","));
            }
        }
        let t = self.intern(s);
        memo.insert(n, t);
        t
    }
}

fn hash(h: &Hugr) -> Result<u64, String> {
    h.circuit_hash(h.entrypoint()).map_err(|e| e.to_string())
}

/// (hash, term) of the entrypoint region.
fn observe(h: &Hugr, t: &mut Terms) -> (Result<u64, String>, usize) {
    let term = t.region(h, h.entrypoint());
    (hash(h), term)
}

fn same_sig_ops(rng: &mut Rng, h: &Hugr, n: Node) -> Option<OpType> {
    let op = h.get_optype(n);
    let sig = op.dataflow_signature()?.into_owned();
    if h.children(n).next().is_some() || op.static_input_port().is_some() {
        return None;
    }
    let mut pool: Vec<OpType> = vec![];
    for t in crate::gen::circ::ALLG {
        pool.push(t.to_extension_op().unwrap().into());
    }
    pool.push(TketOp::QAlloc.to_extension_op().unwrap().into());
    pool.push(TketOp::MeasureFree.to_extension_op().unwrap().into());
    for l in [
        hugr::std_extensions::logic::LogicOp::And,
        hugr::std_extensions::logic::LogicOp::Or,
        hugr::std_extensions::logic::LogicOp::Xor,
        hugr::std_extensions::logic::LogicOp::Eq,
    ] {
        pool.push(l.to_extension_op().unwrap().into());
    }
    pool.extend(h.nodes().filter(|m| h.children(*m).next().is_none()).map(|m| h.get_optype(m).clone()));
    // another variant of the same sum
    if let OpType::Tag(t) = op {
        for i in 0..t.variants.len() {
            pool.push(hugr::ops::Tag::new(i, t.variants.clone()).into());
        }
    }
    // another operation of the same extension with the same arguments
    if let OpType::ExtensionOp(e) = op {
        for def in e.def().extension().upgrade()?.operations().map(|(_, d)| d.clone()) {
            if let Ok(Ok(o)) = catch(|| hugr::ops::ExtensionOp::new(def, e.args().to_vec())) {
                pool.push(o.into());
            }
        }
    }
    let me = serde_json::to_string(op).unwrap();
    pool.retain(|o| {
        o.static_input_port().is_none()
            && !matches!(o, OpType::Input(_) | OpType::Output(_))
            && !(OpTag::DataflowParent.is_superset(o.tag()))
            && o.dataflow_signature().is_some_and(|s| s.into_owned() == sig)
            && o.other_input_port().is_some() == op.other_input_port().is_some()
            && o.other_output_port().is_some() == op.other_output_port().is_some()
            && serde_json::to_string(o).unwrap() != me
            && !matches!(o, OpType::DFG(_) | OpType::CFG(_) | OpType::Conditional(_) | OpType::TailLoop(_))
    });
    if pool.is_empty() {
        None
    } else {
        Some(rng.pick(&pool).clone())
    }
}

/// Change one scalar somewhere in a JSON document.
fn mutate(rng: &mut Rng, j: &mut serde_json::Value) -> bool {
    use serde_json::Value as J;
    fn leaves<'a>(j: &'a mut J, out: &mut Vec<&'a mut J>) {
        match j {
            J::Array(a) => a.iter_mut().for_each(|x| leaves(x, out)),
            J::Object(o) => o.iter_mut().for_each(|(_, x)| leaves(x, out)),
            J::Null => (),
            _ => out.push(j),
        }
    }
    let mut v = vec![];
    leaves(j, &mut v);
    if v.is_empty() {
        return false;
    }
    let i = rng.below(v.len());
    match v.swap_remove(i) {
        J::Bool(b) => *b = !*b,
        J::Number(n) => {
            let new: serde_json::Number = if let Some(u) = n.as_u64() {
                match rng.below(3) {
                    0 => (u ^ 1).into(),
                    1 => u.wrapping_add(1).into(),
                    _ => (u ^ (1 << rng.below(8))).into(),
                }
            } else {
                let f = n.as_f64().unwrap_or(0.0);
                match serde_json::Number::from_f64(match rng.below(3) {
                    0 => -f,
                    1 => f + 0.125,
                    _ => f64::from_bits(f.to_bits() ^ 1),
                }) {
                    Some(x) => x,
                    None => return false,
                }
            };
            *n = new
        }
        J::String(s) => match rng.below(3) {
            0 => s.push('x'),
            1 => {
                s.pop();
            }
            _ => {
                if let Some(c) = s.chars().next() {
                    s.remove(0);
                    s.push(c)
                }
            }
        },
        _ => return false,
    }
    true
}

/// Nodes in the subtree of the entrypoint (itself excluded).
fn below(h: &Hugr) -> Vec<Node> {
    h.descendants(h.entrypoint()).skip(1).collect()
}

fn value_ports(h: &Hugr, n: Node) -> Vec<(IncomingPort, Type)> {
    let op = h.get_optype(n);
    h.node_inputs(n)
        .filter_map(|p| match op.port_kind(Port::from(p)) {
            Some(EdgeKind::Value(t)) => Some((p, t)),
            _ => None,
        })
        .collect()
}

/// One structural edit; returns its name.
fn edit(rng: &mut Rng, h: &mut Hugr) -> Option<&'static str> {
    let nodes = below(h);
    let n = *rng.pick(&nodes);
    match rng.below(10) {
        0..=2 => {
            let o = same_sig_ops(rng, h, n)?;
            h.replace_op(n, o);
            Some("operation replaced")
        }
        3 | 4 => {
            // constants, wherever they are defined
            let lc: Vec<Node> = nodes.iter().copied().filter(|m| matches!(h.get_optype(*m), OpType::LoadConstant(_))).collect();
            if lc.is_empty() {
                return None;
            }
            let n = *rng.pick(&lc);
            let (c, _) = h.static_source(n).map(|c| (c, ()))?;
            let OpType::Const(k) = h.get_optype(c) else { return None };
            let old = serde_json::to_value(k.value()).unwrap();
            let mut j = old.clone();
            if !mutate(rng, &mut j) {
                return None;
            }
            let v: Value = catch(|| serde_json::from_value(j).ok()).ok()??;
            if catch(|| v.get_type()).ok()? != k.value().get_type() || serde_json::to_value(&v).unwrap() == old {
                return None;
            }
            // an opaque constant whose payload is not understood is not a constant of its type
            if matches!(&v, Value::Extension { e } if e.value().downcast_ref::<hugr::ops::constant::CustomSerialized>().is_some()) {
                return None;
            }
            h.replace_op(c, Const::new(v));
            if h.validate().is_err() {
                return None;
            }
            Some("constant changed")
        }
        5 => {
            let OpType::ExtensionOp(e) = h.get_optype(n) else { return None };
            if e.args().is_empty() {
                return None;
            }
            let mut j = serde_json::to_value(e.args()).unwrap();
            if !mutate(rng, &mut j) {
                return None;
            }
            let args: Vec<hugr::types::TypeArg> = serde_json::from_value(j).ok()?;
            let def = e.def().extension().upgrade()?.get_op(e.def().name())?.clone();
            let o = catch(|| hugr::ops::ExtensionOp::new(def, args.clone()).ok()).ok()??;
            if *hugr::ops::dataflow::DataflowOpTrait::signature(&o) != *hugr::ops::dataflow::DataflowOpTrait::signature(e) || args == e.args() {
                return None;
            }
            h.replace_op(n, o);
            Some("argument changed")
        }
        6 | 7 => {
            // exchange the sources of two inputs of the same type in one region
            let p = h.get_parent(n)?;
            let mut ports = vec![];
            for m in h.children(p) {
                for (q, t) in value_ports(h, m) {
                    ports.push((m, q, t));
                }
            }
            let same_node = rng.chance(0.5);
            let (m, q, t) = {
                let mine: Vec<_> = if same_node { ports.iter().filter(|x| x.0 == n).cloned().collect() } else { ports.clone() };
                if mine.is_empty() {
                    return None;
                }
                rng.pick(&mine).clone()
            };
            let others: Vec<_> = ports.iter().filter(|x| x.2 == t && (x.0, x.1) != (m, q) && (!same_node || x.0 == m)).cloned().collect();
            if others.is_empty() {
                return None;
            }
            let (m2, q2, _) = rng.pick(&others).clone();
            let s1 = h.single_linked_output(m, q)?;
            let s2 = h.single_linked_output(m2, q2)?;
            if s1 == s2 {
                return None;
            }
            h.disconnect(m, q);
            h.disconnect(m2, q2);
            h.connect(s1.0, s1.1, m2, q2);
            h.connect(s2.0, s2.1, m, q);
            Some(if m == m2 { "inputs of one node exchanged" } else { "inputs of two nodes exchanged" })
        }
        8 => {
            // order edge
            let p = h.get_parent(n)?;
            let kids: Vec<Node> = h.children(p).collect();
            let m = *rng.pick(&kids);
            let a = h.get_optype(n).other_output_port()?;
            let b = h.get_optype(m).other_input_port()?;
            if m == n {
                return None;
            }
            if h.linked_inputs(n, a).any(|x| x.0 == m) {
                let links: Vec<Node> = h.linked_inputs(n, a).map(|x| x.0).collect();
                h.disconnect(n, a);
                for x in links {
                    if x != m {
                        let b = h.get_optype(x).other_input_port().unwrap();
                        h.connect(n, a, x, b);
                    }
                }
                Some("order edge removed")
            } else {
                h.connect(n, a, m, b);
                Some("order edge added")
            }
        }
        _ => {
            // retarget a call
            let calls: Vec<Node> = nodes.iter().copied().filter(|m| matches!(h.get_optype(*m), OpType::Call(_) | OpType::LoadFunction(_))).collect();
            if calls.is_empty() {
                return None;
            }
            let n = *rng.pick(&calls);
            let f = h.static_source(n)?;
            let sp = h.get_optype(n).static_input_port()?;
            let sig = |m: Node| match h.get_optype(m) {
                OpType::FuncDefn(f) => Some((f.signature().clone(), f.func_name().clone())),
                OpType::FuncDecl(f) => Some((f.signature().clone(), f.func_name().clone())),
                _ => None,
            };
            let me = sig(f)?;
            let o: Vec<Node> = h.children(h.module_root()).filter(|m| sig(*m).is_some_and(|s| s.0 == me.0 && s.1 != me.1)).collect();
            if o.is_empty() {
                return None;
            }
            let o = *rng.pick(&o);
            h.disconnect(n, sp);
            h.connect(o, OutgoingPort::from(0), n, sp);
            Some("callee changed")
        }
    }
}

/// Constants the region loads are found outside it as well.
fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    if ctx.idx < 3 {
        return probe(ctx);
    }
    let Some(mut h) = some_region(ctx, &mut rng) else { return };
    // constants of generated programs sit next to their loads: move some to an
    // enclosing region or the module
    if rng.chance(0.4) {
        let mut k = 0;
        for n in below(&h) {
            if matches!(h.get_optype(n), OpType::Const(_)) && rng.chance(0.5) {
                let mut p = h.get_parent(n).unwrap();
                for _ in 0..1 + rng.below(5) {
                    match h.get_parent(p) {
                        Some(q) => p = q,
                        None => break,
                    }
                    if rng.chance(0.5) {
                        break;
                    }
                }
                if OpTag::DataflowParent.is_superset(h.get_optype(p).tag()) || matches!(h.get_optype(p), OpType::Module(_)) {
                    h.set_parent(n, p);
                    k += 1;
                }
            }
        }
        if k > 0 && h.validate().is_err() {
            ctx.inconclusive("moving constants gave an invalid program");
            return;
        }
        ctx.count("constants moved outwards", k);
    }
    check(ctx, &h, &mut rng);
}

/// Hand-made pairs of different circuits.
fn probe(ctx: &mut Ctx) {
    use hugr::builder::{endo_sig, inout_sig, Dataflow, DataflowHugr, DFGBuilder};
    use hugr::extension::prelude::qb_t;
    use hugr::std_extensions::collections::{array, borrow_array};
    ctx.eval();
    let build = |variant: bool| -> Hugr {
        match ctx.idx {
            0 => {
                let mut b = DFGBuilder::new(inout_sig(vec![], vec![tket::extension::bool::bool_type()])).unwrap();
                let mut bit = || {
                    let q = b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0);
                    b.add_dataflow_op(TketOp::MeasureFree, [q]).unwrap().out_wire(0)
                };
                let (x, y) = (bit(), bit());
                let o = b.add_dataflow_op(tket::extension::bool::BoolOp::xor, [x, if variant { x } else { y }]).unwrap();
                b.finish_hugr_with_outputs(o.outputs()).unwrap()
            }
            1 => {
                use hugr::builder::BuildHandle;
                let mut b = DFGBuilder::new(endo_sig(vec![qb_t()])).unwrap();
                let [q] = b.input_wires_arr();
                let t = b.add_load_value(Value::true_val());
                let op = tket_qsystem::extension::result::ResultOp::new_bool("a");
                let r: Vec<BuildHandle<_>> = (0..2).map(|_| b.add_dataflow_op(op.clone(), [t]).unwrap()).collect();
                let g = b.add_dataflow_op(TketOp::H, [q]).unwrap();
                if variant {
                    use hugr::builder::Dataflow as _;
                    for x in &r {
                        b.set_order(x, &g);
                    }
                }
                b.finish_hugr_with_outputs(g.outputs()).unwrap()
            }
            _ => {
                let mut b = DFGBuilder::new(endo_sig(vec![qb_t()])).unwrap();
                let [q] = b.input_wires_arr();
                let o = if variant {
                    let a = b.add_dataflow_op(array::ArrayOpDef::new_array.to_concrete(qb_t(), 1), [q]).unwrap().out_wire(0);
                    b.add_dataflow_op(array::ArrayOpDef::unpack.to_concrete(qb_t(), 1), [a]).unwrap()
                } else {
                    let a = b.add_dataflow_op(borrow_array::BArrayOpDef::new_array.to_concrete(qb_t(), 1), [q]).unwrap().out_wire(0);
                    b.add_dataflow_op(borrow_array::BArrayOpDef::unpack.to_concrete(qb_t(), 1), [a]).unwrap()
                };
                b.finish_hugr_with_outputs(o.outputs()).unwrap()
            }
        }
    };
    let what = ["a value shared instead of computed twice", "order edges from two equal operations", "operations of another extension"][ctx.idx];
    let (a, b) = (build(false), build(true));
    let (x, y) = (hash(&a), hash(&b));
    ctx.count("hand-made pairs", 1);
    if x == y {
        ctx.violation(format!("{what}:hash equal"), format!("{what}: both circuits hash to {x:?}"), format!("{}\n--- and\n{}", dump(&a), dump(&b)));
    }
}

fn check(ctx: &mut Ctx, h: &Hugr, rng: &mut Rng) {
    let art = || dump(h);
    ctx.eval();
    let mut terms = Terms::default();
    let Some((h0, t0)) = ctx.guard("circuit_hash", &art, || observe(h, &mut terms)) else { return };
    match &h0 {
        Ok(_) => ctx.count("hashed", 1),
        Err(e) => {
            ctx.count(format!("no hash: {e}"), 1);
        }
    }
    // invariance
    for _ in 0..2 {
        let (mut g, map) = flat::shuffle(h, rng);
        for n in g.nodes().collect::<Vec<_>>() {
            if rng.chance(0.2) {
                g.set_metadata(n, "verif", rng.below(100));
            }
        }
        let e = g.entrypoint();
        if let OpType::FuncDefn(f) = g.get_optype(e) {
            let mut f = f.clone();
            if g.static_targets(e).map(|x| x.count()).unwrap_or(0) == 0 {
                *f.func_name_mut() = format!("other{}", rng.below(9));
                g.replace_op(e, f);
            }
        }
        // extra unused things elsewhere in the module
        if rng.chance(0.3) {
            let root = g.module_root();
            g.add_node_with_parent(root, Const::new(Value::true_val()));
        }
        debug_assert!(map.len() > 1);
        let Some((h1, t1)) = ctx.guard("circuit_hash", &art, || observe(&g, &mut terms)) else { return };
        if t1 != t0 {
            ctx.inconclusive("oracle: term changed by renumbering");
            return;
        }
        ctx.count("isomorphic copies", 1);
        if h1 != h0 {
            ctx.violation(
                "isomorphic copy:hash differs",
                format!("an isomorphic copy hashes to {h1:?} instead of {h0:?}"),
                format!("{}\n--- copy\n{}", dump(h), dump(&g)),
            );
            return;
        }
    }
    let Ok(_) = h0 else { return };
    let mut changed = false;
    for _ in 0..12 {
        let mut g = h.clone();
        let Some(what) = edit(rng, &mut g) else { continue };
        terms.cyclic = false;
        let r = ctx.guard("circuit_hash", &art, || observe(&g, &mut terms));
        let Some((h1, t1)) = r else { return };
        if terms.cyclic {
            ctx.count("edits giving a cycle", 1);
            continue;
        }
        if t1 == t0 {
            ctx.count("edits outside the output's past", 1);
            continue;
        }
        changed = true;
        ctx.count(what, 1);
        if h1 == h0 {
            ctx.violation(
                format!("{what}:hash equal"),
                format!("{what}: the hash stays {h0:?}"),
                format!("{}\n--- edited\n{}", dump(h), dump(&g)),
            );
            return;
        }
    }
    if changed {
        ctx.nontrivial(&format!("{:?}", h0));
        let c = h.children(h.entrypoint()).count();
        ctx.sample(format!("region of {c} nodes, hash {:x}", h0.unwrap()));
    }
}
