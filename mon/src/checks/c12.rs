use super::util::*;
use crate::gen::{circ, dump};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::algorithms::ComposablePass;
use hugr::builder::{Container, Dataflow, DataflowSubContainer, FunctionBuilder, HugrBuilder, ModuleBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t, Barrier};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::{FuncID, NodeHandle};
use hugr::ops::{CallIndirect, Value};
use hugr::std_extensions::collections::array::{array_type, ArrayOpBuilder};
use hugr::std_extensions::collections::borrow_array::{borrow_array_type, BArrayFromArray, BArrayToArray};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{Signature, Term, Type, TypeRow};
use hugr::{type_row, Hugr, HugrView, Wire};
use tket::extension::global_phase::GlobalPhase;
use tket::extension::modifier::{Modifier, CONTROL_OP_ID, DAGGER_OP_ID, MODIFIER_EXTENSION};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints;
use tket::modifier::ModifierResolverPass;
use tket::TketOp;

pub static CHECK: Check = Check {
    id: "C12",
    rule: "case = one program that applies a stack of control/dagger modifiers to a unitary function (first cases: each gate alone under 0..6 controls, split in every way, with and without dagger; then random bodies). The reference interpreter runs the modifiers natively (unitary of the body, adjoint, controlled) and compares with the resolved program on random entangled inputs. Non-trivial = distinct (body, stack) that was resolved and compared equal.",
    assumptions: &[
        "the reference interpreter in mon/src/interp.rs gives the meaning of modifiers; V is the square root of X with determinant i (as the resolver's own decomposition assumes)",
        "moving a wire to another position is a renaming and is not controlled (as documented in array_modify.rs)",
    ],
    cases: |t| if t == Tier::Quick { 2_200 } else { 150_000 },
    min_nontrivial: 1000,
    budget: (80, 800),
    case_timeout: 60,
    f: case,
};

#[derive(Clone, Debug)]
enum M {
    C(usize),
    D,
}
/// A unitary function: qubits in, qubits out, then rotation and bool parameters.
#[derive(Clone)]
struct Fun {
    id: FuncID<true>,
    lin: Vec<Type>,
    par: Vec<Type>,
    depth: usize,
}
#[derive(Clone)]
struct Cx {
    r: Rng,
    funs: Vec<Fun>,
    dagger: bool,
    cond: bool,
    arrays: bool,
    nested: bool,
    calls: bool,
    mods: bool,
    barrier: bool,
    phase: bool,
    loops: bool,
    rotops: bool,
    ctrl_max: usize,
    not: Option<FuncID<true>>,
    log: Vec<String>,
}
/// Wires available inside a body.
struct Sc {
    q: Vec<Wire>,
    rots: Vec<Wire>,
    bools: Vec<Wire>,
}

fn modified(b: &mut impl Dataflow, f: &Fun, mods: &[M]) -> (Wire, Signature) {
    let mut lin = f.lin.clone();
    let mut w = b.load_func(&f.id, &[]).unwrap();
    let terms = |ts: &[Type]| Term::new_list(ts.iter().map(|t| Term::from(t.clone())));
    for m in mods {
        let op = match m {
            M::C(n) => {
                let op = MODIFIER_EXTENSION
                    .instantiate_extension_op(&CONTROL_OP_ID, [Term::BoundedNat(*n as u64), terms(&lin), terms(&f.par)])
                    .unwrap();
                lin.insert(0, array_type(*n as u64, qb_t()));
                op
            }
            M::D => MODIFIER_EXTENSION.instantiate_extension_op(&DAGGER_OP_ID, [terms(&lin), terms(&f.par)]).unwrap(),
        };
        w = b.add_dataflow_op(op, [w]).unwrap().out_wire(0);
    }
    let mut ins = lin.clone();
    ins.extend(f.par.iter().cloned());
    (w, Signature::new(ins, lin))
}

fn rot(b: &mut impl Dataflow, c: &mut Cx, sc: &Sc) -> Wire {
    let k = if sc.rots.is_empty() { 0 } else { c.r.below(4) };
    match k {
        0 | 1 => {
            let a = *c.r.pick(&[0.5, 0.25, 1.0, -0.5, 0.3, 0.77, 1.5, 0.125, -0.9]);
            b.add_load_value(ConstRotation::new(a).unwrap())
        }
        2 => *c.r.pick(&sc.rots),
        _ if c.rotops => {
            let x = *c.r.pick(&sc.rots);
            let y = *c.r.pick(&sc.rots);
            b.add_dataflow_op(RotationOp::radd, [x, y]).unwrap().out_wire(0)
        }
        _ => *c.r.pick(&sc.rots),
    }
}

fn par_args(b: &mut impl Dataflow, c: &mut Cx, sc: &Sc, f: &Fun) -> Vec<Wire> {
    f.par
        .iter()
        .map(|t| {
            if *t == bool_t() {
                if sc.bools.is_empty() || c.r.chance(0.3) {
                    b.add_load_value(if c.r.chance(0.5) { Value::true_val() } else { Value::false_val() })
                } else {
                    *c.r.pick(&sc.bools)
                }
            } else {
                rot(b, c, sc)
            }
        })
        .collect()
}

/// Pick k distinct qubit slots.
fn slots(c: &mut Cx, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    c.r.shuffle(&mut v);
    v.truncate(k);
    v
}

/// Values of the linear types of f made from qubits of the scope, and back.
fn pack(b: &mut impl Dataflow, sc: &Sc, lin: &[Type], sl: &[usize]) -> Vec<Wire> {
    let mut it = sl.iter();
    lin.iter()
        .map(|t| {
            if *t == qb_t() {
                sc.q[*it.next().unwrap()]
            } else {
                let n = interp::count_qubits(t).unwrap();
                let ws: Vec<Wire> = (0..n).map(|_| sc.q[*it.next().unwrap()]).collect();
                b.add_new_array(qb_t(), ws).unwrap()
            }
        })
        .collect()
}
fn unpack(b: &mut impl Dataflow, sc: &mut Sc, lin: &[Type], sl: &[usize], outs: Vec<Wire>) {
    let mut it = sl.iter();
    for (t, w) in lin.iter().zip(outs) {
        if *t == qb_t() {
            sc.q[*it.next().unwrap()] = w;
        } else {
            let n = interp::count_qubits(t).unwrap();
            for x in b.add_array_unpack(qb_t(), n as u64, w).unwrap() {
                sc.q[*it.next().unwrap()] = x;
            }
        }
    }
}

fn block(b: &mut impl Dataflow, c: &mut Cx, sc: &mut Sc, len: usize, depth: usize) {
    for _ in 0..len {
        stmt(b, c, sc, depth);
    }
}

fn gates_only(c: &Cx) -> Cx {
    let mut k = c.clone();
    k.nested = false;
    k.cond = false;
    k.loops = false;
    k
}

fn stmt(b: &mut impl Dataflow, c: &mut Cx, sc: &mut Sc, depth: usize) {
    let n = sc.q.len();
    match c.r.below(22) {
        0 if c.phase => {
            let w = rot(b, c, sc);
            b.add_dataflow_op(GlobalPhase, [w]).unwrap();
            c.log.push("phase".into());
        }
        1 if n > 1 => {
            let s = slots(c, n, 2);
            sc.q.swap(s[0], s[1]);
            c.log.push("swap".into());
        }
        2 if c.arrays => {
            // through an array, possibly a borrow array
            let k = 1 + c.r.below(n);
            let s = slots(c, n, k);
            let ws: Vec<Wire> = s.iter().map(|i| sc.q[*i]).collect();
            let mut a = b.add_new_array(qb_t(), ws).unwrap();
            if c.r.chance(0.4) {
                a = b.add_dataflow_op(BArrayFromArray::new(qb_t(), k as u64), [a]).unwrap().out_wire(0);
                a = b.add_dataflow_op(BArrayToArray::new(qb_t(), k as u64), [a]).unwrap().out_wire(0);
            }
            for (i, w) in s.iter().zip(b.add_array_unpack(qb_t(), k as u64, a).unwrap()) {
                sc.q[*i] = w;
            }
            c.log.push(format!("array{k}"));
        }
        3 | 4 if c.nested && depth > 0 => {
            // a nested region over some qubits and classical values in any order
            let k = 1 + c.r.below(n);
            let s = slots(c, n, k);
            let mut ins: Vec<(Type, Wire, i32)> = s.iter().map(|i| (qb_t(), sc.q[*i], *i as i32)).collect();
            if !sc.rots.is_empty() && c.r.chance(0.6) {
                ins.push((rotation_type(), *c.r.pick(&sc.rots), -1));
            }
            if !sc.bools.is_empty() && c.r.chance(0.4) {
                ins.push((bool_t(), *c.r.pick(&sc.bools), -2));
            }
            if c.r.chance(0.5) {
                c.r.shuffle(&mut ins);
            }
            let tin: Vec<Type> = ins.iter().map(|x| x.0.clone()).collect();
            let mut tout = vec![qb_t(); k];
            // one of the outputs may be classical
            let has_bool = ins.iter().any(|x| x.2 == -2);
            let bool_at = (has_bool && c.r.chance(if c.dagger { 0.1 } else { 0.5 })).then(|| c.r.below(k + 1));
            if bool_at.is_some() {
                c.log.push("boolout".into());
            }
            if let Some(i) = bool_at {
                tout.insert(i, bool_t());
            }
            let as_cfg = c.r.chance(0.2);
            let wires: Vec<Wire> = ins.iter().map(|x| x.1).collect();
            let order: Vec<usize> = ins.iter().filter(|x| x.2 >= 0).map(|x| x.2 as usize).collect();
            c.log.push(if as_cfg { "cfg{".into() } else { "dfg{".into() });
            let len = c.r.below(4);
            let inner = |d: &[Wire], ins: &[(Type, Wire, i32)]| {
                let mut s2 = Sc { q: vec![], rots: vec![], bools: vec![] };
                for (w, i) in d.iter().zip(ins) {
                    match i.2 {
                        -1 => s2.rots.push(*w),
                        -2 => s2.bools.push(*w),
                        _ => s2.q.push(*w),
                    }
                }
                s2
            };
            let mut outs: Vec<Wire> = if as_cfg {
                let mut cfg = b.cfg_builder(tin.iter().cloned().zip(wires), tout.clone().into()).unwrap();
                let mut bb = cfg.entry_builder([type_row![]], tout.into()).unwrap();
                let iw: Vec<Wire> = bb.input_wires().collect();
                let mut s2 = inner(&iw, &ins);
                block(&mut bb, c, &mut s2, len, depth - 1);
                let u = bb.add_load_value(Value::unary_unit_sum());
                if let Some(i) = bool_at {
                    s2.q.insert(i, *s2.bools.last().unwrap());
                }
                let id = bb.finish_with_outputs(u, s2.q).unwrap();
                let ex = cfg.exit_block();
                cfg.branch(&id, 0, &ex).unwrap();
                cfg.finish_sub_container().unwrap().outputs().collect()
            } else {
                let mut d = b.dfg_builder(Signature::new(tin, tout), wires).unwrap();
                let iw: Vec<Wire> = d.input_wires().collect();
                let mut s2 = inner(&iw, &ins);
                block(&mut d, c, &mut s2, len, depth - 1);
                if let Some(i) = bool_at {
                    s2.q.insert(i, *s2.bools.last().unwrap());
                }
                d.finish_with_outputs(s2.q).unwrap().outputs().collect()
            };
            c.log.push("}".into());
            if let Some(i) = bool_at {
                sc.bools.push(outs.remove(i));
            }
            for (i, w) in order.iter().zip(outs) {
                sc.q[*i] = w;
            }
        }
        5 if c.cond && depth > 0 && !sc.bools.is_empty() => {
            let k = 1 + c.r.below(n);
            let s = slots(c, n, k);
            let cnd = *c.r.pick(&sc.bools);
            let mut ins: Vec<(Type, Wire)> = s.iter().map(|i| (qb_t(), sc.q[*i])).collect();
            let with_rot = !sc.rots.is_empty() && c.r.chance(0.6);
            let at = if c.r.chance(0.5) { k } else { c.r.below(k + 1) };
            if with_rot {
                ins.insert(at, (rotation_type(), *c.r.pick(&sc.rots)));
            }
            c.log.push("cond{".into());
            let rows: Vec<TypeRow> = vec![type_row![], type_row![]];
            let mut cb = b.conditional_builder((rows, cnd), ins, vec![qb_t(); k].into()).unwrap();
            for i in 0..2 {
                let mut case = cb.case_builder(i).unwrap();
                let mut q: Vec<Wire> = case.input_wires().collect();
                let rots = if with_rot { vec![q.remove(at)] } else { vec![] };
                let mut s2 = Sc { q, rots, bools: vec![] };
                let len = c.r.below(3);
                block(&mut case, c, &mut s2, len, depth - 1);
                case.finish_with_outputs(s2.q).unwrap();
                c.log.push(if i == 0 { "}else{" } else { "}" }.into());
            }
            let outs: Vec<Wire> = cb.finish_sub_container().unwrap().outputs().collect();
            for (i, w) in s.iter().zip(outs) {
                sc.q[*i] = w;
            }
        }
        6 if c.loops && depth > 0 && !sc.bools.is_empty() => {
            // at most two rounds
            let k = 1 + c.r.below(n);
            let s = slots(c, n, k);
            let just = c.r.chance(0.5);
            let flag = *c.r.pick(&sc.bools);
            let mut rest: Vec<(Type, Wire)> = s.iter().map(|i| (qb_t(), sc.q[*i])).collect();
            let mut jin = vec![];
            if just {
                jin.push((bool_t(), flag));
            } else {
                rest.push((bool_t(), flag));
            }
            c.log.push("loop{".into());
            let mut l = b.tail_loop_builder(jin, rest, type_row![]).unwrap();
            let mut w: Vec<Wire> = l.input_wires().collect();
            let flag = if just { w.remove(0) } else { w.pop().unwrap() };
            let mut s2 = Sc { q: w, rots: vec![], bools: vec![flag] };
            let len = 1 + c.r.below(3);
            block(&mut l, c, &mut s2, len, depth - 1);
            if just {
                // break if the flag is set, else go on with the flag set
                let sig = l.loop_signature().unwrap().clone();
                let row: Vec<TypeRow> = vec![sig.just_inputs.clone(), sig.just_outputs.clone()];
                let mut cb = l.conditional_builder(([type_row![], type_row![]], flag), [], vec![hugr::types::Type::new_sum(row.clone())].into()).unwrap();
                let mut c0 = cb.case_builder(0).unwrap();
                let t = c0.add_load_value(Value::true_val());
                let x = c0.add_dataflow_op(hugr::ops::Tag::new(0, row.clone()), [t]).unwrap().out_wire(0);
                c0.finish_with_outputs([x]).unwrap();
                let mut c1 = cb.case_builder(1).unwrap();
                let x = c1.add_dataflow_op(hugr::ops::Tag::new(1, row), []).unwrap().out_wire(0);
                c1.finish_with_outputs([x]).unwrap();
                let p = cb.finish_sub_container().unwrap().out_wire(0);
                let outs: Vec<Wire> = l.finish_with_outputs(p, s2.q).unwrap().outputs().collect();
                for (i, w) in s.iter().zip(outs) {
                    sc.q[*i] = w;
                }
            } else {
                let t = l.add_load_value(Value::true_val());
                let mut o = s2.q;
                o.push(t);
                let outs: Vec<Wire> = l.finish_with_outputs(flag, o).unwrap().outputs().collect();
                for (i, w) in s.iter().zip(outs) {
                    sc.q[*i] = w;
                }
            }
            c.log.push("}".into());
        }
        7 | 8 if c.calls && !c.funs.is_empty() => {
            let f = c.r.pick(&c.funs).clone();
            let mods: Vec<M> = if c.mods && c.r.chance(0.6) { stack(c, 2) } else { vec![] };
            let k: usize = f.lin.iter().map(|t| interp::count_qubits(t).unwrap()).sum();
            let extra: usize = mods.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
            if k + extra > n || f.depth + mods.len() > 4 {
                return;
            }
            let s = slots(c, n, k + extra);
            if mods.is_empty() && c.r.chance(0.6) {
                let mut args = pack_any(b, sc, &f.lin, &s);
                args.extend(par_args(b, c, sc, &f));
                let outs = b.call(&f.id, &[], args).unwrap().outputs().collect();
                unpack_any(b, sc, &f.lin, &s, outs);
                c.log.push(format!("call f{}", f.id.node()));
            } else {
                let (w, sig) = modified(b, &f, &mods);
                let lin: Vec<Type> = sig.output.iter().cloned().collect();
                let mut args = vec![w];
                args.extend(pack_any(b, sc, &lin, &s));
                args.extend(par_args(b, c, sc, &f));
                let outs = b.add_dataflow_op(CallIndirect { signature: sig }, args).unwrap().outputs().collect();
                unpack_any(b, sc, &lin, &s, outs);
                c.log.push(format!("indirect f{} {mods:?}", f.id.node()));
            }
        }
        9 if c.barrier => {
            let k = 1 + c.r.below(n);
            let s = slots(c, n, k);
            let ws: Vec<Wire> = s.iter().map(|i| sc.q[*i]).collect();
            let o = b.add_dataflow_op(Barrier::new(vec![qb_t(); k]), ws).unwrap();
            for (i, w) in s.iter().zip(o.outputs()) {
                sc.q[*i] = w;
            }
            c.log.push("barrier".into());
        }
        11 if c.calls && !sc.bools.is_empty() => {
            // a classical function, which no modifier changes
            let Some(f) = c.not else { return };
            let x = *c.r.pick(&sc.bools);
            let w = if c.r.chance(if c.dagger { 0.9 } else { 0.5 }) {
                b.call(&f, &[], [x]).unwrap().out_wire(0)
            } else {
                c.log.push("indirect".into());
                let l = b.load_func(&f, &[]).unwrap();
                let signature = Signature::new_endo(vec![bool_t()]);
                b.add_dataflow_op(CallIndirect { signature }, [l, x]).unwrap().out_wire(0)
            };
            sc.bools.push(w);
            c.log.push("not".into());
        }
        10 if c.rotops && !sc.bools.is_empty() => {
            let x = *c.r.pick(&sc.bools);
            let y = *c.r.pick(&sc.bools);
            let w = b.add_dataflow_op(LogicOp::And, [x, y]).unwrap().out_wire(0);
            sc.bools.push(w);
        }
        _ => {
            let g = *c.r.pick(circ::ALLG);
            let k = circ::arity(g);
            if k > n {
                return;
            }
            let s = slots(c, n, k);
            let mut args: Vec<Wire> = s.iter().map(|i| sc.q[*i]).collect();
            if circ::has_angle(g) {
                args.push(rot(b, c, sc));
            }
            let outs: Vec<Wire> = b.add_dataflow_op(g, args).unwrap().outputs().collect();
            for (i, w) in s.iter().zip(outs) {
                sc.q[*i] = w;
            }
            c.log.push(format!("{g:?}{s:?}"));
        }
    }
}

fn stack(c: &mut Cx, max: usize) -> Vec<M> {
    let mut left = c.ctrl_max;
    let mut v = vec![];
    for _ in 0..1 + c.r.below(max) {
        if c.dagger && c.r.chance(0.5) {
            v.push(M::D);
        } else if left > 0 {
            let k = if c.r.chance(0.05) { 0 } else { 1 + c.r.below(left.min(3)) };
            left -= k;
            v.push(M::C(k));
        }
    }
    v
}

fn define(m: &mut ModuleBuilder<Hugr>, name: &str, c: &mut Cx, nq: usize, len: usize) -> Fun {
    let mut lin = vec![qb_t(); nq];
    if c.arrays && c.r.chance(0.3) {
        // some of the qubits arrive in an array
        let k = 1 + c.r.below(nq);
        lin.truncate(nq - k);
        let at = c.r.below(lin.len() + 1);
        lin.insert(at, if c.r.chance(0.4) { borrow_array_type(k as u64, qb_t()) } else { array_type(k as u64, qb_t()) });
    }
    let mut par = vec![];
    for _ in 0..c.r.below(3) {
        par.push(if c.r.chance(0.4) { bool_t() } else { rotation_type() });
    }
    let mut ins = lin.clone();
    ins.extend(par.iter().cloned());
    let mut b: FunctionBuilder<&mut Hugr> = m.define_function(name, Signature::new(ins, lin.clone())).unwrap();
    b.set_metadata("unitary", 7);
    let w: Vec<Wire> = b.input_wires().collect();
    let mut sc = Sc { q: vec![], rots: vec![], bools: vec![] };
    for (t, w) in lin.iter().zip(&w) {
        if *t == qb_t() {
            sc.q.push(*w);
        } else {
            let n = interp::count_qubits(t).unwrap() as u64;
            let mut w = *w;
            if *t != array_type(n, qb_t()) {
                w = b.add_dataflow_op(BArrayToArray::new(qb_t(), n), [w]).unwrap().out_wire(0);
            }
            sc.q.extend(b.add_array_unpack(qb_t(), n, w).unwrap());
        }
    }
    for (t, w) in par.iter().zip(&w[lin.len()..]) {
        if *t == bool_t() {
            sc.bools.push(*w)
        } else {
            sc.rots.push(*w)
        }
    }
    c.log.push(format!("{name}({} {}):", TypeRow::from(lin.clone()), TypeRow::from(par.clone())));
    block(&mut b, c, &mut sc, len, 2);
    let mut outs = vec![];
    let mut it = sc.q.into_iter();
    for t in &lin {
        if *t == qb_t() {
            outs.push(it.next().unwrap());
        } else {
            let n = interp::count_qubits(t).unwrap();
            let ws: Vec<Wire> = (0..n).map(|_| it.next().unwrap()).collect();
            let mut a = b.add_new_array(qb_t(), ws).unwrap();
            if *t != array_type(n as u64, qb_t()) {
                a = b.add_dataflow_op(BArrayFromArray::new(qb_t(), n as u64), [a]).unwrap().out_wire(0);
            }
            outs.push(a);
        }
    }
    let id = *b.finish_with_outputs(outs).unwrap().handle();
    let depth = 1 + c.funs.iter().map(|f| f.depth).max().unwrap_or(0);
    Fun { id, lin, par, depth }
}

/// main applies the modified functions one after the other to its inputs.
fn main_of(m: &mut ModuleBuilder<Hugr>, uses: &[(Fun, Vec<M>)], nested: bool) -> FuncID<true> {
    // one set of inputs, wide enough for every use
    let mut nq = 0;
    for (f, mods) in uses {
        let k: usize = f.lin.iter().map(|t| interp::count_qubits(t).unwrap()).sum();
        let e: usize = mods.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
        nq = nq.max(k + e);
    }
    let par: Vec<Type> = uses.iter().flat_map(|u| u.0.par.clone()).collect();
    let mut ins = vec![qb_t(); nq];
    ins.extend(par.iter().cloned());
    let mut b = m.define_function("main", Signature::new(ins.clone(), vec![qb_t(); nq])).unwrap();
    let w: Vec<Wire> = b.input_wires().collect();
    fn fill(b: &mut impl Dataflow, w: Vec<Wire>, nq: usize, uses: &[(Fun, Vec<M>)]) -> Vec<Wire> {
        let mut sc = Sc { q: w[..nq].to_vec(), rots: vec![], bools: vec![] };
        let mut p = nq;
        for (j, (f, mods)) in uses.iter().enumerate() {
            let (fw, sig) = modified(b, f, mods);
            let lin: Vec<Type> = sig.output.iter().cloned().collect();
            let k: usize = lin.iter().map(|t| interp::count_qubits(t).unwrap()).sum();
            let s: Vec<usize> = (0..k).map(|i| (i + j) % nq).collect();
            let mut args = vec![fw];
            for (i, t) in pack_any(b, &sc, &lin, &s).into_iter().zip(&lin) {
                let _ = t;
                args.push(i);
            }
            for _ in &f.par {
                args.push(w[p]);
                p += 1;
            }
            let outs: Vec<Wire> = b.add_dataflow_op(CallIndirect { signature: sig }, args).unwrap().outputs().collect();
            unpack_any(b, &mut sc, &lin, &s, outs);
        }
        sc.q
    }
    let outs = if nested {
        let mut d = b.dfg_builder(Signature::new(ins, vec![qb_t(); nq]), w).unwrap();
        let w: Vec<Wire> = d.input_wires().collect();
        let o = fill(&mut d, w, nq, uses);
        d.finish_with_outputs(o).unwrap().outputs().collect()
    } else {
        fill(&mut b, w, nq, uses)
    };
    *b.finish_with_outputs(outs).unwrap().handle()
}
fn pack_any(b: &mut impl Dataflow, sc: &Sc, lin: &[Type], sl: &[usize]) -> Vec<Wire> {
    let v = pack(b, sc, lin, sl);
    v.into_iter()
        .zip(lin)
        .map(|(w, t)| {
            let n = interp::count_qubits(t).unwrap() as u64;
            if *t == borrow_array_type(n, qb_t()) {
                b.add_dataflow_op(BArrayFromArray::new(qb_t(), n), [w]).unwrap().out_wire(0)
            } else {
                w
            }
        })
        .collect()
}
fn unpack_any(b: &mut impl Dataflow, sc: &mut Sc, lin: &[Type], sl: &[usize], outs: Vec<Wire>) {
    let outs = outs
        .into_iter()
        .zip(lin)
        .map(|(w, t)| {
            let n = interp::count_qubits(t).unwrap() as u64;
            if *t == borrow_array_type(n, qb_t()) {
                b.add_dataflow_op(BArrayToArray::new(qb_t(), n), [w]).unwrap().out_wire(0)
            } else {
                w
            }
        })
        .collect();
    unpack(b, sc, lin, sl, outs);
}

/// Gate tests: every gate (and the global phase), with controls in one or two groups.
fn single(i: usize) -> Option<(Option<TketOp>, Vec<M>)> {
    let mut stacks = vec![];
    for c in 0..=6usize {
        for d in [false, true] {
            for split in 0..=c.min(2) {
                let mut v = vec![];
                if split > 0 {
                    v.push(M::C(split));
                }
                if d {
                    v.push(M::D);
                }
                if c - split > 0 || v.is_empty() {
                    v.push(M::C(c - split));
                }
                stacks.push(v);
            }
        }
    }
    let ng = circ::ALLG.len() + 1;
    let g = i % ng;
    let s = i / ng;
    (s < stacks.len()).then(|| (circ::ALLG.get(g).copied(), stacks[s].clone()))
}

fn build(c: &mut Cx, idx: usize) -> (Hugr, String) {
    let mut m = ModuleBuilder::new();
    let uses: Vec<(Fun, Vec<M>)> = if let Some((g, st)) = single(idx) {
        let nq = g.map(circ::arity).unwrap_or(1);
        let par = if g.is_none_or(circ::has_angle) { vec![rotation_type()] } else { vec![] };
        let mut ins = vec![qb_t(); nq];
        ins.extend(par.iter().cloned());
        let mut b = m.define_function("f", Signature::new(ins, vec![qb_t(); nq])).unwrap();
        b.set_metadata("unitary", 7);
        let w: Vec<Wire> = b.input_wires().collect();
        let outs: Vec<Wire> = match g {
            Some(g) => b.add_dataflow_op(g, w).unwrap().outputs().collect(),
            None => {
                b.add_dataflow_op(GlobalPhase, [w[1]]).unwrap();
                vec![w[0]]
            }
        };
        let id = *b.finish_with_outputs(outs).unwrap().handle();
        c.log.push(format!("{g:?}"));
        vec![(Fun { id, lin: vec![qb_t(); nq], par, depth: 1 }, st)]
    } else {
        if c.calls {
            let mut b = m.define_function("not", Signature::new_endo(vec![bool_t()])).unwrap();
            let x = b.input_wires().next().unwrap();
            let o = b.add_dataflow_op(LogicOp::Not, [x]).unwrap();
            c.not = Some(*b.finish_with_outputs(o.outputs()).unwrap().handle());
        }
        let nf = 1 + c.r.below(3);
        for i in 0..nf {
            let nq = 1 + c.r.below(if i + 1 == nf { 4 } else { 2 });
            let len = 1 + c.r.below(6);
            let f = define(&mut m, &format!("f{i}"), c, nq, len);
            c.funs.push(f);
        }
        let k = 1 + c.r.below(2);
        (0..k)
            .map(|i| {
                let f = if i == 0 { c.funs.last().unwrap().clone() } else { c.r.pick(&c.funs).clone() };
                let s = stack(c, 3);
                (f, s)
            })
            .collect()
    };
    let nested = c.r.chance(0.3);
    for (f, s) in &uses {
        c.log.push(format!("use {} {s:?}", f.id.node()));
    }
    let main = main_of(&mut m, &uses, nested);
    let mut h = m.finish_hugr().unwrap_or_else(|e| panic!("generator: {e}"));
    h.set_entrypoint(main.node());
    (h, c.log.join(" "))
}

/// Functions that can be called from the entrypoint.
fn reachable(h: &Hugr) -> Vec<hugr::Node> {
    let mut v = vec![h.entrypoint()];
    let mut i = 0;
    while i < v.len() {
        for n in h.descendants(v[i]).collect::<Vec<_>>() {
            let o = h.get_optype(n);
            if let Some(p) = o.static_input_port() {
                if let Some((f, _)) = h.single_linked_output(n, p) {
                    if h.get_optype(f).is_func_defn() && !v.contains(&f) {
                        v.push(f);
                    }
                }
            }
        }
        i += 1;
    }
    v
}

/// A random program with modifiers and global phases. Small `idx` give single gates.
pub fn source(r: &mut Rng, idx: usize) -> (Hugr, String) {
    let dagger = r.chance(0.7);
    let mut c = Cx {
        dagger,
        cond: r.chance(0.4),
        arrays: r.chance(0.5),
        nested: r.chance(0.5),
        calls: r.chance(0.6),
        mods: r.chance(0.6),
        barrier: r.chance(0.3),
        phase: r.chance(0.6),
        loops: r.chance(if dagger { 0.05 } else { 0.5 }),
        rotops: r.chance(0.4),
        ctrl_max: 1 + r.below(4),
        not: None,
        funs: vec![],
        log: vec![],
        r: r.fork(),
    };
    let _ = gates_only;
    build(&mut c, idx)
}

fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let (h, log) = source(&mut r, ctx.idx);
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let art = || format!("{log}\n{}", dump(&h));
    let mut k = h.clone();
    let as_pass = r.chance(0.3);
    ctx.eval();
    let res = ctx.guard("resolve", &art, || {
        if as_pass {
            ModifierResolverPass.run(&mut k)
        } else {
            let e = k.entrypoint();
            resolve_modifier_with_entrypoints(&mut k, [e])
        }
    });
    let Some(res) = res else { return };
    ctx.sample(log.clone());
    if let Err(e) = res {
        let e = e.to_string();
        if log.contains("loop{") && log.contains('D') && e.contains("TailLoop") {
            ctx.count("rejected: adjoint of a loop", 1);
            return;
        }
        // Reversing the regions puts the classical value's use before its source.
        // (An indirect call of a classical function is threaded on the control qubits.)
        if (log.contains("boolout") || log.contains("indirect not")) && log.contains('D') && e.contains("must form a DAG") {
            ctx.count("rejected: classical value from a reversed region", 1);
            return;
        }
        ctx.count(format!("rejected: {}", norm(&e)), 1);
        ctx.violation(format!("rejected: {}", norm(&e)), e, art());
        return;
    }
    let left = reachable(&k).into_iter().flat_map(|f| k.descendants(f)).filter(|n| k.get_optype(*n).cast::<Modifier>().is_some()).count();
    if left > 0 {
        ctx.violation("left", format!("{left} modifiers are left"), art());
        return;
    }
    let cfg = interp::Cfg { v_is_sx: true, fuel: 2_000_000, ..Default::default() };
    if check_same(ctx, "resolve", &h, &k, &cfg, 2, false, &log) {
        ctx.nontrivial(&log);
    }
}
