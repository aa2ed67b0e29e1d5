//! Random quantum circuits as a small AST, and their HUGRs.
use crate::rng::Rng;
use hugr::builder::{Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t, Barrier};
use hugr::ops::Value;
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{Signature, Type};
use hugr::{Hugr, Wire};
use std::collections::BTreeMap;
use tket::extension::bool::BoolOp;
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::TketOp;

#[derive(Clone, Debug, PartialEq)]
pub enum Ang {
    C(f64),
    In(usize),
    Sum(Box<Ang>, Box<Ang>),
    Float(f64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    G(TketOp, Vec<usize>, Option<Ang>),
    Meas(usize, usize),
    MeasFree(usize, usize),
    Alloc(usize),
    TryAlloc(usize),
    Free(usize),
    Reset(usize),
    Barrier(Vec<usize>),
    Not(usize, usize),
    Xor(usize, usize, usize),
    /// if b {ops} else {ops}; gates on existing qubits only
    Cond(usize, Vec<Op>, Vec<Op>),
    /// rotation angle chosen by a bool: if b { C(x) } else { C(y) }
    AngIf(usize, f64, f64, TketOp, Vec<usize>),
    /// nested DFG
    Box(Vec<Op>),
    /// inline swap of wires
    Swap(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Circ {
    pub nq: usize,
    pub nrot: usize,
    pub ops: Vec<Op>,
    /// output order of live qubits
    pub out: Vec<usize>,
    pub bools: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nq: (usize, usize),
    pub len: (usize, usize),
    pub gates: Vec<TketOp>,
    /// angles in multiples of 1/angle_den, or arbitrary if 0
    pub angle_den: usize,
    pub rot_inputs: usize,
    pub meas: f64,
    pub alloc: f64,
    pub reset: f64,
    pub barrier: f64,
    pub cond: f64,
    pub nested: f64,
    pub permute: bool,
    pub fancy_angles: bool,
    pub max_qubits: usize,
}

pub const CLIFFT: &[TketOp] = &[
    TketOp::H, TketOp::CX, TketOp::CZ, TketOp::T, TketOp::Tdg, TketOp::S, TketOp::Sdg, TketOp::X, TketOp::Y, TketOp::Z,
];
pub const ALLG: &[TketOp] = &[
    TketOp::H, TketOp::CX, TketOp::CX, TketOp::CY, TketOp::CZ, TketOp::CRz, TketOp::T, TketOp::Tdg, TketOp::S, TketOp::Sdg,
    TketOp::X, TketOp::Y, TketOp::Z, TketOp::Rx, TketOp::Ry, TketOp::Rz, TketOp::Toffoli, TketOp::V, TketOp::Vdg,
];
impl Cfg {
    pub fn pure(nq: (usize, usize), len: (usize, usize), gates: &[TketOp]) -> Self {
        Cfg {
            nq,
            len,
            gates: gates.to_vec(),
            angle_den: 4,
            rot_inputs: 0,
            meas: 0.,
            alloc: 0.,
            reset: 0.,
            barrier: 0.,
            cond: 0.,
            nested: 0.,
            permute: true,
            fancy_angles: false,
            max_qubits: 8,
        }
    }
    pub fn dynamic(nq: (usize, usize), len: (usize, usize), gates: &[TketOp]) -> Self {
        Cfg {
            meas: 0.08,
            alloc: 0.06,
            reset: 0.04,
            barrier: 0.03,
            cond: 0.06,
            nested: 0.05,
            fancy_angles: true,
            rot_inputs: 2,
            angle_den: 0,
            ..Cfg::pure(nq, len, gates)
        }
    }
}

pub fn arity(g: TketOp) -> usize {
    match g {
        TketOp::CX | TketOp::CY | TketOp::CZ | TketOp::CRz => 2,
        TketOp::Toffoli => 3,
        _ => 1,
    }
}
pub fn has_angle(g: TketOp) -> bool {
    matches!(g, TketOp::Rx | TketOp::Ry | TketOp::Rz | TketOp::CRz)
}

fn rand_const(r: &mut Rng, den: usize) -> f64 {
    if den == 0 {
        (r.f() - 0.5) * 4.
    } else {
        (r.below(4 * den + 1) as f64 - 2. * den as f64) / den as f64
    }
}
fn rand_ang(r: &mut Rng, c: &Cfg) -> Ang {
    let k = rand_const(r, c.angle_den);
    if c.rot_inputs > 0 && r.chance(0.3) {
        let i = Ang::In(r.below(c.rot_inputs));
        if c.fancy_angles && r.chance(0.3) {
            return Ang::Sum(Box::new(i), Box::new(Ang::C(k)));
        }
        return i;
    }
    if c.fancy_angles && r.chance(0.2) {
        return if r.chance(0.5) {
            Ang::Float(k)
        } else {
            Ang::Sum(Box::new(Ang::C(k)), Box::new(Ang::C(rand_const(r, c.angle_den))))
        };
    }
    Ang::C(k)
}

pub fn rand_gate(r: &mut Rng, c: &Cfg, live: &[usize]) -> Option<Op> {
    for _ in 0..8 {
        let g = *r.pick(&c.gates);
        if arity(g) > live.len() {
            continue;
        }
        let qs: Vec<usize> = r.distinct(live.len(), arity(g)).into_iter().map(|i| live[i]).collect();
        let a = has_angle(g).then(|| rand_ang(r, c));
        return Some(Op::G(g, qs, a));
    }
    None
}

pub fn generate(r: &mut Rng, c: &Cfg) -> Circ {
    let nq = r.range(c.nq.0, c.nq.1);
    let len = r.range(c.len.0, c.len.1);
    let mut live: Vec<usize> = (0..nq).collect();
    let mut slots = nq;
    let mut nb = 0;
    let mut ops = vec![];
    let mut tries = 0;
    while ops.len() < len && tries < 50 * (len + 1) {
        tries += 1;
        let x = r.f();
        let mut acc = 0.;
        let mut hit = |p: f64| {
            acc += p;
            x < acc
        };
        if hit(c.meas) {
            if live.is_empty() {
                continue;
            }
            let i = r.below(live.len());
            let q = live[i];
            if r.chance(0.4) {
                ops.push(Op::MeasFree(q, nb));
                live.remove(i);
            } else {
                ops.push(Op::Meas(q, nb));
            }
            nb += 1;
        } else if hit(c.alloc) {
            if r.chance(0.5) && !live.is_empty() {
                let i = r.below(live.len());
                ops.push(Op::Free(live.remove(i)));
            } else if live.len() < c.max_qubits {
                ops.push(if r.chance(0.8) { Op::Alloc(slots) } else { Op::TryAlloc(slots) });
                live.push(slots);
                slots += 1;
            }
        } else if hit(c.reset) {
            if let Some(q) = (!live.is_empty()).then(|| *r.pick(&live)) {
                ops.push(Op::Reset(q));
            }
        } else if hit(c.barrier) {
            if !live.is_empty() {
                let k = r.range(1, live.len());
                let qs = r.distinct(live.len(), k).into_iter().map(|i| live[i]).collect();
                ops.push(Op::Barrier(qs));
            }
        } else if hit(c.cond) {
            if nb > 0 && !live.is_empty() {
                let b = r.below(nb);
                match r.below(4) {
                    0 => {
                        ops.push(Op::Not(b, nb));
                        nb += 1;
                    }
                    1 => {
                        ops.push(Op::Xor(b, r.below(nb), nb));
                        nb += 1;
                    }
                    2 => {
                        let mut mk = |r: &mut Rng| {
                            (0..r.below(4)).filter_map(|_| rand_gate(r, c, &live)).collect::<Vec<_>>()
                        };
                        let (x, y) = (mk(r), mk(r));
                        ops.push(Op::Cond(b, x, y));
                    }
                    _ => {
                        let rots: Vec<TketOp> = c.gates.iter().cloned().filter(|g| has_angle(*g) && arity(*g) <= live.len()).collect();
                        if !rots.is_empty() {
                            let g = *r.pick(&rots);
                            let qs = r.distinct(live.len(), arity(g)).into_iter().map(|i| live[i]).collect();
                            ops.push(Op::AngIf(b, rand_const(r, c.angle_den), rand_const(r, c.angle_den), g, qs));
                        }
                    }
                }
            }
        } else if hit(c.nested) {
            let inner: Vec<Op> = (0..r.range(1, 4)).filter_map(|_| rand_gate(r, c, &live)).collect();
            if !inner.is_empty() {
                ops.push(Op::Box(inner));
            }
        } else if c.permute && r.chance(0.02) && live.len() >= 2 {
            let d = r.distinct(live.len(), 2);
            ops.push(Op::Swap(live[d[0]], live[d[1]]));
        } else if let Some(g) = rand_gate(r, c, &live) {
            ops.push(g);
        } else if live.is_empty() {
            if c.alloc == 0. {
                break;
            }
            ops.push(Op::Alloc(slots));
            live.push(slots);
            slots += 1;
        }
    }
    if c.permute && r.chance(0.3) {
        r.shuffle(&mut live);
    }
    Circ { nq, nrot: c.rot_inputs, ops, out: live, bools: (0..nb).collect() }
}

pub struct B {
    pub q: BTreeMap<usize, Wire>,
    pub b: BTreeMap<usize, Wire>,
    pub rot: Vec<Wire>,
}

fn angle(d: &mut impl Dataflow, st: &B, a: &Ang) -> Wire {
    match a {
        Ang::C(f) => d.add_load_value(ConstRotation::new(*f).unwrap()),
        Ang::In(i) => st.rot[*i],
        Ang::Sum(x, y) => {
            let (x, y) = (angle(d, st, x), angle(d, st, y));
            d.add_dataflow_op(RotationOp::radd, [x, y]).unwrap().out_wire(0)
        }
        Ang::Float(f) => {
            let w = d.add_load_value(ConstF64::new(*f));
            d.add_dataflow_op(RotationOp::from_halfturns_unchecked, [w]).unwrap().out_wire(0)
        }
    }
}

fn used(ops: &[Op], qs: &mut std::collections::BTreeSet<usize>, rots: &mut bool) {
    fn ang(a: &Ang) -> bool {
        match a {
            Ang::In(_) => true,
            Ang::Sum(x, y) => ang(x) || ang(y),
            _ => false,
        }
    }
    for o in ops {
        match o {
            Op::G(_, q, a) => {
                qs.extend(q);
                if a.as_ref().is_some_and(ang) {
                    *rots = true;
                }
            }
            Op::Barrier(q) => qs.extend(q),
            Op::Swap(a, b) => {
                qs.insert(*a);
                qs.insert(*b);
            }
            _ => panic!("unexpected inner op"),
        }
    }
}

pub fn emit(d: &mut impl Dataflow, st: &mut B, ops: &[Op]) {
    for o in ops {
        match o {
            Op::G(g, qs, a) => {
                let mut ins: Vec<Wire> = qs.iter().map(|q| st.q[q]).collect();
                if let Some(a) = a {
                    ins.push(angle(d, st, a));
                }
                let h = d.add_dataflow_op(*g, ins).unwrap();
                for (i, q) in qs.iter().enumerate() {
                    st.q.insert(*q, h.out_wire(i));
                }
            }
            Op::Meas(q, b) => {
                let h = d.add_dataflow_op(TketOp::Measure, [st.q[q]]).unwrap();
                st.q.insert(*q, h.out_wire(0));
                st.b.insert(*b, h.out_wire(1));
            }
            Op::MeasFree(q, b) => {
                let h = d.add_dataflow_op(TketOp::MeasureFree, [st.q.remove(q).unwrap()]).unwrap();
                let h = d.add_dataflow_op(BoolOp::read, [h.out_wire(0)]).unwrap();
                st.b.insert(*b, h.out_wire(0));
            }
            Op::Alloc(q) => {
                let h = d.add_dataflow_op(TketOp::QAlloc, []).unwrap();
                st.q.insert(*q, h.out_wire(0));
            }
            Op::TryAlloc(q) => {
                use hugr::extension::prelude::{option_type, UnwrapBuilder};
                let h = d.add_dataflow_op(TketOp::TryQAlloc, []).unwrap();
                let [w] = d.build_unwrap_sum(1, option_type(qb_t()), h.out_wire(0)).unwrap();
                st.q.insert(*q, w);
            }
            Op::Free(q) => {
                let w = st.q.remove(q).unwrap();
                d.add_dataflow_op(TketOp::QFree, [w]).unwrap();
            }
            Op::Reset(q) => {
                let h = d.add_dataflow_op(TketOp::Reset, [st.q[q]]).unwrap();
                st.q.insert(*q, h.out_wire(0));
            }
            Op::Barrier(qs) => {
                let ws: Vec<Wire> = qs.iter().map(|q| st.q[q]).collect();
                let h = d.add_dataflow_op(Barrier::new(vec![qb_t(); ws.len()]), ws).unwrap();
                for (i, q) in qs.iter().enumerate() {
                    st.q.insert(*q, h.out_wire(i));
                }
            }
            Op::Not(b, c) => {
                let h = d.add_dataflow_op(LogicOp::Not, [st.b[b]]).unwrap();
                st.b.insert(*c, h.out_wire(0));
            }
            Op::Xor(a, b, c) => {
                let h = d.add_dataflow_op(LogicOp::Xor, [st.b[a], st.b[b]]).unwrap();
                st.b.insert(*c, h.out_wire(0));
            }
            Op::Swap(a, b) => {
                let (x, y) = (st.q[a], st.q[b]);
                st.q.insert(*a, y);
                st.q.insert(*b, x);
            }
            Op::Cond(b, t, f) => {
                let mut qs = Default::default();
                let mut rots = false;
                used(t, &mut qs, &mut rots);
                used(f, &mut qs, &mut rots);
                let qs: Vec<usize> = qs.into_iter().collect();
                let mut ins: Vec<(Type, Wire)> = qs.iter().map(|q| (qb_t(), st.q[q])).collect();
                for w in &st.rot {
                    ins.push((rotation_type(), *w));
                }
                let mut cb = d
                    .conditional_builder(
                        ([vec![].into(), vec![].into()], st.b[b]),
                        ins,
                        vec![qb_t(); qs.len()].into(),
                    )
                    .unwrap();
                for (k, body) in [(0, f), (1, t)] {
                    let mut case = cb.case_builder(k).unwrap();
                    let iw: Vec<Wire> = case.input_wires().collect();
                    let mut s2 = B {
                        q: qs.iter().cloned().zip(iw.iter().cloned()).collect(),
                        b: Default::default(),
                        rot: iw[qs.len()..].to_vec(),
                    };
                    emit(&mut case, &mut s2, body);
                    let outs: Vec<Wire> = qs.iter().map(|q| s2.q[q]).collect();
                    case.finish_with_outputs(outs).unwrap();
                }
                let h = cb.finish_sub_container().unwrap();
                for (i, q) in qs.iter().enumerate() {
                    st.q.insert(*q, h.out_wire(i));
                }
            }
            Op::AngIf(b, x, y, g, qs) => {
                let mut cb = d
                    .conditional_builder(
                        ([vec![].into(), vec![].into()], st.b[b]),
                        Vec::<(Type, Wire)>::new(),
                        vec![rotation_type()].into(),
                    )
                    .unwrap();
                for (k, v) in [(0, y), (1, x)] {
                    let mut case = cb.case_builder(k).unwrap();
                    let w = case.add_load_value(ConstRotation::new(*v).unwrap());
                    case.finish_with_outputs([w]).unwrap();
                }
                let h = cb.finish_sub_container().unwrap();
                let mut ins: Vec<Wire> = qs.iter().map(|q| st.q[q]).collect();
                ins.push(h.out_wire(0));
                let h = d.add_dataflow_op(*g, ins).unwrap();
                for (i, q) in qs.iter().enumerate() {
                    st.q.insert(*q, h.out_wire(i));
                }
            }
            Op::Box(body) => {
                let mut qs = Default::default();
                let mut rots = false;
                used(body, &mut qs, &mut rots);
                let qs: Vec<usize> = qs.into_iter().collect();
                let nr = st.rot.len();
                let mut ins: Vec<Wire> = qs.iter().map(|q| st.q[q]).collect();
                ins.extend(&st.rot);
                let sig = Signature::new(
                    [vec![qb_t(); qs.len()], vec![rotation_type(); nr]].concat(),
                    vec![qb_t(); qs.len()],
                );
                let mut db = d.dfg_builder(sig, ins).unwrap();
                let iw: Vec<Wire> = db.input_wires().collect();
                let mut s2 = B {
                    q: qs.iter().cloned().zip(iw.iter().cloned()).collect(),
                    b: Default::default(),
                    rot: iw[qs.len()..].to_vec(),
                };
                emit(&mut db, &mut s2, body);
                let outs: Vec<Wire> = qs.iter().map(|q| s2.q[q]).collect();
                let h = db.finish_with_outputs(outs).unwrap();
                for (i, q) in qs.iter().enumerate() {
                    st.q.insert(*q, h.out_wire(i));
                }
            }
        }
    }
}

impl Circ {
    pub fn signature(&self) -> Signature {
        Signature::new(
            [vec![qb_t(); self.nq], vec![rotation_type(); self.nrot]].concat(),
            [vec![qb_t(); self.out.len()], vec![bool_t(); self.bools.len()]].concat(),
        )
    }
    /// A module with one function "main" as entrypoint.
    pub fn hugr(&self) -> Hugr {
        let mut f = FunctionBuilder::new("main", self.signature()).unwrap();
        let iw: Vec<Wire> = f.input_wires().collect();
        let mut st = B {
            q: (0..self.nq).map(|i| (i, iw[i])).collect(),
            b: Default::default(),
            rot: iw[self.nq..].to_vec(),
        };
        emit(&mut f, &mut st, &self.ops);
        let mut outs: Vec<Wire> = self.out.iter().map(|q| st.q[q]).collect();
        outs.extend(self.bools.iter().map(|b| st.b[b]));
        f.finish_hugr_with_outputs(outs).unwrap()
    }
    pub fn circuit(&self) -> tket::Circuit {
        tket::Circuit::new(self.hugr())
    }
    pub fn text(&self) -> String {
        format!("{self:?}")
    }
    pub fn is_pure(&self) -> bool {
        self.ops.iter().all(|o| matches!(o, Op::G(..) | Op::Swap(..)))
    }
    /// Remove ops one at a time while `bad` keeps holding.
    pub fn shrink(&self, mut bad: impl FnMut(&Circ) -> bool) -> Circ {
        let mut cur = self.clone();
        let mut budget = 300;
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < cur.ops.len() {
                if budget == 0 {
                    return cur;
                }
                if matches!(cur.ops[i], Op::G(..) | Op::Swap(..) | Op::Box(_) | Op::Cond(..) | Op::Barrier(_) | Op::Reset(_) | Op::AngIf(..)) {
                    let mut c = cur.clone();
                    c.ops.remove(i);
                    budget -= 1;
                    if bad(&c) {
                        cur = c;
                        changed = true;
                        continue;
                    }
                }
                i += 1;
            }
            if !changed {
                return cur;
            }
        }
    }
}

#[allow(dead_code)]
fn _v(_: Value) {}
