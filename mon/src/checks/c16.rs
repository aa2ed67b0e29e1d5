use super::util::*;
use crate::gen::{assets, dump, prog};
use crate::gen::prog::xop;
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::algorithms::ComposablePass;
use hugr::builder::{Container, Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t, usize_t, ConstExternalSymbol, ConstUsize, MakeTuple, UnpackTuple};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::NodeHandle;
use hugr::ops::{OpTag, OpTrait, Value};
use hugr::std_extensions::arithmetic::conversions;
use hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt};
use hugr::std_extensions::collections::borrow_array::{self, borrow_array_type};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{Signature, Type, TypeRow};
use hugr::{Hugr, HugrView, Node, Wire};
use tket::passes::{BorrowSquashPass, NormalizeGuppy};
use tket::{Circuit, TketOp};
use hugr::extension::simple_op::MakeRegisteredOp;
use tket_qsystem::extension::result::ResultOp;

pub static CHECK: Check = Check {
    id: "C16",
    rule: "case = a program (compiled Guppy files of the repository; generated structured programs; programs that borrow, use and return elements of nested borrow arrays at constant and computed indices, with aliased indices, elements trading places, order edges, control flow, sometimes a panic; programs that pack and unpack tuples in any pattern) and one of: BorrowSquashPass (all or chosen regions), NormalizeGuppy with random options, tuple rewrites applied in random order. Run before and after by the interpreter. Non-trivial = distinct programs changed by the pass.",
    assumptions: &["the reference interpreter in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 16_000 } else { 400_000 },
    min_nontrivial: 500,
    budget: (40, 800),
    case_timeout: 60,
    f: case,
};

// ---------------------------------------------------------------- borrow programs

struct Arr {
    n: u64,
    e: Type,
    w: Wire,
    out: Vec<u64>,
}
impl Arr {
    fn t(&self) -> Type {
        borrow_array_type(self.n, self.e.clone())
    }
}
/// What a region holds.
#[derive(Default)]
struct St {
    arrs: Vec<Arr>,
    elems: Vec<(Type, Wire)>,
    last: Option<Node>,
    shared: Vec<(u64, Wire)>,
}
struct G<'a> {
    r: &'a mut Rng,
    chain: bool,
    bad: bool,
    dynamic: f64,
}
fn results(n: usize) -> hugr::ops::OpType {
    ResultOp::new_bool(format!("r{n}")).to_extension_op().unwrap().into()
}
impl G<'_> {
    fn order<D: Dataflow>(&mut self, b: &mut D, st: &mut St, n: Node) {
        if self.chain {
            if let Some(l) = st.last {
                b.set_order(&l, &n);
            }
            st.last = Some(n);
        }
    }
    fn index<D: Dataflow>(&mut self, b: &mut D, st: &mut St, k: u64) -> Wire {
        if self.r.chance(0.4) {
            if let Some(x) = st.shared.iter().find(|s| s.0 == k) {
                return x.1;
            }
        }
        let w = if self.r.chance(self.dynamic) {
            let c = b.add_load_value(ConstInt::new_u(6, k).unwrap());
            b.add_dataflow_op(xop(&conversions::EXTENSION, "itousize", vec![]), [c]).unwrap().out_wire(0)
        } else {
            b.add_load_value(ConstUsize::new(k))
        };
        st.shared.push((k, w));
        w
    }
    fn op<D: Dataflow>(&mut self, b: &mut D, name: &str, a: &Arr, ws: Vec<Wire>) -> Node {
        b.add_dataflow_op(xop(&borrow_array::EXTENSION, name, vec![a.n.into(), a.e.clone().into()]), ws).unwrap().node()
    }
    fn borrow<D: Dataflow>(&mut self, b: &mut D, st: &mut St, i: usize) {
        let free: Vec<u64> = (0..st.arrs[i].n).filter(|k| !st.arrs[i].out.contains(k)).collect();
        let bad = self.bad && self.r.chance(0.05);
        if free.is_empty() && !bad {
            return;
        }
        let k = if bad { self.r.below(st.arrs[i].n as usize + 1) as u64 } else { *self.r.pick(&free) };
        let ix = self.index(b, st, k);
        let w = st.arrs[i].w;
        let n = self.op(b, "borrow", &st.arrs[i], vec![w, ix]);
        self.order(b, st, n);
        st.arrs[i].w = Wire::new(n, 0);
        st.arrs[i].out.push(k);
        self.put(st, st.arrs[i].e.clone(), Wire::new(n, 1));
    }
    fn put(&mut self, st: &mut St, t: Type, w: Wire) {
        match crate::gen::prog::arr_any(&t) {
            Some((n, e)) => st.arrs.push(Arr { n, e, w, out: vec![] }),
            None => st.elems.push((t, w)),
        }
    }
    /// Return some element to array i.
    fn ret<D: Dataflow>(&mut self, b: &mut D, st: &mut St, i: usize) -> bool {
        let e = st.arrs[i].e.clone();
        if st.arrs[i].out.is_empty() {
            return false;
        }
        let j = self.r.below(st.arrs[i].out.len());
        let k = st.arrs[i].out[j];
        let w = if crate::gen::prog::arr_any(&e).is_some() {
            let c: Vec<usize> = (0..st.arrs.len()).filter(|&x| x != i && st.arrs[x].t() == e && st.arrs[x].out.is_empty()).collect();
            if c.is_empty() {
                return false;
            }
            // removing index x shifts i
            let x = *self.r.pick(&c);
            let w = st.arrs[x].w;
            st.arrs[i].out.remove(j);
            let ix = self.index(b, st, k);
            let a = st.arrs[i].w;
            let n = self.op(b, "return", &st.arrs[i], vec![a, ix, w]);
            self.order(b, st, n);
            st.arrs[i].w = Wire::new(n, 0);
            st.arrs.remove(x);
            return true;
        } else {
            let c: Vec<usize> = (0..st.elems.len()).filter(|&x| st.elems[x].0 == e).collect();
            if c.is_empty() {
                return false;
            }
            let x = *self.r.pick(&c);
            if e.copyable() && self.r.chance(0.3) {
                st.elems[x].1
            } else {
                st.elems.remove(x).1
            }
        };
        st.arrs[i].out.remove(j);
        let ix = self.index(b, st, k);
        let a = st.arrs[i].w;
        let n = self.op(b, "return", &st.arrs[i], vec![a, ix, w]);
        self.order(b, st, n);
        st.arrs[i].w = Wire::new(n, 0);
        true
    }
    /// Return an element where none is missing and borrow it again, which panics.
    fn bad_ret<D: Dataflow>(&mut self, b: &mut D, st: &mut St, i: usize) {
        let e = st.arrs[i].e.clone();
        let Some(x) = st.elems.iter().position(|x| x.0 == e) else { return };
        let more = self.r.chance(0.2) as usize;
        let k = self.r.below(st.arrs[i].n as usize + more) as u64;
        if st.arrs[i].out.contains(&k) {
            return;
        }
        let ix = self.index(b, st, k);
        let w = [st.arrs[i].w, ix, st.elems[x].1];
        let n = self.op(b, "return", &st.arrs[i], w.to_vec());
        self.order(b, st, n);
        let ix = self.index(b, st, k);
        let n = self.op(b, "borrow", &st.arrs[i], vec![Wire::new(n, 0), ix]);
        self.order(b, st, n);
        st.arrs[i].w = Wire::new(n, 0);
        st.elems[x].1 = Wire::new(n, 1);
    }
    fn body<D: Dataflow>(&mut self, b: &mut D, st: &mut St, steps: usize, depth: usize) {
        // favour few indices so that equal ones meet
        for s in 0..steps {
            match self.r.below(12) {
                0..=3 if !st.arrs.is_empty() => {
                    let i = self.r.below(st.arrs.len());
                    self.borrow(b, st, i)
                }
                4..=6 if !st.arrs.is_empty() => {
                    let i = self.r.below(st.arrs.len());
                    if self.bad && self.r.chance(0.15) {
                        self.bad_ret(b, st, i);
                    } else {
                        self.ret(b, st, i);
                    }
                }
                7 | 8 => {
                    let q: Vec<usize> = (0..st.elems.len()).filter(|&i| st.elems[i].0 == qb_t()).collect();
                    if q.len() > 1 && self.r.chance(0.5) {
                        let n = b.add_dataflow_op(TketOp::CX, [st.elems[q[0]].1, st.elems[q[1]].1]).unwrap();
                        let [x, y] = n.outputs_arr();
                        st.elems[q[0]].1 = x;
                        st.elems[q[1]].1 = y;
                    } else if !q.is_empty() {
                        let i = *self.r.pick(&q);
                        let o = *self.r.pick(&[TketOp::H, TketOp::T, TketOp::X, TketOp::V]);
                        st.elems[i].1 = b.add_dataflow_op(o, [st.elems[i].1]).unwrap().out_wire(0);
                    } else if let Some(i) = (0..st.elems.len()).find(|&i| st.elems[i].0 == bool_t()) {
                        st.elems[i].1 = b.add_dataflow_op(LogicOp::Not, [st.elems[i].1]).unwrap().out_wire(0);
                    }
                }
                9 if self.chain => {
                    if let Some(i) = (0..st.elems.len()).find(|&i| st.elems[i].0 == bool_t()) {
                        let n = b.add_dataflow_op(results(s), [st.elems[i].1]).unwrap().node();
                        self.order(b, st, n);
                    } else if let Some(i) = (0..st.elems.len()).find(|&i| st.elems[i].0 == qb_t()) {
                        if self.r.chance(0.3) {
                            let n = b.add_dataflow_op(TketOp::Measure, [st.elems[i].1]).unwrap();
                            let [q, x] = n.outputs_arr();
                            st.elems[i].1 = q;
                            let n = b.add_dataflow_op(results(s), [x]).unwrap().node();
                            self.order(b, st, n);
                        }
                    }
                }
                10 if !st.arrs.is_empty() && self.r.chance(0.3) => {
                    let i = self.r.below(st.arrs.len());
                    let k = self.r.below(st.arrs[i].n as usize) as u64;
                    let ix = self.index(b, st, k);
                    let w = st.arrs[i].w;
                    let n = self.op(b, "is_borrowed", &st.arrs[i], vec![w, ix]);
                    self.order(b, st, n);
                    st.arrs[i].w = Wire::new(n, 0);
                    st.elems.push((bool_t(), Wire::new(n, 1)));
                }
                11 if depth > 0 && self.r.chance(0.5) && (!st.arrs.is_empty() || !st.elems.is_empty()) => self.nested(b, st, steps / 2 + 1, depth - 1),
                _ => {}
            }
        }
    }
    fn nested<D: Dataflow>(&mut self, b: &mut D, st: &mut St, steps: usize, depth: usize) {
        // Pass everything; the state of each array must be the same afterwards.
        let vals: Vec<(Type, Wire)> = st.arrs.iter().map(|a| (a.t(), a.w)).chain(st.elems.iter().cloned()).collect();
        let ts: Vec<Type> = vals.iter().map(|v| v.0.clone()).collect();
        let nar = st.arrs.len();
        let outs: Vec<Wire> = match self.r.below(3) {
            0 => {
                let mut d = b.dfg_builder(Signature::new_endo(ts.clone()), vals.iter().map(|x| x.1)).unwrap();
                let ins: Vec<Wire> = d.input_wires().collect();
                let o = self.region(&mut d, st, ins, &ts, steps, depth);
                d.finish_with_outputs(o).unwrap().outputs().collect()
            }
            1 => {
                let c = b.add_load_value(if self.r.chance(0.5) { Value::true_val() } else { Value::false_val() });
                let mut cb = b.conditional_builder(([vec![].into(), vec![].into()] as [TypeRow; 2], c), vals.clone(), ts.clone().into()).unwrap();
                for k in 0..2 {
                    let mut d = cb.case_builder(k).unwrap();
                    let ins: Vec<Wire> = d.input_wires().collect();
                    let o = self.region(&mut d, st, ins, &ts, steps, depth);
                    d.finish_with_outputs(o).unwrap();
                }
                cb.finish_sub_container().unwrap().outputs().collect()
            }
            _ => {
                let mut d = b.tail_loop_builder([], vals.clone(), vec![].into()).unwrap();
                let ins: Vec<Wire> = d.input_wires().collect();
                let o = self.region(&mut d, st, ins, &ts, steps, depth);
                let stop = d.add_load_value(Value::true_val());
                d.finish_with_outputs(stop, o).unwrap().outputs().collect()
            }
        };
        let n = outs.first().unwrap().node();
        self.order(b, st, n);
        for (i, w) in outs.into_iter().enumerate() {
            if i < nar {
                st.arrs[i].w = w;
            } else {
                st.elems[i - nar].1 = w;
            }
        }
    }
    /// Contents of a region with the same row in and out.
    fn region<D: Dataflow>(&mut self, d: &mut D, st: &St, ins: Vec<Wire>, ts: &[Type], steps: usize, depth: usize) -> Vec<Wire> {
        let nar = st.arrs.len();
        let start: Vec<Vec<u64>> = st.arrs.iter().map(|a| a.out.clone()).collect();
        let mut s = St::default();
        for (i, a) in st.arrs.iter().enumerate() {
            s.arrs.push(Arr { n: a.n, e: a.e.clone(), w: ins[i], out: a.out.clone() });
        }
        for (i, x) in st.elems.iter().enumerate() {
            s.elems.push((x.0.clone(), ins[nar + i]));
        }
        self.body(d, &mut s, steps, depth);
        self.settle(d, &mut s, &start, ts)
    }
    /// Bring the state to the given row: arrays with the given borrowed sets.
    fn settle<D: Dataflow>(&mut self, b: &mut D, st: &mut St, want: &[Vec<u64>], ts: &[Type]) -> Vec<Wire> {
        let o = self.settle_(b, st, want, ts);
        // effects that no output depends on may be dropped
        if let Some(l) = st.last {
            let out = b.output();
            b.set_order(&l, &out);
        }
        o
    }
    fn settle_<D: Dataflow>(&mut self, b: &mut D, st: &mut St, want: &[Vec<u64>], ts: &[Type]) -> Vec<Wire> {
        let saved = std::mem::replace(&mut self.bad, false);
        // give back everything, then borrow again what should be out
        // innermost first
        loop {
            let mut idx: Vec<usize> = (0..st.arrs.len()).collect();
            self.r.shuffle(&mut idx);
            let mut any = false;
            for i in idx {
                if i < st.arrs.len() && self.ret(b, st, i) {
                    any = true;
                    break;
                }
            }
            if !any {
                break;
            }
        }
        // assign by type; inner arrays become available when borrowed
        let mut outs: Vec<Option<Wire>> = vec![None; want.len()];
        while outs.iter().any(|o| o.is_none()) {
            let mut any = false;
            for i in 0..want.len() {
                if outs[i].is_some() {
                    continue;
                }
                let Some(j) = (0..st.arrs.len()).find(|&j| st.arrs[j].t() == ts[i]) else { continue };
                any = true;
                let mut a = st.arrs.remove(j);
                for k in &want[i] {
                    if !a.out.contains(k) {
                        let ix = self.index(b, st, *k);
                        let aw = a.w;
                        let n = self.op(b, "borrow", &a, vec![aw, ix]);
                        self.order(b, st, n);
                        a.w = Wire::new(n, 0);
                        a.out.push(*k);
                        self.put(st, a.e.clone(), Wire::new(n, 1));
                    }
                }
                outs[i] = Some(a.w);
            }
            assert!(any, "array of that type");
        }
        let mut outs: Vec<Wire> = outs.into_iter().flatten().collect();
        for t in &ts[want.len()..] {
            let j = (0..st.elems.len()).find(|&j| st.elems[j].0 == *t);
            match j {
                Some(j) if t.copyable() => outs.push(st.elems[j].1),
                Some(j) => outs.push(st.elems.remove(j).1),
                None => {
                    assert!(t == &bool_t());
                    outs.push(b.add_load_value(Value::false_val()));
                }
            }
        }
        self.bad = saved;
        outs
    }
}

fn borrow_program(r: &mut Rng) -> Option<Hugr> {
    // array types
    let mut ts = vec![];
    let mut nq = 0;
    for _ in 0..r.range(1, 3) {
        let n = r.range(1, 3) as u64;
        let (t, q) = match r.below(4) {
            0 | 1 => (borrow_array_type(n, qb_t()), n as usize),
            2 => (borrow_array_type(n, bool_t()), 0),
            _ => {
                let m = r.range(1, 2) as u64;
                if r.chance(0.3) {
                    (borrow_array_type(n, borrow_array_type(m, bool_t())), 0)
                } else {
                    (borrow_array_type(n.min(2), borrow_array_type(m, qb_t())), (n.min(2) * m) as usize)
                }
            }
        };
        if nq + q <= 6 {
            nq += q;
            ts.push(t);
        }
    }
    let mut io = ts.clone();
    for _ in 0..r.below(3) {
        io.push(bool_t());
    }
    if r.chance(0.4) && nq < 6 {
        io.push(qb_t());
    }
    let mut b = FunctionBuilder::new("main", Signature::new_endo(io.clone())).unwrap();
    let ins: Vec<Wire> = b.input_wires().collect();
    let mut st = St::default();
    let mut g = G { chain: r.chance(0.5), bad: false, dynamic: *r.pick(&[0., 0., 0.1, 0.4]), r };
    // one array at a time can panic, otherwise panics race unless ordered
    g.bad = g.chain && g.r.chance(0.3);
    for (t, w) in io.iter().zip(ins) {
        g.put(&mut st, t.clone(), w);
    }
    if g.r.chance(0.05) {
        // an index that is a constant only known at link time
        let c = b.add_load_value(ConstExternalSymbol::new("where", usize_t(), true));
        if !st.arrs.is_empty() {
            let w = st.arrs[0].w;
            let n = g.op(&mut b, "is_borrowed", &st.arrs[0], vec![w, c]);
            st.arrs[0].w = Wire::new(n, 0);
            let n = g.op(&mut b, "borrow", &st.arrs[0], vec![Wire::new(n, 0), c]);
            let n = g.op(&mut b, "return", &st.arrs[0], vec![Wire::new(n, 0), c, Wire::new(n, 1)]);
            st.arrs[0].w = Wire::new(n, 0);
        }
    }
    let steps = g.r.range(4, 40);
    let want: Vec<Vec<u64>> = ts.iter().map(|_| vec![]).collect();
    // elements are put in the order of the row
    let io: Vec<Type> = ts.iter().cloned().chain(io[ts.len()..].iter().cloned()).collect();
    let o = match catch(|| {
        g.body(&mut b, &mut st, steps, 2);
        g.settle(&mut b, &mut st, &want, &io)
    }) {
        Ok(o) => o,
        Err(_) => return None,
    };
    b.set_outputs(o).ok()?;
    Some(std::mem::take(b.hugr_mut()))
}

// ---------------------------------------------------------------- tuples

fn tuple_program(r: &mut Rng) -> Hugr {
    let nq = r.range(0, 3);
    let nb = r.range(1, 3);
    let mut io: Vec<Type> = vec![qb_t(); nq];
    io.extend(vec![bool_t(); nb]);
    if r.chance(0.3) {
        io.push(int_type(4));
    }
    r.shuffle(&mut io);
    // first pass decides the outputs: build the body into a scratch builder
    let seed = r.next();
    let run = |outs: Option<Vec<Type>>| -> Result<Hugr, Vec<Type>> {
        let mut r = Rng::keyed(&[seed]);
        let r = &mut r;
        let o = outs.clone().unwrap_or_else(|| vec![bool_t()]);
        let mut b = FunctionBuilder::new("main", Signature::new(io.clone(), o)).unwrap();
        let mut pool: Vec<(Type, Wire)> = io.iter().cloned().zip(b.input_wires()).collect();
        let mut last: Option<Node> = None;
        for _ in 0..r.range(2, 14) {
            match r.below(8) {
                0..=2 => {
                    let k = r.below(4.min(pool.len()) + 1);
                    let ix = r.distinct(pool.len(), k);
                    let mut xs: Vec<(Type, Wire)> = ix.iter().map(|&i| pool[i].clone()).collect();
                    // the same copyable value twice
                    if let Some(x) = xs.iter().find(|x| x.0.copyable()).cloned() {
                        if r.chance(0.3) {
                            xs.push(x);
                        }
                    }
                    let mut gone: Vec<usize> = ix.iter().copied().filter(|&i| !pool[i].0.copyable() || r.chance(0.3)).collect();
                    gone.sort();
                    gone.iter().rev().for_each(|&i| {
                        pool.remove(i);
                    });
                    let ts: Vec<Type> = xs.iter().map(|x| x.0.clone()).collect();
                    let n = b.add_dataflow_op(MakeTuple::new(ts.clone().into()), xs.iter().map(|x| x.1)).unwrap();
                    pool.push((Type::new_tuple(ts), n.out_wire(0)));
                }
                3..=5 => {
                    let c: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].0.as_sum().is_some_and(|s| s.num_variants() == 1)).collect();
                    if c.is_empty() {
                        continue;
                    }
                    let i = *r.pick(&c);
                    let (t, w) = pool[i].clone();
                    let row = prog::sum_rows(&t).unwrap().remove(0);
                    if !t.copyable() || r.chance(0.5) {
                        pool.remove(i);
                    }
                    let n = b.add_dataflow_op(UnpackTuple::new(row.clone().into()), [w]).unwrap();
                    for (k, t) in row.into_iter().enumerate() {
                        if !t.copyable() || r.chance(0.8) {
                            pool.push((t, n.out_wire(k)));
                        }
                    }
                    if r.chance(0.2) {
                        if let Some(l) = last {
                            b.set_order(&l, &n.node());
                        }
                        last = Some(n.node());
                    }
                }
                6 => {
                    let q: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].0 == qb_t()).collect();
                    if q.len() > 1 {
                        let n = b.add_dataflow_op(TketOp::CX, [pool[q[0]].1, pool[q[1]].1]).unwrap();
                        pool[q[0]].1 = n.out_wire(0);
                        pool[q[1]].1 = n.out_wire(1);
                    } else if let Some(&i) = q.first() {
                        pool[i].1 = b.add_dataflow_op(*r.pick(&[TketOp::H, TketOp::T]), [pool[i].1]).unwrap().out_wire(0);
                    }
                }
                _ => {
                    let c: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].0 == bool_t()).collect();
                    if let Some(&i) = c.first() {
                        let j = *r.pick(&c);
                        let n = if r.chance(0.5) {
                            b.add_dataflow_op(LogicOp::Not, [pool[i].1]).unwrap()
                        } else {
                            b.add_dataflow_op(LogicOp::Xor, [pool[i].1, pool[j].1]).unwrap()
                        };
                        pool.push((bool_t(), n.out_wire(0)));
                        if r.chance(0.2) {
                            if let Some(l) = last {
                                b.set_order(&l, &n.node());
                            }
                            last = Some(n.node());
                        }
                    }
                }
            }
        }
        let keep: Vec<(Type, Wire)> = pool.into_iter().filter(|x| !x.0.copyable() || r.chance(0.8)).collect();
        if outs.is_none() {
            return Err(keep.into_iter().map(|x| x.0).collect());
        }
        Ok(b.finish_hugr_with_outputs(keep.into_iter().map(|x| x.1)).unwrap())
    };
    let outs = run(None).unwrap_err();
    run(Some(outs)).unwrap()
}

// ---------------------------------------------------------------- checks

fn count_ops(h: &Hugr, names: &[&str]) -> usize {
    h.descendants(h.module_root())
        .filter(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| names.contains(&e.def().name().as_str())))
        .count()
}

fn squash(ctx: &mut Ctx, rng: &mut Rng, h: &Hugr, label: &str) {
    let mut k = h.clone();
    let regions: Option<Vec<Node>> = rng.chance(0.2).then(|| {
        let v: Vec<Node> = h.entry_descendants().filter(|n| OpTag::DataflowParent.is_superset(h.get_optype(*n).tag())).collect();
        v.into_iter().filter(|_| rng.chance(0.5)).collect()
    });
    let art = || format!("{label} regions {regions:?}\n{}", dump(h));
    let Some(res) = ctx.guard("BorrowSquashPass", &art, || {
        let p = BorrowSquashPass::default();
        let p = match &regions {
            Some(v) => p.set_regions(v.iter().copied()),
            None => p,
        };
        p.run(&mut k).unwrap()
    }) else {
        return;
    };
    let brs = ["borrow", "return"];
    let (n0, n1) = (count_ops(h, &brs), count_ops(&k, &brs));
    if n0 - n1 != 2 * res.len() || h.num_nodes() - k.num_nodes() != 2 * res.len() || res.iter().any(|(a, b)| k.contains_node(*a) || k.contains_node(*b)) {
        ctx.violation("elided pairs", format!("{} pairs reported, {} operations gone", res.len(), n0 - n1), art());
    }
    ctx.count("borrow/return pairs elided", res.len() as u64);
    if !res.is_empty() {
        ctx.nontrivial(&dump(h));
    }
    check_same(ctx, "BorrowSquashPass", h, &k, &interp::Cfg::default(), 1, true, label);
}

/// Node and edge census that does not depend on numbering.
fn census(h: &Hugr) -> Vec<String> {
    let mut v = vec![];
    for n in h.descendants(h.module_root()) {
        let l = format!("{:?}", h.get_optype(n));
        v.push(l.clone());
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                v.push(format!("{l} {p:?} {:?} {q:?}", h.get_optype(m)));
            }
        }
    }
    v.sort();
    v
}

/// Run the passes of hugr that NormalizeGuppy calls directly. If they break the
/// program by themselves the failure is theirs: gives its name.
fn upstream(h: &Hugr, o: &[bool], fold: bool, after: &Hugr) -> Option<(String, String)> {
    use hugr::algorithms::*;
    let mut k = h.clone();
    for (name, on) in [("NormalizeCFG", o[0]), ("Untuple", o[1]), ("ConstantFold", fold), ("RemoveDeadFuncs", o[3]), ("InlineDFGs", o[4])] {
        if !on {
            continue;
        }
        let r = catch(|| match name {
            "NormalizeCFG" => normalize_cfgs::NormalizeCFGPass::default().run(&mut k).map(|_| ()).map_err(|e| e.to_string()),
            "Untuple" => UntuplePass::new(untuple::UntupleRecursive::Recursive).run(&mut k).map(|_| ()).map_err(|e| e.to_string()),
            "ConstantFold" => const_fold::ConstantFoldPass::default().run(&mut k).map_err(|e| e.to_string()),
            "RemoveDeadFuncs" => RemoveDeadFuncsPass::default().run(&mut k).map_err(|e| e.to_string()),
            _ => inline_dfgs::InlineDFGsPass.run(&mut k).map(|_| ()).map_err(|e| e.to_string()),
        });
        match r {
            Err(p) => return Some((format!("pass {name}:panic"), norm(&p.msg))),
            Ok(Err(e)) => return Some((format!("pass {name}:error"), norm(&e))),
            Ok(Ok(())) => {}
        }
        if k.validate().is_err() {
            return Some((format!("pass {name}:invalid"), "invalid".into()));
        }
    }
    let before = k.clone();
    if o[5] {
        catch(|| BorrowSquashPass::default().run(&mut k).unwrap()).ok()?;
    }
    let same = |a: &Hugr, b: &Hugr, s| matches!(compare(a, a.entrypoint(), b, b.entrypoint(), s, &interp::Cfg::default(), true), Cmp::Same);
    // already changed, or with its effects no longer ordered, before anything is squashed
    let broken = (1..100).any(|s| !same(h, &before, s) || !same(&before, &before, s));
    // nor is squashing to blame
    let broken = broken || (1..100).all(|s| same(&before, &k, s));
    (broken && census(&k) == census(after)).then(|| ("passes:differs".to_string(), "differs".into()))
}

fn normalize(ctx: &mut Ctx, rng: &mut Rng, h: &Hugr, label: &str, fold: bool) {
    let o: Vec<bool> = if rng.chance(0.4) { vec![true; 6] } else { (0..6).map(|_| rng.chance(0.5)).collect() };
    let fold = o[2] && fold;
    let mut p = NormalizeGuppy::default();
    p.simplify_cfgs(o[0]).remove_tuple_untuple(o[1]).constant_folding(fold).remove_dead_funcs(o[3]).inline_dfgs(o[4]).squash_borrows(o[5]);
    let opts = format!("{label} cfgs={} untuple={} fold={fold} dead={} inline={} squash={}", o[0], o[1], o[3], o[4], o[5]);
    let mut k = h.clone();
    let art = || format!("{opts}\n{}", dump(h));
    let first = ctx.viols.len();
    let blame = |ctx: &mut Ctx, k: &Hugr| {
        if ctx.viols.len() > first {
            if let Some((u, what)) = upstream(h, &o, fold, k) {
                if ctx.viols[first].sig.contains(&what) {
                    ctx.viols[first].sig = format!("NormalizeGuppy:hugr {u}");
                }
            }
        }
    };
    let Some(res) = ctx.guard("NormalizeGuppy", &art, || p.run(&mut k)) else { return blame(ctx, &k) };
    if let Err(e) = res {
        ctx.violation(format!("NormalizeGuppy:error:{}", norm(&e.to_string())), e.to_string(), art());
        return;
    }
    if k.num_nodes() != h.num_nodes() {
        ctx.nontrivial(&dump(h));
    }
    ctx.count("NormalizeGuppy runs", 1);
    let f = if fold { "fold:" } else { "" };
    check_same(ctx, &format!("{f}NormalizeGuppy"), h, &k, &interp::Cfg::default(), 1, true, &opts);
    blame(ctx, &k);
}

#[allow(deprecated)]
fn tuples(ctx: &mut Ctx, rng: &mut Rng, h: &Hugr) {
    use tket::passes::tuple_unpack::find_tuple_unpack_rewrites;
    let mut c = Circuit::new(h.clone());
    let art = || dump(h);
    let mut n = 0;
    loop {
        let Some(mut rs) = ctx.guard("find_tuple_unpack_rewrites", &art, || find_tuple_unpack_rewrites(&c).collect::<Vec<_>>()) else { return };
        if rs.is_empty() {
            break;
        }
        let r = rs.swap_remove(rng.below(rs.len()));
        let before = c.hugr().clone();
        let Some(res) = ctx.guard("tuple rewrite", &|| dump(&before), || r.apply(&mut c).map_err(|e| e.to_string())) else { return };
        if let Err(e) = res {
            ctx.violation(format!("tuple rewrite:error:{}", norm(&e)), e, dump(&before));
            return;
        }
        n += 1;
        if !check_same(ctx, "tuple rewrite", &before, c.hugr(), &interp::Cfg::default(), 1, true, "") {
            return;
        }
        if n > 40 {
            ctx.violation("tuple rewrite:no end", "40 rewrites and still more", art());
            return;
        }
    }
    ctx.count("tuple rewrites", n);
    if n > 0 {
        ctx.nontrivial(&dump(h));
    }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let files = &*assets::GUPPY;
    if ctx.idx < 3 * files.len() {
        let (name, h) = &files[ctx.idx / 3];
        let h = h.clone();
        if h.entrypoint() == h.module_root() {
            ctx.inconclusive("no entry function");
            return;
        }
        if ctx.idx % 3 == 1 {
            squash(ctx, &mut rng, &h, name);
            return;
        }
        // the effects of this program have no path to an output, so folding may drop them
        normalize(ctx, &mut rng, &h, name, !name.contains("example_gpu"));
        return;
    }
    let kind = ctx.idx % 10;
    let (h, fold) = match kind {
        0..=3 => match borrow_program(&mut rng) {
            Some(h) => (h, true),
            None => {
                ctx.count("abandoned by the generator", 1);
                return;
            }
        },
        4 | 5 => (tuple_program(&mut rng), true),
        _ => {
            let mut f = prog::Feat::all().thin(&mut rng);
            f.ext_edges = rng.chance(0.1);
            f.io_tbool = rng.chance(0.2);
            let fold = rng.chance(0.3);
            if fold {
                f.tbool = false;
                f.futures = false;
                f.arrays = false;
                f.barrays = false;
                f.options = false;
                f.logic_eq = false;
            } else {
                f.barrays |= rng.chance(0.5);
                f.tuples |= rng.chance(0.5);
            }
            (prog::generate(&mut rng, f), fold)
        }
    };
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    ctx.sample(dump(&h));
    match (kind, rng.below(3)) {
        (0..=3, 0 | 1) => squash(ctx, &mut rng, &h, "borrow program"),
        (4 | 5, 0 | 1) => tuples(ctx, &mut rng, &h),
        (_, 0) => squash(ctx, &mut rng, &h, "program"),
        _ => normalize(ctx, &mut rng, &h, "", fold),
    }
}
