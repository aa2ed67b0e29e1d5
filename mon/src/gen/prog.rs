//! Random structured programs (guppy-like HUGRs): control flow, functions,
//! arrays, options, futures, results, panics. Every program is valid and
//! deterministic up to measurement: potentially observable classical effects
//! are chained by state-order edges.
use crate::rng::Rng;
use hugr::extension::prelude::{
    bool_t, option_type, qb_t, usize_t, Barrier, ConstError, ConstUsize, MakeTuple, UnpackTuple, PANIC_OP_ID, PRELUDE,
};
use hugr::extension::simple_op::{MakeExtensionOp, MakeRegisteredOp};
use hugr::extension::Extension;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::ops::{
    self, Call, CallIndirect, Const, DataflowBlock, ExitBlock, FuncDefn, Input, LoadConstant, LoadFunction, OpType, Output,
    Tag, TailLoop, Value, CFG, DFG,
};
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt};
use hugr::std_extensions::arithmetic::{conversions, float_ops, int_ops};
use hugr::std_extensions::collections::array::{array_type, ArrayValue};
use hugr::std_extensions::collections::borrow_array::{borrow_array_type, BArrayValue};
use hugr::std_extensions::collections::static_array::{static_array_type, StaticArrayValue};
use hugr::std_extensions::collections::{array, borrow_array, static_array};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{PolyFuncType, Signature, SumType, Type, TypeArg, TypeEnum, TypeRow};
use hugr::{Hugr, HugrView, Node, Wire};
use tket::extension::bool::{bool_type, BoolOp, ConstBool};
use tket::extension::guppy::{DROP_OP_NAME, GUPPY_EXTENSION};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::TketOp;
use tket_qsystem::extension::futures::{self, future_type, FutureOpDef};
use tket_qsystem::extension::qsystem::QSystemOp;
use tket_qsystem::extension::random::RandomOp;
use tket_qsystem::extension::result::ResultOp;

#[derive(Clone, Debug)]
pub struct Feat {
    pub stmts: (usize, usize),
    pub depth: usize,
    pub max_live: usize,
    pub meas: f64,
    pub meas_budget: usize,
    pub gates: Vec<TketOp>,
    pub qsys: bool,
    pub futures: bool,
    pub tbool: bool,
    pub logic_eq: bool,
    /// `get` on standard arrays of tket.bool
    pub tbool_get: bool,
    pub ints: bool,
    pub floats: bool,
    pub rots: bool,
    pub tuples: bool,
    pub options: bool,
    pub arrays: bool,
    pub barrays: bool,
    pub results: bool,
    pub dfg: bool,
    pub cond: bool,
    pub loops: bool,
    pub cfg: bool,
    pub calls: bool,
    pub indirect: bool,
    pub panics: bool,
    pub barriers: bool,
    pub rng: bool,
    pub drops: bool,
    pub sarrays: bool,
    pub state: bool,
    pub main_io: bool,
    pub alloc_free: bool,
    pub ext_edges: bool,
    pub opaque: bool,
    pub module_consts: bool,
    /// tket.bool in the types of the entry function
    pub io_tbool: bool,
    /// report leftover classical values at the end of main
    pub final_results: bool,
    /// unconditional panic possible through dynamic indices etc.
    pub risky: bool,
}
impl Feat {
    pub fn all() -> Feat {
        Feat {
            stmts: (3, 22),
            depth: 3,
            max_live: 4,
            meas: 0.5,
            meas_budget: 5,
            gates: super::circ::ALLG.to_vec(),
            qsys: true,
            futures: true,
            tbool: true,
            tbool_get: true,
            logic_eq: true,
            ints: true,
            floats: true,
            rots: true,
            tuples: true,
            options: true,
            arrays: true,
            barrays: true,
            results: true,
            dfg: true,
            cond: true,
            loops: true,
            cfg: true,
            calls: true,
            indirect: true,
            panics: true,
            barriers: true,
            rng: true,
            drops: true,
            sarrays: true,
            state: true,
            main_io: true,
            alloc_free: true,
            ext_edges: true,
            opaque: false,
            module_consts: true,
            risky: true,
            io_tbool: true,
            final_results: true,
        }
    }
    /// Keep a handful of features, chosen at random, so that they interact more often.
    pub fn focus(mut self, r: &mut Rng) -> Feat {
        let p = *r.pick(&[0.6, 0.8]);
        macro_rules! t { ($($f:ident)*) => { $( if r.chance(p) { self.$f = false; } )* } }
        t!(qsys futures tbool ints floats rots tuples options arrays barrays dfg cond loops cfg calls indirect panics barriers rng drops sarrays state alloc_free ext_edges module_consts risky);
        self.gates.truncate(3);
        self.meas = 0.7;
        self.depth = 2;
        self
    }
    /// Drop each feature with some probability, so that small subsets are seen too.
    pub fn thin(mut self, r: &mut Rng) -> Feat {
        let p = *r.pick(&[0.0, 0.3, 0.6]);
        macro_rules! t { ($($f:ident)*) => { $( if r.chance(p) { self.$f = false; } )* } }
        t!(qsys futures tbool ints floats rots tuples options arrays barrays dfg cond loops cfg calls indirect panics barriers rng drops sarrays state alloc_free ext_edges module_consts risky);
        if r.chance(0.2) {
            self.depth = 1;
        }
        self
    }
}

#[derive(Clone)]
struct Fun {
    node: Node,
    sig: Signature,
    meas: usize,
}

pub struct P<'a> {
    pub h: Hugr,
    r: &'a mut Rng,
    f: Feat,
    funs: Vec<Fun>,
    live: usize,
    meas_left: usize,
    meas_used: usize,
    mult: usize,
    tags: usize,
    depth: usize,
    names: usize,
    /// constants visible from enclosing regions: (type, wire, region node chain)
    outer: Vec<(Type, Wire, Node)>,
}

pub struct Reg {
    node: Node,
    inp: Node,
    out: Node,
    pool: Vec<(Type, Wire)>,
    last: Option<Node>,
    effect: bool,
}

fn ty_nat(n: u64) -> TypeArg {
    TypeArg::BoundedNat(n)
}
pub fn xop(e: &Extension, name: &str, args: Vec<TypeArg>) -> OpType {
    OpType::from(
        e.instantiate_extension_op(name, args.clone())
            .unwrap_or_else(|e| panic!("{name} {args:?}: {e}")),
    )
}
pub fn reg(o: impl MakeRegisteredOp) -> OpType {
    OpType::from(o.to_extension_op().unwrap())
}
pub fn opt_of(t: Type) -> Type {
    Type::from(option_type(t))
}
pub fn is_ext(t: &Type, name: &str) -> Option<Vec<TypeArg>> {
    match t.as_type_enum() {
        TypeEnum::Extension(c) if c.name() == name => Some(c.args().to_vec()),
        _ => None,
    }
}
/// (borrow?, size, element)
pub fn arr(t: &Type) -> Option<(bool, u64, Type)> {
    for (n, b) in [("array", false), ("borrow_array", true)] {
        if let Some(a) = is_ext(t, n) {
            if let [TypeArg::BoundedNat(k), TypeArg::Runtime(e)] = &a[..] {
                return Some((b, *k, e.clone()));
            }
        }
    }
    None
}
/// Size and element type of any kind of array.
pub fn arr_any(t: &Type) -> Option<(u64, Type)> {
    for n in ["array", "borrow_array", "value_array"] {
        if let Some(a) = is_ext(t, n) {
            if let [TypeArg::BoundedNat(k), TypeArg::Runtime(e)] = &a[..] {
                return Some((*k, e.clone()));
            }
        }
    }
    None
}
pub fn sum_rows(t: &Type) -> Option<Vec<Vec<Type>>> {
    match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let mut out = vec![];
            for v in s.variants() {
                out.push(v.iter().map(|t| t.clone().try_into_type().unwrap()).collect());
            }
            Some(out)
        }
        _ => None,
    }
}
fn fut_of(t: &Type) -> Option<Type> {
    let a = is_ext(t, "Future")?;
    match &a[0] {
        TypeArg::Runtime(t) => Some(t.clone()),
        _ => None,
    }
}
pub fn int6() -> Type {
    int_type(6)
}
pub fn has_qubit(t: &Type) -> bool {
    crate::interp::count_qubits(t) != Some(0)
}

impl<'a> P<'a> {
    pub fn new(r: &'a mut Rng, f: Feat) -> Self {
        let m = f.meas_budget;
        P {
            h: Hugr::new(),
            r,
            f,
            funs: vec![],
            live: 0,
            meas_left: m,
            meas_used: 0,
            mult: 1,
            tags: 0,
            depth: 0,
            names: 0,
            outer: vec![],
        }
    }
    /// `in_types` are the region's inputs; the IO nodes are created.
    pub fn region(&mut self, node: Node, ins: &[Type], outs: &[Type]) -> Reg {
        let inp = self.h.add_node_with_parent(node, Input { types: ins.to_vec().into() });
        let out = self.h.add_node_with_parent(node, Output { types: outs.to_vec().into() });
        Reg {
            node,
            inp,
            out,
            pool: ins.iter().cloned().enumerate().map(|(i, t)| (t, Wire::new(inp, i))).collect(),
            last: None,
            effect: false,
        }
    }
    pub fn add(&mut self, g: &mut Reg, op: impl Into<OpType>, ins: &[Wire]) -> Node {
        let n = self.h.add_node_with_parent(g.node, op.into());
        for (i, w) in ins.iter().enumerate() {
            self.h.connect(w.node(), w.source(), n, i);
        }
        n
    }
    /// Put the node behind everything observable that came before.
    pub fn chain(&mut self, g: &mut Reg, n: Node) {
        if let Some(l) = g.last {
            self.h.add_other_edge(l, n);
        }
        g.last = Some(n);
        g.effect = true;
    }
    pub fn konst(&mut self, g: &mut Reg, v: Value) -> Wire {
        let t = v.get_type();
        let parent = if self.f.module_consts && self.r.chance(0.3) { self.h.module_root() } else { g.node };
        let c = self.h.add_node_with_parent(parent, Const::new(v));
        let l = self.h.add_node_with_parent(g.node, LoadConstant { datatype: t });
        self.h.connect(c, 0, l, 0);
        Wire::new(l, 0)
    }
    fn out(n: Node, i: usize) -> Wire {
        Wire::new(n, i)
    }
    fn take(&mut self, g: &mut Reg, i: usize) -> Wire {
        if g.pool[i].0.copyable() {
            g.pool[i].1
        } else {
            g.pool.remove(i).1
        }
    }
    fn find(&mut self, g: &Reg, t: &Type) -> Option<usize> {
        let c: Vec<usize> = (0..g.pool.len()).filter(|&i| &g.pool[i].0 == t).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.r.pick(&c))
        }
    }
    fn alloc(&mut self, g: &mut Reg) -> Wire {
        self.live += 1;
        if self.f.options && self.r.chance(0.15) {
            let op = if self.f.qsys && self.r.chance(0.5) { reg(QSystemOp::TryQAlloc) } else { reg(TketOp::TryQAlloc) };
            let n = self.add(g, op, &[]);
            return self.unwrap_opt(g, qb_t(), Self::out(n, 0));
        }
        let n = self.add(g, reg(TketOp::QAlloc), &[]);
        Self::out(n, 0)
    }
    pub fn panic_node(&mut self, g: &mut Reg, ins: Vec<(Type, Wire)>, outs: &[Type]) -> Node {
        self.names += 1;
        let (signal, m) = (self.r.below(3) as u32 * 500, self.r.below(3));
        let e = self.konst(g, Value::extension(ConstError { signal, message: format!("p{m}") }));
        let (ts, ws): (Vec<Type>, Vec<Wire>) = ins.into_iter().unzip();
        let name = if self.r.chance(0.3) { hugr::extension::prelude::EXIT_OP_ID } else { PANIC_OP_ID };
        let op = xop(
            &PRELUDE,
            name.as_str(),
            vec![
                TypeArg::List(ts.iter().cloned().map(TypeArg::from).collect()),
                TypeArg::List(outs.iter().cloned().map(TypeArg::from).collect()),
            ],
        );
        let mut w = vec![e];
        w.extend(ws);
        let n = self.add(g, op, &w);
        self.chain(g, n);
        n
    }
    /// Build a conditional; each case builder gets the region with `row ++ rest` as pool.
    pub fn conditional(
        &mut self,
        g: &mut Reg,
        pred: (Type, Wire),
        rest: &[(Type, Wire)],
        outs: &[Type],
        body: &mut dyn FnMut(&mut Self, &mut Reg, usize) -> Vec<Wire>,
    ) -> Node {
        let rows = sum_rows(&pred.0).unwrap();
        let rt: Vec<Type> = rest.iter().map(|x| x.0.clone()).collect();
        let op = ops::Conditional {
            sum_rows: rows.iter().map(|r| TypeRow::from(r.clone())).collect(),
            other_inputs: rt.clone().into(),
            outputs: outs.to_vec().into(),
        };
        let mut ws = vec![pred.1];
        ws.extend(rest.iter().map(|x| x.1));
        let n = self.add(g, op, &ws);
        let live0 = self.live;
        let (ml, mut best) = (self.meas_left, self.meas_left);
        let mut eff = false;
        for (i, row) in rows.iter().enumerate() {
            let mut ins = row.clone();
            ins.extend(rt.clone());
            let case = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(ins.clone(), outs.to_vec()) });
            let mut rg = self.region(case, &ins, outs);
            self.live = live0;
            self.meas_left = ml;
            self.depth += 1;
            let o = body(self, &mut rg, i);
            self.depth -= 1;
            best = best.min(self.meas_left);
            self.finish(&mut rg, &o);
            eff |= rg.effect;
        }
        self.meas_left = best;
        if eff {
            self.chain(g, n);
        }
        n
    }
    pub fn finish(&mut self, g: &mut Reg, outs: &[Wire]) {
        for (i, w) in outs.iter().enumerate() {
            self.h.connect(w.node(), w.source(), g.out, i);
        }
        // dead-code elimination keeps what the output depends on
        if let Some(l) = g.last {
            self.h.add_other_edge(l, g.out);
        }
    }
    fn unwrap_opt(&mut self, g: &mut Reg, t: Type, w: Wire) -> Wire {
        let outs = [t.clone()];
        let n = self.conditional(g, (opt_of(t), w), &[], &outs, &mut |p, rg, i| {
            if i == 0 {
                let k = p.panic_node(rg, vec![], &outs);
                rg.effect = false;
                vec![Self::out(k, 0)]
            } else {
                vec![rg.pool[0].1]
            }
        });
        Self::out(n, 0)
    }
    pub fn usize_const(&mut self, g: &mut Reg, k: u64) -> Wire {
        self.konst(g, Value::extension(ConstUsize::new(k)))
    }
    /// A usize below n most of the time.
    /// For operations that accept an index out of bounds.
    fn index_any(&mut self, g: &mut Reg, n: u64) -> Wire {
        if self.r.chance(0.25) {
            let k = n + self.r.below(2) as u64;
            return self.usize_const(g, k);
        }
        self.index(g, n)
    }
    fn index(&mut self, g: &mut Reg, n: u64) -> Wire {
        let hi = if self.f.risky && self.r.chance(0.08) { n + 2 } else { n };
        let k = self.r.below(hi.max(1) as usize) as u64;
        if self.f.ints && self.f.risky && self.r.chance(0.3) {
            // computed index
            let i = if let (Some(i), true) = (self.find(g, &int6()), self.r.chance(0.7)) {
                let a = g.pool[i].1;
                let m = self.konst(g, Value::extension(ConstInt::new_u(6, n.max(1)).unwrap()));
                let d = self.add(g, xop(&int_ops::EXTENSION, "imod_u", vec![ty_nat(6)]), &[a, m]);
                Self::out(d, 0)
            } else {
                self.konst(g, Value::extension(ConstInt::new_u(6, k).unwrap()))
            };
            let c = self.add(g, xop(&conversions::EXTENSION, "itousize", vec![]), &[i]);
            return Self::out(c, 0);
        }
        if let (Some(i), true) = (self.find(g, &usize_t()), self.f.risky && self.r.chance(0.1)) {
            return g.pool[i].1;
        }
        self.usize_const(g, k)
    }
    fn const_val(&mut self, t: &Type) -> Option<Value> {
        if t == &bool_t() {
            return Some(if self.r.chance(0.5) { Value::true_val() } else { Value::false_val() });
        }
        if t == &bool_type() {
            return Some(Value::extension(ConstBool::new(self.r.chance(0.5))));
        }
        if t == &int6() {
            let v = if self.r.chance(0.9) { self.r.below(6) as u64 } else { self.r.next() };
            return Some(Value::extension(ConstInt::new_u(6, v).unwrap()));
        }
        if t == &int_type(5) {
            return Some(Value::extension(ConstInt::new_u(5, 1 + self.r.below(100) as u64).unwrap()));
        }
        if t == &usize_t() {
            return Some(Value::extension(ConstUsize::new(self.r.below(4) as u64)));
        }
        if t == &float64_type() {
            return Some(Value::extension(ConstF64::new(((self.r.f() - 0.5) * 16.).round() / 4. + if self.r.chance(0.5) { 0.1 } else { 0. })));
        }
        if t == &rotation_type() {
            let a = if self.r.chance(0.5) { (self.r.f() - 0.5) * 4. } else { (self.r.below(17) as f64 - 8.) / 4. };
            return Some(Value::extension(ConstRotation::new(a).unwrap()));
        }
        if let Some((b, n, e)) = arr(t) {
            if !e.copyable() || n == 0 {
                return None;
            }
            let mut vs = vec![];
            for _ in 0..n {
                vs.push(self.const_val(&e)?);
            }
            return Some(if b { BArrayValue::new(e, vs).into() } else { ArrayValue::new(e, vs).into() });
        }
        if let Some(rows) = sum_rows(t) {
            let tag = self.r.below(rows.len());
            let mut vs = vec![];
            for t in &rows[tag] {
                vs.push(self.const_val(t)?);
            }
            let TypeEnum::Sum(s) = t.as_type_enum() else { return None };
            return Value::sum(tag, vs, s.clone()).ok();
        }
        None
    }
    /// A value of the type, from the pool or made for the purpose.
    pub fn synth(&mut self, g: &mut Reg, t: &Type) -> Wire {
        let p = if t.copyable() { 0.8 } else { 0.97 };
        if let Some(i) = self.find(g, t) {
            if self.r.chance(p) || t == &qb_t() {
                return self.take(g, i);
            }
        }
        // from an enclosing region
        if self.f.ext_edges && t.copyable() && self.r.chance(0.3) {
            let c: Vec<usize> = (0..self.outer.len()).filter(|&i| &self.outer[i].0 == t).collect();
            if !c.is_empty() {
                let (_, w, _) = self.outer[*self.r.pick(&c)].clone();
                return w;
            }
        }
        if t == &qb_t() {
            return self.alloc(g);
        }
        if (t.copyable() || self.r.chance(0.15)) && fut_of(t).is_none() {
            if let Some(v) = self.const_val(t) {
                return self.konst(g, v);
            }
        }
        if let Some((b, n, e)) = arr(t) {
            let ws: Vec<Wire> = (0..n).map(|_| self.synth(g, &e)).collect();
            let x = if b { &*borrow_array::EXTENSION } else { &*array::EXTENSION };
            let k = self.add(g, xop(x, "new_array", vec![ty_nat(n), e.into()]), &ws);
            return Self::out(k, 0);
        }
        if let Some(ft) = fut_of(t) {
            let q = self.synth(g, &qb_t());
            self.live = self.live.saturating_sub(1);
            self.spend_meas(1);
            let op = if ft == bool_t() { QSystemOp::LazyMeasure } else { QSystemOp::LazyMeasureLeaked };
            let k = self.add(g, reg(op), &[q]);
            return Self::out(k, 0);
        }
        if let Some(rows) = sum_rows(t) {
            let tag = self.r.below(rows.len());
            let ws: Vec<Wire> = rows[tag].clone().iter().map(|t| self.synth(g, t)).collect();
            let k = if rows.len() == 1 && self.r.chance(0.8) {
                self.add(g, MakeTuple::new(rows[0].clone().into()).to_extension_op().unwrap(), &ws)
            } else {
                let vs: Vec<TypeRow> = rows.iter().map(|r| r.clone().into()).collect();
                self.add(g, Tag::new(tag, vs), &ws)
            };
            return Self::out(k, 0);
        }
        panic!("cannot make a value of type {t}");
    }
    fn spend_meas(&mut self, k: usize) {
        self.meas_left = self.meas_left.saturating_sub(k * self.mult);
        self.meas_used += k;
    }
    fn can_meas(&self) -> bool {
        self.meas_left >= self.mult
    }
    /// Consume a value of any type.
    pub fn destroy(&mut self, g: &mut Reg, t: &Type, w: Wire) {
        if t.copyable() {
            return;
        }
        if t == &qb_t() {
            self.live = self.live.saturating_sub(1);
            if self.can_meas() && self.r.chance(0.5) {
                self.measure_free(g, w);
            } else {
                let op = if self.f.qsys && self.r.chance(0.3) { reg(QSystemOp::QFree) } else { reg(TketOp::QFree) };
                self.add(g, op, &[w]);
            }
            return;
        }
        if let Some((b, n, e)) = arr(t) {
            let x = if b { &*borrow_array::EXTENSION } else { &*array::EXTENSION };
            if !t.to_string().contains("qubit") && !has_fut(t) && self.f.drops && self.r.chance(0.4) {
                let op = GUPPY_EXTENSION.instantiate_extension_op(&DROP_OP_NAME, [t.clone().into()]).unwrap();
                self.add(g, op, &[w]);
                return;
            }
            if e.copyable() && self.r.chance(0.4) {
                self.add(g, xop(x, "discard", vec![ty_nat(n), e.into()]), &[w]);
                return;
            }
            if n == 0 && self.r.chance(0.5) {
                self.add(g, xop(x, "discard_empty", vec![e.into()]), &[w]);
                return;
            }
            let k = self.add(g, xop(x, "unpack", vec![ty_nat(n), e.clone().into()]), &[w]);
            for i in 0..n as usize {
                self.destroy(g, &e, Self::out(k, i));
            }
            return;
        }
        if fut_of(t).is_some() {
            let op = if self.r.chance(0.5) { FutureOpDef::Read } else { FutureOpDef::Free };
            let ft = fut_of(t).unwrap();
            let k = self.fut_op(g, op, &ft, w);
            if op == FutureOpDef::Read {
                g.pool.push((ft, Self::out(k, 0)));
            }
            return;
        }
        if let Some(rows) = sum_rows(t) {
            if rows.len() == 1 {
                let k = self.add(g, UnpackTuple::new(rows[0].clone().into()).to_extension_op().unwrap(), &[w]);
                for (i, t) in rows[0].clone().iter().enumerate() {
                    self.destroy(g, t, Self::out(k, i));
                }
            } else {
                self.conditional(g, (t.clone(), w), &[], &[], &mut |p, rg, _| {
                    while let Some((t, w)) = rg.pool.pop() {
                        p.destroy(rg, &t, w);
                    }
                    vec![]
                });
            }
            return;
        }
        panic!("cannot destroy a value of type {t}");
    }
    fn fut_op(&mut self, g: &mut Reg, op: FutureOpDef, t: &Type, w: Wire) -> Node {
        let name: &'static str = (&op).into();
        self.add(g, xop(&futures::EXTENSION, name, vec![t.clone().into()]), &[w])
    }
    fn measure_free(&mut self, g: &mut Reg, q: Wire) {
        self.spend_meas(1);
        let lazy = self.f.qsys && self.f.futures && self.r.chance(0.4);
        if lazy {
            let leak = self.r.chance(0.2) && self.f.ints;
            let op = if leak { QSystemOp::LazyMeasureLeaked } else { QSystemOp::LazyMeasure };
            let k = self.add(g, reg(op), &[q]);
            g.pool.push((future_type(if leak { int6() } else { bool_t() }), Self::out(k, 0)));
        } else if self.f.qsys && self.f.tbool && self.r.chance(0.4) {
            let k = self.add(g, reg(QSystemOp::Measure), &[q]);
            g.pool.push((bool_type(), Self::out(k, 0)));
        } else if self.f.tbool {
            let k = self.add(g, reg(TketOp::MeasureFree), &[q]);
            g.pool.push((bool_type(), Self::out(k, 0)));
        } else {
            let k = self.add(g, reg(TketOp::Measure), &[q]);
            g.pool.push((bool_t(), Self::out(k, 1)));
            self.add(g, reg(TketOp::QFree), &[Self::out(k, 0)]);
        }
    }
    fn put(g: &mut Reg, n: Node, ts: &[Type]) {
        for (i, t) in ts.iter().enumerate() {
            g.pool.push((t.clone(), Wire::new(n, i)));
        }
    }
    fn elem_types(&mut self) -> Vec<Type> {
        let mut v = vec![bool_t()];
        if self.f.tbool {
            v.push(bool_type());
            v.push(bool_type());
        }
        if self.f.ints {
            v.push(int6());
        }
        if self.f.floats {
            v.push(float64_type());
        }
        if self.f.rots {
            v.push(rotation_type());
        }
        v
    }
    /// A random type (with qubits only if allowed).
    pub fn rand_type(&mut self, d: usize, q: bool) -> Type {
        let mut k = vec![0usize; 0];
        k.extend([0, 0, 0]);
        if q {
            k.extend([1, 1]);
        }
        if d > 0 {
            if self.f.tuples {
                k.push(2);
            }
            if self.f.options {
                k.push(3);
            }
            if self.f.arrays {
                k.push(4);
            }
            if self.f.barrays {
                k.extend([5, 5]);
            }
            if self.f.futures && self.f.qsys {
                k.push(6);
            }
            if self.f.options {
                k.push(7);
            }
        }
        match *self.r.pick(&k) {
            0 => {
                let e = self.elem_types();
                self.r.pick(&e).clone()
            }
            1 => qb_t(),
            2 => {
                let n = self.r.range(0, 3);
                let row: Vec<Type> = (0..n).map(|_| self.rand_type(d - 1, q)).collect();
                Type::new_tuple(row)
            }
            3 => opt_of(self.rand_type(d - 1, q)),
            4 => {
                let n = *self.r.pick(&[0u64, 1, 2, 2, 3]);
                array_type(n, self.rand_type(d - 1, q && n < 3))
            }
            5 => {
                let n = *self.r.pick(&[0u64, 1, 2, 2, 3]);
                borrow_array_type(n, self.rand_type(d - 1, q && n < 3))
            }
            6 => future_type(bool_t()),
            _ => {
                let a: Vec<Type> = (0..self.r.below(3)).map(|_| self.rand_type(d - 1, q)).collect();
                let b: Vec<Type> = (0..self.r.below(2)).map(|_| self.rand_type(d - 1, q)).collect();
                SumType::new([a, b]).into()
            }
        }
    }
    fn max_qubits_in(t: &Type) -> usize {
        if t == &qb_t() {
            return 1;
        }
        if let Some((_, n, e)) = arr(t) {
            return n as usize * Self::max_qubits_in(&e);
        }
        if fut_of(t).is_some() {
            return 1;
        }
        if let Some(rows) = sum_rows(t) {
            return rows.iter().map(|r| r.iter().map(Self::max_qubits_in).sum::<usize>()).max().unwrap_or(0);
        }
        0
    }
    fn rot(&mut self, g: &mut Reg) -> Wire {
        if self.f.rots {
            self.synth(g, &rotation_type())
        } else {
            let v = self.const_val(&rotation_type()).unwrap();
            self.konst(g, v)
        }
    }
    fn get_q(&mut self, g: &mut Reg) -> Option<Wire> {
        match self.find(g, &qb_t()) {
            Some(i) => Some(self.take(g, i)),
            None if self.live < self.f.max_live && self.f.alloc_free => Some(self.alloc(g)),
            None => None,
        }
    }

    // ------------------------------------------------------------ statements
    fn stmt_gate(&mut self, g: &mut Reg) {
        let gates = self.f.gates.clone();
        let op = *self.r.pick(&gates);
        let k = super::circ::arity(op);
        let have = g.pool.iter().filter(|x| x.0 == qb_t()).count();
        let room = if self.f.alloc_free { self.f.max_live.saturating_sub(self.live) } else { 0 };
        if have + room < k {
            return;
        }
        let qs: Vec<Wire> = (0..k).map(|_| self.get_q(g).unwrap()).collect();
        if self.f.qsys && self.f.floats && self.r.chance(0.15) {
            let a = self.synth(g, &float64_type());
            let b = self.synth(g, &float64_type());
            if k == 2 {
                let n = self.add(g, reg(QSystemOp::ZZPhase), &[qs[0], qs[1], a]);
                Self::put(g, n, &[qb_t(), qb_t()]);
                return;
            } else if k == 1 {
                let n = if self.r.chance(0.5) {
                    self.add(g, reg(QSystemOp::PhasedX), &[qs[0], a, b])
                } else {
                    self.add(g, reg(QSystemOp::Rz), &[qs[0], a])
                };
                Self::put(g, n, &[qb_t()]);
                return;
            }
        }
        let mut ws = qs;
        if super::circ::has_angle(op) {
            ws.push(self.rot(g));
        }
        let n = self.add(g, reg(op), &ws);
        Self::put(g, n, &vec![qb_t(); k]);
    }
    fn stmt_qubit(&mut self, g: &mut Reg) {
        match self.r.below(7) {
            0 | 1 if self.live < self.f.max_live && self.f.alloc_free => {
                let w = self.alloc(g);
                g.pool.push((qb_t(), w));
            }
            2 if self.f.alloc_free => {
                if let Some(i) = self.find(g, &qb_t()) {
                    let w = self.take(g, i);
                    self.destroy(g, &qb_t(), w);
                }
            }
            3 => {
                if let Some(i) = self.find(g, &qb_t()) {
                    let w = self.take(g, i);
                    let op = if self.f.qsys && self.r.chance(0.3) { reg(QSystemOp::Reset) } else { reg(TketOp::Reset) };
                    let n = self.add(g, op, &[w]);
                    Self::put(g, n, &[qb_t()]);
                }
            }
            _ => {
                if !self.can_meas() {
                    return;
                }
                let Some(q) = self.get_q(g) else { return };
                self.spend_meas(1);
                match self.r.below(4) {
                    0 if self.f.qsys && self.f.tbool => {
                        let n = self.add(g, reg(QSystemOp::MeasureReset), &[q]);
                        Self::put(g, n, &[qb_t(), bool_type()]);
                    }
                    1 if self.f.qsys && self.f.futures => {
                        let n = self.add(g, reg(QSystemOp::LazyMeasureReset), &[q]);
                        Self::put(g, n, &[qb_t(), future_type(bool_t())]);
                    }
                    2 if self.f.alloc_free => {
                        self.meas_left += self.mult;
                        self.live = self.live.saturating_sub(1);
                        self.measure_free(g, q);
                    }
                    _ => {
                        let n = self.add(g, reg(TketOp::Measure), &[q]);
                        Self::put(g, n, &[qb_t(), bool_t()]);
                    }
                }
            }
        }
    }
    fn stmt_classical(&mut self, g: &mut Reg) {
        match self.r.below(9) {
            0 => {
                let a = self.synth(g, &bool_t());
                let b = self.synth(g, &bool_t());
                let (n, op) = match self.r.below(5) {
                    0 => (1, LogicOp::Not),
                    1 => (2, LogicOp::And),
                    2 => (2, LogicOp::Or),
                    3 => (2, LogicOp::Xor),
                    _ => (2, if self.f.logic_eq { LogicOp::Eq } else { LogicOp::Xor }),
                };
                let k = self.add(g, reg(op), &[a, b][..n]);
                Self::put(g, k, &[bool_t()]);
            }
            1 | 2 if self.f.tbool => {
                let a = self.synth(g, &bool_type());
                let b = self.synth(g, &bool_type());
                match self.r.below(7) {
                    0 => {
                        let k = self.add(g, reg(BoolOp::read), &[a]);
                        Self::put(g, k, &[bool_t()]);
                    }
                    1 => {
                        let x = self.synth(g, &bool_t());
                        let k = self.add(g, reg(BoolOp::make_opaque), &[x]);
                        Self::put(g, k, &[bool_type()]);
                    }
                    2 => {
                        let k = self.add(g, reg(BoolOp::not), &[a]);
                        Self::put(g, k, &[bool_type()]);
                    }
                    i => {
                        let op = [BoolOp::and, BoolOp::or, BoolOp::xor, BoolOp::eq][i - 3];
                        let k = self.add(g, reg(op), &[a, b]);
                        Self::put(g, k, &[bool_type()]);
                    }
                }
            }
            3 | 4 if self.f.ints => {
                let a = self.synth(g, &int6());
                let b = self.synth(g, &int6());
                match self.r.below(5) {
                    0 | 1 => {
                        let op = *self.r.pick(&["iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imin_s", "ishl", "ishr"]);
                        let b = if op.starts_with("ish") { self.konst(g, Value::extension(ConstInt::new_u(6, 1).unwrap())) } else { b };
                        let k = self.add(g, xop(&int_ops::EXTENSION, op, vec![ty_nat(6)]), &[a, b]);
                        Self::put(g, k, &[int6()]);
                    }
                    2 | 3 => {
                        let op = *self.r.pick(&["ieq", "ine", "ilt_u", "igt_s", "ile_s", "ige_u"]);
                        let k = self.add(g, xop(&int_ops::EXTENSION, op, vec![ty_nat(6)]), &[a, b]);
                        Self::put(g, k, &[bool_t()]);
                    }
                    _ => {
                        let op = *self.r.pick(&["idiv_u", "imod_u", "idiv_s", "imod_s"]);
                        let b = if self.f.risky && self.f.panics && self.r.chance(0.15) {
                            b
                        } else {
                            let v = 1 + self.r.below(4) as u64;
                            self.konst(g, Value::extension(ConstInt::new_u(6, v).unwrap()))
                        };
                        let k = self.add(g, xop(&int_ops::EXTENSION, op, vec![ty_nat(6)]), &[a, b]);
                        self.chain(g, k);
                        Self::put(g, k, &[int6()]);
                    }
                }
            }
            5 if self.f.floats => {
                let a = self.synth(g, &float64_type());
                let b = self.synth(g, &float64_type());
                match self.r.below(4) {
                    0 => {
                        let op = *self.r.pick(&["flt", "fge", "feq"]);
                        let k = self.add(g, xop(&float_ops::EXTENSION, op, vec![]), &[a, b]);
                        Self::put(g, k, &[bool_t()]);
                    }
                    1 => {
                        let op = *self.r.pick(&["fneg", "fabs", "ffloor"]);
                        let k = self.add(g, xop(&float_ops::EXTENSION, op, vec![]), &[a]);
                        Self::put(g, k, &[float64_type()]);
                    }
                    _ => {
                        let op = *self.r.pick(&["fadd", "fsub", "fmul", "fmin"]);
                        let k = self.add(g, xop(&float_ops::EXTENSION, op, vec![]), &[a, b]);
                        Self::put(g, k, &[float64_type()]);
                    }
                }
            }
            6 if self.f.rots => match self.r.below(4) {
                0 if self.f.floats => {
                    let a = self.synth(g, &rotation_type());
                    let k = self.add(g, reg(RotationOp::to_halfturns), &[a]);
                    Self::put(g, k, &[float64_type()]);
                }
                1 if self.f.floats => {
                    let a = self.synth(g, &float64_type());
                    if self.f.options && self.r.chance(0.4) {
                        let k = self.add(g, reg(RotationOp::from_halfturns), &[a]);
                        Self::put(g, k, &[opt_of(rotation_type())]);
                    } else {
                        let k = self.add(g, reg(RotationOp::from_halfturns_unchecked), &[a]);
                        self.chain(g, k);
                        Self::put(g, k, &[rotation_type()]);
                    }
                }
                _ => {
                    let a = self.synth(g, &rotation_type());
                    let b = self.synth(g, &rotation_type());
                    let k = self.add(g, reg(RotationOp::radd), &[a, b]);
                    Self::put(g, k, &[rotation_type()]);
                }
            },
            7 if self.f.ints => match self.r.below(4) {
                0 => {
                    let a = self.synth(g, &bool_t());
                    let k = self.add(g, xop(&conversions::EXTENSION, "ifrombool", vec![]), &[a]);
                    let k = self.add(g, xop(&int_ops::EXTENSION, "iwiden_u", vec![ty_nat(0), ty_nat(6)]), &[Self::out(k, 0)]);
                    Self::put(g, k, &[int6()]);
                }
                1 if self.f.floats => {
                    let a = self.synth(g, &int6());
                    let k = self.add(g, xop(&conversions::EXTENSION, "convert_u", vec![ty_nat(6)]), &[a]);
                    Self::put(g, k, &[float64_type()]);
                }
                2 => {
                    let a = self.synth(g, &usize_t());
                    let k = self.add(g, xop(&conversions::EXTENSION, "ifromusize", vec![]), &[a]);
                    Self::put(g, k, &[int6()]);
                }
                _ => {
                    let a = self.synth(g, &int6());
                    let k = self.add(g, xop(&conversions::EXTENSION, "itousize", vec![]), &[a]);
                    Self::put(g, k, &[usize_t()]);
                }
            },
            _ => {
                // read a future
                let c: Vec<usize> = (0..g.pool.len()).filter(|&i| fut_of(&g.pool[i].0).is_some()).collect();
                if !c.is_empty() {
                    let i = *self.r.pick(&c);
                    let t = fut_of(&g.pool[i].0).unwrap();
                    let w = self.take(g, i);
                    if self.r.chance(0.3) {
                        let k = self.fut_op(g, FutureOpDef::Dup, &t, w);
                        Self::put(g, k, &[future_type(t.clone()), future_type(t)]);
                    } else {
                        let k = self.fut_op(g, FutureOpDef::Read, &t, w);
                        Self::put(g, k, &[t]);
                    }
                }
            }
        }
    }
    fn stmt_container(&mut self, g: &mut Reg) {
        match self.r.below(4) {
            // pack some values
            0 if self.f.tuples => {
                let n = self.r.range(1, 3).min(g.pool.len());
                let mut row = vec![];
                let mut ws = vec![];
                for _ in 0..n {
                    if g.pool.is_empty() {
                        break;
                    }
                    let i = self.r.below(g.pool.len());
                    row.push(g.pool[i].0.clone());
                    ws.push(self.take(g, i));
                }
                let k = self.add(g, MakeTuple::new(row.clone().into()).to_extension_op().unwrap(), &ws);
                g.pool.push((Type::new_tuple(row), Self::out(k, 0)));
            }
            1 if self.f.tuples => {
                let c: Vec<usize> =
                    (0..g.pool.len()).filter(|&i| sum_rows(&g.pool[i].0).is_some_and(|r| r.len() == 1)).collect();
                if !c.is_empty() {
                    let i = *self.r.pick(&c);
                    let row = sum_rows(&g.pool[i].0).unwrap().remove(0);
                    let w = self.take(g, i);
                    let k = self.add(g, UnpackTuple::new(row.clone().into()).to_extension_op().unwrap(), &[w]);
                    Self::put(g, k, &row);
                }
            }
            2 => {
                let t = self.rand_type(2, true);
                if Self::max_qubits_in(&t) + self.live > self.f.max_live + 1 || !self.f.alloc_free && Self::max_qubits_in(&t) > 0 {
                    return;
                }
                let w = self.synth(g, &t);
                g.pool.push((t, w));
            }
            _ => {
                // drop something linear
                let c: Vec<usize> = (0..g.pool.len()).filter(|&i| !g.pool[i].0.copyable() && g.pool[i].0 != qb_t()).collect();
                if !c.is_empty() {
                    let i = *self.r.pick(&c);
                    let t = g.pool[i].0.clone();
                    if !self.f.alloc_free && has_qubit(&t) {
                        return;
                    }
                    let w = self.take(g, i);
                    self.destroy(g, &t, w);
                }
            }
        }
    }
    fn stmt_array(&mut self, g: &mut Reg) {
        let c: Vec<usize> = (0..g.pool.len()).filter(|&i| arr(&g.pool[i].0).is_some()).collect();
        if c.is_empty() || self.r.chance(0.2) {
            let q = self.r.chance(0.4) && self.f.alloc_free;
            let d = if self.r.chance(0.2) { 1 } else { 0 };
            let e = self.rand_type(d, q);
            let n = *self.r.pick(&[1u64, 2, 2, 3]);
            let b = if self.f.barrays && self.f.arrays { self.r.chance(0.6) } else { self.f.barrays };
            let t = if b { borrow_array_type(n, e) } else { array_type(n, e) };
            if self.live + Self::max_qubits_in(&t) > self.f.max_live + 2 {
                return;
            }
            let w = self.synth(g, &t);
            g.pool.push((t, w));
            return;
        }
        let i = *self.r.pick(&c);
        let t = g.pool[i].0.clone();
        let (b, n, e) = arr(&t).unwrap();
        let x = if b { &*borrow_array::EXTENSION } else { &*array::EXTENSION };
        let args = vec![ty_nat(n), e.clone().into()];
        let borrowable = b && n > 0;
        let k = self.r.below(if borrowable { 14 } else { 8 });
        match k {
            0 if e.copyable() && n > 0 && (b || self.f.tbool_get || !e.to_string().contains("bool")) => {
                let a = self.take(g, i);
                let ix = self.index_any(g, n);
                let k = self.add(g, xop(x, "get", args), &[a, ix]);
                self.chain(g, k);
                Self::put(g, k, &[opt_of(e.clone()), t]);
            }
            1 if n > 0 => {
                let a = self.take(g, i);
                let v = self.synth_lin(g, &e);
                let Some(v) = v else {
                    g.pool.push((t, a));
                    return;
                };
                let ix = self.index_any(g, n);
                let k = self.add(g, xop(x, "set", args), &[a, ix, v]);
                self.chain(g, k);
                let rows = vec![vec![e.clone(), t.clone()]; 2];
                let st: Type = SumType::new(rows).into();
                let outs = [e.clone(), t.clone()];
                let merge = self.r.chance(0.5);
                let c = self.conditional(g, (st, Self::out(k, 0)), &[], &outs, &mut |p, rg, i| {
                    if i == 0 && !merge {
                        let items = std::mem::take(&mut rg.pool);
                        let k = p.panic_node(rg, items, &outs);
                        vec![Self::out(k, 0), Self::out(k, 1)]
                    } else {
                        vec![rg.pool[0].1, rg.pool[1].1]
                    }
                });
                Self::put(g, c, &outs);
            }
            2 if n > 0 => {
                let a = self.take(g, i);
                let i1 = self.index_any(g, n);
                let i2 = self.index_any(g, n);
                let k = self.add(g, xop(x, "swap", args), &[a, i1, i2]);
                self.chain(g, k);
                let st: Type = SumType::new(vec![vec![t.clone()]; 2]).into();
                let outs = [t.clone()];
                let c = self.conditional(g, (st, Self::out(k, 0)), &[], &outs, &mut |_, rg, _| vec![rg.pool[0].1]);
                Self::put(g, c, &outs);
            }
            3 if n > 0 => {
                let a = self.take(g, i);
                let op = if self.r.chance(0.5) { "pop_left" } else { "pop_right" };
                let k = self.add(g, xop(x, op, args), &[a]);
                let rest = if b { borrow_array_type(n - 1, e.clone()) } else { array_type(n - 1, e.clone()) };
                let outs = [e.clone(), rest];
                let st: Type = SumType::new(vec![vec![], outs.to_vec()]).into();
                let c = self.conditional(g, (st, Self::out(k, 0)), &[], &outs, &mut |p, rg, i| {
                    if i == 0 {
                        let k = p.panic_node(rg, vec![], &outs);
                        vec![Self::out(k, 0), Self::out(k, 1)]
                    } else {
                        vec![rg.pool[0].1, rg.pool[1].1]
                    }
                });
                Self::put(g, c, &outs);
            }
            4 => {
                let a = self.take(g, i);
                let k = self.add(g, xop(x, "unpack", args), &[a]);
                Self::put(g, k, &vec![e; n as usize]);
            }
            5 if e.copyable() => {
                let a = self.take(g, i);
                let k = self.add(g, xop(x, "clone", args), &[a]);
                Self::put(g, k, &[t.clone(), t]);
            }
            6 if self.f.arrays && self.f.barrays => {
                let a = self.take(g, i);
                // conversions are defined in the borrow array extension
                let (op, t2) = if b { ("to_array", array_type(n, e.clone())) } else { ("from_array", borrow_array_type(n, e.clone())) };
                let k = self.add(g, xop(&borrow_array::EXTENSION, op, args), &[a]);
                Self::put(g, k, &[t2]);
            }
            7 if self.f.calls && e.copyable() && n > 0 => self.scan(g, i),
            8..=13 if borrowable => {
                let a = self.take(g, i);
                self.borrow_block(g, t, a, n, e);
            }
            _ => {}
        }
    }
    fn synth_lin(&mut self, g: &mut Reg, t: &Type) -> Option<Wire> {
        if !self.f.alloc_free && has_qubit(t) && self.find(g, t).is_none() {
            return None;
        }
        if Self::max_qubits_in(t) + self.live > self.f.max_live + 2 && self.find(g, t).is_none() {
            return None;
        }
        Some(self.synth(g, t))
    }
    /// Map a function over the array.
    fn scan(&mut self, g: &mut Reg, i: usize) {
        let t = g.pool[i].0.clone();
        let (b, n, e) = arr(&t).unwrap();
        let a = self.take(g, i);
        let e2 = {
            let v = self.elem_types();
            self.r.pick(&v).clone()
        };
        let acc: Vec<Type> = if self.r.chance(0.5) { vec![] } else { vec![bool_t()] };
        let mut ins = vec![e.clone()];
        ins.extend(acc.clone());
        let mut outs = vec![e2.clone()];
        outs.extend(acc.clone());
        let sig = Signature::new(ins, outs);
        let f = self.small_fun(&sig);
        let lf = self.load_fun(g, f, &sig);
        let x = if b { &*borrow_array::EXTENSION } else { &*array::EXTENSION };
        let op = xop(
            x,
            "scan",
            vec![ty_nat(n), e.into(), e2.clone().into(), TypeArg::List(acc.iter().cloned().map(TypeArg::from).collect())],
        );
        let mut ws = vec![a, lf];
        for t in &acc {
            let w = self.synth(g, t);
            ws.push(w);
        }
        let k = self.add(g, op, &ws);
        let t2 = if b { borrow_array_type(n, e2) } else { array_type(n, e2) };
        g.pool.push((t2, Self::out(k, 0)));
        for (j, t) in acc.iter().enumerate() {
            g.pool.push((t.clone(), Self::out(k, 1 + j)));
        }
    }
    pub fn load_fun(&mut self, g: &mut Reg, f: Node, sig: &Signature) -> Wire {
        let op = LoadFunction::try_new(PolyFuncType::from(sig.clone()), vec![]).unwrap();
        let l = self.h.add_node_with_parent(g.node, op);
        self.h.connect(f, 0, l, 0);
        Wire::new(l, 0)
    }
    /// A pure classical helper function.
    fn small_fun(&mut self, sig: &Signature) -> Node {
        let saved = self.f.clone();
        self.f.ext_edges = false;
        let name = self.fresh("h");
        let n = self.h.add_node_with_parent(self.h.module_root(), FuncDefn::new(name, PolyFuncType::from(sig.clone())));
        let mut g = self.region(n, sig.input(), sig.output());
        let mut outer = std::mem::take(&mut self.outer);
        let ml = std::mem::replace(&mut self.meas_left, 0);
        for _ in 0..self.r.below(3) {
            self.f.risky = false;
            self.f.panics = false;
            self.stmt_classical(&mut g);
        }
        self.f = saved;
        self.close(&mut g, sig.output());
        self.meas_left = ml;
        std::mem::swap(&mut outer, &mut self.outer);
        n
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.names += 1;
        format!("{p}{}", self.names)
    }
    /// borrow some elements, use them, put them back.
    fn borrow_block(&mut self, g: &mut Reg, t: Type, a: Wire, n: u64, e: Type) {
        let args = || vec![ty_nat(n), e.clone().into()];
        let x = &*borrow_array::EXTENSION;
        let mut a = a;
        // (index value, index wire, element)
        let mut held: Vec<(u64, Wire, Wire)> = vec![];
        let dynamic = self.f.ints && self.f.risky && self.r.chance(0.4);
        let mut order: Vec<u64> = (0..n).collect();
        self.r.shuffle(&mut order);
        let cap = self.r.range(1, 4);
        let mut shared: Vec<(u64, Wire)> = vec![];
        let mut mk_index = |p: &mut Self, g: &mut Reg, k: u64| -> Wire {
            if p.r.chance(0.4) {
                if let Some(s) = shared.iter().find(|s| s.0 == k) {
                    return s.1;
                }
            }
            let w = if dynamic && p.r.chance(0.7) {
                let w = p.konst(g, Value::extension(ConstInt::new_u(6, k).unwrap()));
                let w = if p.r.chance(0.4) {
                    let z = p.konst(g, Value::extension(ConstInt::new_u(6, 0).unwrap()));
                    let s = p.add(g, xop(&int_ops::EXTENSION, "iadd", vec![ty_nat(6)]), &[w, z]);
                    Self::out(s, 0)
                } else {
                    w
                };
                let c = p.add(g, xop(&conversions::EXTENSION, "itousize", vec![]), &[w]);
                Self::out(c, 0)
            } else {
                p.usize_const(g, k)
            };
            shared.push((k, w));
            w
        };
        for _ in 0..self.r.range(1, 8) {
            match self.r.below(6) {
                0 | 1 if held.len() < cap => {
                    let free: Vec<u64> = (0..n).filter(|k| !held.iter().any(|h| h.0 == *k)).collect();
                    let bad = self.f.panics && self.f.risky && self.r.chance(0.02);
                    if free.is_empty() && !bad {
                        continue;
                    }
                    let k = if bad { self.r.below(n as usize + 1) as u64 } else { *self.r.pick(&free) };
                    let ix = mk_index(self, g, k);
                    let b = self.add(g, xop(x, "borrow", args()), &[a, ix]);
                    self.chain(g, b);
                    a = Self::out(b, 0);
                    held.push((k, ix, Self::out(b, 1)));
                }
                2 if !held.is_empty() => {
                    let j = self.r.below(held.len());
                    let (k, ix, w) = held.remove(j);
                    let ix = if self.r.chance(0.6) { ix } else { mk_index(self, g, k) };
                    let b = self.add(g, xop(x, "return", args()), &[a, ix, w]);
                    self.chain(g, b);
                    a = Self::out(b, 0);
                }
                3 if held.len() > 1 => {
                    // elements trade places
                    let j = self.r.below(held.len() - 1);
                    let w = held[j].2;
                    held[j].2 = held[j + 1].2;
                    held[j + 1].2 = w;
                }
                4 if e == qb_t() && !held.is_empty() => {
                    if held.len() > 1 && self.r.chance(0.5) {
                        let k = self.add(g, reg(TketOp::CX), &[held[0].2, held[1].2]);
                        held[0].2 = Self::out(k, 0);
                        held[1].2 = Self::out(k, 1);
                    } else {
                        let op = *self.r.pick(&[TketOp::H, TketOp::T, TketOp::X]);
                        let j = self.r.below(held.len());
                        let k = self.add(g, reg(op), &[held[j].2]);
                        held[j].2 = Self::out(k, 0);
                    }
                }
                4 if !held.is_empty() && e.copyable() => {
                    let j = self.r.below(held.len());
                    g.pool.push((e.clone(), held[j].2));
                    if self.r.chance(0.5) {
                        held[j].2 = self.synth(g, &e);
                    }
                }
                5 if self.r.chance(0.3) => {
                    let k = self.r.below(n as usize) as u64;
                    let ix = mk_index(self, g, k);
                    let b = self.add(g, xop(x, "is_borrowed", args()), &[a, ix]);
                    self.chain(g, b);
                    a = Self::out(b, 0);
                    g.pool.push((bool_t(), Self::out(b, 1)));
                }
                _ => {}
            }
        }
        // give everything back, sometimes at swapped positions
        if held.len() > 1 && self.r.chance(0.3) {
            let w = held[0].2;
            held[0].2 = held[1].2;
            held[1].2 = w;
        }
        self.r.shuffle(&mut held);
        for (k, ix, w) in held {
            let ix = if self.r.chance(0.6) { ix } else { mk_index(self, g, k) };
            let b = self.add(g, xop(x, "return", args()), &[a, ix, w]);
            self.chain(g, b);
            a = Self::out(b, 0);
        }
        g.pool.push((t, a));
    }
    fn stmt_effect(&mut self, g: &mut Reg) {
        self.tags += 1;
        let tag = format!("t{}", self.tags);
        match self.r.below(8) {
            0 if self.f.ints => {
                let w = self.synth(g, &int6());
                let op = if self.r.chance(0.5) { ResultOp::new_int(tag, 6) } else { ResultOp::new_uint(tag, 6) };
                let n = self.add(g, OpType::from(op.to_extension_op().unwrap()), &[w]);
                self.chain(g, n);
            }
            1 if self.f.floats => {
                let w = self.synth(g, &float64_type());
                let n = self.add(g, OpType::from(ResultOp::new_f64(tag).to_extension_op().unwrap()), &[w]);
                self.chain(g, n);
            }
            2 if self.f.arrays => {
                let n = self.r.range(1, 3) as u64;
                let (e, op) = match self.r.below(3) {
                    0 if self.f.ints => (int6(), ResultOp::new_int(tag, 6)),
                    1 if self.f.floats => (float64_type(), ResultOp::new_f64(tag)),
                    _ => (bool_t(), ResultOp::new_bool(tag)),
                };
                let w = self.synth(g, &array_type(n, e));
                let n = self.add(g, OpType::from(op.array_op(n).to_extension_op().unwrap()), &[w]);
                self.chain(g, n);
            }
            3 if self.f.panics && self.depth > 0 && self.r.chance(0.5) => {
                // conditional panic
                let b = self.synth(g, &bool_t());
                self.conditional(g, (bool_t(), b), &[], &[], &mut |p, rg, i| {
                    if i == 1 {
                        p.panic_node(rg, vec![], &[]);
                    }
                    vec![]
                });
            }
            4 if self.f.rng && self.f.ints && self.f.options => self.rng_block(g),
            5 if self.f.state && self.f.arrays => {
                let n = self.r.range(1, 2) as u64;
                let t = array_type(n, qb_t());
                if let Some(w) = self.synth_lin(g, &t) {
                    let op = xop(&tket::extension::debug::DEBUG_EXTENSION, "StateResult", vec![TypeArg::String(tag), ty_nat(n)]);
                    let k = self.add(g, op, &[w]);
                    self.chain(g, k);
                    g.pool.push((t, Self::out(k, 0)));
                }
            }
            6 if self.f.barriers => self.barrier(g),
            _ => {
                let w = self.synth(g, &bool_t());
                let n = self.add(g, OpType::from(ResultOp::new_bool(tag).to_extension_op().unwrap()), &[w]);
                self.chain(g, n);
            }
        }
    }
    fn report_all(&mut self, g: &mut Reg) {
        for (t, w) in g.pool.clone() {
            if !self.r.chance(0.6) {
                continue;
            }
            self.tags += 1;
            let tag = format!("t{}", self.tags);
            let (w, op) = if t == bool_t() {
                (w, ResultOp::new_bool(tag))
            } else if t == bool_type() {
                let k = self.add(g, reg(BoolOp::read), &[w]);
                (Self::out(k, 0), ResultOp::new_bool(tag))
            } else if t == int6() {
                (w, ResultOp::new_int(tag, 6))
            } else if t == float64_type() {
                (w, ResultOp::new_f64(tag))
            } else {
                continue;
            };
            let n = self.add(g, OpType::from(op.to_extension_op().unwrap()), &[w]);
            self.chain(g, n);
        }
    }
    fn barrier(&mut self, g: &mut Reg) {
        let n = self.r.range(1, 4).min(g.pool.len());
        let mut ts = vec![];
        let mut ws = vec![];
        for _ in 0..n {
            if g.pool.is_empty() {
                break;
            }
            let i = self.r.below(g.pool.len());
            // arrays of qubit options are assumed to be full by barriers
            if has_opt_array(&g.pool[i].0) {
                continue;
            }
            ts.push(g.pool[i].0.clone());
            ws.push(self.take(g, i));
        }
        if ts.is_empty() {
            return;
        }
        let k = self.add(g, OpType::from(Barrier::new(ts.clone()).to_extension_op().unwrap()), &ws);
        Self::put(g, k, &ts);
    }
    fn rng_block(&mut self, g: &mut Reg) {
        let s = self.synth(g, &int6());
        let n = self.add(g, reg(RandomOp::NewRNGContext), &[s]);
        self.chain(g, n);
        let ct = {
            let e = RandomOp::NewRNGContext.to_extension_op().unwrap();
            let sig = e.signature().into_owned();
            sum_rows(&sig.output()[0]).unwrap()[1][0].clone()
        };
        let mut c = self.unwrap_opt(g, ct, Self::out(n, 0));
        for _ in 0..self.r.range(0, 3) {
            match self.r.below(4) {
                0 if self.f.floats => {
                    let k = self.add(g, reg(RandomOp::RandomFloat), &[c]);
                    self.chain(g, k);
                    g.pool.push((float64_type(), Self::out(k, 0)));
                    c = Self::out(k, 1);
                }
                1 => {
                    let b = self.synth(g, &int_type(5));
                    let k = self.add(g, reg(RandomOp::RandomIntBounded), &[c, b]);
                    self.chain(g, k);
                    let k2 = self.add(g, xop(&int_ops::EXTENSION, "iwiden_u", vec![ty_nat(5), ty_nat(6)]), &[Self::out(k, 0)]);
                    g.pool.push((int6(), Self::out(k2, 0)));
                    c = Self::out(k, 1);
                }
                2 => {
                    let d = self.synth(g, &int6());
                    let k = self.add(g, reg(RandomOp::RandomAdvance), &[c, d]);
                    self.chain(g, k);
                    c = Self::out(k, 0);
                }
                _ => {
                    let k = self.add(g, reg(RandomOp::RandomInt), &[c]);
                    self.chain(g, k);
                    g.pool.push((int_type(5), Self::out(k, 0)));
                    c = Self::out(k, 1);
                }
            }
        }
        let k = self.add(g, reg(RandomOp::DeleteRNGContext), &[c]);
        self.chain(g, k);
    }
    /// Take a few values out of the pool to feed a nested region.
    fn some_inputs(&mut self, g: &mut Reg) -> Vec<(Type, Wire)> {
        let mut out = vec![];
        for _ in 0..self.r.below(4) {
            if g.pool.is_empty() {
                break;
            }
            let i = self.r.below(g.pool.len());
            let t = g.pool[i].0.clone();
            out.push((t, self.take(g, i)));
        }
        out
    }
    /// Output types of a nested region: the linear inputs mostly survive.
    fn some_outputs(&mut self, ins: &[Type]) -> Vec<Type> {
        let mut out: Vec<Type> = vec![];
        for t in ins {
            if !t.copyable() && (!self.f.alloc_free && has_qubit(t) || self.r.chance(0.85)) || t.copyable() && self.r.chance(0.4) {
                out.push(t.clone());
            }
        }
        for _ in 0..self.r.below(3) {
            let t = self.rand_type(1, false);
            if fut_of(&t).is_none() && !has_fut(&t) {
                out.push(t);
            }
        }
        self.r.shuffle(&mut out);
        out
    }
    /// Fill the region with statements and produce the outputs.
    pub fn body(&mut self, g: &mut Reg, outs: &[Type], n: usize) -> Vec<Wire> {
        self.depth += 1;
        for _ in 0..n {
            self.stmt(g);
        }
        self.depth -= 1;
        self.collect(g, outs)
    }
    fn collect(&mut self, g: &mut Reg, outs: &[Type]) -> Vec<Wire> {
        // linear ones first, then clean up the rest
        let mut ws: Vec<Option<Wire>> = vec![None; outs.len()];
        let mut order: Vec<usize> = (0..outs.len()).collect();
        order.sort_by_key(|&i| outs[i].copyable());
        for i in order {
            // an output may not come from an enclosing region
            let o = std::mem::take(&mut self.outer);
            ws[i] = Some(self.synth(g, &outs[i]));
            self.outer = o;
        }
        while let Some(i) = (0..g.pool.len()).find(|&i| !g.pool[i].0.copyable()) {
            let (t, w) = g.pool.remove(i);
            self.destroy(g, &t, w);
        }
        ws.into_iter().map(|w| w.unwrap()).collect()
    }
    fn close(&mut self, g: &mut Reg, outs: &[Type]) {
        let ws = self.collect(g, outs);
        self.finish(g, &ws);
    }
    fn enter(&mut self, g: &Reg) -> usize {
        let k = self.outer.len();
        if self.f.ext_edges {
            for (t, w) in &g.pool {
                if t.copyable() && self.r.chance(0.5) {
                    self.outer.push((t.clone(), *w, g.node));
                }
            }
        }
        k
    }
    fn leave(&mut self, k: usize) {
        self.outer.truncate(k);
    }
    fn stmt_nested(&mut self, g: &mut Reg) {
        if self.depth >= self.f.depth {
            return;
        }
        let mut kinds = vec![];
        if self.f.dfg {
            kinds.push(0);
        }
        if self.f.cond {
            kinds.extend([1, 1]);
        }
        if self.f.loops {
            kinds.push(2);
        }
        if self.f.cfg {
            kinds.push(3);
        }
        if self.f.calls {
            kinds.extend([4, 4]);
        }
        if kinds.is_empty() {
            return;
        }
        let n = self.r.range(0, 5);
        match *self.r.pick(&kinds) {
            0 => {
                let ins = self.some_inputs(g);
                let it: Vec<Type> = ins.iter().map(|x| x.0.clone()).collect();
                let outs = self.some_outputs(&it);
                let ws: Vec<Wire> = ins.iter().map(|x| x.1).collect();
                let k = self.add(g, DFG { signature: Signature::new(it.clone(), outs.clone()) }, &ws);
                let o = self.enter(g);
                let mut rg = self.region(k, &it, &outs);
                let ows = self.body(&mut rg, &outs, n);
                self.finish(&mut rg, &ows);
                self.leave(o);
                if rg.effect {
                    self.chain(g, k);
                }
                Self::put(g, k, &outs);
            }
            1 => {
                let c: Vec<usize> = (0..g.pool.len()).filter(|&i| sum_rows(&g.pool[i].0).is_some()).collect();
                let pred = if c.is_empty() || self.r.chance(0.4) {
                    if self.f.tbool && self.r.chance(0.5) {
                        let b = self.synth(g, &bool_type());
                        let k = self.add(g, reg(BoolOp::read), &[b]);
                        (bool_t(), Self::out(k, 0))
                    } else {
                        (bool_t(), self.synth(g, &bool_t()))
                    }
                } else {
                    let i = *self.r.pick(&c);
                    let t = g.pool[i].0.clone();
                    (t, self.take(g, i))
                };
                let rest = self.some_inputs(g);
                let mut it: Vec<Type> = rest.iter().map(|x| x.0.clone()).collect();
                let rows = sum_rows(&pred.0).unwrap();
                if !self.f.alloc_free {
                    // every case must be able to deliver the qubits
                    if rows.iter().any(|r| r.iter().any(has_qubit)) && rows.len() > 1 {
                        g.pool.push(pred);
                        g.pool.extend(rest.into_iter().filter(|x| !x.0.copyable()));
                        return;
                    }
                    it.extend(rows[0].iter().filter(|_| rows.len() == 1).cloned());
                }
                let outs = self.some_outputs(&it);
                let o = self.enter(g);
                let k = self.conditional(g, pred, &rest, &outs, &mut |p, rg, _| {
                    p.depth -= 1;
                    let n = p.r.range(0, 4);
                    if p.f.panics && p.r.chance(0.06) {
                        let items: Vec<(Type, Wire)> = std::mem::take(&mut rg.pool).into_iter().filter(|x| !x.0.copyable()).collect();
                        let k = p.panic_node(rg, items, &outs);
                        p.depth += 1;
                        return (0..outs.len()).map(|i| Self::out(k, i)).collect();
                    }
                    let r = p.body(rg, &outs, n);
                    p.depth += 1;
                    r
                });
                self.leave(o);
                Self::put(g, k, &outs);
            }
            2 => self.tail_loop(g, n),
            3 => self.cfg(g),
            _ => self.call(g),
        }
    }
    fn int_const(&mut self, g: &mut Reg, v: u64) -> Wire {
        self.konst(g, Value::extension(ConstInt::new_u(6, v).unwrap()))
    }
    fn tail_loop(&mut self, g: &mut Reg, n: usize) {
        let ins: Vec<(Type, Wire)> = self.some_inputs(g);
        let rest_t: Vec<Type> = ins.iter().map(|x| x.0.clone()).collect();
        let extra: Vec<Type> = if self.r.chance(0.4) { vec![self.rand_type(0, false)] } else { vec![] };
        let jin = vec![int6()];
        let op = TailLoop {
            just_inputs: jin.clone().into(),
            just_outputs: extra.clone().into(),
            rest: rest_t.clone().into(),
        };
        let c0 = self.int_const(g, 0);
        let mut ws = vec![c0];
        ws.extend(ins.iter().map(|x| x.1));
        let k = self.add(g, op, &ws);
        let trips = self.r.range(1, 3);
        let o = self.enter(g);
        let mut rin = jin.clone();
        rin.extend(rest_t.clone());
        let pred: Type = SumType::new([jin.clone(), extra.clone()]).into();
        let mut rout = vec![pred.clone()];
        rout.extend(rest_t.clone());
        let mut rg = self.region(k, &rin, &rout);
        let counter = rg.pool.remove(0).1;
        self.mult *= trips;
        let live0 = self.live;
        let rws = self.body(&mut rg, &rest_t, n);
        self.mult /= trips;
        let one = self.int_const(&mut rg, 1);
        let inc = self.add(&mut rg, xop(&int_ops::EXTENSION, "iadd", vec![ty_nat(6)]), &[counter, one]);
        let lim = self.int_const(&mut rg, trips as u64);
        let cmp = self.add(&mut rg, xop(&int_ops::EXTENSION, "ige_u", vec![ty_nat(6)]), &[Self::out(inc, 0), lim]);
        let mut done = Self::out(cmp, 0);
        if self.r.chance(0.4) {
            // early exit
            let b = match self.find(&rg, &bool_t()) {
                Some(i) => rg.pool[i].1,
                None => self.synth(&mut rg, &bool_t()),
            };
            let n = self.add(&mut rg, reg(LogicOp::Or), &[done, b]);
            done = Self::out(n, 0);
        }
        let pr = pred.clone();
        let rows = vec![TypeRow::from(jin.clone()), TypeRow::from(extra.clone())];
        let outs = [pr];
        let c = self.conditional(&mut rg, (bool_t(), done), &[(int6(), Self::out(inc, 0))], &outs, &mut |p, cg, i| {
            let ws: Vec<Wire> = if i == 0 { vec![cg.pool[0].1] } else { extra.iter().map(|t| p.synth(cg, t)).collect() };
            let t = p.add(cg, Tag::new(i, rows.clone()), &ws);
            vec![Self::out(t, 0)]
        });
        let mut ows = vec![Self::out(c, 0)];
        ows.extend(rws);
        self.finish(&mut rg, &ows);
        self.live = live0;
        self.leave(o);
        if rg.effect {
            self.chain(g, k);
        }
        let mut outs = extra;
        outs.extend(rest_t);
        Self::put(g, k, &outs);
    }
    /// Forward-only blocks, and possibly one bounded loop.
    fn cfg(&mut self, g: &mut Reg) {
        let ins = self.some_inputs(g);
        let it: Vec<Type> = ins.iter().map(|x| x.0.clone()).collect();
        let outs = self.some_outputs(&it);
        let ws: Vec<Wire> = ins.iter().map(|x| x.1).collect();
        let k = self.add(g, CFG { signature: Signature::new(it.clone(), outs.clone()) }, &ws);
        let o = std::mem::take(&mut self.outer);
        // rows: entry takes `it`; the others take row = counter ++ outs
        let nb = self.r.range(1, 4);
        let mut row = vec![int6()];
        row.extend(outs.clone());
        let mut blocks: Vec<(Node, Reg, Vec<usize>)> = vec![];
        let looped = self.f.loops && nb > 2 && self.r.chance(0.5);
        let mut eff = false;
        // hugr wants the entry block first and the exit block second
        let mut nodes = vec![];
        for b in 0..nb {
            // successors: indices of later blocks; nb = exit
            let mut succ: Vec<usize> = vec![if b + 1 < nb { b + 1 } else { nb }];
            if self.r.chance(0.6) {
                succ.push(self.r.range(b + 1, nb));
            }
            if looped && b == nb - 1 {
                succ = vec![1, nb];
            }
            self.r.shuffle(&mut succ);
            let binp = if b == 0 { it.clone() } else { row.clone() };
            // branches to the exit drop the counter: it travels in the sum row
            let sum_rows: Vec<TypeRow> = succ.iter().map(|&s| if s == nb { type_row(&[]) } else { type_row(&[int6()]) }).collect();
            let op = DataflowBlock { inputs: binp.clone().into(), other_outputs: outs.clone().into(), sum_rows: sum_rows.clone() };
            let n = self.h.add_node_with_parent(k, op);
            if b == 0 {
                let e = self.h.add_node_with_parent(k, ExitBlock { cfg_outputs: outs.clone().into() });
                nodes.push(e);
            }
            let rows: Vec<Vec<Type>> = succ.iter().map(|&s| if s == nb { vec![] } else { vec![int6()] }).collect();
            let st: Type = SumType::new(rows.clone()).into();
            let mut rout = vec![st.clone()];
            rout.extend(outs.clone());
            let mut rg = self.region(n, &binp, &rout);
            let counter = if b == 0 { self.int_const(&mut rg, 0) } else { rg.pool.remove(0).1 };
            let m = if looped { 2 } else { 1 };
            self.mult *= m;
            let ns = self.r.range(0, 3);
            let ows = self.body(&mut rg, &outs, ns);
            self.mult /= m;
            let one = self.int_const(&mut rg, 1);
            let inc = self.add(&mut rg, xop(&int_ops::EXTENSION, "iadd", vec![ty_nat(6)]), &[counter, one]);
            let cond = if looped && b == nb - 1 {
                // loop while counter small; which tag means "loop"?
                let lim = self.int_const(&mut rg, 2 + nb as u64);
                let name = if succ[1] == 1 { "ilt_u" } else { "ige_u" };
                let c = self.add(&mut rg, xop(&int_ops::EXTENSION, name, vec![ty_nat(6)]), &[Self::out(inc, 0), lim]);
                Self::out(c, 0)
            } else {
                self.synth(&mut rg, &bool_t())
            };
            let vr: Vec<TypeRow> = rows.iter().map(|r| r.clone().into()).collect();
            let pw = if succ.len() == 1 {
                let w: Vec<Wire> = rows[0].iter().map(|_| Self::out(inc, 0)).collect();
                let t = self.add(&mut rg, Tag::new(0, vr), &w);
                Self::out(t, 0)
            } else {
                let c = self.conditional(&mut rg, (bool_t(), cond), &[(int6(), Self::out(inc, 0))], &[st.clone()], &mut |p, cg, i| {
                    let w: Vec<Wire> = rows[i].iter().map(|_| cg.pool[0].1).collect();
                    let t = p.add(cg, Tag::new(i, vr.clone()), &w);
                    vec![Self::out(t, 0)]
                });
                Self::out(c, 0)
            };
            let mut all = vec![pw];
            all.extend(ows);
            self.finish(&mut rg, &all);
            eff |= rg.effect;
            blocks.push((n, rg, succ));
        }
        let exit = nodes[0];
        for (n, _, succ) in &blocks {
            for (i, s) in succ.iter().enumerate() {
                let t = if *s == nb { exit } else { blocks[*s].0 };
                self.h.connect(*n, i, t, 0);
            }
        }
        self.outer = o;
        if eff || looped {
            self.chain(g, k);
        }
        Self::put(g, k, &outs);
    }
    fn call(&mut self, g: &mut Reg) {
        let c: Vec<usize> = (0..self.funs.len())
            .filter(|&i| {
                let f = &self.funs[i];
                f.meas * self.mult <= self.meas_left
                    && f.sig.input().iter().map(Self::max_qubits_in).sum::<usize>() + self.live <= self.f.max_live + 1
                    && (self.f.alloc_free
                        || f.sig.input().iter().filter(|t| *t == &qb_t()).count()
                            <= g.pool.iter().filter(|x| x.0 == qb_t()).count())
            })
            .collect();
        if c.is_empty() {
            return;
        }
        let f = self.funs[*self.r.pick(&c)].clone();
        self.spend_meas(f.meas);
        let ws: Vec<Wire> = f.sig.input().iter().map(|t| self.synth(g, t)).collect();
        let n = if self.f.indirect && self.r.chance(0.3) {
            let l = self.load_fun(g, f.node, &f.sig);
            let mut w = vec![l];
            w.extend(ws);
            self.add(g, CallIndirect { signature: f.sig.clone() }, &w)
        } else {
            let op = Call::try_new(PolyFuncType::from(f.sig.clone()), vec![]).unwrap();
            let n = self.add(g, op, &ws);
            self.h.connect(f.node, 0, n, ws.len());
            n
        };
        self.chain(g, n);
        Self::put(g, n, f.sig.output());
    }
    pub fn stmt(&mut self, g: &mut Reg) {
        let mut w = vec![30u32, 10, 12, 0, 0, 0, 0, 0];
        if self.f.tuples || self.f.options {
            w[3] = 6;
        }
        if self.f.arrays || self.f.barrays {
            w[4] = 12;
        }
        if self.f.results {
            w[5] = 10;
        }
        if self.depth < self.f.depth {
            w[6] = 14;
        }
        if self.f.sarrays {
            w[7] = 3;
        }
        match self.r.weighted(&w) {
            0 => self.stmt_gate(g),
            1 => self.stmt_qubit(g),
            2 => self.stmt_classical(g),
            3 => self.stmt_container(g),
            4 => self.stmt_array(g),
            5 => self.stmt_effect(g),
            6 => self.stmt_nested(g),
            _ => self.stmt_sarray(g),
        }
    }
    fn stmt_sarray(&mut self, g: &mut Reg) {
        let e = {
            let v = self.elem_types();
            self.r.pick(&v).clone()
        };
        let n = self.r.range(1, 4);
        let vs: Vec<Value> = (0..n).map(|_| self.const_val(&e).unwrap()).collect();
        let name = self.fresh("sa");
        let v = StaticArrayValue::try_new(name, e.clone(), vs).unwrap();
        let a = self.konst(g, v.into());
        debug_assert!(static_array_type(e.clone()).copyable());
        if self.r.chance(0.3) {
            let k = self.add(g, xop(&static_array::EXTENSION, "len", vec![e.clone().into()]), &[a]);
            Self::put(g, k, &[usize_t()]);
        }
        let ix = self.index(g, n as u64);
        let k = self.add(g, xop(&static_array::EXTENSION, "get", vec![e.clone().into()]), &[a, ix]);
        Self::put(g, k, &[opt_of(e)]);
    }
    pub fn function(&mut self, name: &str, ins: &[Type], outs: &[Type], stmts: usize) -> Node {
        let sig = Signature::new(ins.to_vec(), outs.to_vec());
        let n = self.h.add_node_with_parent(self.h.module_root(), FuncDefn::new(name, PolyFuncType::from(sig)));
        let mut g = self.region(n, ins, outs);
        self.live = ins.iter().map(Self::max_qubits_in).sum();
        self.outer.clear();
        let d = self.depth;
        self.depth = 0;
        for _ in 0..stmts {
            self.stmt(&mut g);
        }
        if name == "main" && self.f.final_results && self.f.results {
            self.report_all(&mut g);
        }
        self.close(&mut g, outs);
        self.depth = d;
        n
    }
}
fn type_row(ts: &[Type]) -> TypeRow {
    ts.to_vec().into()
}
/// The type contains an array of optional qubits.
pub fn has_opt_array(t: &Type) -> bool {
    if let Some((_, _, e)) = arr(t) {
        return e == opt_of(qb_t()) || has_opt_array(&e);
    }
    sum_rows(t).is_some_and(|rows| rows.iter().any(|r| r.iter().any(has_opt_array)))
}

pub fn has_fut(t: &Type) -> bool {
    if fut_of(t).is_some() {
        return true;
    }
    if let Some((_, _, e)) = arr(t) {
        return has_fut(&e);
    }
    if let Some(rows) = sum_rows(t) {
        return rows.iter().any(|r| r.iter().any(has_fut));
    }
    false
}

/// A whole program with entry function `main`.
pub fn generate(r: &mut Rng, f: Feat) -> Hugr {
    let mut p = P::new(r, f);
    let nf = if p.f.calls { p.r.below(3) } else { 0 };
    for i in 0..nf {
        let ins: Vec<Type> = (0..p.r.below(3))
            .map(|_| loop {
                let t = p.rand_type(1, true);
                if P::max_qubits_in(&t) <= 2 && !has_fut(&t) {
                    break t;
                }
            })
            .collect();
        let outs = p.some_outputs(&ins);
        p.meas_left = p.r.below(2);
        p.meas_used = 0;
        let n = p.r.range(1, 6);
        let saved = p.f.clone();
        p.f.depth = p.f.depth.min(1);
        if p.r.chance(0.5) {
            p.f.results = false;
        }
        let node = p.function(&format!("f{i}"), &ins, &outs, n);
        p.f = saved;
        let meas = p.meas_used * 2;
        p.funs.push(Fun { node, sig: Signature::new(ins, outs), meas });
    }
    p.meas_left = p.f.meas_budget;
    let (mut ins, mut outs) = (vec![], vec![]);
    let tb = p.f.tbool;
    p.f.tbool &= p.f.io_tbool;
    if p.f.main_io {
        for _ in 0..p.r.below(4) {
            let t = p.rand_type(1, true);
            if P::max_qubits_in(&t) <= 2 && !has_fut(&t) && ins.iter().map(P::max_qubits_in).sum::<usize>() < 4 {
                ins.push(t);
            }
        }
        outs = p.some_outputs(&ins);
    }
    p.f.tbool = tb;
    let n = p.r.range(p.f.stmts.0, p.f.stmts.1);
    let m = p.function("main", &ins, &outs, n);
    p.h.set_entrypoint(m);
    let mut h = p.h;
    fix_ext_edges(&mut h);
    h
}

/// A new entry function without inputs or outputs that calls the given function on
/// random inputs and reports its outputs; qubits are measured in random bases.
pub fn entry(r: &mut Rng, h: Hugr, main: Node, f: Feat) -> Option<Hugr> {
    let sig = h.get_optype(main).as_func_defn()?.signature().body().clone();
    if !h.get_optype(main).as_func_defn()?.signature().params().is_empty() {
        return None;
    }
    let mut p = P::new(r, f);
    p.h = h;
    p.f.ext_edges = false;
    p.meas_left = 100;
    let e = p.h.add_node_with_parent(
        p.h.module_root(),
        FuncDefn::new("entry", PolyFuncType::from(Signature::new(vec![], vec![]))),
    );
    let mut g = p.region(e, &[], &[]);
    if p.r.chance(0.3) {
        p.odd_results(&mut g);
    }
    let mut ws = vec![];
    for t in sig.input().iter() {
        if is_ext(t, "rotation").is_some() {
            let v = p.r.below(33) as f64 / 16.0 - 1.0;
            ws.push(p.konst(&mut g, ConstRotation::new(v).unwrap().into()));
            continue;
        }
        let mut w = p.synth(&mut g, t);
        if t == &qb_t() {
            w = p.twist(&mut g, w);
        }
        ws.push(w);
    }
    let n = p.add(&mut g, Call::try_new(PolyFuncType::from(sig.clone()), vec![]).unwrap(), &ws);
    p.h.connect(main, 0, n, ws.len());
    p.chain(&mut g, n);
    let mut todo: Vec<(Type, Wire)> =
        sig.output().iter().cloned().enumerate().map(|(i, t)| (t, Wire::new(n, i))).collect();
    todo.reverse();
    let mut tags = 0;
    while let Some((t, w)) = todo.pop() {
        tags += 1;
        let tag = format!("o{tags}");
        let (w, op) = if t == qb_t() {
            let w = p.twist(&mut g, w);
            let k = p.add(&mut g, reg(TketOp::MeasureFree), &[w]);
            let k = p.add(&mut g, reg(BoolOp::read), &[P::out(k, 0)]);
            (P::out(k, 0), ResultOp::new_bool(tag))
        } else if t == bool_t() {
            (w, ResultOp::new_bool(tag))
        } else if t == bool_type() {
            let k = p.add(&mut g, reg(BoolOp::read), &[w]);
            (P::out(k, 0), ResultOp::new_bool(tag))
        } else if t == int6() {
            if p.r.chance(0.5) {
                (w, ResultOp::new_int(tag, 6))
            } else {
                (w, ResultOp::new_uint(tag, 6))
            }
        } else if t == float64_type() {
            (w, ResultOp::new_f64(tag))
        } else if is_ext(&t, "rotation").is_some() {
            let k = p.add(&mut g, reg(RotationOp::to_halfturns), &[w]);
            (P::out(k, 0), ResultOp::new_f64(tag))
        } else {
            match (sum_rows(&t), arr(&t)) {
                (Some(rows), _) if rows.len() == 1 => {
                    let op = UnpackTuple::new(rows[0].clone().into()).to_extension_op().unwrap();
                    let k = p.add(&mut g, op, &[w]);
                    todo.extend(rows[0].iter().cloned().enumerate().map(|(i, t)| (t, P::out(k, i))).rev());
                }
                (_, Some((b, n, e))) => {
                    let x = if b { &*borrow_array::EXTENSION } else { &*array::EXTENSION };
                    let k = p.add(&mut g, xop(x, "unpack", vec![ty_nat(n), e.clone().into()]), &[w]);
                    todo.extend((0..n as usize).map(|i| (e.clone(), P::out(k, i))).rev());
                }
                _ => g.pool.push((t, w)),
            }
            continue;
        };
        let n = p.add(&mut g, OpType::from(op.to_extension_op().unwrap()), &[w]);
        p.chain(&mut g, n);
    }
    p.close(&mut g, &[]);
    p.h.set_entrypoint(e);
    Some(p.h)
}
impl P<'_> {
    /// Results of narrow integers and of arrays of any length.
    fn odd_results(&mut self, g: &mut Reg) {
        for i in 0..self.r.range(1, 4) {
            let tag = format!("x{i}");
            let k = self.r.below(7) as u8;
            let (t, s) = (int_type(k as u64), self.r.chance(0.5));
            let op = match (self.r.below(6), s) {
                (0, _) => ResultOp::new_bool(tag),
                (1, _) => ResultOp::new_f64(tag),
                (_, true) => ResultOp::new_int(tag, k),
                (_, false) => ResultOp::new_uint(tag, k),
            };
            let t = match op.result_op {
                tket_qsystem::extension::result::ResultOpDef::Bool => bool_t(),
                tket_qsystem::extension::result::ResultOpDef::F64 => float64_type(),
                _ => t,
            };
            let val = |p: &mut Self, g: &mut Reg| {
                let v = if t == bool_t() {
                    Value::from_bool(p.r.chance(0.5))
                } else if t == float64_type() {
                    ConstF64::new(p.r.range(0, 9) as f64 / 4.0).into()
                } else {
                    let m = if k == 6 { u64::MAX } else { (1 << (1u32 << k)) - 1 };
                    let v = if p.r.chance(0.3) { m } else { p.r.next() & m };
                    tket::hugr::std_extensions::arithmetic::int_types::ConstInt::new_u(k, v).unwrap().into()
                };
                p.konst(g, v)
            };
            let (w, op) = if self.r.chance(0.6) {
                (val(self, g), op)
            } else {
                let n = self.r.below(4);
                let ws: Vec<Wire> = (0..n).map(|_| val(self, g)).collect();
                let a = self.add(g, xop(&array::EXTENSION, "new_array", vec![ty_nat(n as u64), t.clone().into()]), &ws);
                (Self::out(a, 0), op.array_op(n as u64))
            };
            let n = self.add(g, OpType::from(op.to_extension_op().unwrap()), &[w]);
            self.chain(g, n);
        }
    }
    /// Rotate a qubit at random.
    fn twist(&mut self, g: &mut Reg, mut w: Wire) -> Wire {
        for op in [TketOp::Ry, TketOp::Rz, TketOp::Rx] {
            if self.r.chance(0.6) {
                let v = self.r.below(33) as f64 / 16.0 - 1.0;
                let a = self.konst(g, ConstRotation::new(v).unwrap().into());
                let k = self.add(g, reg(op), &[w, a]);
                w = Self::out(k, 0);
            }
        }
        w
    }
}

/// Values read from an enclosing region need a state-order edge from their
/// source to the container that holds the reader.
pub fn fix_ext_edges(h: &mut Hugr) {
    let mut add = vec![];
    for n in h.descendants(h.module_root()).collect::<Vec<_>>() {
        let Some(pn) = h.get_parent(n) else { continue };
        for p in h.node_inputs(n).collect::<Vec<_>>() {
            for (s, sp) in h.linked_outputs(n, p).collect::<Vec<_>>() {
                if !matches!(h.get_optype(s).port_kind(sp), Some(hugr::types::EdgeKind::Value(_))) {
                    continue;
                }
                let ps = h.get_parent(s).unwrap();
                if ps == pn {
                    continue;
                }
                let mut a = pn;
                while h.get_parent(a) != Some(ps) {
                    a = h.get_parent(a).unwrap();
                }
                add.push((s, a));
            }
        }
    }
    add.sort();
    add.dedup();
    for (s, a) in add {
        if !h.output_neighbours(s).any(|x| x == a) || !has_order(h, s, a) {
            h.add_other_edge(s, a);
        }
    }
}
fn has_order(h: &Hugr, s: Node, a: Node) -> bool {
    let Some(p) = h.get_optype(s).other_output_port() else { return false };
    let r = h.linked_inputs(s, p).any(|x| x.0 == a);
    r
}
