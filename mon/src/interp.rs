//! Reference interpreter for HUGR programs: the executable model that the
//! monitors compare optimised / rewritten / lowered programs against.
//!
//! Dataflow regions are evaluated in a *random* topological order (value edges
//! and state-order edges), quantum data lives in a dense state vector, and the
//! measurement branches are enumerated by re-execution.
use crate::qstate::*;
use crate::rng::{hash_str, mix, Rng};
use hugr::extension::prelude::{ConstError, ConstExternalSymbol, ConstString, ConstUsize};
use hugr::ops::constant::CustomConst;
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::ops::{ExtensionOp, OpType, Value};
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::std_extensions::collections::array::ArrayValue;
use hugr::std_extensions::collections::borrow_array::BArrayValue;
use hugr::std_extensions::collections::static_array::StaticArrayValue;
use hugr::std_extensions::collections::value_array::VArrayValue;
use hugr::types::{EdgeKind, SumType, Type, TypeArg, TypeEnum};
use hugr::{Direction, Hugr, HugrView, Node, OutgoingPort, Port, PortIndex};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use tket::extension::bool::ConstBool;
use tket::extension::rotation::ConstRotation;

#[derive(Clone, Debug)]
pub enum Val {
    Qubit(u32),
    Int(u8, u64), // log width, bits
    Usize(u64),
    Float(f64),
    Rot(f64),
    TBool(bool),
    Sum(usize, Vec<Val>),
    Arr(Vec<Option<Val>>),
    SArr(Rc<Vec<Val>>),
    Future(Box<Val>),
    Func(Rc<FuncVal>),
    Str(String),
    Err(u32, String),
    Rng(u64, u64),
    Opaque(String),
}
#[derive(Debug)]
pub enum FuncVal {
    Node(Rc<HugrRef>, Node, Vec<TypeArg>),
    Control(usize, usize, Rc<FuncVal>), // array len, number of inout args
    Dagger(usize, Rc<FuncVal>),
    Power(usize, Rc<FuncVal>),
}
pub struct HugrRef(pub Hugr);
impl std::fmt::Debug for HugrRef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<hugr>")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// Program ended by panic / exit (already logged in the trace).
    Halt,
    /// The program did something that no valid program may do (use after free, ...).
    Fault(String),
    /// Outside of what the model covers, or over its budget.
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;
fn fault<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fault(s.into()))
}
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}

pub fn fmt_f(f: f64) -> String {
    if f.is_finite() {
        let f = if f.abs() < 5e-8 { 0. } else { f };
        format!("{:.6e}", f)
    } else {
        format!("{f}")
    }
}

impl Val {
    pub fn unit() -> Val {
        Val::Sum(0, vec![])
    }
    pub fn bool(b: bool) -> Val {
        Val::Sum(b as usize, vec![])
    }
    pub fn qubits(&self, out: &mut Vec<u32>) {
        match self {
            Val::Qubit(q) => out.push(*q),
            Val::Sum(_, v) => v.iter().for_each(|x| x.qubits(out)),
            Val::Arr(v) => v.iter().flatten().for_each(|x| x.qubits(out)),
            Val::Future(v) => v.qubits(out),
            _ => {}
        }
    }
    pub fn map_qubits(&self, f: &mut dyn FnMut(u32) -> u32) -> Val {
        match self {
            Val::Qubit(q) => Val::Qubit(f(*q)),
            Val::Sum(t, v) => Val::Sum(*t, v.iter().map(|x| x.map_qubits(f)).collect()),
            Val::Arr(v) => {
                Val::Arr(v.iter().map(|x| x.as_ref().map(|x| x.map_qubits(f))).collect())
            }
            Val::Future(v) => Val::Future(Box::new(v.map_qubits(f))),
            v => v.clone(),
        }
    }
    /// Canonical text; qubits are holes. tket.bool, bool and futures of bool print alike.
    pub fn canon(&self) -> String {
        match self {
            Val::Qubit(_) => "q".into(),
            Val::Int(_, v) => format!("i{v}"),
            Val::Usize(v) => format!("u{v}"),
            Val::Float(f) => fmt_f(*f),
            Val::Rot(f) => format!("r{}", fmt_f(*f)),
            Val::TBool(b) => format!("{}", *b as u8),
            Val::Sum(t, v) if v.is_empty() => format!("{t}"),
            Val::Sum(t, v) => {
                format!("{t}({})", v.iter().map(|x| x.canon()).collect::<Vec<_>>().join(","))
            }
            Val::Arr(v) => format!(
                "[{}]",
                v.iter()
                    .map(|x| x.as_ref().map(|x| x.canon()).unwrap_or("_".into()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            Val::SArr(v) => {
                format!("s[{}]", v.iter().map(|x| x.canon()).collect::<Vec<_>>().join(","))
            }
            Val::Future(v) => v.canon(),
            Val::Func(_) => "fn".into(),
            Val::Str(s) => format!("{s:?}"),
            Val::Err(n, s) => format!("err({n},{s:?})"),
            Val::Rng(s, n) => format!("rng({s},{n})"),
            Val::Opaque(s) => s.clone(),
        }
    }
    pub fn as_bool(&self) -> R<bool> {
        match self {
            Val::Sum(t, v) if v.is_empty() && *t < 2 => Ok(*t == 1),
            Val::TBool(b) => Ok(*b),
            v => fault(format!("expected bool, got {}", v.canon())),
        }
    }
    pub fn as_int(&self) -> R<(u8, u64)> {
        match self {
            Val::Int(w, v) => Ok((*w, *v)),
            v => fault(format!("expected int, got {}", v.canon())),
        }
    }
    pub fn as_f(&self) -> R<f64> {
        match self {
            Val::Float(f) => Ok(*f),
            v => fault(format!("expected float, got {}", v.canon())),
        }
    }
    pub fn as_rot(&self) -> R<f64> {
        match self {
            Val::Rot(f) => Ok(*f),
            v => fault(format!("expected rotation, got {}", v.canon())),
        }
    }
    pub fn as_q(&self) -> R<u32> {
        match self {
            Val::Qubit(q) => Ok(*q),
            v => fault(format!("expected qubit, got {}", v.canon())),
        }
    }
    pub fn as_usize(&self) -> R<u64> {
        match self {
            Val::Usize(q) => Ok(*q),
            v => fault(format!("expected usize, got {}", v.canon())),
        }
    }
    pub fn as_arr(&self) -> R<&Vec<Option<Val>>> {
        match self {
            Val::Arr(q) => Ok(q),
            v => fault(format!("expected array, got {}", v.canon())),
        }
    }
}

#[derive(Clone)]
pub struct Cfg {
    /// Seed for the random topological order.
    pub sched: u64,
    /// Seed for uninterpreted operations.
    pub uninterp: u64,
    pub fuel: u64,
    pub max_qubits: usize,
    pub max_paths: usize,
    /// V = SX (true) or V = Rx(1/2) (false).
    pub v_is_sx: bool,
    /// Treat measurement results as events too.
    pub log_measure: bool,
    /// Log what happens to each qubit: gates, and Barriers (1) or RuntimeBarriers (2).
    pub log_barrier: u8,
    /// Report the populations at a StateResult (depends on the schedule of other measurements).
    pub log_state: bool,
    /// Whether uninterpreted operations are permitted.
    pub allow_uninterp: bool,
    /// Log gate events (for op counting)
    pub shot: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            sched: 0,
            uninterp: 7,
            fuel: 200_000,
            max_qubits: 13,
            max_paths: 1024,
            v_is_sx: false,
            log_measure: false,
            log_barrier: 0,
            log_state: false,
            allow_uninterp: true,
            shot: 3,
        }
    }
}

struct Plan {
    nodes: Vec<Node>,
    npred: Vec<usize>,
    succ: Vec<Vec<usize>>,
    input: Option<Node>,
    output: Option<Node>,
}

type Env = HashMap<(Node, usize), Val>;

pub struct Interp<'a> {
    pub cfg: &'a Cfg,
    plans: HashMap<(usize, Node), Rc<Plan>>,
    pub st: QState,
    pub dead: usize,
    next_q: u32,
    pub trace: Vec<String>,
    forced: Vec<(bool, bool)>, // (value, alternative pending)
    depth: usize,
    rng: Rng,
    fuel: u64,
    pub steps: u64,
    pub ops_seen: BTreeMap<String, u64>,
    /// order in which physical gates were applied (op name, qubit ids)
    pub gates: Vec<(String, Vec<u32>)>,
}

#[derive(Clone, Debug)]
pub struct Branch {
    pub key: String,
    /// ensemble of unnormalised vectors over the output qubits
    pub vecs: Vec<Vec<C>>,
}
#[derive(Clone, Debug, Default)]
pub struct Outcomes {
    pub map: BTreeMap<String, Vec<Vec<C>>>,
    pub paths: usize,
    pub steps: u64,
    pub ops: BTreeMap<String, u64>,
    /// barrier events seen (log_barrier)
    pub events: u64,
}

struct Frame<'h> {
    h: &'h Rc<HugrRef>,
    env: Env,
    targs: Vec<TypeArg>,
}

fn mask(lw: u8) -> u64 {
    if lw >= 6 {
        u64::MAX
    } else {
        (1u64 << (1u32 << lw)) - 1
    }
}
fn sext(lw: u8, v: u64) -> i64 {
    let w = 1u32 << lw.min(6);
    ((v << (64 - w)) as i64) >> (64 - w)
}

impl<'a> Interp<'a> {
    fn new(cfg: &'a Cfg) -> Self {
        Interp {
            cfg,
            plans: HashMap::new(),
            st: QState::new(),
            dead: 0,
            next_q: 1_000_000,
            trace: vec![],
            forced: vec![],
            depth: 0,
            rng: Rng::keyed(&[cfg.sched, 77]),
            fuel: cfg.fuel,
            steps: 0,
            ops_seen: BTreeMap::new(),
            gates: vec![],
        }
    }
    fn fresh_q(&mut self) -> u32 {
        self.next_q += 1;
        self.next_q
    }
    pub fn alloc(&mut self) -> R<u32> {
        if self.st.qs.len() >= self.cfg.max_qubits {
            self.squeeze()?;
        }
        if self.st.qs.len() >= self.cfg.max_qubits {
            return unsup("too many qubits");
        }
        let q = self.fresh_q();
        self.st.alloc(q);
        Ok(q)
    }
    /// Measure away dead qubits to make space.
    fn squeeze(&mut self) -> R<()> {
        while let Some(p) = self.st.qs.iter().position(|q| *q >= 0x8000_0000) {
            let v = self.branch(p)?;
            self.st.remove(p, v);
        }
        Ok(())
    }
    fn pos(&self, q: u32) -> R<usize> {
        match self.st.pos(q) {
            Some(p) => Ok(p),
            None => fault(format!("use of a qubit that is not live (q{q})")),
        }
    }
    pub fn kill(&mut self, q: u32) -> R<()> {
        let p = self.pos(q)?;
        let p1 = self.st.prob(p, true);
        let tot = self.st.norm2();
        if p1 < 1e-12 * tot {
            self.st.remove(p, false);
        } else if p1 > (1. - 1e-12) * tot {
            self.st.remove(p, true);
        } else {
            self.dead += 1;
            self.next_q += 1;
            self.st.qs[p] = 0x8000_0000 + self.next_q;
            if self.st.qs.iter().filter(|q| **q >= 0x8000_0000).count() > 5 {
                self.squeeze()?;
            }
        }
        Ok(())
    }
    /// Choose a measurement outcome for position p and project on it.
    fn branch(&mut self, p: usize) -> R<bool> {
        let tot = self.st.norm2();
        let p1 = self.st.prob(p, true);
        let p0 = self.st.prob(p, false);
        let v = if p1 <= 1e-11 * tot {
            false
        } else if p0 <= 1e-11 * tot {
            true
        } else {
            let v = if self.depth < self.forced.len() {
                self.forced[self.depth].0
            } else {
                self.forced.push((false, true));
                false
            };
            self.depth += 1;
            if self.depth > 40 {
                return unsup("too many measurement branches");
            }
            v
        };
        self.st.project(p, v);
        Ok(v)
    }
    pub fn measure(&mut self, q: u32, destroy: bool) -> R<bool> {
        let p = self.pos(q)?;
        let v = self.branch(p)?;
        if destroy {
            self.st.remove(p, v);
        }
        if self.cfg.log_measure {
            self.trace.push(format!("measure={}", v as u8));
        }
        Ok(v)
    }
    pub fn reset(&mut self, q: u32) -> R<()> {
        // discard the old qubit and put a fresh |0> under the same name
        self.kill(q)?;
        if self.st.qs.len() >= self.cfg.max_qubits {
            self.squeeze()?;
        }
        if self.st.qs.len() >= self.cfg.max_qubits {
            return unsup("too many qubits");
        }
        self.st.alloc(q);
        Ok(())
    }
    pub fn gate(&mut self, m: &Mat, qs: &[u32]) -> R<()> {
        let mut ps = vec![];
        for q in qs {
            let p = self.pos(*q)?;
            if ps.contains(&p) {
                return fault("gate applied twice to one qubit");
            }
            ps.push(p);
        }
        self.st.apply(m, &ps);
        Ok(())
    }

    fn plan(&mut self, h: &Rc<HugrRef>, parent: Node) -> Rc<Plan> {
        let key = (Rc::as_ptr(h) as usize, parent);
        if let Some(p) = self.plans.get(&key) {
            return p.clone();
        }
        let hg = &h.0;
        let io = hg.get_io(parent);
        let mut nodes = vec![];
        let mut idx = HashMap::new();
        for c in hg.children(parent) {
            if Some(c) == io.map(|x| x[0]) || Some(c) == io.map(|x| x[1]) {
                continue;
            }
            match hg.get_optype(c) {
                OpType::Const(_)
                | OpType::FuncDefn(_)
                | OpType::FuncDecl(_)
                | OpType::AliasDecl(_)
                | OpType::AliasDefn(_) => continue,
                _ => {}
            }
            idx.insert(c, nodes.len());
            nodes.push(c);
        }
        let mut npred = vec![0; nodes.len()];
        let mut succ = vec![vec![]; nodes.len()];
        for (i, n) in nodes.iter().enumerate() {
            let mut preds = std::collections::BTreeSet::new();
            for p in hg.node_inputs(*n) {
                for (src, sp) in hg.linked_outputs(*n, p) {
                    if matches!(
                        hg.get_optype(src).port_kind(sp),
                        Some(EdgeKind::Value(_)) | Some(EdgeKind::StateOrder)
                    ) {
                        if let Some(j) = idx.get(&src) {
                            preds.insert(*j);
                        }
                    }
                }
            }
            npred[i] = preds.len();
            for j in preds {
                succ[j].push(i);
            }
        }
        let p = Rc::new(Plan { nodes, npred, succ, input: io.map(|x| x[0]), output: io.map(|x| x[1]) });
        self.plans.insert(key, p.clone());
        p
    }

    fn value_inputs(&self, fr: &Frame, n: Node) -> R<Vec<Val>> {
        let hg = &fr.h.0;
        let op = hg.get_optype(n);
        let mut out = vec![];
        for p in hg.node_inputs(n) {
            if !matches!(op.port_kind(p), Some(EdgeKind::Value(_))) {
                continue;
            }
            let Some((src, sp)) = hg.single_linked_output(n, p) else {
                return fault(format!("input {p:?} of {n} ({op}) not connected"));
            };
            match fr.env.get(&(src, sp.index())) {
                Some(v) => out.push(v.clone()),
                None => return fault(format!("input {p:?} of {n} ({op}) read before {src} was evaluated")),
            }
        }
        Ok(out)
    }

    /// Run the dataflow children of `parent`, returning the values at its Output node.
    fn region(&mut self, fr: &mut Frame, parent: Node, inputs: Vec<Val>) -> R<Vec<Val>> {
        let plan = self.plan(fr.h, parent);
        let (Some(inp), Some(outp)) = (plan.input, plan.output) else {
            return fault(format!("{parent} has no IO nodes"));
        };
        for (i, v) in inputs.into_iter().enumerate() {
            fr.env.insert((inp, i), v);
        }
        let mut npred = plan.npred.clone();
        let mut ready: Vec<usize> = (0..plan.nodes.len()).filter(|i| npred[*i] == 0).collect();
        let mut done = 0;
        while !ready.is_empty() {
            let k = if self.cfg.sched == 0 { 0 } else { self.rng.below(ready.len()) };
            let i = ready.remove(k);
            done += 1;
            self.exec(fr, plan.nodes[i])?;
            for j in &plan.succ[i] {
                npred[*j] -= 1;
                if npred[*j] == 0 {
                    ready.push(*j);
                }
            }
        }
        if done != plan.nodes.len() {
            return fault(format!("dataflow cycle under {parent}"));
        }
        self.value_inputs(fr, outp)
    }

    fn call(&mut self, h: &Rc<HugrRef>, func: Node, targs: Vec<TypeArg>, inputs: Vec<Val>) -> R<Vec<Val>> {
        let mut fr = Frame { h, env: HashMap::new(), targs };
        match h.0.get_optype(func) {
            OpType::FuncDefn(_) | OpType::DFG(_) => self.region(&mut fr, func, inputs),
            OpType::CFG(_) => self.cfg_run(&mut fr, func, inputs),
            OpType::FuncDecl(d) => {
                // uninterpreted external function
                let name = format!("extern:{}", d.func_name());
                let sig = d.signature().body().clone();
                let mut outs = self.uninterpreted(&name, &sig.output().iter().cloned().collect::<Vec<_>>(), inputs)?;
                self.trace.push(format!("call {name}"));
                Ok(std::mem::take(&mut outs))
            }
            o => unsup(format!("call of {o}")),
        }
    }

    pub fn call_func(&mut self, f: &FuncVal, inputs: Vec<Val>) -> R<Vec<Val>> {
        match f {
            FuncVal::Node(h, n, t) => {
                let h = h.clone();
                self.call(&h, *n, t.clone(), inputs)
            }
            FuncVal::Control(n, _inout, g) => {
                let mut inputs = inputs;
                let ctrl = inputs.remove(0);
                let mut cq = vec![];
                ctrl.qubits(&mut cq);
                if cq.len() != *n {
                    return fault(format!("control array has {} qubits, expected {n}", cq.len()));
                }
                let (m, qs, mut outs) = self.unitary_of(g, &inputs)?;
                let mut all = cq.clone();
                all.extend(qs);
                self.gate(&m.controlled(cq.len()), &all)?;
                outs.insert(0, ctrl);
                Ok(outs)
            }
            FuncVal::Dagger(n, g) => {
                let (m, qs, outs) = self.unitary_of(g, &inputs)?;
                // undo the function's renaming of wires as well
                let mut oq = vec![];
                outs.iter().for_each(|v| v.qubits(&mut oq));
                let mut slot = qs.clone();
                for (j, o) in oq.iter().enumerate() {
                    let s = qs.iter().position(|q| q == o).unwrap();
                    slot[s] = qs[j];
                }
                self.gate(&m.dagger(), &slot)?;
                let mut it = slot.into_iter();
                Ok(inputs[..*n].iter().map(|v| v.map_qubits(&mut |_| it.next().unwrap())).collect())
            }
            FuncVal::Power(_, g) => {
                let mut inputs = inputs;
                let _ = (&mut inputs, g);
                unsup("power modifier")
            }
        }
    }

    /// The unitary that `f` applies on the qubits in `inputs`, in order. The
    /// outputs are given over the original qubit ids.
    fn unitary_of(&mut self, f: &FuncVal, inputs: &[Val]) -> R<(Mat, Vec<u32>, Vec<Val>)> {
        let mut qs = vec![];
        inputs.iter().for_each(|v| v.qubits(&mut qs));
        let k = qs.len();
        if k > 7 {
            return unsup("unitary too large");
        }
        let n = 1usize << k;
        let mut m = Mat { n, a: vec![ZERO; n * n] };
        let mut outs_ret = None;
        for col in 0..n {
            let mut sub = Interp::new(self.cfg);
            sub.fuel = self.fuel;
            sub.rng = self.rng.clone();
            sub.next_q = self.next_q + 1;
            let slots: Vec<u32> = (0..k as u32).collect();
            sub.st.qs = slots.clone();
            sub.st.amp = vec![ZERO; n];
            let mut i = 0;
            for t in 0..k {
                if col >> (k - 1 - t) & 1 == 1 {
                    i |= 1 << t;
                }
            }
            sub.st.amp[i] = ONE;
            let mut c = 0u32;
            let ins: Vec<Val> = inputs
                .iter()
                .map(|v| {
                    v.map_qubits(&mut |_| {
                        c += 1;
                        c - 1
                    })
                })
                .collect();
            let outs = sub.call_func(f, ins)?;
            self.fuel = self.fuel.saturating_sub(sub.steps);
            self.steps += sub.steps;
            if !sub.forced.is_empty() {
                return unsup("measurement under a modifier");
            }
            let mut oq = vec![];
            outs.iter().for_each(|v| v.qubits(&mut oq));
            if oq.len() != k || sub.st.qs.len() != k {
                return unsup("non-unitary function under a modifier");
            }
            // where the wires end up is a renaming, not part of the unitary
            let v = sub.st.in_order(&slots);
            for r in 0..n {
                m.a[r * n + col] = v[r];
            }
            if outs_ret.is_none() {
                outs_ret = Some(
                    outs.iter()
                        .map(|v| v.map_qubits(&mut |q| qs[q as usize]))
                        .collect::<Vec<_>>(),
                );
            }
        }
        Ok((m, qs, outs_ret.unwrap()))
    }

    fn cfg_run(&mut self, fr: &mut Frame, n: Node, inputs: Vec<Val>) -> R<Vec<Val>> {
        let hg = &fr.h.0;
        let mut blk = hg.children(n).next().ok_or(Stop::Fault("empty cfg".into()))?;
        let mut vals = inputs;
        loop {
            self.tick()?;
            match hg.get_optype(blk) {
                OpType::ExitBlock(_) => return Ok(vals),
                OpType::DataflowBlock(_) => {
                    let mut outs = self.region(fr, blk, vals)?;
                    if outs.is_empty() {
                        return fault("block without branch value");
                    }
                    let Val::Sum(tag, mut row) = outs.remove(0) else {
                        return fault("block predicate is not a sum");
                    };
                    row.extend(outs);
                    vals = row;
                    let Some((succ, _)) = hg.linked_inputs(blk, OutgoingPort::from(tag)).next() else {
                        return fault(format!("block {blk} has no successor {tag}"));
                    };
                    blk = succ;
                }
                o => return fault(format!("{o} inside a CFG")),
            }
        }
    }

    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.fuel == 0 {
            return unsup("out of fuel");
        }
        self.fuel -= 1;
        Ok(())
    }

    fn exec(&mut self, fr: &mut Frame, n: Node) -> R<()> {
        self.tick()?;
        let href = fr.h.clone();
        let hg = &href.0;
        let op = hg.get_optype(n);
        let mut ins = self.value_inputs(fr, n)?;
        let outs: Vec<Val> = match op {
            OpType::DFG(_) => self.region(fr, n, ins)?,
            OpType::CFG(_) => self.cfg_run(fr, n, ins)?,
            OpType::Conditional(_) => {
                let Val::Sum(tag, mut row) = ins.remove(0) else {
                    return fault("conditional on a non-sum");
                };
                row.extend(ins);
                let Some(case) = hg.children(n).nth(tag) else {
                    return fault("conditional tag out of range");
                };
                self.region(fr, case, row)?
            }
            OpType::TailLoop(_) => {
                let mut vals = ins;
                loop {
                    self.tick()?;
                    let mut outs = self.region(fr, n, vals)?;
                    let Val::Sum(tag, mut row) = outs.remove(0) else {
                        return fault("loop predicate is not a sum");
                    };
                    row.extend(outs);
                    if tag == 1 {
                        break row;
                    }
                    vals = row;
                }
            }
            OpType::Call(c) => {
                let f = self.static_src(fr, n)?;
                let targs = self.subst(fr, &c.type_args);
                self.call(&href, f, targs, ins)?
            }
            OpType::LoadFunction(c) => {
                let f = self.static_src(fr, n)?;
                let targs = self.subst(fr, &c.type_args);
                vec![Val::Func(Rc::new(FuncVal::Node(href.clone(), f, targs)))]
            }
            OpType::CallIndirect(_) => {
                let Val::Func(f) = ins.remove(0) else {
                    return fault("indirect call of a non-function");
                };
                self.call_func(&f, ins)?
            }
            OpType::LoadConstant(_) => {
                let c = self.static_src(fr, n)?;
                let OpType::Const(c) = hg.get_optype(c) else {
                    return fault("LoadConstant of a non-constant");
                };
                vec![self.constant(c.value())?]
            }
            OpType::Tag(t) => vec![Val::Sum(t.tag, ins)],
            OpType::ExtensionOp(e) => {
                let e = e.clone();
                self.ext(fr, &e, ins)?
            }
            OpType::OpaqueOp(o) => {
                let name = format!("{}.{}{}", o.extension(), o.unqualified_id(), args_text(o.args()));
                let outs: Vec<Type> = o.signature().output().iter().cloned().collect();
                self.uninterpreted(&name, &outs, ins)?
            }
            o => return unsup(format!("op {o}")),
        };
        for (i, v) in outs.into_iter().enumerate() {
            fr.env.insert((n, i), v);
        }
        Ok(())
    }

    fn static_src(&self, fr: &Frame, n: Node) -> R<Node> {
        match fr.h.0.static_source(n) {
            Some(f) => Ok(f),
            None => fault(format!("{n} has no static source")),
        }
    }
    fn subst(&self, fr: &Frame, args: &[TypeArg]) -> Vec<TypeArg> {
        args.iter().map(|a| subst1(a, &fr.targs)).collect()
    }

    pub fn constant(&mut self, v: &Value) -> R<Val> {
        Ok(match v {
            Value::Sum(s) => {
                let mut out = vec![];
                for x in &s.values {
                    out.push(self.constant(x)?);
                }
                Val::Sum(s.tag, out)
            }
            Value::Function { hugr } => {
                let h = Rc::new(HugrRef((**hugr).clone()));
                let n = h.0.entrypoint();
                Val::Func(Rc::new(FuncVal::Node(h, n, vec![])))
            }
            Value::Extension { e } => {
                let c: &dyn CustomConst = e.value();
                if let Some(i) = c.downcast_ref::<ConstInt>() {
                    Val::Int(i.log_width(), i.value_u() & mask(i.log_width()))
                } else if let Some(i) = c.downcast_ref::<ConstF64>() {
                    Val::Float(i.value())
                } else if let Some(i) = c.downcast_ref::<ConstRotation>() {
                    Val::Rot(i.half_turns())
                } else if let Some(i) = c.downcast_ref::<ConstBool>() {
                    Val::TBool(i.value())
                } else if let Some(i) = c.downcast_ref::<ConstUsize>() {
                    Val::Usize(i.value())
                } else if let Some(i) = c.downcast_ref::<ConstString>() {
                    Val::Str(i.value().to_string())
                } else if let Some(i) = c.downcast_ref::<ConstError>() {
                    Val::Err(i.signal, i.message.clone())
                } else if let Some(i) = c.downcast_ref::<ConstExternalSymbol>() {
                    Val::Opaque(format!("sym:{}", i.symbol))
                } else if let Some(i) = c.downcast_ref::<ArrayValue>() {
                    self.const_arr(i.get_contents())?
                } else if let Some(i) = c.downcast_ref::<BArrayValue>() {
                    self.const_arr(i.get_contents())?
                } else if let Some(i) = c.downcast_ref::<VArrayValue>() {
                    self.const_arr(i.get_contents())?
                } else if let Some(i) = c.downcast_ref::<StaticArrayValue>() {
                    let mut out = vec![];
                    for x in i.get_contents() {
                        out.push(self.constant(x)?);
                    }
                    Val::SArr(Rc::new(out))
                } else {
                    Val::Opaque(format!("const:{}", c.name()))
                }
            }
        })
    }
    fn const_arr(&mut self, xs: &[Value]) -> R<Val> {
        let mut out = vec![];
        for x in xs {
            out.push(Some(self.constant(x)?));
        }
        Ok(Val::Arr(out))
    }

    /// Deterministic arbitrary behaviour for operations outside the model:
    /// a random unitary on the qubits and hashed classical outputs, both keyed
    /// by the operation, its arguments and its classical inputs.
    pub fn uninterpreted(&mut self, name: &str, outs: &[Type], ins: Vec<Val>) -> R<Vec<Val>> {
        if !self.cfg.allow_uninterp {
            return unsup(format!("uninterpreted op {name}"));
        }
        let mut key = hash_str(name) ^ self.cfg.uninterp;
        let mut qs = vec![];
        for v in &ins {
            key = mix(key ^ hash_str(&v.canon()));
            v.qubits(&mut qs);
        }
        let nout: usize = outs.iter().map(|t| count_qubits(t).unwrap_or(0)).sum();
        while qs.len() < nout {
            qs.push(self.alloc()?);
        }
        if !qs.is_empty() {
            if qs.len() > 5 {
                return unsup("uninterpreted op on too many qubits");
            }
            let m = Mat::random_unitary(1 << qs.len(), &mut Rng::new(key));
            self.gate(&m, &qs)?;
        }
        let extra = qs.split_off(nout);
        for q in extra {
            self.kill(q)?;
        }
        let mut it = qs.into_iter();
        let mut r = Rng::new(key ^ 0xabcdef);
        let mut res = vec![];
        for t in outs {
            res.push(random_val(t, &mut r, &mut |_| it.next().unwrap())?);
        }
        Ok(res)
    }

    fn nat(&self, fr: &Frame, a: &TypeArg) -> R<u64> {
        match subst1(a, &fr.targs) {
            TypeArg::BoundedNat(n) => Ok(n),
            a => unsup(format!("type argument {a} is not a number")),
        }
    }

    /// Execute a pytket operation kept as an opaque one.
    fn tk1(&mut self, e: &ExtensionOp, ins: &[Val]) -> R<Vec<Val>> {
        let Some(TypeArg::String(text)) = e.args().first() else { return unsup("tk1op argument") };
        let Ok(v) = serde_json::from_str::<serde_json::Value>(text) else { return unsup("tk1op argument") };
        let Ok(op) = serde_json::from_value(v["op"].clone()) else { return unsup("tk1op argument") };
        let mut qs = vec![];
        let mut bits = vec![];
        let mut params = vec![];
        for v in ins {
            match v {
                Val::Qubit(q) => qs.push(*q),
                Val::Rot(a) => params.push(*a),
                v => bits.push(v.as_bool()?),
            }
        }
        let bits = crate::pk::exec(self, &op, &qs, bits, &params, &|_| None)?;
        Ok(qs.into_iter().map(Val::Qubit).chain(bits.into_iter().map(Val::bool)).collect())
    }

    /// Give the qubits `from[i]` the names `to[i]` (a permutation).
    pub fn relabel(&mut self, from: &[u32], to: &[u32]) -> R<()> {
        let mut ps = vec![];
        for q in from {
            ps.push(self.pos(*q)?);
        }
        for (p, q) in ps.into_iter().zip(to) {
            self.st.qs[p] = *q;
        }
        Ok(())
    }

    fn ext(&mut self, fr: &mut Frame, e: &ExtensionOp, mut ins: Vec<Val>) -> R<Vec<Val>> {
        let ext = e.def().extension_id().to_string();
        let name = e.def().name().to_string();
        *self.ops_seen.entry(format!("{ext}.{name}")).or_default() += 1;
        let args = e.args();
        let opt_none = || Val::Sum(0, vec![]);
        Ok(match (ext.as_str(), name.as_str()) {
            ("TKET1", "tk1op") => self.tk1(e, &ins)?,
            // ---------------- tket.quantum
            ("tket.quantum", op) => {
                let m = match op {
                    "H" => Some(g_h()),
                    "X" => Some(g_x()),
                    "Y" => Some(g_y()),
                    "Z" => Some(g_z()),
                    "S" => Some(g_phase(0.5)),
                    "Sdg" => Some(g_phase(-0.5)),
                    "T" => Some(g_phase(0.25)),
                    "Tdg" => Some(g_phase(-0.25)),
                    "V" => Some(if self.cfg.v_is_sx { g_sx() } else { g_rx(0.5) }),
                    "Vdg" => Some(if self.cfg.v_is_sx { g_sx().dagger() } else { g_rx(-0.5) }),
                    "CX" => Some(g_x().controlled(1)),
                    "CY" => Some(g_y().controlled(1)),
                    "CZ" => Some(g_z().controlled(1)),
                    "Toffoli" => Some(g_x().controlled(2)),
                    "Rx" => Some(g_rx(ins[1].as_rot()?)),
                    "Ry" => Some(g_ry(ins[1].as_rot()?)),
                    "Rz" => Some(g_rz(ins[1].as_rot()?)),
                    "CRz" => Some(g_rz(ins[2].as_rot()?).controlled(1)),
                    _ => None,
                };
                if let Some(m) = m {
                    let k = m.n.trailing_zeros() as usize;
                    let mut qs = vec![];
                    for v in &ins[..k] {
                        qs.push(v.as_q()?);
                    }
                    self.gate(&m, &qs)?;
                    self.gates.push((name, qs));
                    ins.truncate(k);
                    return Ok(ins);
                }
                match op {
                    "Measure" => {
                        let b = self.measure(ins[0].as_q()?, false)?;
                        vec![ins[0].clone(), Val::bool(b)]
                    }
                    "MeasureFree" => vec![Val::TBool(self.measure(ins[0].as_q()?, true)?)],
                    "QAlloc" => vec![Val::Qubit(self.alloc()?)],
                    "TryQAlloc" => vec![Val::Sum(1, vec![Val::Qubit(self.alloc()?)])],
                    "QFree" => {
                        self.kill(ins[0].as_q()?)?;
                        vec![]
                    }
                    "Reset" => {
                        self.reset(ins[0].as_q()?)?;
                        ins
                    }
                    "symbolic_angle" => {
                        let v = match args.first() {
                            Some(TypeArg::String(t)) => crate::pk::eval(t, &|_| None, self.cfg).ok(),
                            _ => None,
                        };
                        vec![Val::Rot(v.unwrap_or_else(|| symbolic_value(args, self.cfg)))]
                    }
                    _ => return unsup(format!("op {ext}.{name}")),
                }
            }
            ("tket.global_phase", "global_phase") => {
                let r = ins[0].as_rot()?;
                self.st.scale(C::cis(std::f64::consts::PI * r));
                vec![]
            }
            // ---------------- tket.rotation
            ("tket.rotation", op) => match op {
                "from_halfturns" => {
                    let f = ins[0].as_f()?;
                    if f.is_finite() {
                        vec![Val::Sum(1, vec![Val::Rot(f)])]
                    } else {
                        vec![opt_none()]
                    }
                }
                "from_halfturns_unchecked" => {
                    let f = ins[0].as_f()?;
                    if !f.is_finite() {
                        return self.halt("panic:non-finite rotation".into());
                    }
                    vec![Val::Rot(f)]
                }
                "to_halfturns" => vec![Val::Float(ins[0].as_rot()?)],
                "radd" => vec![Val::Rot(ins[0].as_rot()? + ins[1].as_rot()?)],
                _ => return unsup(format!("op {ext}.{name}")),
            },
            // ---------------- bools
            ("tket.bool", op) => match op {
                "read" => vec![Val::bool(self.tb(&ins[0])?)],
                "make_opaque" => vec![Val::TBool(ins[0].as_bool()?)],
                "not" => vec![Val::TBool(!self.tb(&ins[0])?)],
                "and" => vec![Val::TBool(self.tb(&ins[0])? & self.tb(&ins[1])?)],
                "or" => vec![Val::TBool(self.tb(&ins[0])? | self.tb(&ins[1])?)],
                "xor" => vec![Val::TBool(self.tb(&ins[0])? ^ self.tb(&ins[1])?)],
                "eq" => vec![Val::TBool(self.tb(&ins[0])? == self.tb(&ins[1])?)],
                _ => return unsup(format!("op {ext}.{name}")),
            },
            ("logic", op) => match op {
                "Not" => vec![Val::bool(!ins[0].as_bool()?)],
                "And" => vec![Val::bool(ins[0].as_bool()? & ins[1].as_bool()?)],
                "Or" => vec![Val::bool(ins[0].as_bool()? | ins[1].as_bool()?)],
                "Xor" => vec![Val::bool(ins[0].as_bool()? ^ ins[1].as_bool()?)],
                "Eq" => vec![Val::bool(ins[0].as_bool()? == ins[1].as_bool()?)],
                _ => return unsup(format!("op {ext}.{name}")),
            },
            // ---------------- qsystem
            ("tket.qsystem", op) => match op {
                "Measure" => vec![Val::TBool(self.measure(ins[0].as_q()?, true)?)],
                "LazyMeasure" => {
                    vec![Val::Future(Box::new(Val::bool(self.measure(ins[0].as_q()?, true)?)))]
                }
                "LazyMeasureLeaked" => vec![Val::Future(Box::new(Val::Int(
                    6,
                    self.measure(ins[0].as_q()?, true)? as u64,
                )))],
                "LazyMeasureReset" | "MeasureReset" => {
                    let q = ins[0].as_q()?;
                    let b = self.measure(q, false)?;
                    if b {
                        self.gate(&g_x(), &[q])?;
                    }
                    let v = if op == "MeasureReset" {
                        Val::TBool(b)
                    } else {
                        Val::Future(Box::new(Val::bool(b)))
                    };
                    vec![ins[0].clone(), v]
                }
                "Rz" => {
                    let a = ins[1].as_f()? / std::f64::consts::PI;
                    let q = ins[0].as_q()?;
                    self.gate(&g_rz(a), &[q])?;
                    self.gates.push((name, vec![q]));
                    vec![ins[0].clone()]
                }
                "PhasedX" => {
                    let a = ins[1].as_f()? / std::f64::consts::PI;
                    let b = ins[2].as_f()? / std::f64::consts::PI;
                    let q = ins[0].as_q()?;
                    self.gate(&g_phasedx(a, b), &[q])?;
                    self.gates.push((name, vec![q]));
                    vec![ins[0].clone()]
                }
                "ZZPhase" => {
                    let a = ins[2].as_f()? / std::f64::consts::PI;
                    let qs = [ins[0].as_q()?, ins[1].as_q()?];
                    self.gate(&g_zzphase(a), &qs)?;
                    self.gates.push((name, qs.to_vec()));
                    ins.truncate(2);
                    ins
                }
                "TryQAlloc" => vec![Val::Sum(1, vec![Val::Qubit(self.alloc()?)])],
                "QFree" => {
                    self.kill(ins[0].as_q()?)?;
                    vec![]
                }
                "Reset" => {
                    self.reset(ins[0].as_q()?)?;
                    ins
                }
                "RuntimeBarrier" => {
                    let mut qs = vec![];
                    ins.iter().for_each(|v| v.qubits(&mut qs));
                    for q in &qs {
                        self.pos(*q)?;
                    }
                    self.gates.push((name, qs));
                    ins
                }
                _ => return unsup(format!("op {ext}.{name}")),
            },
            ("tket.futures", op) => {
                let Val::Future(v) = ins.remove(0) else {
                    return fault("future op on a non-future");
                };
                match op {
                    "Read" => vec![*v],
                    "Dup" => vec![Val::Future(v.clone()), Val::Future(v)],
                    "Free" => vec![],
                    _ => return unsup(format!("op {ext}.{name}")),
                }
            }
            ("tket.result", op) => {
                let tag = match &args[0] {
                    TypeArg::String(s) => s.clone(),
                    a => return unsup(format!("result tag {a}")),
                };
                let signed = op.ends_with("_int");
                let txt = match &ins[0] {
                    Val::Int(w, v) if signed => format!("{}", sext(*w, *v)),
                    Val::Arr(xs) if signed => {
                        let mut o = vec![];
                        for x in xs {
                            match x {
                                Some(Val::Int(w, v)) => o.push(format!("{}", sext(*w, *v))),
                                _ => return fault("bad result array element"),
                            }
                        }
                        format!("[{}]", o.join(","))
                    }
                    Val::Arr(xs) if xs.iter().any(|x| x.is_none()) => {
                        return fault("result of an array with borrowed elements")
                    }
                    v => v.canon(),
                };
                self.trace.push(format!("{op}:{tag}={txt}"));
                vec![]
            }
            ("tket.debug", "StateResult") => {
                let tag = format!("{}", args[0]);
                let mut qs = vec![];
                ins.iter().for_each(|v| v.qubits(&mut qs));
                // probabilities of the reported qubits
                let d = if self.cfg.log_state { self.reduced_probs(&qs)? } else { format!("{}q", qs.len()) };
                self.trace.push(format!("state:{tag}={d}"));
                ins
            }
            ("tket.qsystem.random", op) => match op {
                "NewRNGContext" => {
                    let (_, s) = ins[0].as_int()?;
                    self.trace.push(format!("rng_new({s})"));
                    vec![Val::Sum(1, vec![Val::Rng(s, 0)])]
                }
                "DeleteRNGContext" => {
                    // not an event: unordered with the results
                    vec![]
                }
                _ => {
                    let Val::Rng(s, p) = ins[0].clone() else {
                        return fault("rng op on a non-rng");
                    };
                    let raw = mix(mix(s) ^ p);
                    match op {
                        "RandomInt" => vec![Val::Int(5, raw & 0xffff_ffff), Val::Rng(s, p + 1)],
                        "RandomFloat" => {
                            vec![Val::Float((raw >> 11) as f64 / (1u64 << 53) as f64), Val::Rng(s, p + 1)]
                        }
                        "RandomIntBounded" => {
                            let (_, b) = ins[1].as_int()?;
                            vec![Val::Int(5, if b == 0 { 0 } else { raw % b }), Val::Rng(s, p + 1)]
                        }
                        "RandomAdvance" => {
                            let (_, d) = ins[1].as_int()?;
                            vec![Val::Rng(s, p.wrapping_add(d))]
                        }
                        _ => return unsup(format!("op {ext}.{name}")),
                    }
                }
            },
            ("tket.qsystem.utils", "GetCurrentShot") => vec![Val::Int(6, self.cfg.shot)],
            ("tket.guppy", "drop") => {
                let mut qs = vec![];
                ins[0].qubits(&mut qs);
                if !qs.is_empty() {
                    return fault("guppy.drop of a qubit");
                }
                vec![]
            }
            ("tket.modifier", op) => {
                let Val::Func(f) = ins.remove(0) else {
                    return fault("modifier on a non-function");
                };
                let list_len = |a: &TypeArg| match a {
                    TypeArg::List(l) => l.len(),
                    _ => 0,
                };
                let g = match op {
                    "ControlModifier" => {
                        FuncVal::Control(self.nat(fr, &args[0])? as usize, list_len(&args[1]), f)
                    }
                    "DaggerModifier" => FuncVal::Dagger(list_len(&args[0]), f),
                    _ => FuncVal::Power(list_len(&args[0]), f),
                };
                vec![Val::Func(Rc::new(g))]
            }
            // ---------------- prelude
            ("prelude", op) => match op {
                "MakeTuple" => vec![Val::Sum(0, ins)],
                "UnpackTuple" => match ins.remove(0) {
                    Val::Sum(0, v) => v,
                    v => return fault(format!("unpack of {}", v.canon())),
                },
                "Noop" | "Barrier" => {
                    if op == "Barrier" {
                        let mut qs = vec![];
                        if let [TypeArg::List(ts)] = args {
                            for (t, v) in ts.iter().zip(&ins) {
                                if let TypeArg::Runtime(t) = t {
                                    barrier_qubits(t, v, &mut qs);
                                }
                            }
                        }
                        self.gates.push((name, qs));
                    }
                    ins
                }
                "panic" => {
                    let m = ins[0].canon();
                    return self.halt(format!("panic:{m}"));
                }
                "exit" => {
                    let m = ins[0].canon();
                    return self.halt(format!("exit:{m}"));
                }
                "print" => {
                    self.trace.push(format!("print:{}", ins[0].canon()));
                    vec![]
                }
                "MakeError" => {
                    let s = ins[0].as_usize()?;
                    let Val::Str(m) = &ins[1] else {
                        return fault("MakeError message");
                    };
                    vec![Val::Err(s as u32, m.clone())]
                }
                "load_nat" => vec![Val::Usize(self.nat(fr, &args[0])?)],
                _ => return unsup(format!("op {ext}.{name}")),
            },
            ("arithmetic.float", op) => {
                let a = ins[0].as_f()?;
                let b = if ins.len() > 1 { ins[1].as_f()? } else { 0. };
                match op {
                    "feq" => vec![Val::bool(a == b)],
                    "fne" => vec![Val::bool(a != b)],
                    "flt" => vec![Val::bool(a < b)],
                    "fgt" => vec![Val::bool(a > b)],
                    "fle" => vec![Val::bool(a <= b)],
                    "fge" => vec![Val::bool(a >= b)],
                    "fmax" => vec![Val::Float(a.max(b))],
                    "fmin" => vec![Val::Float(a.min(b))],
                    "fadd" => vec![Val::Float(a + b)],
                    "fsub" => vec![Val::Float(a - b)],
                    "fneg" => vec![Val::Float(-a)],
                    "fabs" => vec![Val::Float(a.abs())],
                    "fmul" => vec![Val::Float(a * b)],
                    "fdiv" => vec![Val::Float(a / b)],
                    "fpow" => vec![Val::Float(a.powf(b))],
                    "ffloor" => vec![Val::Float(a.floor())],
                    "fceil" => vec![Val::Float(a.ceil())],
                    "fround" => vec![Val::Float(a.round_ties_even())],
                    _ => return unsup(format!("op {ext}.{name}")),
                }
            }
            ("arithmetic.int", op) => self.int_op(fr, op, args, ins)?,
            ("arithmetic.conversions", op) => {
                let w = match args.first() {
                    Some(a) => self.nat(fr, a)? as u8,
                    None => 6,
                };
                match op {
                    "trunc_u" | "trunc_s" => {
                        let f = ins[0].as_f()?;
                        let t = f.trunc();
                        let bits = 1u32 << w.min(6);
                        let ok = f.is_finite()
                            && if op == "trunc_u" {
                                t >= 0. && t < 2f64.powi(bits as i32)
                            } else {
                                t >= -(2f64.powi(bits as i32 - 1)) && t < 2f64.powi(bits as i32 - 1)
                            };
                        if ok {
                            let v = if op == "trunc_u" { t as u64 } else { t as i64 as u64 };
                            vec![Val::Sum(1, vec![Val::Int(w, v & mask(w))])]
                        } else {
                            vec![Val::Sum(0, vec![Val::Err(0, "trunc".into())])]
                        }
                    }
                    "convert_u" => vec![Val::Float(ins[0].as_int()?.1 as f64)],
                    "convert_s" => {
                        let (w, v) = ins[0].as_int()?;
                        vec![Val::Float(sext(w, v) as f64)]
                    }
                    "itobool" => vec![Val::bool(ins[0].as_int()?.1 & 1 == 1)],
                    "ifrombool" => vec![Val::Int(0, ins[0].as_bool()? as u64)],
                    "itousize" => vec![Val::Usize(ins[0].as_int()?.1)],
                    "ifromusize" => vec![Val::Int(6, ins[0].as_usize()?)],
                    "itostring_u" => vec![Val::Str(format!("{}", ins[0].as_int()?.1))],
                    "itostring_s" => {
                        let (w, v) = ins[0].as_int()?;
                        vec![Val::Str(format!("{}", sext(w, v)))]
                    }
                    "bytecast_int64_to_float64" => vec![Val::Float(f64::from_bits(ins[0].as_int()?.1))],
                    "bytecast_float64_to_int64" => vec![Val::Int(6, ins[0].as_f()?.to_bits())],
                    _ => return unsup(format!("op {ext}.{name}")),
                }
            }
            ("collections.array", op)
            | ("collections.borrow_arr", op)
            | ("collections.value_array", op) => self.arr_op(fr, op, args, ins)?,
            ("collections.static_array", op) => {
                let Val::SArr(xs) = ins[0].clone() else {
                    return fault("static array op");
                };
                match op {
                    "get" => {
                        let i = ins[1].as_usize()? as usize;
                        match xs.get(i) {
                            Some(v) => vec![Val::Sum(1, vec![v.clone()])],
                            None => vec![opt_none()],
                        }
                    }
                    "len" => vec![Val::Usize(xs.len() as u64)],
                    _ => return unsup(format!("op {ext}.{name}")),
                }
            }
            _ => {
                let full = format!("{ext}.{name}{}", args_text(args));
                let outs: Vec<Type> = e.signature().output().iter().cloned().collect();
                if (ext.contains("gpu") || ext.contains("wasm")) && !full.contains("lookup") {
                    let t = format!(
                        "{full}({})",
                        ins.iter().map(|v| v.canon()).collect::<Vec<_>>().join(",")
                    );
                    self.trace.push(t);
                }
                *self.ops_seen.entry("uninterpreted".into()).or_default() += 1;
                self.uninterpreted(&full, &outs, ins)?
            }
        })
    }

    fn tb(&self, v: &Val) -> R<bool> {
        match v {
            Val::TBool(b) => Ok(*b),
            v => fault(format!("expected tket.bool, got {}", v.canon())),
        }
    }

    fn halt<T>(&mut self, ev: String) -> R<T> {
        self.trace.push(ev);
        Err(Stop::Halt)
    }

    fn reduced_probs(&self, qs: &[u32]) -> R<String> {
        let mut ps = vec![];
        for q in qs {
            ps.push(self.pos(*q)?);
        }
        let k = ps.len();
        let mut d = vec![0f64; 1 << k];
        for (i, a) in self.st.amp.iter().enumerate() {
            let mut j = 0;
            for p in &ps {
                j = j * 2 + (i >> p & 1);
            }
            d[j] += a.n2();
        }
        let t: f64 = d.iter().sum();
        Ok(d.iter().map(|x| format!("{:.4}", (x / t).abs() + 0.0)).collect::<Vec<_>>().join(","))
    }

    fn int_op(&mut self, fr: &Frame, op: &str, args: &[TypeArg], ins: Vec<Val>) -> R<Vec<Val>> {
        let (w, a) = ins[0].as_int()?;
        let b = if ins.len() > 1 { ins[1].as_int()?.1 } else { 0 };
        let (sa, sb) = (sext(w, a), sext(w, b));
        let m = mask(w);
        let bits = 1u64 << w.min(6);
        let i = |v: u64| vec![Val::Int(w, v & m)];
        let bo = |b: bool| vec![Val::bool(b)];
        Ok(match op {
            "iwiden_u" => vec![Val::Int(self.nat(fr, &args[1])? as u8, a)],
            "iwiden_s" => {
                let w2 = self.nat(fr, &args[1])? as u8;
                vec![Val::Int(w2, sa as u64 & mask(w2))]
            }
            "inarrow_u" | "inarrow_s" => {
                let w2 = self.nat(fr, &args[1])? as u8;
                let r = a & mask(w2);
                let ok = if op == "inarrow_u" { r == a } else { sext(w2, r) == sa };
                if ok {
                    vec![Val::Sum(1, vec![Val::Int(w2, r)])]
                } else {
                    vec![Val::Sum(0, vec![Val::Err(0, "narrow".into())])]
                }
            }
            "ieq" => bo(a == b),
            "ine" => bo(a != b),
            "ilt_u" => bo(a < b),
            "igt_u" => bo(a > b),
            "ile_u" => bo(a <= b),
            "ige_u" => bo(a >= b),
            "ilt_s" => bo(sa < sb),
            "igt_s" => bo(sa > sb),
            "ile_s" => bo(sa <= sb),
            "ige_s" => bo(sa >= sb),
            "imax_u" => i(a.max(b)),
            "imin_u" => i(a.min(b)),
            "imax_s" => i(sa.max(sb) as u64),
            "imin_s" => i(sa.min(sb) as u64),
            "iadd" => i(a.wrapping_add(b)),
            "isub" => i(a.wrapping_sub(b)),
            "ineg" => i(a.wrapping_neg()),
            "imul" => i(a.wrapping_mul(b)),
            "iabs" => i(sa.wrapping_abs() as u64),
            "iand" => i(a & b),
            "ior" => i(a | b),
            "ixor" => i(a ^ b),
            "inot" => i(!a),
            "ishl" => i(if b >= bits { 0 } else { a << b }),
            "ishr" => i(if b >= bits { 0 } else { a >> b }),
            "irotl" => {
                let k = b % bits;
                i(if k == 0 { a } else { a << k | a >> (bits - k) })
            }
            "irotr" => {
                let k = b % bits;
                i(if k == 0 { a } else { a >> k | a << (bits - k) })
            }
            "ipow" => i(a.wrapping_pow(b.min(u32::MAX as u64) as u32)),
            "idiv_u" | "imod_u" | "idivmod_u" => {
                if b == 0 {
                    return self.halt("panic:division by zero".into());
                }
                match op {
                    "idiv_u" => i(a / b),
                    "imod_u" => i(a % b),
                    _ => vec![Val::Int(w, a / b), Val::Int(w, a % b)],
                }
            }
            "idiv_s" | "imod_s" | "idivmod_s" => {
                if b == 0 {
                    return self.halt("panic:division by zero".into());
                }
                let (q, r) = ((sa as i128).div_euclid(b as i128), (sa as i128).rem_euclid(b as i128));
                match op {
                    "idiv_s" => i(q as u64),
                    "imod_s" => i(r as u64),
                    _ => vec![Val::Int(w, q as u64 & m), Val::Int(w, r as u64 & m)],
                }
            }
            "is_to_u" | "iu_to_s" => i(a),
            _ => return unsup(format!("op arithmetic.int.{op}")),
        })
    }

    fn arr_op(&mut self, fr: &Frame, op: &str, args: &[TypeArg], mut ins: Vec<Val>) -> R<Vec<Val>> {
        let none = || Val::Sum(0, vec![]);
        let some = |v| Val::Sum(1, v);
        Ok(match op {
            "new_array" => vec![Val::Arr(ins.into_iter().map(Some).collect())],
            "unpack" => {
                let a = ins[0].as_arr()?.clone();
                self.full(a)?
            }
            "get" => {
                let a = ins[0].as_arr()?;
                let i = ins[1].as_usize()? as usize;
                let r = match a.get(i) {
                    None => none(),
                    Some(None) => return self.halt("panic:array element is borrowed".into()),
                    Some(Some(v)) => some(vec![v.clone()]),
                };
                vec![r, ins.remove(0)]
            }
            "set" => {
                let mut a = ins[0].as_arr()?.clone();
                let i = ins[1].as_usize()? as usize;
                let v = ins.remove(2);
                if i >= a.len() {
                    vec![Val::Sum(0, vec![v, Val::Arr(a)])]
                } else {
                    let Some(old) = a[i].replace(v) else {
                        return self.halt("panic:array element is borrowed".into());
                    };
                    vec![Val::Sum(1, vec![old, Val::Arr(a)])]
                }
            }
            "swap" => {
                let mut a = ins[0].as_arr()?.clone();
                let i = ins[1].as_usize()? as usize;
                let j = ins[2].as_usize()? as usize;
                if i >= a.len() || j >= a.len() {
                    vec![Val::Sum(0, vec![Val::Arr(a)])]
                } else {
                    if a[i].is_none() || a[j].is_none() {
                        return self.halt("panic:array element is borrowed".into());
                    }
                    a.swap(i, j);
                    vec![Val::Sum(1, vec![Val::Arr(a)])]
                }
            }
            "pop_left" | "pop_right" => {
                let mut a = ins[0].as_arr()?.clone();
                if a.is_empty() {
                    vec![none()]
                } else {
                    let v = if op == "pop_left" { a.remove(0) } else { a.pop().unwrap() };
                    let Some(v) = v else {
                        return self.halt("panic:array element is borrowed".into());
                    };
                    vec![some(vec![v, Val::Arr(a)])]
                }
            }
            "discard_empty" => {
                if !ins[0].as_arr()?.is_empty() {
                    return fault("discard_empty of a non-empty array");
                }
                vec![]
            }
            "repeat" => {
                let n = self.nat(fr, &args[0])?;
                let Val::Func(f) = ins.remove(0) else {
                    return fault("repeat of a non-function");
                };
                let mut out = vec![];
                for _ in 0..n {
                    self.tick()?;
                    out.push(Some(self.call_func(&f, vec![])?.remove(0)));
                }
                vec![Val::Arr(out)]
            }
            "scan" => {
                let a = ins[0].as_arr()?.clone();
                let xs = self.full(a)?;
                let Val::Func(f) = ins[1].clone() else {
                    return fault("scan of a non-function");
                };
                let mut acc: Vec<Val> = ins.split_off(2);
                let mut out = vec![];
                for x in xs {
                    self.tick()?;
                    let mut a = vec![x];
                    a.extend(acc);
                    let mut r = self.call_func(&f, a)?;
                    out.push(Some(r.remove(0)));
                    acc = r;
                }
                let mut res = vec![Val::Arr(out)];
                res.extend(acc);
                res
            }
            "clone" => vec![ins[0].clone(), ins.remove(0)],
            "discard" => {
                let mut qs = vec![];
                ins[0].qubits(&mut qs);
                if !qs.is_empty() {
                    return fault("discard of an array of qubits");
                }
                vec![]
            }
            "borrow" => {
                let mut a = ins[0].as_arr()?.clone();
                let i = ins[1].as_usize()? as usize;
                match a.get_mut(i) {
                    None => return self.halt("panic:array index out of bounds".into()),
                    Some(x) => match x.take() {
                        None => return self.halt("panic:array element is borrowed".into()),
                        Some(v) => vec![Val::Arr(a), v],
                    },
                }
            }
            "return" => {
                let mut a = ins[0].as_arr()?.clone();
                let i = ins[1].as_usize()? as usize;
                let v = ins.remove(2);
                match a.get_mut(i) {
                    None => return self.halt("panic:array index out of bounds".into()),
                    Some(x) => {
                        if x.is_some() {
                            return self.halt("panic:array element not borrowed".into());
                        }
                        *x = Some(v);
                        vec![Val::Arr(a)]
                    }
                }
            }
            "discard_all_borrowed" => {
                if ins[0].as_arr()?.iter().any(|x| x.is_some()) {
                    return self.halt("panic:array has unborrowed elements".into());
                }
                vec![]
            }
            "new_all_borrowed" => {
                let n = self.nat(fr, &args[0])?;
                vec![Val::Arr(vec![None; n as usize])]
            }
            "is_borrowed" => {
                let a = ins[0].as_arr()?;
                let i = ins[1].as_usize()? as usize;
                match a.get(i) {
                    None => return self.halt("panic:array index out of bounds".into()),
                    Some(x) => {
                        let b = x.is_none();
                        vec![ins.remove(0), Val::bool(b)]
                    }
                }
            }
            "to_array" | "from_array" => {
                if ins[0].as_arr()?.iter().any(|x| x.is_none()) {
                    return self.halt("panic:array element is borrowed".into());
                }
                ins
            }
            _ => return unsup(format!("array op {op}")),
        })
    }
    fn full(&mut self, a: Vec<Option<Val>>) -> R<Vec<Val>> {
        let mut out = vec![];
        for x in a {
            match x {
                Some(v) => out.push(v),
                None => return self.halt("panic:array element is borrowed".into()),
            }
        }
        Ok(out)
    }
}

fn subst1(a: &TypeArg, targs: &[TypeArg]) -> TypeArg {
    match a {
        TypeArg::Variable(v) => targs.get(v.index()).cloned().unwrap_or_else(|| a.clone()),
        TypeArg::List(l) => TypeArg::List(l.iter().map(|x| subst1(x, targs)).collect()),
        a => a.clone(),
    }
}

pub fn args_text(args: &[TypeArg]) -> String {
    if args.is_empty() {
        String::new()
    } else {
        format!("<{}>", args.iter().map(|a| format!("{a}")).collect::<Vec<_>>().join(","))
    }
}

fn arr_parts(t: &hugr::types::CustomType) -> Option<(u64, Type)> {
    match (t.name().as_str(), t.args()) {
        ("array" | "borrow_array" | "value_array", [TypeArg::BoundedNat(n), TypeArg::Runtime(ty)]) => {
            Some((*n, ty.clone()))
        }
        _ => None,
    }
}

/// Number of qubits held by a value of this type, when fixed.
pub fn count_qubits(t: &Type) -> Option<usize> {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            if c.name() == "qubit" {
                Some(1)
            } else if let Some((n, e)) = arr_parts(c) {
                Some(n as usize * count_qubits(&e)?)
            } else {
                Some(0)
            }
        }
        TypeEnum::Sum(s) => {
            let mut r = None;
            for v in s.variants() {
                let mut k = 0;
                for t in v.iter() {
                    k += count_qubits(&t.clone().try_into_type().ok()?)?;
                }
                match r {
                    None => r = Some(k),
                    Some(x) if x == k => {}
                    _ => return None,
                }
            }
            Some(r.unwrap_or(0))
        }
        _ => Some(0),
    }
}

/// Random value of a type. `q` supplies qubits.
pub fn random_val(t: &Type, r: &mut Rng, q: &mut dyn FnMut(&mut Rng) -> u32) -> R<Val> {
    Ok(match t.as_type_enum() {
        TypeEnum::Extension(c) => match c.name().as_str() {
            "qubit" => Val::Qubit(q(r)),
            "usize" => Val::Usize(r.below(5) as u64),
            "string" => Val::Str(format!("s{}", r.below(10))),
            "error" => Val::Err(r.below(100) as u32, "rnd".into()),
            "float64" => Val::Float((r.f() - 0.5) * 4.),
            "rotation" => Val::Rot((r.f() - 0.5) * 4.),
            "bool" => Val::TBool(r.chance(0.5)),
            "int" => {
                let TypeArg::BoundedNat(w) = c.args()[0] else {
                    return unsup("int width");
                };
                let v = if r.chance(0.6) { r.next() % 8 } else { r.next() };
                Val::Int(w as u8, v & mask(w as u8))
            }
            "Future" => {
                let TypeArg::Runtime(t) = &c.args()[0] else {
                    return unsup("future type");
                };
                Val::Future(Box::new(random_val(t, r, q)?))
            }
            _ => {
                if let Some((n, e)) = arr_parts(c) {
                    let mut out = vec![];
                    for _ in 0..n {
                        out.push(Some(random_val(&e, r, q)?));
                    }
                    Val::Arr(out)
                } else {
                    Val::Opaque(format!("{}#{}", c.name(), r.next() % 1000))
                }
            }
        },
        TypeEnum::Sum(s) => {
            let tag = r.below(s.num_variants().max(1));
            if let SumType::Unit { .. } = s {
                Val::Sum(tag, vec![])
            } else {
                let row = s.get_variant(tag).unwrap();
                let mut out = vec![];
                for t in row.iter() {
                    let Ok(t) = t.clone().try_into_type() else {
                        return unsup("row variable");
                    };
                    out.push(random_val(&t, r, q)?);
                }
                Val::Sum(tag, out)
            }
        }
        TypeEnum::Function(_) => Val::Opaque("fn".into()),
        o => return unsup(format!("value of type {o}")),
    })
}

/// Value of a symbolic angle without a known value.
pub fn symbolic_value(args: &[TypeArg], cfg: &Cfg) -> f64 {
    Rng::new(hash_str(&args_text(args)) ^ cfg.uninterp).f() * 2.
}

/// Value types a callable node takes.
pub fn input_types(h: &Hugr, n: Node) -> Vec<Type> {
    match h.get_optype(n) {
        OpType::FuncDefn(f) => f.signature().body().input().iter().cloned().collect(),
        OpType::DFG(f) => f.signature.input().iter().cloned().collect(),
        OpType::CFG(c) => c.signature.input().iter().cloned().collect(),
        _ => vec![],
    }
}

/// Run `node` of `h` on the random input derived from `input_seed`, over all measurement branches.
pub fn run(h: &Hugr, node: Node, input_seed: u64, cfg: &Cfg) -> R<Outcomes> {
    let href = Rc::new(HugrRef(h.clone()));
    run_ref(&href, node, input_seed, cfg)
}
pub fn run_ref(href: &Rc<HugrRef>, node: Node, input_seed: u64, cfg: &Cfg) -> R<Outcomes> {
    let tys = input_types(&href.0, node);
    run_with(&tys, input_seed, cfg, &|it, ins| it.call(href, node, vec![], ins))
}
/// Run `body` on the random inputs of the given types, over all measurement branches.
pub fn run_with(tys: &[Type], input_seed: u64, cfg: &Cfg, body: &dyn Fn(&mut Interp, Vec<Val>) -> R<Vec<Val>>) -> R<Outcomes> {
    let mut out = Outcomes::default();
    let mut forced: Vec<(bool, bool)> = vec![];
    let mut plans = HashMap::new();
    loop {
        let mut it = Interp::new(cfg);
        it.plans = std::mem::take(&mut plans);
        it.forced = std::mem::take(&mut forced);
        let mut r = Rng::new(input_seed);
        let mut qn = 0u32;
        let mut ins = vec![];
        for t in tys {
            ins.push(random_val(t, &mut r, &mut |_| {
                qn += 1;
                qn - 1
            })?);
        }
        if qn as usize > cfg.max_qubits {
            return unsup("too many input qubits");
        }
        let mut r2 = Rng::new(input_seed ^ 0x5151);
        it.st.alloc_random(&(0..qn).collect::<Vec<_>>(), &mut r2);
        let res = body(&mut it, ins);
        out.paths += 1;
        out.steps += it.steps;
        for (k, v) in &it.ops_seen {
            *out.ops.entry(k.clone()).or_default() += v;
        }
        let (mut key, oq) = match &res {
            Ok(vals) => {
                let mut oq = vec![];
                vals.iter().for_each(|v| v.qubits(&mut oq));
                (format!("out:{}", vals.iter().map(|v| v.canon()).collect::<Vec<_>>().join(";")), oq)
            }
            Err(Stop::Halt) => ("halt".to_string(), vec![]),
            Err(e) => return Err(e.clone()),
        };
        key = format!("{}|{}", it.trace.join("|"), key);
        if cfg.log_barrier > 0 {
            let mut per: BTreeMap<u32, Vec<String>> = BTreeMap::new();
            for (g, qs) in &it.gates {
                let mut e = qs.clone();
                let name = match (g.as_str(), cfg.log_barrier) {
                    ("Barrier", 1) | ("RuntimeBarrier", 2) => {
                        e.sort();
                        out.events += 1;
                        "barrier"
                    }
                    ("Barrier" | "RuntimeBarrier", _) => continue,
                    (g, _) => g,
                };
                for q in qs {
                    per.entry(*q).or_default().push(format!("{name}{e:?}"));
                }
            }
            key.push_str(&format!("|{per:?}"));
        }
        // trace out everything that is not an output
        let mut dup = oq.clone();
        dup.sort();
        dup.dedup();
        if dup.len() != oq.len() {
            return fault("a qubit is output twice");
        }
        for q in &oq {
            if it.st.pos(*q).is_none() {
                return fault("a freed qubit is output");
            }
        }
        let leaked: Vec<u32> =
            it.st.qs.iter().filter(|q| **q < 0x8000_0000 && !oq.contains(q)).cloned().collect();
        if res.is_ok() && !leaked.is_empty() {
            key.push_str(&format!("|leaked:{}", leaked.len()));
        }
        let rest: Vec<u32> = it.st.qs.iter().filter(|q| !oq.contains(q)).cloned().collect();
        if rest.len() > 12 {
            return unsup("too many qubits to trace out");
        }
        let mut order = rest.clone();
        order.extend(&oq);
        let full = it.st.in_order(&order);
        let k = oq.len();
        let vecs = out.map.entry(key).or_default();
        for d in 0..1usize << rest.len() {
            let v = full[d << k..(d + 1) << k].to_vec();
            if v.iter().map(|x| x.n2()).sum::<f64>() > 1e-14 {
                vecs.push(v);
            }
        }
        // next path
        forced = it.forced;
        plans = it.plans;
        loop {
            match forced.pop() {
                None => return Ok(out),
                Some((false, true)) => {
                    forced.push((true, false));
                    break;
                }
                Some(_) => {}
            }
        }
        if out.paths >= cfg.max_paths {
            return unsup("too many paths");
        }
    }
}

/// The qubits that a barrier on a value of this type covers: bare ones and those
/// in (nested) tuples and arrays, and those in arrays of optional qubits.
fn barrier_qubits(t: &Type, v: &Val, out: &mut Vec<u32>) {
    use crate::gen::prog::{arr_any, opt_of, sum_rows};
    let qb = hugr::extension::prelude::qb_t();
    if t == &qb {
        v.qubits(out);
    } else if let Some((_, e)) = arr_any(t) {
        if let Val::Arr(vs) = v {
            for x in vs.iter().flatten() {
                if e == opt_of(qb.clone()) {
                    x.qubits(out);
                } else {
                    barrier_qubits(&e, x, out);
                }
            }
        }
    } else if let Some(rows) = sum_rows(t) {
        if let (1, Val::Sum(0, vs)) = (rows.len(), v) {
            for (t, v) in rows[0].iter().zip(vs) {
                barrier_qubits(t, v, out);
            }
        }
    }
}

fn density(vs: &[Vec<C>]) -> Vec<C> {
    let n = vs.first().map(|v| v.len()).unwrap_or(1);
    let mut d = vec![ZERO; n * n];
    for v in vs {
        for i in 0..n {
            if v[i] == ZERO {
                continue;
            }
            for j in 0..n {
                d[i * n + j] += v[i] * v[j].conj();
            }
        }
    }
    d
}

pub const TOL: f64 = 1e-6;

/// None when equal, otherwise a description of the difference.
pub fn diff(a: &Outcomes, b: &Outcomes) -> Option<String> {
    let w = |vs: &Vec<Vec<C>>| vs.iter().map(|v| v.iter().map(|x| x.n2()).sum::<f64>()).sum::<f64>();
    let empty = vec![];
    let mut keys: Vec<&String> = a.map.keys().chain(b.map.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let x = a.map.get(k).unwrap_or(&empty);
        let y = b.map.get(k).unwrap_or(&empty);
        let (wx, wy) = (w(x), w(y));
        if (wx - wy).abs() > TOL {
            return Some(format!("probability of [{k}]: {wx:.6} vs {wy:.6}"));
        }
        if wx < TOL {
            continue;
        }
        let (nx, ny) = (x[0].len(), y[0].len());
        if nx != ny {
            return Some(format!("[{k}]: {nx} vs {ny} amplitudes"));
        }
        if x.len() == 1 && y.len() == 1 {
            let d = vec_dist_phase(&x[0], &y[0]);
            if d > TOL {
                return Some(format!("state after [{k}] differs by {d:.6}"));
            }
            continue;
        }
        if nx > 128 {
            continue;
        }
        let (dx, dy) = (density(x), density(y));
        let d = dx.iter().zip(&dy).map(|(p, q)| (*p - *q).abs()).fold(0., f64::max);
        if d > TOL {
            return Some(format!("density matrix after [{k}] differs by {d:.6}"));
        }
    }
    None
}

/// As `diff`, and additionally the phase must agree (single-vector outcomes only).
pub fn diff_exact(a: &Outcomes, b: &Outcomes) -> Option<String> {
    if let Some(d) = diff(a, b) {
        return Some(d);
    }
    for (k, x) in &a.map {
        if let (Some(y), 1) = (b.map.get(k), x.len()) {
            if y.len() == 1 && !k.ends_with("|halt") && k != "halt" {
                let d = x[0].iter().zip(&y[0]).map(|(p, q)| (*p - *q).abs()).fold(0., f64::max);
                if d > TOL {
                    return Some(format!("phase after [{k}] differs ({d:.6})"));
                }
            }
        }
    }
    None
}

#[allow(dead_code)]
fn _unused(_: Direction, _: Port) {}
