//! Reference semantics of pytket circuits: an evaluator for parameter
//! expressions and an executor for serialised circuits.

use crate::interp::{count_qubits, Cfg, Interp, Outcomes, Stop, Val, R};
use crate::qstate::*;
use hugr::types::{Type, TypeArg};
use std::collections::HashMap;
use tket_json_rs::circuit_json::{Classical, Operation, SerialCircuit};
use tket_json_rs::clexpr::op::ClOp;
use tket_json_rs::clexpr::operator::{ClArgument, ClOperator, ClTerminal, ClVariable};
use tket_json_rs::clexpr::ClExpr;
use tket_json_rs::opbox::OpBox;
use tket_json_rs::optype::OpType as T;
use tket_json_rs::register::ElementId;

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

// ---------------------------------------------------------------- expressions

/// Value given to an expression that has to stay symbolic.
pub fn symbolic(text: &str, cfg: &Cfg) -> f64 {
    crate::interp::symbolic_value(&[TypeArg::String(text.to_string())], cfg)
}

struct Ex<'a> {
    s: &'a [u8],
    i: usize,
    env: &'a dyn Fn(&str) -> Option<f64>,
    cfg: &'a Cfg,
}
type E<X> = Result<X, String>;

impl Ex<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn sum(&mut self) -> E<f64> {
        let mut v = self.prod()?;
        loop {
            if self.eat("+") {
                v += self.prod()?;
            } else if self.eat("-") {
                v -= self.prod()?;
            } else {
                return Ok(v);
            }
        }
    }
    fn prod(&mut self) -> E<f64> {
        let mut v = self.unary()?;
        loop {
            self.ws();
            if self.s[self.i..].starts_with(b"**") {
                return Ok(v);
            }
            if self.eat("*") {
                v *= self.unary()?;
            } else if self.eat("/") {
                v /= self.unary()?;
            } else {
                return Ok(v);
            }
        }
    }
    fn unary(&mut self) -> E<f64> {
        if self.eat("-") {
            return Ok(-self.unary()?);
        }
        self.power()
    }
    fn power(&mut self) -> E<f64> {
        let b = self.atom()?;
        if self.eat("**") {
            let e = self.unary()?;
            return Ok(b.powf(e));
        }
        Ok(b)
    }
    fn atom(&mut self) -> E<f64> {
        self.ws();
        let Some(&c) = self.s.get(self.i) else { return Err("end".into()) };
        if c == b'(' {
            self.i += 1;
            let v = self.sum()?;
            return if self.eat(")") { Ok(v) } else { Err("missing )".into()) };
        }
        if c.is_ascii_digit() {
            let st = self.i;
            let dig = |x: &mut Self| {
                while x.i < x.s.len() && x.s[x.i].is_ascii_digit() {
                    x.i += 1;
                }
            };
            dig(self);
            if self.s.get(self.i) == Some(&b'.') {
                self.i += 1;
                dig(self);
            }
            if matches!(self.s.get(self.i), Some(b'e' | b'E')) {
                let save = self.i;
                self.i += 1;
                if matches!(self.s.get(self.i), Some(b'+' | b'-')) {
                    self.i += 1;
                }
                let d = self.i;
                dig(self);
                if self.i == d {
                    self.i = save;
                }
            }
            let v: f64 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|e| format!("{e}"))?;
            // 2x, 2(x), 2f(x)
            self.ws();
            if matches!(self.s.get(self.i), Some(c) if c.is_ascii_alphabetic() || *c == b'(') {
                return Ok(v * self.atom()?);
            }
            return Ok(v);
        }
        if c.is_ascii_alphabetic() {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                self.i += 1;
            }
            let name = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            if !self.eat("(") {
                if name == "pi" {
                    return Ok(std::f64::consts::PI);
                }
                return (self.env)(&name).ok_or(format!("unknown symbol {name}"));
            }
            let mut args = vec![];
            if !self.eat(")") {
                loop {
                    args.push(self.sum()?);
                    if self.eat(",") {
                        continue;
                    }
                    if self.eat(")") {
                        break;
                    }
                    return Err("bad call".into());
                }
            }
            return Ok(match (name.as_str(), &args[..]) {
                ("max", [a, b]) => a.max(*b),
                ("min", [a, b]) => a.min(*b),
                ("abs", [a]) => a.abs(),
                ("floor", [a]) => a.floor(),
                ("ceil", [a]) => a.ceil(),
                ("round", [a]) => a.round_ties_even(),
                _ => symbolic(std::str::from_utf8(&self.s[st..self.i]).unwrap(), self.cfg),
            });
        }
        Err(format!("unexpected {}", c as char))
    }
}

/// Value of a parameter expression, with python's operator precedence.
pub fn eval(expr: &str, env: &dyn Fn(&str) -> Option<f64>, cfg: &Cfg) -> E<f64> {
    let mut e = Ex { s: expr.as_bytes(), i: 0, env, cfg };
    let v = e.sum()?;
    e.ws();
    if e.i == expr.len() {
        Ok(v)
    } else {
        Err(format!("trailing text in {expr}"))
    }
}

// ---------------------------------------------------------------- operations

fn cl_arg(a: &ClArgument, e: &ClExpr, bits: &[bool]) -> R<u64> {
    let bit = |p: u32| bits.get(p as usize).map(|b| *b as u64).ok_or(Stop::Unsupported("bit position".into()));
    match a {
        ClArgument::Expression(x) => cl_op(x, e, bits),
        ClArgument::Terminal(ClTerminal::Int(v)) => Ok(*v),
        ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) => {
            let Some((_, p)) = e.bit_posn.iter().find(|(i, _)| i == index) else { return unsup("bit index") };
            bit(*p)
        }
        ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index })) => {
            let Some(r) = e.reg_posn.iter().find(|r| r.index == *index) else { return unsup("register index") };
            let mut v = 0;
            for (k, p) in r.bits.0.iter().enumerate() {
                v |= bit(*p)? << k;
            }
            Ok(v)
        }
        _ => unsup("classical argument"),
    }
}

fn cl_op(o: &ClOperator, e: &ClExpr, bits: &[bool]) -> R<u64> {
    let mut a = vec![];
    for x in &o.args {
        a.push(cl_arg(x, e, bits)?);
    }
    let w = e.output_posn.0.len().min(63) as u32;
    let m = (1u64 << w) - 1;
    Ok(match (&o.op, &a[..]) {
        (ClOp::BitAnd | ClOp::RegAnd, [x, y]) => x & y,
        (ClOp::BitOr | ClOp::RegOr, [x, y]) => x | y,
        (ClOp::BitXor | ClOp::RegXor, [x, y]) => x ^ y,
        (ClOp::BitEq | ClOp::RegEq, [x, y]) => (x == y) as u64,
        (ClOp::BitNeq | ClOp::RegNeq, [x, y]) => (x != y) as u64,
        (ClOp::BitNot, [x]) => 1 - (x & 1),
        (ClOp::BitZero | ClOp::RegZero, []) => 0,
        (ClOp::BitOne, []) => 1,
        (ClOp::RegOne, []) => m,
        (ClOp::RegNot, [x]) => !x & m,
        (ClOp::RegLt, [x, y]) => (x < y) as u64,
        (ClOp::RegGt, [x, y]) => (x > y) as u64,
        (ClOp::RegAdd, [x, y]) => x.wrapping_add(*y) & m,
        (ClOp::RegSub, [x, y]) => x.wrapping_sub(*y) & m,
        _ => return unsup("classical operator"),
    })
}

/// Matrix of the gates with a fixed meaning here. Everything else is uninterpreted.
fn matrix(t: T, p: &[f64]) -> Option<Mat> {
    Some(match (t, p) {
        (T::H, []) => g_h(),
        (T::X, []) => g_x(),
        (T::Y, []) => g_y(),
        (T::Z, []) => g_z(),
        (T::S, []) => g_phase(0.5),
        (T::Sdg, []) => g_phase(-0.5),
        (T::T, []) => g_phase(0.25),
        (T::Tdg, []) => g_phase(-0.25),
        (T::V, []) => g_rx(0.5),
        (T::Vdg, []) => g_rx(-0.5),
        (T::Rx, [a]) => g_rx(*a),
        (T::Ry, [a]) => g_ry(*a),
        (T::Rz, [a]) => g_rz(*a),
        (T::CX, []) => g_x().controlled(1),
        (T::CY, []) => g_y().controlled(1),
        (T::CZ, []) => g_z().controlled(1),
        (T::CRz, [a]) => g_rz(*a).controlled(1),
        (T::CCX, []) => g_x().controlled(2),
        (T::SWAP, []) => g_swap(),
        (T::TK1, [a, b, c]) => g_rz(*a).mul(&g_rx(*b)).mul(&g_rz(*c)),
        (T::PhasedX, [a, b]) => g_phasedx(*a, *b),
        (T::ZZPhase, [a]) => g_zzphase(*a),
        (T::ZZMax, []) => g_zzphase(0.5),
        _ => return None,
    })
}

fn as_bit(v: &Val) -> R<bool> {
    match v {
        Val::TBool(b) => Ok(*b),
        v => v.as_bool(),
    }
}

/// Execute a pytket operation; returns the new values of its bits.
pub fn exec(it: &mut Interp, op: &Operation, qs: &[u32], bits: Vec<bool>, params: &[f64], env: &dyn Fn(&str) -> Option<f64>) -> R<Vec<bool>> {
    let mut bits = bits;
    match op.op_type {
        // (a payload stands for a part of a program)
        T::Barrier | T::noop if !op.data.as_ref().is_some_and(|d| d.contains("\"typ\"")) => {}
        T::Conditional => {
            let Some(c) = &op.conditional else { return unsup("conditional without operation") };
            let w = c.width as usize;
            if bits.len() < w {
                return unsup("conditional width");
            }
            let v = bits[..w].iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << i);
            if v == c.value as u64 {
                let mut ps = vec![];
                for p in c.op.params.iter().flatten() {
                    // symbols in conditionals are not parameters of the circuit
                    ps.push(eval(p, &|_| None, it.cfg).unwrap_or_else(|_| symbolic(p, it.cfg)));
                }
                let new = exec(it, &c.op, qs, bits[w..].to_vec(), &ps, env)?;
                bits.splice(w.., new);
            }
        }
        T::SetBits => {
            let Some(Classical::SetBits { values }) = op.classical.as_deref() else { return unsup("SetBits") };
            if values.len() != bits.len() {
                return unsup("SetBits size");
            }
            bits = values.clone();
        }
        T::ClExpr => {
            let Some(e) = &op.classical_expr else { return unsup("ClExpr") };
            let v = cl_op(&e.expr, e, &bits)?;
            for (k, p) in e.output_posn.0.iter().enumerate() {
                let Some(b) = bits.get_mut(*p as usize) else { return unsup("output position") };
                *b = v >> k & 1 == 1;
            }
        }
        T::CopyBits => {
            let Some(Classical::CopyBits { n_i }) = op.classical.as_deref() else { return unsup("CopyBits") };
            let n = *n_i as usize;
            if bits.len() != 2 * n {
                return unsup("CopyBits size");
            }
            for i in 0..n {
                bits[n + i] = bits[i];
            }
        }
        T::Measure => {
            if qs.len() != 1 || bits.len() != 1 {
                return unsup("Measure arguments");
            }
            bits[0] = it.measure(qs[0], false)?;
        }
        T::Reset => {
            if qs.len() != 1 || !bits.is_empty() {
                return unsup("Reset arguments");
            }
            it.reset(qs[0])?;
        }
        T::CircBox => {
            let Some(OpBox::CircBox { circuit, .. }) = &op.op_box else { return unsup("CircBox") };
            bits = exec_circuit(it, circuit, qs, bits, env)?;
        }
        t => match matrix(t, params) {
            Some(m) => {
                if m.n != 1 << qs.len() || !bits.is_empty() {
                    return unsup("gate arguments");
                }
                it.gate(&m, qs)?;
            }
            None => {
                // uninterpreted: a unitary on its qubits and new bits that depend on
                // the operation, its parameters and the old bits
                let mut o = op.clone();
                o.params = None;
                o.signature = None;
                let name = format!("pytket:{}", serde_json::to_string(&o).unwrap());
                let mut ins: Vec<Val> = qs.iter().map(|q| Val::Qubit(*q)).collect();
                ins.extend(bits.iter().map(|b| Val::bool(*b)));
                ins.extend(params.iter().map(|p| Val::Rot(*p)));
                let mut outs = vec![hugr::extension::prelude::qb_t(); qs.len()];
                outs.extend(vec![hugr::extension::prelude::bool_t(); bits.len()]);
                let res = it.uninterpreted(&name, &outs, ins)?;
                bits = res[qs.len()..].iter().map(as_bit).collect::<R<_>>()?;
            }
        },
    }
    Ok(bits)
}

/// The order in which a circuit returns its qubits.
pub fn output_order(c: &SerialCircuit) -> Option<Vec<usize>> {
    let mut order: Vec<usize> = (0..c.qubits.len()).collect();
    for p in &c.implicit_permutation {
        let i = c.qubits.iter().position(|q| *q == p.0)?;
        let o = c.qubits.iter().position(|q| *q == p.1)?;
        order[o] = i;
    }
    let mut s = order.clone();
    s.sort();
    s.dedup();
    (s.len() == order.len()).then_some(order)
}

struct Regs {
    q: HashMap<ElementId, u32>,
    b: HashMap<ElementId, bool>,
}

fn commands(it: &mut Interp, c: &SerialCircuit, r: &mut Regs, env: &dyn Fn(&str) -> Option<f64>) -> R<()> {
    for cmd in &c.commands {
        let mut qs = vec![];
        let mut bs = vec![];
        for a in &cmd.args {
            if let Some(q) = r.q.get(a) {
                qs.push(*q);
            } else if let Some(b) = r.b.get(a) {
                bs.push(*b);
            } else {
                return unsup("unknown register");
            }
        }
        let mut ps = vec![];
        for p in cmd.op.params.iter().flatten() {
            ps.push(eval(p, env, it.cfg).map_err(Stop::Unsupported)?);
        }
        let new = exec(it, &cmd.op, &qs, bs.clone(), &ps, env)?;
        let ids: Vec<&ElementId> = cmd.args.iter().filter(|a| r.b.contains_key(*a)).collect();
        // a bit that occurs twice is written where its value changes
        for ((a, n), o) in ids.into_iter().zip(new).zip(bs) {
            if n != o {
                r.b.insert(a.clone(), n);
            }
        }
    }
    Ok(())
}

fn exec_circuit(it: &mut Interp, c: &SerialCircuit, qs: &[u32], bits: Vec<bool>, env: &dyn Fn(&str) -> Option<f64>) -> R<Vec<bool>> {
    if c.qubits.len() != qs.len() || c.bits.len() != bits.len() {
        return unsup("box size");
    }
    let mut r = Regs {
        q: c.qubits.iter().map(|q| q.id.clone()).zip(qs.iter().cloned()).collect(),
        b: c.bits.iter().map(|b| b.id.clone()).zip(bits).collect(),
    };
    commands(it, c, &mut r, env)?;
    let Some(ord) = output_order(c) else { return unsup("permutation") };
    // the qubit that leaves at position o is the one that entered at ord[o]
    let from: Vec<u32> = ord.iter().map(|i| qs[*i]).collect();
    it.relabel(&from, qs)?;
    Ok(c.bits.iter().map(|b| r.b[&b.id]).collect())
}

fn flatten(t: &Type, v: &Val, qs: &mut Vec<u32>, bs: &mut Vec<bool>, ps: &mut Vec<f64>) -> R<()> {
    match v {
        Val::Qubit(q) => qs.push(*q),
        Val::Rot(x) | Val::Float(x) => ps.push(*x),
        Val::TBool(b) => bs.push(*b),
        Val::Sum(_, _) if *t == hugr::extension::prelude::bool_t() => bs.push(as_bit(v)?),
        Val::Sum(0, vs) => match crate::gen::prog::sum_rows(t) {
            Some(rows) if rows.len() == 1 => {
                for (t, v) in rows[0].iter().zip(vs) {
                    flatten(t, v, qs, bs, ps)?;
                }
            }
            _ => return unsup("type of an input"),
        },
        _ => return unsup("type of an input"),
    }
    Ok(())
}

fn rebuild(t: &Type, qs: &mut dyn Iterator<Item = u32>, bs: &mut dyn Iterator<Item = bool>) -> R<Val> {
    use hugr::extension::prelude::{bool_t, qb_t};
    if *t == qb_t() {
        return qs.next().map(Val::Qubit).ok_or(Stop::Unsupported("qubits for the outputs".into()));
    }
    let tb = *t == tket::extension::bool::bool_type();
    if *t == bool_t() || tb {
        let Some(b) = bs.next() else { return unsup("bits for the outputs") };
        return Ok(if tb { Val::TBool(b) } else { Val::bool(b) });
    }
    if let Some(rows) = crate::gen::prog::sum_rows(t) {
        if rows.len() == 1 {
            let mut out = vec![];
            for t in &rows[0] {
                out.push(rebuild(t, qs, bs)?);
            }
            return Ok(Val::Sum(0, out));
        }
    }
    unsup("type of an output")
}

/// Run a pytket circuit on the random inputs of the given types. The first qubits and
/// bits of the circuit are the inputs, the others start in |0> and false. `names` are
/// the parameters given by the parameter inputs. `bits`: which bit registers are output.
pub fn run(c: &SerialCircuit, ins: &[Type], names: &[String], outs: &[Type], bits: Option<&[usize]>, seed: u64, cfg: &Cfg) -> R<Outcomes> {
    let Some(ord) = output_order(c) else { return unsup("permutation") };
    crate::interp::run_with(ins, seed, cfg, &|it: &mut Interp, vals: Vec<Val>| {
        let (mut qs, mut bs, mut ps) = (vec![], vec![], vec![]);
        for (t, v) in ins.iter().zip(&vals) {
            flatten(t, v, &mut qs, &mut bs, &mut ps)?;
        }
        if qs.len() > c.qubits.len() || ps.len() > names.len() {
            return unsup("too many inputs");
        }
        while qs.len() < c.qubits.len() {
            qs.push(it.alloc()?);
        }
        bs.resize(c.bits.len(), false);
        let m: HashMap<String, f64> = names.iter().cloned().zip(ps).collect();
        let env = |n: &str| m.get(n).cloned();
        let mut r = Regs {
            q: c.qubits.iter().map(|q| q.id.clone()).zip(qs.iter().cloned()).collect(),
            b: c.bits.iter().map(|b| b.id.clone()).zip(bs).collect(),
        };
        commands(it, c, &mut r, &env)?;
        let mut oq = ord.iter().map(|i| qs[*i]);
        let bv: Vec<bool> = match bits {
            Some(ix) => ix.iter().map(|i| r.b[&c.bits[*i].id]).collect(),
            None => c.bits.iter().map(|b| r.b[&b.id]).collect(),
        };
        let mut ob = bv.into_iter();
        let mut res = vec![];
        for t in outs {
            res.push(rebuild(t, &mut oq, &mut ob)?);
        }
        for q in oq {
            it.kill(q)?;
        }
        Ok(res)
    })
}

/// Names of the free symbols of an expression.
pub fn symbols(expr: &str) -> Vec<String> {
    let seen = std::cell::RefCell::new(vec![]);
    let _ = eval(
        expr,
        &|n| {
            if !seen.borrow().contains(&n.to_string()) {
                seen.borrow_mut().push(n.to_string());
            }
            Some(0.5)
        },
        &Cfg::default(),
    );
    seen.into_inner()
}

#[allow(unused)]
pub fn qubits_of(t: &Type) -> usize {
    count_qubits(t).unwrap_or(0)
}
