//! C10: decoding a pytket circuit keeps its meaning.

use crate::gen::{assets, flat};
use crate::interp::{self, Outcomes, Stop};
use crate::pk;
use crate::report::{norm, Check, Ctx, Tier};
use crate::rng::Rng;
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::std_extensions::arithmetic::float_types::float64_type;
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use tket::extension::bool::bool_type;
use tket::extension::rotation::rotation_type;
use tket::serialize::pytket::{DecodeOptions, TKETDecode};
use tket_json_rs::circuit_json::SerialCircuit;

pub const CHECK: Check = Check {
    id: "C10",
    rule: "case = a random pytket circuit (native and other gates, measurements, resets, barriers, conditionals, classical expressions and assignments, nested boxes, parameter expressions over symbols, any register names, implicit permutations, phases) decoded with the default or the qsystem configuration and a random signature; non-trivial = at least 2 commands; distinct = commands",
    assumptions: &["the reference semantics of pytket circuits in mon/src/pk.rs and of programs in mon/src/interp.rs", "operations without a native counterpart are uninterpreted functions of their qubits, bits, parameters and attributes"],
    cases: |t| if t == Tier::Quick { 80_000 } else { 200000 },
    min_nontrivial: 4000,
    budget: (300, 1500),
    case_timeout: 60,
    f: case,
};

pub struct G<'r> {
    pub r: &'r mut Rng,
    /// symbols the expressions may use
    pub syms: Vec<String>,
    /// how many attributes that need not be supported were used
    pub odd: usize,
    pub deep: bool,
}

impl G<'_> {
    fn num(&mut self) -> String {
        match self.r.below(9) {
            0 => format!("{}", self.r.below(5)),
            1 => format!("{}", self.r.range(1, 9) as f64 / 4.),
            2 => format!("{}", self.r.f() * 4.),
            3 => format!("{}e-1", self.r.range(1, 9)),
            4 => format!("{}.", self.r.below(4)),
            5 => format!("0.{}", self.r.range(1, 99)),
            6 => "pi".into(),
            7 => format!("{:.3}E0", self.r.f() * 3.),
            _ => format!("{:.6}", self.r.f() * 2.),
        }
    }
    fn atom(&mut self, d: usize) -> String {
        match self.r.below(8) {
            0 | 1 => self.num(),
            2 | 3 | 4 if !self.syms.is_empty() => self.r.pick(&self.syms).clone(),
            5 if d > 0 => format!("({})", self.expr(d - 1)),
            6 if d > 0 => {
                let f = *self.r.pick(&["max", "min", "abs", "floor", "ceil", "round"]);
                let n = if f == "max" || f == "min" { 2 } else { 1 };
                let a: Vec<String> = (0..n).map(|_| self.expr(d - 1)).collect();
                let sp = *self.r.pick(&["", " "]);
                format!("{f}({}{})", a.join(&format!(",{sp}")), if self.r.chance(0.1) { "," } else { "" })
            }
            7 if d > 0 && self.r.chance(0.5) && self.deep => {
                self.odd += 1;
                format!("sin({})", self.num())
            }
            _ => self.num(),
        }
    }
    /// A random expression. Powers have bases and exponents that keep it finite and smooth.
    pub fn expr(&mut self, d: usize) -> String {
        let sp = *self.r.pick(&["", " ", " "]);
        if d == 0 {
            return self.atom(0);
        }
        match self.r.below(9) {
            0 => format!("{}{sp}+{sp}{}", self.expr(d - 1), self.expr(d - 1)),
            1 => format!("{}{sp}-{sp}{}", self.expr(d - 1), self.expr(d - 1)),
            2 => format!("{}{sp}*{sp}{}", self.atom(d - 1), self.atom(d - 1)),
            3 => format!("{}{sp}/{sp}{}", self.atom(d - 1), self.r.range(2, 7)),
            4 => format!("-{}{}", if self.r.chance(0.2) { " " } else { "" }, self.atom(d - 1)),
            5 => {
                let b = if self.r.chance(0.5) { self.atom(0) } else { format!("{}", self.r.range(1, 4)) };
                let e = match self.r.below(4) {
                    0 => "2**2".to_string(),
                    1 => "-1".to_string(),
                    _ => format!("{}", self.r.range(1, 4)),
                };
                let m = if self.r.chance(0.3) { "-" } else { "" };
                format!("{m}{b}{sp}**{sp}{e}")
            }
            6 if self.r.chance(0.4) => {
                // implicit product, parenthesised so that its precedence does not matter
                let x = if !self.syms.is_empty() && self.r.chance(0.7) { self.r.pick(&self.syms).clone() } else { "pi".into() };
                format!("({}{}{x})", self.r.range(2, 9), if self.r.chance(0.3) { " " } else { "" })
            }
            7 => {
                // chains of one precedence level
                let ops = if self.r.chance(0.5) { ["+", "-"] } else { ["*", "/"] };
                let mut s = self.atom(d - 1);
                for _ in 0..self.r.range(1, 3) {
                    let o = *self.r.pick(&ops);
                    let a = if o == "/" { format!("{}", self.r.range(2, 5)) } else { self.atom(d - 1) };
                    s = format!("{s}{sp}{o}{sp}{a}");
                }
                s
            }
            _ => self.atom(d),
        }
    }

    fn param(&mut self) -> String {
        let d = if self.r.chance(0.4) { self.r.range(1, 3) } else { 0 };
        for _ in 0..20 {
            let e = self.expr(d);
            let v = pk::eval(&e, &|_| Some(0.37), &interp::Cfg::default());
            let w = pk::eval(&e, &|_| Some(-1.62), &interp::Cfg::default());
            if let (Ok(v), Ok(w)) = (v, w) {
                if v.is_finite() && v.abs() < 1e4 && w.is_finite() && w.abs() < 1e4 {
                    return e;
                }
            }
        }
        "0.25".into()
    }

    fn distinct<'a>(&mut self, of: &'a [J], n: usize) -> Vec<J> {
        self.r.distinct(of.len(), n).into_iter().map(|i| of[i].clone()).collect()
    }

    /// A random operation with `nq` available qubits and `nb` available bits:
    /// the operation, how many qubits and bits.
    fn op(&mut self, nq: usize, nb: usize, depth: usize) -> Option<(J, usize, usize)> {
        let w = self.r.weighted(&[20, 16, 12, 8, 6, 4, 4, 4, 6, 4, 3, 2]);
        Some(match w {
            0 => (json!({"type": *self.r.pick(&["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"])}), 1, 0),
            1 => {
                let t = *self.r.pick(&["Rx", "Ry", "Rz"]);
                (json!({"type": t, "params": [self.param()]}), 1, 0)
            }
            2 => (json!({"type": *self.r.pick(&["CX", "CY", "CZ", "ZZMax", "SWAP"])}), 2, 0),
            3 => match self.r.below(4) {
                0 => (json!({"type": "CCX"}), 3, 0),
                1 => (json!({"type": "CRz", "params": [self.param()]}), 2, 0),
                2 => (json!({"type": "ZZPhase", "params": [self.param()]}), 2, 0),
                _ => (json!({"type": "PhasedX", "params": [self.param(), self.param()]}), 1, 0),
            },
            4 => (json!({"type": "Measure"}), 1, 1),
            5 => (json!({"type": "Reset"}), 1, 0),
            // operations without a native counterpart
            6 => match self.r.below(6) {
                0 => (json!({"type": "TK1", "params": [self.param(), self.param(), self.param()]}), 1, 0),
                1 => (json!({"type": *self.r.pick(&["SX", "SXdg"])}), 1, 0),
                2 => (json!({"type": *self.r.pick(&["CV", "CH", "ISWAPMax", "ECR", "CS"])}), 2, 0),
                3 => (json!({"type": "TK2", "params": [self.param(), self.param(), self.param()]}), 2, 0),
                4 => {
                    let n = self.r.range(1, 3);
                    (json!({"type": "CnX", "n_qb": n}), n, 0)
                }
                _ => {
                    let n = self.r.range(1, 3);
                    (json!({"type": "PhaseGadget", "n_qb": n, "params": [self.param()]}), n, 0)
                }
            },
            7 => {
                // barriers
                let (q, b) = (self.r.below(nq + 1), self.r.below(nb + 1));
                if q + b == 0 {
                    return None;
                }
                let sig: Vec<&str> = std::iter::repeat_n("Q", q).chain(std::iter::repeat_n("B", b)).collect();
                let mut j = json!({"type": "Barrier", "signature": sig});
                if self.r.chance(0.3) {
                    j["data"] = json!(*self.r.pick(&["", "text", "{\"a\": 1}", "{\"typ\":\"HugrInline\"}"]));
                }
                (j, q, b)
            }
            8 => {
                // classical operations
                let (c, n) = match self.r.below(6) {
                    0 => {
                        let n = self.r.range(1, 3);
                        let v: Vec<bool> = (0..n).map(|_| self.r.chance(0.5)).collect();
                        (json!({"type": "SetBits", "classical": {"values": v}}), n)
                    }
                    1 => (json!({"type": "CopyBits", "classical": {"n_i": 1}}), 2),
                    2 => (json!({"type": "RangePredicate", "classical": {"n_i": 2, "lower": 1, "upper": 2}}), 3),
                    3 => (json!({"type": "ExplicitPredicate", "classical": {"n_i": 2, "name": "XOR", "values": [false, true, true, false]}}), 3),
                    4 => (json!({"type": "ExplicitModifier", "classical": {"n_i": 1, "name": "AND", "values": [false, false, false, true]}}), 2),
                    _ => (json!({"type": "ClassicalTransform", "classical": {"n_io": 2, "name": "ClassicalCX", "values": [0, 1, 3, 2]}}), 2),
                };
                (c, 0, n)
            }
            9 => {
                let (e, n) = self.clexpr();
                (json!({"type": "ClExpr", "expr": e}), 0, n)
            }
            10 => {
                // conditional
                if nb == 0 {
                    return None;
                }
                let w = self.r.range(1, nb);
                let (o, q, b) = self.op(nq, nb - w, depth)?;
                if o["type"] == "Conditional" || o["type"] == "CircBox" {
                    return None;
                }
                let v = self.r.below(1 << w);
                (json!({"type": "Conditional", "conditional": {"op": o, "width": w, "value": v}}), q, b + w)
            }
            _ => {
                if depth == 0 {
                    return None;
                }
                let (q, b) = (self.r.below(nq + 1), self.r.below(nb + 1));
                if q + b == 0 {
                    return None;
                }
                let syms = if self.r.chance(0.85) { std::mem::take(&mut self.syms) } else { self.odd += 1; self.syms.clone() };
                let n = self.r.range(1, 5);
                let c = self.circuit(q, b, n, depth - 1);
                if self.syms.is_empty() {
                    self.syms = syms;
                }
                let id = format!("{:08x}-0000-4000-8000-{:012x}", self.r.below(1 << 30), self.r.below(1 << 40));
                (json!({"type": "CircBox", "box": {"type": "CircBox", "id": id, "circuit": c}}), q, b)
            }
        })
    }

    /// A classical expression and how many bits it takes.
    fn clexpr(&mut self) -> (J, usize) {
        let bit = |i: usize| json!({"type": "term", "input": {"type": "var", "term": {"type": "bit", "var": {"index": i}}}});
        let reg = |i: usize| json!({"type": "term", "input": {"type": "var", "term": {"type": "reg", "var": {"index": i}}}});
        let int = |v: usize| json!({"type": "term", "input": {"type": "int", "term": v}});
        let bin = ["BitAnd", "BitOr", "BitXor", "BitEq", "BitNeq"];
        let mut regs: Vec<J> = vec![];
        let (expr, nin) = match self.r.below(8) {
            0 | 1 => (json!({"op": *self.r.pick(&bin), "args": [bit(0), bit(1)]}), 2),
            2 => (json!({"op": "BitNot", "args": [bit(0)]}), 1),
            3 => {
                let sub = json!({"type": "expr", "input": {"op": *self.r.pick(&bin), "args": [bit(1), bit(2)]}});
                (json!({"op": *self.r.pick(&bin), "args": if self.r.chance(0.5) { vec![bit(0), sub] } else { vec![sub, bit(0)] }}), 3)
            }
            4 => {
                let c = int(self.r.below(2));
                (json!({"op": *self.r.pick(&bin), "args": if self.r.chance(0.5) { vec![bit(0), c] } else { vec![c, bit(0)] }}), 1)
            }
            5 => (json!({"op": *self.r.pick(&["BitZero", "BitOne"]), "args": []}), 0),
            6 => {
                regs = vec![json!([0, [0]]), json!([1, [1]])];
                (json!({"op": *self.r.pick(&["RegAnd", "RegXor", "RegLt", "RegEq", "BitAnd"]), "args": [reg(0), reg(1)]}), 2)
            }
            _ => {
                let sub = json!({"type": "expr", "input": {"op": "BitNot", "args": [bit(0)]}});
                (json!({"op": "BitNot", "args": [sub]}), 1)
            }
        };
        // where the inputs and the output are among the bits
        let mut n = nin;
        let out = if nin > 0 && self.r.chance(0.25) {
            self.r.below(nin)
        } else {
            n += 1;
            nin
        };
        let mut pos: Vec<usize> = (0..n).collect();
        if self.r.chance(0.3) {
            self.r.shuffle(&mut pos);
        }
        let mut bp = vec![];
        for i in 0..nin {
            if regs.is_empty() {
                bp.push(json!([i, pos[i]]));
            }
        }
        let mut outs = vec![pos[out]];
        let two = regs.is_empty() && self.r.chance(0.05);
        if two {
            n += 1;
            outs.push(n - 1);
        }
        for (i, r) in regs.iter_mut().enumerate() {
            *r = json!([i, [pos[i]]]);
        }
        (json!({"bit_posn": bp, "expr": expr, "reg_posn": regs, "output_posn": outs}), n)
    }

    pub fn circuit(&mut self, nq: usize, nb: usize, n: usize, depth: usize) -> J {
        let style = self.r.below(3);
        let name = |k: &str, i: usize| match style {
            0 => json!([k, [i]]),
            1 => json!([format!("{k}{}", i % 2), [i / 2]]),
            _ => json!([format!("reg_{k}"), [7 - i as i64]]),
        };
        let qs: Vec<J> = (0..nq).map(|i| name("q", i)).collect();
        let bs: Vec<J> = (0..nb).map(|i| name("c", i)).collect();
        let mut cmds = vec![];
        for _ in 0..n {
            let Some((o, q, b)) = self.op(nq, nb, depth) else { continue };
            let dup = o["type"] == "ClExpr" && b == 3 && nb >= 2 && self.r.chance(0.1);
            if q > nq || (b > nb && !dup) {
                continue;
            }
            let mut args = self.distinct(&qs, q);
            if dup && o["expr"]["output_posn"] == json!([2]) {
                // the same bit read twice
                let x = self.distinct(&bs, 2);
                args.extend([x[0].clone(), x[0].clone(), x[1].clone()]);
            } else if b <= nb {
                args.extend(self.distinct(&bs, b));
            } else {
                continue;
            }
            let mut c = json!({"op": o, "args": args});
            if self.r.chance(0.05) {
                c["opgroup"] = json!("grp");
            }
            cmds.push(c);
        }
        // implicit permutation: complete, partial or none
        let mut perm: Vec<J> = vec![];
        match self.r.below(4) {
            0 => {}
            1 => perm = qs.iter().map(|q| json!([q, q])).collect(),
            2 => {
                let mut p: Vec<usize> = (0..nq).collect();
                self.r.shuffle(&mut p);
                perm = (0..nq).map(|i| json!([qs[i], qs[p[i]]])).collect();
                if self.r.chance(0.5) {
                    self.r.shuffle(&mut perm);
                }
            }
            _ => {
                // only some of the qubits are listed
                if nq >= 2 && self.r.chance(0.4) {
                    let v = self.distinct(&qs, 2);
                    perm = vec![json!([v[0], v[1]]), json!([v[1], v[0]])];
                }
            }
        }
        let mut j = json!({
            "phase": if self.r.chance(0.7) { "0.0".to_string() } else { self.param() },
            "commands": cmds, "qubits": qs, "bits": bs, "implicit_permutation": perm,
        });
        if self.r.chance(0.3) {
            j["name"] = json!("circ");
        }
        j
    }
}

pub fn names_of(h: &Hugr) -> Vec<String> {
    let f = h.entrypoint();
    h.get_metadata(f, tket::serialize::pytket::METADATA_INPUT_PARAMETERS)
        .and_then(|v| v.as_array())
        .map(|v| v.iter().filter_map(|s| s.as_str().map(str::to_string)).collect())
        .unwrap_or_default()
}

fn is_param(t: &Type) -> bool {
    *t == rotation_type() || *t == float64_type()
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let rng = &mut rng;
    let nq = rng.below(4) + (rng.chance(0.9) as usize);
    let nb = rng.below(4);
    let syms: Vec<String> = ["a", "b", "theta_1", "f0", "e1"][..rng.below(6)].iter().map(|s| s.to_string()).collect();
    let n = 1 + rng.below(9);
    let deep = rng.chance(0.2);
    let mut g = G { r: rng, syms: syms.clone(), odd: 0, deep };
    let j = g.circuit(nq, nb, n, 2);
    let odd = g.odd;
    let ser: SerialCircuit = match serde_json::from_value(j.clone()) {
        Ok(s) => s,
        Err(e) => panic!("generator made an invalid circuit: {e}\n{j}"),
    };
    // options
    let qs = rng.chance(0.4);
    let sig = if rng.chance(0.5) {
        None
    } else {
        let mut iq = if rng.chance(0.7) { nq } else { rng.below(nq + 1) };
        let mut ib = if rng.chance(0.6) { nb } else { rng.below(nb + 1) };
        let mut oq = if rng.chance(0.7) { nq } else { rng.below(nq + 1) };
        let mut ob = if rng.chance(0.7) { nb } else { rng.below(nb + 1) };
        let mut row = |mut q: usize, mut b: usize, mut p: usize, rng: &mut Rng| {
            let mut v = vec![];
            while q + b + p > 0 {
                let k = rng.below(q + b + p);
                if k < q {
                    q -= 1;
                    v.push(qb_t());
                } else if k < q + b {
                    b -= 1;
                    v.push(if rng.chance(0.6) { bool_t() } else { bool_type() });
                } else {
                    p -= 1;
                    v.push(if rng.chance(0.6) { rotation_type() } else { float64_type() });
                }
            }
            v
        };
        let np = rng.below(3);
        let i = row(std::mem::take(&mut iq), std::mem::take(&mut ib), np, rng);
        let o = row(std::mem::take(&mut oq), std::mem::take(&mut ob), 0, rng);
        Some(Signature::new(i, o))
    };
    let mut given: Vec<String> = vec![];
    if rng.chance(0.5) {
        given = syms.clone();
        rng.shuffle(&mut given);
        given.truncate(rng.below(given.len() + 1));
        if rng.chance(0.2) {
            given.push("unused".into());
        }
    }
    let mut opt = DecodeOptions::new().with_extensions(assets::REG.clone()).with_input_params(given.clone());
    if let Some(s) = &sig {
        opt = opt.with_signature(s.clone());
    }
    if qs {
        opt = opt.with_config(tket_qsystem::pytket::qsystem_decoder_config());
    }
    let art = format!("qsystem {qs}, signature {}, parameters {given:?}\n{j}", sig.as_ref().map(|s| s.to_string()).unwrap_or("default".into()));
    if ser.commands.len() > 1 {
        ctx.nontrivial(&super::c11::commands(&ser));
    }
    for c in &ser.commands {
        ctx.count(&format!("decoded {:?}", c.op.op_type), 1);
    }
    let Some(res) = ctx.guard("decode", &|| art.clone(), || ser.decode(opt)) else { return };
    ctx.eval();
    let h = match res {
        Ok(c) => c.into_hugr(),
        Err(e) => {
            let m = norm(&format!("{e}")).chars().take(80).collect::<String>();
            ctx.count(&format!("rejected: {m}"), 1);
            // what every decoder has to accept
            if sig.is_none() && odd == 0 {
                ctx.violation(&format!("rejected:{m}"), format!("a valid circuit is rejected: {e}"), art);
            }
            return;
        }
    };
    if let Err(e) = h.validate() {
        ctx.violation(&format!("invalid:{}", norm(&format!("{e}")).chars().take(100).collect::<String>()), format!("decoding produced an invalid HUGR: {e}"), art);
        return;
    }
    let Some(got) = flat::region_sig(&h, h.entrypoint()) else {
        ctx.violation("entrypoint", "the entrypoint of the decoded circuit has no signature", art);
        return;
    };
    let want = sig.clone().unwrap_or_else(|| {
        let t = [vec![qb_t(); nq], vec![bool_t(); nb]].concat();
        Signature::new(t.clone(), t)
    });
    let ins: Vec<Type> = got.input().iter().cloned().collect();
    let outs: Vec<Type> = got.output().iter().cloned().collect();
    let k = want.input().len();
    if ins.len() < k || ins[..k] != want.input()[..] || outs[..] != want.output()[..] || ins[k..].iter().any(|t| *t != rotation_type()) {
        ctx.violation("signature", format!("signature {want} became {got}"), art);
        return;
    }
    // parameter inputs: the given names first, then those recorded
    let names = names_of(&h);
    let np = ins.iter().filter(|t| is_param(t)).count();
    if names.iter().zip(&given).any(|(a, b)| a != b) || names.len() < given.len() || names.len() > np {
        ctx.violation("parameters", format!("{np} parameter inputs, given names {given:?}, recorded names {names:?}"), art);
        return;
    }
    let cfg = interp::Cfg { max_qubits: 12, ..Default::default() };
    let mut names = names;
    while names.len() < np {
        names.push(format!("-{}", names.len()));
    }
    for s in 0..2 {
        let seed = ctx.rng.next() ^ s;
        let want: Outcomes = match pk::run(&ser, &ins, &names, &outs, None, seed, &cfg) {
            Ok(o) => o,
            Err(e) => {
                ctx.inconclusive(&format!("reference: {e:?}"));
                return;
            }
        };
        match interp::run(&h, h.entrypoint(), seed, &cfg) {
            Ok(o) => {
                if let Some(d) = interp::diff(&want, &o) {
                    ctx.violation("differs", format!("the decoded program differs: {d}"), format!("{art}\n--- decoded\n{}", crate::gen::dump(&h)));
                    return;
                }
                ctx.count("executions compared equal", 1);
            }
            Err(Stop::Unsupported(e)) => {
                ctx.inconclusive(&format!("program: {e}"));
                return;
            }
            Err(e) => {
                ctx.violation(&format!("fault:{}", norm(&format!("{e:?}"))), format!("the decoded program fails: {e:?}"), format!("{art}\n--- decoded\n{}", crate::gen::dump(&h)));
                return;
            }
        }
    }
}
