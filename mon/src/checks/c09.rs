//! C09: encoding a circuit to pytket keeps its meaning.

use super::c10::G;
use super::c11::{commands, enc_cfg};
use crate::gen::{assets, circ, dump, flat, prog};
use crate::interp::{self, Outcomes, Stop};
use crate::pk;
use crate::report::*;
use crate::rng::Rng;
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::std_extensions::arithmetic::float_types::float64_type;
use hugr::types::Type;
use hugr::{Hugr, HugrView};
use std::collections::{BTreeMap, HashSet};
use tket::extension::rotation::rotation_type;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode, METADATA_INPUT_PARAMETERS};
use tket::Circuit;
use tket_json_rs::circuit_json::{Operation, SerialCircuit};

pub const CHECK: Check = Check {
    id: "C09",
    rule: "case = a circuit (random gates, measurements, resets, allocation, barriers, boxes, computed and symbolic angles, permuted outputs; structured programs; the same lowered to qsystem operations; circuits decoded from random pytket circuits with their register names, parameters, phases and permutations), encoded with the default or the qsystem configuration; the resulting pytket circuit is executed by an independent executor and compared with the program. Non-trivial = distinct pytket circuits with at least one command",
    assumptions: &["the reference semantics of pytket circuits in mon/src/pk.rs and of programs in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 60_000 } else { 400_000 },
    min_nontrivial: 3000,
    budget: (100, 1200),
    case_timeout: 60,
    f: case,
};

/// Circuits without anything that plain pytket cannot express: these must be accepted.
fn simple(rng: &mut Rng) -> Hugr {
    let c = circ::Cfg {
        permute: rng.chance(0.8),
        rot_inputs: rng.below(4),
        fancy_angles: rng.chance(0.5),
        angle_den: if rng.chance(0.5) { 0 } else { 4 },
        meas: if rng.chance(0.4) { 0.1 } else { 0. },
        alloc: if rng.chance(0.3) { 0.1 } else { 0. },
        reset: if rng.chance(0.3) { 0.1 } else { 0. },
        barrier: 0.,
        cond: 0.,
        nested: 0.,
        ..circ::Cfg::pure((1, 6), (0, 30), circ::ALLG)
    };
    plain_alloc(circ::generate(rng, &c)).hugr()
}

/// `TryQAlloc` comes with a conditional, which pytket has no operation for.
fn plain_alloc(mut c: circ::Circ) -> circ::Circ {
    for o in &mut c.ops {
        if let circ::Op::TryAlloc(q) = *o {
            *o = circ::Op::Alloc(q);
        }
    }
    c
}

fn structured(rng: &mut Rng) -> Hugr {
    let all = prog::Feat::all();
    let mut f = prog::Feat {
        ints: false,
        options: false,
        arrays: false,
        barrays: false,
        results: false,
        cond: rng.chance(0.1),
        loops: false,
        cfg: false,
        calls: false,
        indirect: false,
        panics: false,
        rng: false,
        drops: false,
        sarrays: false,
        state: false,
        opaque: false,
        ext_edges: rng.chance(0.1),
        futures: rng.chance(0.5),
        qsys: rng.chance(0.6),
        dfg: rng.chance(0.1),
        floats: rng.chance(0.7),
        tuples: rng.chance(0.5),
        final_results: false,
        risky: false,
        ..all
    };
    f.main_io = true;
    f.io_tbool = rng.chance(0.3);
    prog::generate(rng, f)
}

/// Circuits that came from pytket carry register names, a phase, parameter names.
fn decoded(rng: &mut Rng, qs: bool) -> Option<(Hugr, SerialCircuit)> {
    let nq = rng.range(1, 4);
    let nb = rng.below(4);
    let syms: Vec<String> = ["a", "b", "theta_1", "f0", "f1"][..rng.below(6)].iter().map(|s| s.to_string()).collect();
    let n = 1 + rng.below(9);
    let mut g = G { r: rng, syms, odd: 0, deep: false };
    let j = g.circuit(nq, nb, n, 1);
    let ser: SerialCircuit = serde_json::from_value(j).unwrap();
    let mut opt = DecodeOptions::new().with_extensions(assets::REG.clone());
    if qs {
        opt = opt.with_config(tket_qsystem::pytket::qsystem_decoder_config());
    }
    let h = crate::report::catch(|| ser.decode(opt)).ok()?.ok()?.into_hugr();
    h.validate().ok()?;
    Some((h, ser))
}

fn opaque(op: &Operation) -> bool {
    if let Some(d) = &op.data {
        if d.contains("\"typ\"") {
            return true;
        }
    }
    if let Some(c) = &op.conditional {
        if opaque(&c.op) {
            return true;
        }
    }
    if let Some(tket_json_rs::opbox::OpBox::CircBox { circuit, .. }) = &op.op_box {
        return circuit.commands.iter().any(|c| opaque(&c.op));
    }
    false
}

/// Names of the result have to fit together.
fn consistent(c: &SerialCircuit) -> Result<(), String> {
    let mut all = HashSet::new();
    for q in &c.qubits {
        if !all.insert(q.id.clone()) {
            return Err(format!("register {:?} is declared twice", q.id));
        }
    }
    for b in &c.bits {
        if !all.insert(b.id.clone()) {
            return Err(format!("register {:?} is declared twice", b.id));
        }
    }
    // array-like registers are either qubits or bits, with one dimension
    let qn: HashSet<&String> = c.qubits.iter().map(|q| &q.id.0).collect();
    if let Some(b) = c.bits.iter().find(|b| qn.contains(&b.id.0)) {
        return Err(format!("the name {} is used for qubits and bits", b.id.0));
    }
    for cmd in &c.commands {
        let mut seen = HashSet::new();
        for a in &cmd.args {
            if !all.contains(a) {
                return Err(format!("a command uses the undeclared register {a:?}"));
            }
            if c.qubits.iter().any(|q| q.id == *a) && !seen.insert(a) {
                return Err(format!("a command uses the qubit {a:?} twice"));
            }
        }
        if let Some(tket_json_rs::opbox::OpBox::CircBox { circuit, .. }) = &cmd.op.op_box {
            consistent(circuit).map_err(|e| format!("in a box: {e}"))?;
            if circuit.qubits.len() + circuit.bits.len() != cmd.args.len() {
                return Err(format!("a box over {} registers is used on {}", circuit.qubits.len() + circuit.bits.len(), cmd.args.len()));
            }
        }
    }
    if !c.implicit_permutation.is_empty() {
        let a: HashSet<_> = c.implicit_permutation.iter().map(|p| p.0.id.clone()).collect();
        let b: HashSet<_> = c.implicit_permutation.iter().map(|p| p.1.id.clone()).collect();
        let q: HashSet<_> = c.qubits.iter().map(|q| q.id.clone()).collect();
        if a != q || b != q || c.implicit_permutation.len() != q.len() {
            return Err("the implicit permutation is not a permutation of the qubits".into());
        }
    }
    Ok(())
}

/// Keep the qubits and the given output bits (positions among the bits).
fn project(o: &Outcomes, keep: &[usize]) -> Outcomes {
    let mut map: BTreeMap<String, Vec<Vec<crate::qstate::C>>> = BTreeMap::new();
    for (k, v) in &o.map {
        let key = match k.split_once("|out:") {
            None => k.clone(),
            Some((t, out)) => {
                let (out, tail) = out.split_once('|').unwrap_or((out, ""));
                let bits: Vec<&str> = out.split(';').filter(|x| *x != "q" && !x.is_empty()).collect();
                let qs = out.split(';').filter(|x| *x == "q").count();
                let kept: Vec<&str> = keep.iter().map(|i| bits[*i]).collect();
                format!("{t}|out:{qs}:{}|{tail}", kept.join(";"))
            }
        };
        map.entry(key).or_default().extend(v.iter().cloned());
    }
    Outcomes { map, ..Default::default() }
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let rng = &mut rng;
    let mut qs = rng.chance(0.4);
    let mut must = false;
    let mut from: Option<SerialCircuit> = None;
    let kind = rng.below(11);
    let mut h = match kind {
        0..=3 => {
            must = true;
            simple(rng)
        }
        4..=5 => {
            let c = circ::Cfg::dynamic((0, 6), (0, 30), circ::ALLG);
            if rng.chance(0.8) {
                plain_alloc(circ::generate(rng, &circ::Cfg { cond: 0., nested: 0., ..c })).hugr()
            } else {
                circ::generate(rng, &c).hugr()
            }
        }
        6..=7 => {
            qs = rng.chance(0.8);
            structured(rng)
        }
        _ => {
            let Some((h, s)) = decoded(rng, qs) else {
                ctx.count("pytket circuit not decoded", 1);
                return;
            };
            from = Some(s);
            h
        }
    };
    let mut lowered = false;
    if from.is_none() && rng.chance(0.05) {
        let mut k = h.clone();
        if let Ok(Ok(_)) = catch(|| tket_qsystem::extension::qsystem::lower_tk2_op(&mut k)) {
            must = false;
            qs = rng.chance(0.9);
            h = k;
            lowered = true;
            ctx.count("lowered to qsystem first", 1);
        }
    }
    // (shuffling drops the metadata)
    if from.is_none() && rng.chance(0.3) {
        h = flat::shuffle(&h, rng).0;
    }
    if h.validate().is_err() {
        ctx.inconclusive("generator");
        return;
    }
    let n = h.entrypoint();
    let Some(sig) = flat::region_sig(&h, n) else { return };
    let art = format!("qsystem {qs}\n{}", dump(&h));
    let sub = rng.chance(0.7);
    let Ok(c) = Circuit::try_new(h.clone()) else { return };
    let Some(res) = ctx.guard("encode", &|| art.clone(), || SerialCircuit::encode(&c, EncodeOptions::new().with_subcircuits(sub).with_config(enc_cfg(qs)))) else { return };
    ctx.eval();
    let ser = match res {
        Ok(s) => s,
        Err(e) => {
            let m = norm(&format!("{e}")).chars().take(60).collect::<String>();
            ctx.count(&format!("rejected ({}): {m}", if from.is_some() { "decoded" } else if lowered { "lowered" } else if kind > 5 { "structured" } else { "circuit" }), 1);
            if std::env::var("MON_UNS").is_ok() {
                for w in format!("{e}").split("Node(").skip(1) {
                    let k: u32 = w.split(')').next().unwrap().parse().unwrap();
                    let nd = h.nodes().find(|n| format!("{n}") == format!("Node({k})"));
                    if let Some(nd) = nd {
                        ctx.count(&format!("UNS {}", h.get_optype(nd)).chars().take(60).collect::<String>(), 1);
                    }
                }
            }
            if must {
                ctx.violation(&format!("rejected:{m}"), format!("a circuit of native operations is rejected: {e}"), art);
            }
            return;
        }
    };
    let text = serde_json::to_string(&ser).unwrap();
    let art = format!("{art}\n--- pytket\n{text}");
    if let Err(e) = consistent(&ser) {
        ctx.violation(&format!("registers:{}", norm(&e).chars().take(60).collect::<String>()), e, art);
        return;
    }
    if let Some(s) = &from {
        // names, phase and parameters of the pytket circuit survive
        if ser.phase != s.phase {
            ctx.violation("phase", format!("phase {} became {}", s.phase, ser.phase), art);
            return;
        }
        if ser.qubits.len() < s.qubits.len() || ser.qubits[..s.qubits.len()] != s.qubits[..] {
            ctx.violation("names", format!("qubits {:?} became {:?}", s.qubits, ser.qubits), art);
            return;
        }
    }
    if must && ser.commands.iter().any(|c| opaque(&c.op)) {
        // allowed: parts that pytket has no operation for
        ctx.count("simple circuits with opaque parts", 1);
    }
    if ser.commands.iter().any(|c| opaque(&c.op)) {
        ctx.count("has opaque parts: not executed", 1);
        return;
    }
    let ok = |t: &Type| *t == qb_t() || *t == bool_t() || *t == tket::extension::bool::bool_type();
    if !sig.output().iter().all(ok) {
        ctx.count("other output types: not executed", 1);
        return;
    }
    let isp = |t: &Type| *t == rotation_type() || *t == float64_type();
    let ins: Vec<Type> = sig.input().iter().cloned().collect();
    if !ins.iter().all(|t| ok(t) || isp(t)) {
        ctx.count("other input types: not executed", 1);
        return;
    }
    // order of the outputs
    let qo = sig.output().iter().filter(|t| **t == qb_t()).count();
    let bo = sig.output().len() - qo;
    let np = ins.iter().filter(|t| isp(t)).count();
    let mut names: Vec<String> = h
        .get_metadata(n, METADATA_INPUT_PARAMETERS)
        .and_then(|v| v.as_array().cloned())
        .unwrap_or_default()
        .iter()
        .filter_map(|v| v.as_str().map(str::to_string))
        .collect();
    names.truncate(np);
    let mut used: HashSet<String> = names.iter().cloned().collect();
    let mut k = 0;
    // parameters without a name get the first free f<i>
    while names.len() < np {
        let f = if used.contains(&format!("f{}", names.len())) || k > 0 {
            k = 1;
            (0..).map(|i| format!("f{i}")).find(|f| !used.contains(f)).unwrap()
        } else {
            format!("f{}", names.len())
        };
        used.insert(f.clone());
        names.push(f);
    }
    if !ser.commands.is_empty() {
        ctx.nontrivial(&commands(&ser));
    }
    for c in &ser.commands {
        ctx.count(&format!("encoded {:?}", c.op.op_type), 1);
    }
    let cfg = interp::Cfg { max_qubits: 12, ..Default::default() };
    let nb = ser.bits.len();
    if nb > 24 {
        return;
    }
    let outs: Vec<Type> = [vec![qb_t(); qo], vec![bool_t(); nb]].concat();
    let mut assigned: Option<Vec<usize>> = None;
    for _ in 0..2 {
        let seed = ctx.rng.next();
        let orig = match interp::run(&h, n, seed, &cfg) {
            Ok(o) => o,
            Err(e) => {
                ctx.inconclusive(format!("program: {}", norm(&format!("{e:?}"))));
                return;
            }
        };
        let got = match pk::run(&ser, &ins, &names, &outs, None, seed, &cfg) {
            Ok(o) => o,
            Err(Stop::Unsupported(e)) if e.starts_with("unknown symbol") => {
                ctx.violation("symbols", format!("the pytket circuit: {e}; parameters {names:?}"), art);
                return;
            }
            Err(Stop::Unsupported(e)) => {
                ctx.inconclusive(format!("reference: {}", norm(&e)));
                return;
            }
            Err(e) => {
                ctx.violation(&format!("fault:{}", norm(&format!("{e:?}"))), format!("the pytket circuit fails: {e:?}"), art);
                return;
            }
        };
        // which registers hold the output bits: the qubits must agree, and each bit must be some register
        let none = project(&orig, &[]);
        if let Some(d) = interp::diff(&none, &project(&got, &[])) {
            ctx.violation("differs", format!("the pytket circuit differs: {d}"), art);
            return;
        }
        let mut cands: Vec<Vec<usize>> = vec![];
        for j in 0..bo {
            let o = project(&orig, &[j]);
            cands.push((0..nb).filter(|r| interp::diff(&o, &project(&got, &[*r])).is_none()).collect());
            if cands[j].is_empty() {
                ctx.violation("bit", format!("no bit of the pytket circuit holds output bit {j}"), art);
                return;
            }
        }
        let all: Vec<usize> = (0..bo).collect();
        let o = project(&orig, &all);
        // search for a joint assignment
        let mut found = None;
        let mut tries = 0;
        let mut idx = vec![0; bo];
        loop {
            let a: Vec<usize> = (0..bo).map(|j| cands[j][idx[j]]).collect();
            tries += 1;
            if interp::diff(&o, &project(&got, &a)).is_none() {
                found = Some(a);
                break;
            }
            let mut j = 0;
            while j < bo {
                idx[j] += 1;
                if idx[j] < cands[j].len() {
                    break;
                }
                idx[j] = 0;
                j += 1;
            }
            if j == bo || tries > 256 {
                break;
            }
        }
        match found {
            Some(a) => {
                ctx.count("executions compared equal", 1);
                ctx.count("output bits found", bo as u64);
                assigned = Some(a);
            }
            None if tries > 256 => {
                ctx.inconclusive("too many bit assignments");
                return;
            }
            None => {
                ctx.violation("bits", "no bits of the pytket circuit hold the output bits jointly", art);
                return;
            }
        }
    }
    let _ = assigned;
}
