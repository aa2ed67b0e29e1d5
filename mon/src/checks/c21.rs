use crate::gen::{assets, circ, dump, ecc, flat};
use crate::report::*;
use crate::rng::Rng;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::package::Package;
use hugr::types::Signature;
use hugr::HugrView;
use serde_json::{json, Value as J};
use std::sync::LazyLock;
use tket::optimiser::badger::load_eccs_json_file;
use tket::rewrite::ECCRewriter;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;

pub static CHECK: Check = Check {
    id: "C21",
    rule: "case = one valid document (a pytket circuit that was generated, encoded from a circuit or program with its opaque payloads, or is a file of the repository; a circuit envelope in any format; an equivalence-class file; a compiled rewriter) with 0..6 mutations (fields removed, duplicated, swapped, of another type, extreme numbers, hostile strings and parameter expressions, deep nesting, truncation, changed bytes), given to every loader that reads it. The call must return; an accepted circuit must validate. A panic, a stack overflow (death of the process) or no answer within the case timeout is a violation. Non-trivial = distinct (loader, mutations, outcome).",
    assumptions: &[
        "panics raised inside hugr-core's own envelope reader (envelope, import, serialisation of HUGRs) are counted, not judged: the code is not in this repository",
        "the contents of a compiled rewriter are only loaded, not used for rewriting",
    ],
    cases: |t| if t == Tier::Quick { 100_000 } else { 1_500_000 },
    min_nontrivial: 1000,
    budget: (60, 700),
    case_timeout: 60,
    f: case,
};

/// Texts of valid pytket documents in the repository.
static PYTKET: LazyLock<Vec<J>> = LazyLock::new(|| {
    let mut out = vec![];
    for d in ["/repo/test_files/pytket"] {
        let Ok(rd) = std::fs::read_dir(d) else { continue };
        let mut fs: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        fs.sort();
        for f in fs {
            if let Ok(s) = std::fs::read_to_string(&f) {
                if s.len() < 40_000 {
                    if let Ok(j) = serde_json::from_str(&s) {
                        out.push(j);
                    }
                }
            }
        }
    }
    out
});
static RWR: LazyLock<Vec<Vec<u8>>> = LazyLock::new(|| {
    ["small_eccs.rwr", "gadget_flip.rwr"].iter().filter_map(|f| std::fs::read(format!("/repo/test_files/eccs/{f}")).ok()).collect()
});
static ECC: LazyLock<Vec<J>> = LazyLock::new(|| {
    ["small_eccs.json", "h_h_eccs.json", "cx_cx_eccs.json", "h_rz_cxrepresentative_set.json"]
        .iter()
        .filter_map(|f| std::fs::read_to_string(format!("/repo/test_files/eccs/{f}")).ok())
        .filter_map(|s| serde_json::from_str(&s).ok())
        .collect()
});

fn hostile_number(r: &mut Rng) -> J {
    match r.below(14) {
        0 => json!(0),
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(i64::MIN),
        4 => json!(1e308),
        5 => json!(-0.0),
        6 => json!(0.5),
        7 => json!(u32::MAX),
        8 => json!(i32::MAX),
        9 => json!(65536),
        10 => json!(255),
        11 => json!(2),
        12 => json!(3),
        _ => json!(1),
    }
}

/// A parameter expression that is wrong, large or odd.
fn hostile_expr(r: &mut Rng) -> String {
    let k = *r.pick(&[3usize, 40, 400, 4000, 100_000]);
    match r.below(26) {
        0 => "(".repeat(k),
        1 => format!("{}1{}", "(".repeat(k), ")".repeat(k)),
        2 => format!("{}x", "-".repeat(k)),
        3 => vec!["1"; k].join("+"),
        4 => vec!["a"; k].join(" - "),
        5 => vec!["x"; k].join("**"),
        6 => format!("{}1{}", "abs(".repeat(k), ")".repeat(k)),
        7 => format!("{}1{}", "2(".repeat(k), ")".repeat(k)),
        8 => format!("{}1{}", "f(".repeat(k), ")".repeat(k)),
        9 => format!("max({})", vec!["1"; k].join(",")),
        10 => "9".repeat(k),
        11 => format!("0.{}", "9".repeat(k)),
        12 => format!("1e{}", "9".repeat(k)),
        13 => format!("1e-{}", "9".repeat(k)),
        14 => "".into(),
        15 => " ".repeat(k),
        16 => "\u{0}".into(),
        17 => "é+1".into(),
        18 => "1//2".into(),
        19 => "1/0".into(),
        20 => "nan".into(),
        21 => (*r.pick(&["inf", "-inf", "NaN", "1_000", "0x10", "1e", ".5", "+1", "1 2", "max()", "max(1)", "min(1,2,3)", "f()", "pi", "-pi", "2pi", "1e400", "-1e400", "1e400*0", "abs(1e309)", "_x", "x_", "I", "zoo", "**", "1**", "*1", "()", "(,)", "\t1\t", "1\n", "0**-1", "(-1)**0.5"])).into(),
        22 => format!("{}x", "2*".repeat(k)),
        23 => vec!["b"; k].join("/"),
        24 => format!("max({}x{}", "max(1,".repeat(k), ")".repeat(k)),
        _ => (0..r.below(12)).map(|_| *r.pick(&["(", ")", "+", "-", "**", "*", "/", "1", "2.5", "x", "max", ",", " ", "e1", "f(", "1e"])).collect(),
    }
}

fn hostile_string(r: &mut Rng) -> String {
    match r.below(9) {
        0 => "".into(),
        1 => "q".into(),
        2 => "\u{0}\u{1}😀".into(),
        3 => "x".repeat(*r.pick(&[100usize, 10_000])),
        4 => (*r.pick(&["CX", "H", "Rz", "Barrier", "CircBox", "Measure", "Conditional", "TK1", "ClExpr", "noop", "Reset", "PhasedX", "CopyBits", "SetBits", "RangePredicate", "Unitary1qBox", "QControlBox", "ExpBox", "Phase", "Input", "Output", "ClassicalTransform", "WASM", "MultiBit", "CnX", "CnRy", "ECR", "StatePreparationBox", "Discard", "Create", "BRIDGE", "TK2", "ZZPhase", "PhaseGadget", "StabiliserAssertionBox"])).into(),
        5 => (*r.pick(&["null", "OPAQUE", "{", "[]", "{\"typ\":\"Inline\"}", "{\"typ\":\"External\",\"id\":0}"])).into(),
        6 => "AAAA".repeat(r.below(40)),
        _ => hostile_expr(r),
    }
}

fn nested(r: &mut Rng) -> J {
    let mut j = json!(0);
    for _ in 0..*r.pick(&[3usize, 60, 200]) {
        j = if r.chance(0.5) { json!([j]) } else { json!({ "a": j }) };
    }
    j
}

fn walk<'a>(j: &'a mut J, f: &mut dyn FnMut(&mut J, Option<&str>), key: Option<&str>) {
    match j {
        J::Array(v) => v.iter_mut().for_each(|x| walk(x, f, key)),
        J::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            for k in ks {
                if let Some(x) = m.get_mut(&k) {
                    walk(x, f, Some(&k));
                }
            }
        }
        _ => {}
    }
    f(j, key);
}
fn count(j: &mut J) -> usize {
    let mut n = 0;
    walk(j, &mut |_, _| n += 1, None);
    n
}
fn nth(j: &mut J, i: usize) -> J {
    let mut n = 0;
    let mut out = J::Null;
    walk(
        j,
        &mut |x, _| {
            if n == i {
                out = x.clone();
            }
            n += 1;
        },
        None,
    );
    out
}

/// One change somewhere in the document.
fn mutate(j: &mut J, r: &mut Rng) -> &'static str {
    let n = count(j);
    let at = r.below(n);
    let other = nth(j, r.below(n));
    let mut i = 0;
    let mut did = "nothing";
    let mut rr = r.fork();
    walk(
        j,
        &mut |x, key| {
            i += 1;
            if i - 1 != at {
                return;
            }
            let r = &mut rr;
            if r.chance(0.08) {
                *x = other.clone();
                did = "replace by another part";
                return;
            }
            if r.chance(0.04) {
                *x = nested(r);
                did = "nested";
                return;
            }
            match x {
                J::Object(m) => {
                    let ks: Vec<String> = m.keys().cloned().collect();
                    if ks.is_empty() || r.chance(0.1) {
                        *x = J::Null;
                        did = "null";
                    } else if r.chance(0.6) {
                        m.remove(r.pick(&ks).as_str());
                        did = "remove a field";
                    } else if r.chance(0.5) {
                        let (a, b) = (r.pick(&ks).clone(), r.pick(&ks).clone());
                        let v = m[&b].clone();
                        m.insert(a, v);
                        did = "copy a field";
                    } else {
                        *x = json!(m.values().cloned().collect::<Vec<_>>());
                        did = "object to list";
                    }
                }
                J::Array(v) => match r.below(8) {
                    0 => {
                        v.clear();
                        did = "empty a list";
                    }
                    1 | 2 if !v.is_empty() => {
                        let k = r.below(v.len());
                        v.remove(k);
                        did = "remove an element";
                    }
                    3 | 4 if !v.is_empty() => {
                        let k = r.below(v.len());
                        let e = v[k].clone();
                        v.insert(r.below(v.len() + 1), e);
                        did = "duplicate an element";
                    }
                    5 if v.len() > 1 => {
                        let (a, b) = (r.below(v.len()), r.below(v.len()));
                        v.swap(a, b);
                        did = "swap elements";
                    }
                    6 if !v.is_empty() && v.len() < 50 => {
                        let e = v[0].clone();
                        (0..*r.pick(&[2usize, 300])).for_each(|_| v.push(e.clone()));
                        did = "many copies";
                    }
                    _ => {
                        v.push(other.clone());
                        did = "append another part";
                    }
                },
                J::Number(_) => {
                    *x = if r.chance(0.9) { hostile_number(r) } else { json!(hostile_string(r)) };
                    did = "number";
                    let _ = key;
                }
                J::String(s) => match r.below(6) {
                    0 if !s.is_empty() => {
                        let mut cs: Vec<char> = s.chars().collect();
                        let k = r.below(cs.len());
                        cs.truncate(k);
                        *s = cs.into_iter().collect();
                        did = "truncate a string";
                    }
                    1 if !s.is_empty() => {
                        let mut cs: Vec<char> = s.chars().collect();
                        for _ in 0..r.range(1, 3) {
                            let k = r.below(cs.len());
                            cs[k] = *r.pick(&['A', '0', '"', '{', '}', ',', ':', '+', '(', 'x', '\u{7f}', 'Z', '/']);
                        }
                        *s = cs.into_iter().collect();
                        did = "change characters";
                    }
                    2 => {
                        // a document within a string
                        if let Ok(mut k) = serde_json::from_str::<J>(s) {
                            if k.is_object() || k.is_array() {
                                mutate(&mut k, r);
                                *s = k.to_string();
                                did = "change an inner document";
                                return;
                            }
                        }
                        *s = hostile_string(r);
                        did = "string";
                    }
                    3 => {
                        *s = hostile_expr(r);
                        did = "expression";
                    }
                    4 => {
                        *x = hostile_number(r);
                        did = "string to number";
                    }
                    _ => {
                        *s = hostile_string(r);
                        did = "string";
                    }
                },
                _ => {
                    *x = match r.below(4) {
                        0 => J::Null,
                        1 => json!(true),
                        2 => json!([]),
                        _ => json!({}),
                    };
                    did = "scalar";
                }
            }
        },
        None,
    );
    did
}

fn mutate_bytes(v: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    if v.is_empty() {
        return "nothing";
    }
    match r.below(6) {
        0 => {
            v.truncate(r.below(v.len()));
            "truncate"
        }
        1 => {
            let k = r.below(v.len());
            v[k] ^= 1 << r.below(8);
            "flip a bit"
        }
        2 => {
            let k = r.below(v.len());
            v[k] = r.below(256) as u8;
            "set a byte"
        }
        3 => {
            let k = r.below(v.len());
            let e = (k + r.range(1, 8)).min(v.len());
            v.drain(k..e);
            "delete bytes"
        }
        4 => {
            let k = r.below(v.len());
            let e = (k + r.range(1, 40)).min(v.len());
            let s: Vec<u8> = v[k..e].to_vec();
            let at = r.below(v.len());
            v.splice(at..at, s);
            "repeat bytes"
        }
        _ => {
            let k = r.below(v.len());
            let n = r.range(1, 4);
            for i in k..(k + n).min(v.len()) {
                v[i] = *r.pick(&[0u8, 0xff, 0x80, 0x7f, b'"', b'[', b'}', b'9']);
            }
            "set bytes"
        }
    }
}

/// A panic in code that reads HUGRs or pattern automata and is not part of
/// this repository.
fn upstream() -> bool {
    LAST_TRACE.with(|t| {
        let t = t.borrow();
        ["hugr_core::envelope::", "hugr_core::package::", "hugr_core::import::", "hugr/validate.rs", "rmp_serde::decode", "hugr_model::"].iter().any(|s| t.contains(s))
    })
}

fn judge<T, E: std::fmt::Display>(ctx: &mut Ctx, what: &str, art: &str, f: impl FnOnce() -> Result<T, E>, key: &str) -> Option<T> {
    ctx.eval();
    let t = std::time::Instant::now();
    LAST_TRACE.with(|t| t.borrow_mut().clear());
    TRACE.with(|t| t.set(true));
    let r = catch(f);
    TRACE.with(|t| t.set(false));
    let dt = t.elapsed().as_secs_f64();
    if dt > 2.0 {
        ctx.count(format!("{what}: took more than 2 s"), 1);
    }
    if dt > 20.0 {
        ctx.violation(format!("{what}:slow"), format!("{what} took {dt:.0} s for {} bytes", art.len()), art.chars().take(4000).collect::<String>());
        return None;
    }
    match r {
        Err(p) if !p.file.contains("/repo/") && upstream() => {
            ctx.count(format!("{what}: panics in hugr-core's reader"), 1);
            None
        }
        Err(p) => {
            ctx.violation(format!("panic:{what}:{}:{}", p.file.rsplit('/').next().unwrap_or(""), norm(&p.msg).chars().take(48).collect::<String>()), format!("{what} panicked at {}: {}", p.file, p.msg.chars().take(400).collect::<String>()), art.chars().take(20_000).collect::<String>());
            None
        }
        Ok(Ok(v)) => {
            ctx.count(format!("{what}: accepted"), 1);
            ctx.nontrivial(&format!("{what}{key}ok"));
            Some(v)
        }
        Ok(Err(e)) => {
            ctx.count(format!("{what}: rejected"), 1);
            let m: String = norm(&e.to_string()).chars().take(60).collect();
            ctx.nontrivial(&format!("{what}{key}{m}"));
            None
        }
    }
}

fn valid(ctx: &mut Ctx, what: &str, h: &hugr::Hugr, art: &str) {
    match catch(|| h.validate()) {
        Ok(Ok(())) => ctx.count("accepted circuits validated", 1),
        Ok(Err(e)) => ctx.violation(
            format!("{what}:accepted an invalid circuit:{}", norm(&e.to_string()).chars().take(80).collect::<String>()),
            format!("{what} accepted a document and made an invalid circuit of it: {e}"),
            format!("{}\n{}", art.chars().take(20_000).collect::<String>(), dump(h)),
        ),
        Err(p) => ctx.violation(format!("{what}:accepted a broken circuit"), format!("validating the loaded circuit panicked: {} {}", p.file, p.msg), art.chars().take(20_000).collect::<String>()),
    }
}

fn pytket_doc(ctx: &mut Ctx, rng: &mut Rng) -> Option<J> {
    match rng.below(10) {
        0 if !PYTKET.is_empty() => Some(rng.pick(&PYTKET).clone()),
        1..=3 => {
            let h = super::c11::source(ctx, rng)?;
            let qs = rng.chance(0.3);
            let regions = super::c11::regions(&h);
            let mut k = h.clone();
            use hugr::hugr::hugrmut::HugrMut;
            k.set_entrypoint(*rng.pick(&regions));
            let c = Circuit::try_new(k).ok()?;
            let o = EncodeOptions::new().with_subcircuits(true).with_config(super::c11::enc_cfg(qs));
            let s = catch(|| SerialCircuit::encode(&c, o)).ok()?.ok()?;
            serde_json::to_value(s).ok()
        }
        _ => {
            let nq = rng.below(4) + 1;
            let nb = rng.below(4);
            let syms: Vec<String> = ["a", "b", "theta_1", "f0"][..rng.below(5)].iter().map(|s| s.to_string()).collect();
            let n = 1 + rng.below(6);
            let deep = rng.chance(0.2);
            let mut g = super::c10::G { r: rng, syms, odd: 0, deep };
            Some(g.circuit(nq, nb, n, 2))
        }
    }
}

fn options(rng: &mut Rng) -> DecodeOptions {
    let mut o = DecodeOptions::new().with_extensions(assets::REG.clone());
    if rng.chance(0.3) {
        o = o.with_config(tket_qsystem::pytket::qsystem_decoder_config());
    }
    if rng.chance(0.2) {
        let i = rng.below(5);
        let b = rng.below(3);
        let row = |q: usize, b: usize| [vec![qb_t(); q], vec![bool_t(); b]].concat();
        o = o.with_signature(Signature::new(row(i, b), row(rng.below(5), rng.below(3))));
    }
    if rng.chance(0.3) {
        o = o.with_input_params((0..rng.below(3)).map(|i| ["a", "x", "a"][i].to_string()).collect::<Vec<_>>());
    }
    o
}

fn pytket(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(mut j) = pytket_doc(ctx, rng) else { return };
    let mut ops = vec![];
    let n = *rng.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 6]);
    for _ in 0..n {
        if rng.chance(0.15) {
            // a hostile parameter where a parameter belongs
            let mut e = rng.fork();
            let mut hits = 0;
            let skip = rng.below(3);
            walk(
                &mut j,
                &mut |x, k| {
                    if k == Some("params") && x.is_string() {
                        if hits == skip {
                            *x = json!(hostile_expr(&mut e));
                        }
                        hits += 1;
                    }
                },
                None,
            );
            ops.push("parameter");
        } else {
            ops.push(mutate(&mut j, rng));
        }
    }
    let mut text = j.to_string().into_bytes();
    if rng.chance(0.1) {
        ops.push(mutate_bytes(&mut text, rng));
    }
    let o = options(rng);
    let art = String::from_utf8_lossy(&text).to_string();
    let key = ops.join(",");
    if rng.chance(0.25) {
        // decode back into a program whose subgraphs the document may name
        if let Ok(ser) = serde_json::from_slice::<SerialCircuit>(&text) {
            let Some(c) = judge(ctx, "decode", &art, || ser.decode(o), &key) else { return };
            valid(ctx, "decode", c.hugr(), &art);
            return;
        }
        return;
    }
    let res = if rng.chance(0.5) {
        judge(ctx, "load_tk1_json_reader", &art, || tket::serialize::load_tk1_json_reader(&text[..], o), &key)
    } else {
        let Ok(t) = String::from_utf8(text) else { return };
        judge(ctx, "load_tk1_json_str", &art, || tket::serialize::load_tk1_json_str(&t, o), &key)
    };
    if let Some(c) = res {
        valid(ctx, "load_tk1_json", c.hugr(), &art);
    }
}

/// Encode a program, change the document, and reassemble it.
fn reassemble(ctx: &mut Ctx, rng: &mut Rng) {
    use tket::serialize::pytket::EncodedCircuit;
    let Some(h) = super::c11::source(ctx, rng) else { return };
    let qs = rng.chance(0.4);
    let Ok(circ) = Circuit::try_new(h.clone()) else { return };
    let Ok(Ok(mut enc)) = catch(|| EncodedCircuit::new(&circ, EncodeOptions::new().with_subcircuits(true).with_config(super::c11::enc_cfg(qs)))) else { return };
    let mut ops = vec![];
    let k = enc.len();
    if k == 0 {
        return;
    }
    let target = rng.below(k);
    let mut art = String::new();
    for (i, (_, c)) in enc.iter_mut().enumerate() {
        if i != target && rng.chance(0.7) {
            continue;
        }
        let Ok(mut j) = serde_json::to_value(&*c) else { continue };
        for _ in 0..rng.range(1, 2) {
            let at = rng.below(3);
            // changes in the commands are read back more often
            let m = if at == 0 { mutate(&mut j, rng) } else { j.get_mut("commands").map(|c| mutate(c, rng)).unwrap_or("nothing") };
            ops.push(m);
        }
        if let Ok(s) = serde_json::from_value::<SerialCircuit>(j.clone()) {
            art += &format!("{j}\n");
            *c = s;
        }
    }
    if art.is_empty() {
        return;
    }
    let mut out = h.clone();
    let art = format!("{art}\n{}", dump(&h));
    let key = ops.join(",");
    let o = if rng.chance(0.5) { super::c11::dec_cfg(qs) } else { super::c11::dec_cfg(!qs) };
    if judge(ctx, "reassemble", &art, || enc.reassemble_inplace(&mut out, Some(o)).map(|_| ()), &key).is_some() {
        valid(ctx, "reassemble", &out, &art);
    }
}

fn envelope(ctx: &mut Ctx, rng: &mut Rng) {
    let h = match rng.below(3) {
        0 => assets::GUPPY[rng.below(assets::GUPPY.len())].1.clone(),
        _ => circ::generate(rng, &circ::Cfg::dynamic((0, 4), (0, 10), circ::ALLG)).hugr(),
    };
    let f = *rng.pick(&[EnvelopeFormat::PackageJson, EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelTextWithExtensions]);
    let mut c = EnvelopeConfig::new(f);
    if rng.chance(0.2) {
        c = c.with_zstd(Default::default());
    }
    let mut bytes = vec![];
    let mods = if rng.chance(0.2) { vec![h.clone(), h] } else { vec![h] };
    if !matches!(catch(|| Package::new(mods).store(&mut bytes, c)), Ok(Ok(_))) {
        return;
    }
    let mut ops = vec![];
    let n = *rng.pick(&[0, 1, 1, 2, 4]);
    if f == EnvelopeFormat::PackageJson && c.zstd.is_none() && rng.chance(0.8) {
        let head = bytes[..10].to_vec();
        if let Ok(mut j) = serde_json::from_slice::<J>(&bytes[10..]) {
            for _ in 0..n {
                ops.push(mutate(&mut j, rng));
            }
            // hugr-core allocates as many nodes as the largest index in the file
            walk(
                &mut j,
                &mut |x, _| {
                    if x.as_i64().is_some_and(|x| x.unsigned_abs() > 70_000) || x.as_u64().is_some_and(|x| x > 70_000) {
                        *x = json!(70_000);
                    }
                },
                None,
            );
            bytes = [head, j.to_string().into_bytes()].concat();
        }
    } else if matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelWithExtensions) && c.zstd.is_none() {
        // hugr-core's importer of the binary model does not survive changed
        // terms (it follows cycles): change the header, or cut the rest
        if n > 0 {
            let mut head = bytes[..10].to_vec();
            ops.push(mutate_bytes(&mut head, rng));
            head.extend_from_slice(&bytes[10..]);
            bytes = head;
        }
        if n > 1 {
            bytes.truncate(rng.below(bytes.len()));
            ops.push("truncate");
        }
    } else {
        for _ in 0..n {
            ops.push(mutate_bytes(&mut bytes, rng));
        }
    }
    let art = format!("{f:?}\n{}", String::from_utf8_lossy(&bytes));
    let key = format!("{f:?}{}", ops.join(","));
    match rng.below(4) {
        0 => {
            if let Some(c) = judge(ctx, "Circuit::load", &art, || Circuit::load(&bytes[..], Some(&assets::REG)), &key) {
                valid(ctx, "Circuit::load", c.hugr(), &art);
            }
        }
        1 => {
            if let Some(c) = judge(ctx, "Circuit::load", &art, || Circuit::load(&bytes[..], None), &key) {
                valid(ctx, "Circuit::load", c.hugr(), &art);
            }
        }
        2 => {
            let Ok(t) = String::from_utf8(bytes) else { return };
            if let Some(c) = judge(ctx, "Circuit::load_str", &art, || Circuit::load_str(&t, None), &key) {
                valid(ctx, "Circuit::load_str", c.hugr(), &art);
            }
        }
        _ => {
            let name = *rng.pick(&["main", "", "f", "__main__"]);
            if let Some(c) = judge(ctx, "Circuit::load_function", &art, || Circuit::load_function(&bytes[..], name), &key) {
                valid(ctx, "Circuit::load_function", c.hugr(), &art);
            }
        }
    }
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(data: &[u8], ext: &str) -> Option<Scratch> {
        let p = std::env::temp_dir().join(format!("mon-c21-{}-{:?}.{ext}", std::process::id(), std::thread::current().id()));
        std::fs::write(&p, data).ok()?;
        Some(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn eccs(ctx: &mut Ctx, rng: &mut Rng) {
    let mut j = if rng.chance(0.5) && !ECC.is_empty() {
        rng.pick(&ECC).clone()
    } else {
        let s = ecc::generate_from(rng, 20, true);
        serde_json::from_str(&ecc::to_json(&s.classes)).unwrap()
    };
    // keep large files small
    if let Some(m) = j.get_mut(1).and_then(|m| m.as_object_mut()) {
        let ks: Vec<String> = m.keys().cloned().collect();
        for k in ks.iter().skip(6) {
            m.remove(k);
        }
    }
    let mut ops = vec![];
    for _ in 0..*rng.pick(&[0, 1, 1, 2, 3]) {
        ops.push(mutate(&mut j, rng));
    }
    let mut bytes = j.to_string().into_bytes();
    if rng.chance(0.1) {
        ops.push(mutate_bytes(&mut bytes, rng));
    }
    let art = String::from_utf8_lossy(&bytes).to_string();
    let Some(f) = Scratch::new(&bytes, "json") else {
        ctx.inconclusive("no scratch file");
        return;
    };
    let key = ops.join(",");
    if rng.chance(0.5) {
        if let Some(cs) = judge(ctx, "load_eccs_json_file", &art, || load_eccs_json_file(&f.0), &key) {
            for c in cs {
                for h in c.circuits() {
                    valid(ctx, "load_eccs_json_file", h, &art);
                }
            }
        }
    } else {
        judge(ctx, "ECCRewriter::try_from_eccs_json_file", &art, || ECCRewriter::try_from_eccs_json_file(&f.0), &key);
    }
}

fn compiled(ctx: &mut Ctx, rng: &mut Rng) {
    let mut raw = if rng.chance(0.6) && !RWR.is_empty() {
        rng.pick(&RWR).clone()
    } else {
        let s = ecc::generate(rng, 12);
        let cl: Vec<_> = s
            .classes
            .iter()
            .filter_map(|c| tket::optimiser::badger::EqCircClass::from_circuits(c.iter().map(|c| Circuit::new(ecc::dfg(c)))).ok())
            .collect();
        let Ok(r) = catch(|| ECCRewriter::from_eccs(cl)) else { return };
        let mut v = vec![];
        if r.save_binary_io(&mut v).is_err() {
            return;
        }
        v
    };
    let mut ops = vec![];
    let n = *rng.pick(&[0, 1, 1, 2, 4]);
    if rng.chance(0.8) {
        if let Ok(mut d) = zstd::decode_all(&raw[..]) {
            for _ in 0..n {
                ops.push(mutate_bytes(&mut d, rng));
            }
            raw = zstd::encode_all(&d[..], 1).unwrap();
        }
    } else {
        ops.push("compressed");
        for _ in 0..n {
            ops.push(mutate_bytes(&mut raw, rng));
        }
    }
    let art: String = raw.iter().map(|b| format!("{b:02x}")).collect();
    let key = ops.join(",");
    judge(ctx, "ECCRewriter::load_binary_io", &art, || ECCRewriter::load_binary_io(&raw[..]), &key);
}

/// Valid documents that are large in one respect.
fn large(ctx: &mut Ctx, rng: &mut Rng) {
    let k = *rng.pick(&[5_000usize, 33_000, 66_000]);
    let kind = rng.below(6);
    // hugr-core needs quadratic time for many uses of one value, and cannot
    // represent 2^16 of them
    let k = if kind == 1 || (kind == 5 && k < 30_000) { k / 10 % 3000 } else { k };
    let q = |i: usize| json!(["q", [i]]);
    let b = |i: usize| json!(["c", [i]]);
    let gate = |t: &str, p: Vec<String>, args: Vec<J>| {
        let mut op = json!({ "type": t });
        if !p.is_empty() {
            op["params"] = json!(p);
        }
        json!({ "op": op, "args": args })
    };
    let (mut nq, mut nb) = (2, 1);
    let mut cmds = vec![];
    match kind {
        // one angle used many times
        0 => (0..k).for_each(|i| cmds.push(gate("Rz", vec!["0.5".into()], vec![q(i % 2)]))),
        // one variable used many times
        1 => (0..k).for_each(|i| cmds.push(gate("Rx", vec!["a".into()], vec![q(i % 2)]))),
        // one bit read many times
        2 => (0..k).for_each(|i| cmds.push(json!({"op": {"type": "Conditional", "conditional": {"op": {"type": "X"}, "width": 1, "value": 1}}, "args": [b(0), q(i % 2)]}))),
        // many angles
        3 => (0..k).for_each(|i| cmds.push(gate("Rz", vec![format!("0.{i}")], vec![q(i % 2)]))),
        // many qubits
        4 => {
            nq = k;
            (0..k).step_by(1000).for_each(|i| cmds.push(gate("H", vec![], vec![q(i)])));
        }
        // many bits and one wide command
        _ => {
            nb = k;
            cmds.push(gate("Barrier", vec![], (0..k).map(b).collect()));
        }
    }
    let j = json!({
        "phase": "0.0", "bits": (0..nb).map(b).collect::<Vec<_>>(), "qubits": (0..nq).map(q).collect::<Vec<_>>(),
        "commands": cmds, "implicit_permutation": (0..nq).map(|i| [q(i), q(i)]).collect::<Vec<_>>(),
    });
    let text = j.to_string();
    let art = format!("kind {kind}, {k} times: {}", text.chars().take(2000).collect::<String>());
    ctx.count("large documents", 1);
    let key = format!("large {kind} {k}");
    if let Some(c) = judge(ctx, "load_tk1_json_str", &art, || tket::serialize::load_tk1_json_str(&text, DecodeOptions::new()), &key) {
        // validation needs quadratic time for wide nodes
        if nq + nb > 3000 {
            return;
        }
        valid(ctx, "load_tk1_json_str", c.hugr(), &art);
    }
}

fn case(ctx: &mut Ctx) {
    let rng = &mut ctx.rng.fork();
    let _ = flat::region_sig;
    if rng.chance(0.0005) {
        return large(ctx, rng);
    }
    match rng.below(20) {
        0..=11 => pytket(ctx, rng),
        12 | 13 => reassemble(ctx, rng),
        14 | 15 => envelope(ctx, rng),
        16 | 17 => eccs(ctx, rng),
        _ => compiled(ctx, rng),
    }
}
