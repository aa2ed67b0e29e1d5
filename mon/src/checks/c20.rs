use super::util::*;
use crate::gen::{assets, circ, dump, flat, prog};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{FuncDecl, FuncDefn, OpTrait, OpType};
use hugr::package::Package;
use hugr::types::PolyFuncType;
use hugr::{Hugr, HugrView, Node, PortIndex};
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use std::collections::{BTreeMap, HashMap};
use tket::serialize::CircuitLoadError;
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C20",
    rule: "case = one circuit (a random region of a random circuit, a generated program or a compiled file; with random node metadata and a shuffled node order) stored with one envelope configuration, as bytes or text, and loaded again; or one package of several modules from which functions are loaded by name (present, absent, declared only, generic, shadowed); or one circuit made owned / extracted from a borrowed or re-rooted view. The loaded circuit must be valid, have the same name, signature, units and operation count, and be the same graph: node by node in child order the same operation, ports, links, constants and metadata, and the same entrypoint (JSON and binary), and behave the same when run. Non-trivial = distinct (configuration, kind of root, size, features of the circuit).",
    assumptions: &[
        "the text form of the hugr model does not parse back (hugr-core 0.24.3): only that storing or loading gives an error instead of a wrong circuit is demanded there",
        "the order of nodes and the numbering of empty ports are not part of the binary model format",
    ],
    cases: |t| if t == Tier::Quick { 12_000 } else { 200_000 },
    min_nontrivial: 500,
    budget: (60, 600),
    case_timeout: 60,
    f: case,
};

fn rand_meta(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::json;
    match r.below(if depth == 0 { 8 } else { 10 }) {
        0 => json!(r.below(1000)),
        1 => json!(-(r.below(1000) as i64)),
        2 => json!(r.f()),
        3 => json!(""),
        4 => json!(*r.pick(&["x", "q\"uote\\", "tab\tnl\n", "ünï😀", "a.b.c", "\u{0}", "null"])),
        5 => json!(true),
        6 => json!(u64::MAX),
        7 => json!(*r.pick(&[1e300, -0.5, 3.0, 1e-300])),
        8 => serde_json::Value::Array((0..r.below(4)).map(|_| rand_meta(r, depth - 1)).collect()),
        _ => serde_json::Value::Object((0..r.below(4)).map(|i| (format!("k{i}"), rand_meta(r, depth - 1))).collect()),
    }
}

fn add_meta(h: &mut Hugr, r: &mut Rng) -> usize {
    let nodes: Vec<Node> = h.descendants(h.module_root()).collect();
    let k = r.range(0, 6);
    for _ in 0..k {
        let n = *r.pick(&nodes);
        let key = *r.pick(&["name", "TKET1.phase", "TKET1.qubit_registers", "user.key", "", "x y", "core.generator2"]);
        let v = rand_meta(r, 2);
        h.set_metadata(n, key, v);
    }
    k
}

type Links = Vec<(usize, Vec<(usize, usize)>)>;

struct Form {
    nodes: Vec<Node>,
    idx: HashMap<Node, usize>,
}
fn form(h: &Hugr) -> Form {
    let mut nodes = vec![];
    fn rec(h: &Hugr, n: Node, out: &mut Vec<Node>) {
        out.push(n);
        for c in h.children(n) {
            rec(h, c, out);
        }
    }
    rec(h, h.module_root(), &mut nodes);
    let idx = nodes.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    Form { nodes, idx }
}
fn links(h: &Hugr, n: Node, f: &Form) -> Links {
    h.node_outputs(n)
        .map(|p| {
            let mut v: Vec<(usize, usize)> = h.linked_inputs(n, p).map(|(m, q)| (f.idx[&m], q.index())).collect();
            v.sort();
            (p.index(), v)
        })
        .filter(|(_, v)| !v.is_empty())
        .collect()
}

fn meta_of(h: &Hugr, n: Node) -> BTreeMap<String, serde_json::Value> {
    h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// The JSON library reads a decimal number to the nearest double or a
/// neighbour of it (it is built without exact parsing).
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan())
}
fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => x == y || (x.is_f64() && y.is_f64() && close(x.as_f64().unwrap(), y.as_f64().unwrap())),
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_json(a, b)),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_json(v, w))),
        _ => a == b,
    }
}
/// The same operation. Constants are compared as serialised values: some
/// kinds (floats) never compare equal.
fn same_op(o: &OpType, p: &OpType) -> bool {
    if o == p {
        return true;
    }
    match (o, p) {
        (OpType::Const(_), OpType::Const(_)) => match (serde_json::to_value(o), serde_json::to_value(p)) {
            (Ok(a), Ok(b)) => same_json(&a, &b),
            _ => false,
        },
        _ => false,
    }
}

/// The same graph, node by node in child order.
pub fn identical(a: &Hugr, b: &Hugr, ports: bool) -> Result<(), (String, String)> {
    let (fa, fb) = (form(a), form(b));
    if fa.nodes.len() != fb.nodes.len() {
        return Err(("nodes".into(), format!("{} nodes became {}", fa.nodes.len(), fb.nodes.len())));
    }
    let ea = fa.idx.get(&a.entrypoint());
    let eb = fb.idx.get(&b.entrypoint());
    if ea != eb {
        return Err(("entrypoint".into(), format!("entrypoint {ea:?} became {eb:?}")));
    }
    for (i, (&x, &y)) in fa.nodes.iter().zip(&fb.nodes).enumerate() {
        let (o, p) = (a.get_optype(x), b.get_optype(y));
        if !same_op(o, p) {
            return Err(("op".into(), format!("node {i}: {o:?} became {p:?}").chars().take(2000).collect()));
        }
        if a.children(x).count() != b.children(y).count() {
            return Err(("children".into(), format!("node {i}: other number of children")));
        }
        if ports && (a.num_inputs(x) != b.num_inputs(y) || a.num_outputs(x) != b.num_outputs(y)) {
            return Err(("ports".into(), format!("node {i} ({o}): ports {}/{} became {}/{}", a.num_inputs(x), a.num_outputs(x), b.num_inputs(y), b.num_outputs(y))));
        }
        let (l, m) = (links(a, x, &fa), links(b, y, &fb));
        if l != m {
            return Err(("links".into(), format!("node {i} ({o}): links {l:?} became {m:?}")));
        }
        let (u, v) = (meta_of(a, x), meta_of(b, y));
        if u.keys().ne(v.keys()) || u.values().zip(v.values()).any(|(a, b)| !same_json(a, b)) {
            return Err(("metadata".into(), format!("node {i} ({o}): metadata {u:?} became {v:?}")));
        }
    }
    Ok(())
}

/// What is the same however nodes are ordered: the tree of operations with
/// their metadata as a multiset, and every link described by both ends. The
/// model keeps constants at the place that loads them and has no metadata on
/// the input and output nodes and the cases of a region.
fn canonical(h: &Hugr) -> (BTreeMap<String, usize>, String) {
    fn op_text(h: &Hugr, n: Node) -> String {
        let op = h.get_optype(n);
        let s = match op {
            OpType::Const(c) => format!("const {:?}", c.value()),
            OpType::ExtensionOp(e) => format!("{}{}", e.qualified_id(), crate::interp::args_text(e.args())),
            OpType::FuncDefn(f) => format!("func {} {} {:?}", f.func_name(), f.signature(), f.visibility()),
            OpType::FuncDecl(f) => format!("decl {} {} {:?}", f.func_name(), f.signature(), f.visibility()),
            o => format!("{o:?}"),
        };
        let s = match op {
            OpType::LoadConstant(_) => match h.single_linked_output(n, 0).map(|(c, _)| h.get_optype(c)) {
                Some(OpType::Const(c)) => format!("load {:?}", c.value()),
                _ => s,
            },
            _ => s,
        };
        match op {
            OpType::Input(_) | OpType::Output(_) | OpType::Case(_) | OpType::ExitBlock(_) | OpType::Module(_) => s,
            _ => format!("{s}{:?}", meta_of(h, n)),
        }
    }
    // decimal numbers to 6 digits
    fn rounded(s: &str) -> String {
        let mut out = String::new();
        let mut num = String::new();
        for c in s.chars().chain(['\0']) {
            if c.is_ascii_digit() || (!num.is_empty() && (c == '.' || c == 'e' || (c == '-' && num.ends_with('e')))) {
                num.push(c);
                continue;
            }
            if !num.is_empty() {
                match num.parse::<f64>() {
                    Ok(x) if num.contains('.') || num.contains('e') => out += &format!("{x:.6e}"),
                    _ => out += &num,
                }
                num.clear();
            }
            out.push(c);
        }
        out
    }
    let mut count = BTreeMap::new();
    let texts: HashMap<Node, String> = h.descendants(h.module_root()).map(|n| (n, rounded(&op_text(h, n)))).collect();
    for (n, t) in texts.iter().filter(|(n, _)| !h.get_optype(**n).is_const()) {
        let par = h.get_parent(*n).map(|p| texts[&p].clone()).unwrap_or_default();
        *count.entry(format!("{par} / {t}")).or_default() += 1;
        for p in h.node_outputs(*n) {
            for (m, q) in h.linked_inputs(*n, p) {
                *count.entry(format!("{t} {} -> {} {}", p.index(), q.index(), texts[&m])).or_default() += 1;
            }
        }
    }
    (count, texts[&h.entrypoint()].clone())
}

fn config(r: &mut Rng) -> (EnvelopeConfig, String) {
    let f = *r.pick(&[
        EnvelopeFormat::PackageJson,
        EnvelopeFormat::PackageJson,
        EnvelopeFormat::Model,
        EnvelopeFormat::ModelWithExtensions,
        EnvelopeFormat::ModelWithExtensions,
        EnvelopeFormat::ModelText,
        EnvelopeFormat::ModelTextWithExtensions,
    ]);
    let mut c = EnvelopeConfig::new(f);
    let mut name = format!("{f:?}");
    if r.chance(0.4) {
        let l = *r.pick(&[0u8, 1, 3, 9]);
        c = c.with_zstd(ZstdConfig::new(l));
        name += &format!("+zstd{l}");
    }
    match r.below(12) {
        0 => (EnvelopeConfig::text(), "text".into()),
        1 => (EnvelopeConfig::binary(), "binary".into()),
        _ => (c, name),
    }
}
fn is_text_model(c: &EnvelopeConfig) -> bool {
    matches!(c.format, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions)
}
fn is_json(c: &EnvelopeConfig) -> bool {
    c.format == EnvelopeFormat::PackageJson
}

fn runs(h: &Hugr) -> bool {
    // running needs no arguments the executor cannot invent
    flat::region_sig(h, h.entrypoint()).is_some()
}

/// Compare the loaded circuit to the stored one. Returns false on violation.
fn same_circuit(ctx: &mut Ctx, what: &str, orig: &Hugr, new: &Circuit, c: &EnvelopeConfig) -> bool {
    let art = |d: &str, n: &Hugr| format!("{d}\n--- stored\n{}\n--- loaded\n{}", dump(orig), dump(n));
    let nh = new.hugr();
    if let Err(e) = nh.validate() {
        ctx.violation(format!("{what}:invalid"), format!("{what}: the loaded circuit is invalid: {e}"), art("", nh));
        return false;
    }
    let oc = Circuit::new(orig);
    if oc.name() != new.name() {
        ctx.violation(format!("{what}:name"), format!("{what}: name {:?} became {:?}", oc.name(), new.name()), art("", nh));
        return false;
    }
    if oc.circuit_signature() != new.circuit_signature() {
        ctx.violation(format!("{what}:signature"), format!("{what}: signature {} became {}", oc.circuit_signature(), new.circuit_signature()), art("", nh));
        return false;
    }
    if oc.num_operations() != new.num_operations() || oc.qubit_count() != new.qubit_count() {
        ctx.violation(format!("{what}:counts"), format!("{what}: operations {} became {}, qubits {} became {}", oc.num_operations(), new.num_operations(), oc.qubit_count(), new.qubit_count()), art("", nh));
        return false;
    }
    if is_json(c) {
        if let Err((k, d)) = identical(orig, nh, true) {
            ctx.violation(format!("{what}:{k}"), format!("{what}: {d}"), art(&d, nh));
            return false;
        }
    } else {
        let (a, ea) = canonical(orig);
        let (b, eb) = canonical(nh);
        if a != b || ea != eb {
            let d: Vec<String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).take(3).map(|k| format!("{:?} -> {:?}: {k}", a.get(k), b.get(k))).collect();
            let d = if d.is_empty() { format!("entrypoint {ea} became {eb}") } else { d.join("\n") };
            ctx.violation(format!("{what}:graph"), format!("{what}: {}", d.chars().take(1500).collect::<String>()), art(&d, nh));
            return false;
        }
    }
    if runs(orig) {
        let cfg = interp::Cfg { fuel: 20_000, ..Default::default() };
        let seed = ctx.rng.next();
        match compare(orig, orig.entrypoint(), nh, nh.entrypoint(), seed, &cfg, is_json(c)) {
            Cmp::Same => ctx.count("executions compared equal", 1),
            Cmp::Skip(s) => ctx.count(format!("not executed: {}", norm(&s)), 1),
            Cmp::Differs(d) => {
                ctx.violation(format!("{what}:behaviour"), format!("{what} changed the behaviour: {d}"), art(&d, nh));
                return false;
            }
        }
    }
    true
}

fn key_of(h: &Hugr) -> String {
    let mut k: Vec<&str> = vec![];
    let mut exts: Vec<String> = vec![];
    for n in h.descendants(h.entrypoint()) {
        match h.get_optype(n) {
            OpType::ExtensionOp(e) => exts.push(e.def().extension_id().to_string()),
            OpType::Const(_) => k.push("c"),
            OpType::CFG(_) => k.push("f"),
            OpType::Conditional(_) => k.push("i"),
            OpType::TailLoop(_) => k.push("l"),
            OpType::Call(_) => k.push("k"),
            _ => {}
        }
    }
    exts.sort();
    exts.dedup();
    k.sort();
    k.dedup();
    format!("{}{}{:?}", h.entrypoint_optype().tag(), k.concat(), exts)
}

fn round_trip(ctx: &mut Ctx, rng: &mut Rng) {
    let mut h = if rng.chance(0.15) {
        ctx.count("with modifiers", 1);
        super::c12::source(rng, 1 << 20).0
    } else {
        let Some(h) = some_region(ctx, rng) else { return };
        h
    };
    let metas = add_meta(&mut h, rng);
    if rng.chance(0.1) {
        // names that need escaping
        let f = h.children(h.module_root()).find(|n| h.get_optype(*n).is_func_defn());
        if let Some(f) = f {
            rename(&mut h, f, *rng.pick(&["", "a b", "ü", "x\"y", "main.<locals>.f", "1", "(", "\\"]));
        }
    }
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let (c, cname) = config(rng);
    let as_text = rng.chance(0.4);
    ctx.eval();
    let view = rng.below(3);
    // Storing must not depend on how the circuit holds its HUGR.
    macro_rules! store {
        ($circ:expr) => {{
            let circ = $circ;
            if as_text {
                circ.store_str(c).map(|s| s.into_bytes())
            } else {
                let mut v = vec![];
                circ.store(&mut v, c).map(|_| v)
            }
        }};
    }
    let whole;
    let stored = catch(|| match view {
        0 => store!(Circuit::new(&h)),
        1 => store!(Circuit::new(h.clone())),
        _ => {
            let root = h.module_root();
            let e = h.entrypoint();
            let w = h.with_entrypoint(root);
            store!(Circuit::new(w.with_entrypoint(e)))
        }
    });
    whole = format!("store {cname}{}", if as_text { " to text" } else { "" });
    let bytes = match stored {
        Err(p) => {
            if !p.file.contains("tket") && (is_text_model(&c) || (as_text && c.zstd.is_some())) {
                ctx.count("hugr-core cannot write this as text", 1);
                return;
            }
            ctx.violation(format!("{whole}:panic:{}", norm(&p.msg)), format!("{whole} panicked: {} {}", p.file, p.msg), dump(&h));
            return;
        }
        Ok(Err(e)) => {
            let may = as_text && (!c.format.ascii_printable() || c.zstd.is_some());
            if may {
                ctx.count("text of a binary format refused", 1);
            } else {
                ctx.violation(format!("{whole}:refused:{}", norm(&e.to_string())), format!("{whole} failed: {e}"), dump(&h));
            }
            return;
        }
        Ok(Ok(b)) => b,
    };
    if as_text && (!c.format.ascii_printable() || c.zstd.is_some()) {
        ctx.count("binary stored as text", 1);
    }
    ctx.count("circuits stored", 1);
    ctx.count("bytes stored", bytes.len() as u64);
    let only_tket = rng.chance(0.3);
    let reg = if only_tket && !uses_other(&h) { None } else { Some(&*assets::REG) };
    ctx.count(if reg.is_none() { "loaded with the default extensions" } else { "loaded with given extensions" }, 1);
    let what = format!("load {cname}");
    let loaded = catch(|| {
        if as_text {
            Circuit::load_str(std::str::from_utf8(&bytes).unwrap(), reg)
        } else {
            Circuit::load(&bytes[..], reg)
        }
    });
    let new = match loaded {
        Err(p) => {
            if !p.file.contains("tket") && is_text_model(&c) {
                ctx.count("text model: hugr-core panicked", 1);
                return;
            }
            ctx.violation(format!("{what}:panic:{}", norm(&p.msg)), format!("{what} panicked: {} {}", p.file, p.msg), dump(&h));
            return;
        }
        Ok(Err(e)) => {
            if is_text_model(&c) {
                ctx.count("text model not read back", 1);
            } else {
                ctx.violation(format!("{what}:refused:{}", norm(&e.to_string())), format!("{what} failed: {e}"), dump(&h));
            }
            return;
        }
        Ok(Ok(n)) => n,
    };
    if is_text_model(&c) {
        ctx.count("text model read back", 1);
    }
    ctx.count("circuits loaded", 1);
    ctx.count("metadata entries", metas as u64);
    if !same_circuit(ctx, &format!("round trip {cname}"), &h, &new, &c) {
        return;
    }
    // a second trip through JSON changes nothing
    if rng.chance(0.3) {
        let t = new.store_str(EnvelopeConfig::text());
        match t {
            Ok(t) => match Circuit::load_str(t, Some(&assets::REG)) {
                Ok(n2) => {
                    if !same_circuit(ctx, "second round trip", new.hugr(), &n2, &EnvelopeConfig::text()) {
                        return;
                    }
                }
                Err(e) => ctx.violation("second load refused", format!("a loaded circuit stored again does not load: {e}"), dump(&h)),
            },
            Err(e) => ctx.violation("second store refused", format!("a loaded circuit cannot be stored: {e}"), dump(&h)),
        }
    }
    ctx.nontrivial(&format!("{cname}{as_text}{}{}", metas > 0, key_of(&h)));
}

/// Does the program use extensions that only the hardware crate defines?
fn uses_other(h: &Hugr) -> bool {
    let Ok(t) = h.store_str(EnvelopeConfig::text()) else { return true };
    ["tket.qsystem", "tket.futures", "tket.result", "tket.wasm", "tket.gpu", "verif."].iter().any(|e| t.contains(&format!("\"{e}")))
}
fn rename(h: &mut Hugr, f: Node, name: &str) {
    let OpType::FuncDefn(d) = h.get_optype(f).clone() else { return };
    h.replace_op(f, FuncDefn::new(name, d.signature().clone()));
}

const NAMES: [&str; 8] = ["main", "f", "g", "", "a.b", "f.<locals>.g", "ü", "Main"];

fn functions(ctx: &mut Ctx, rng: &mut Rng) {
    let k = rng.range(1, 3);
    let mut mods: Vec<Hugr> = vec![];
    for _ in 0..k {
        let mut h = match rng.below(5) {
            0 if !assets::GUPPY.is_empty() => {
                let fs: Vec<&(String, Hugr)> = assets::GUPPY.iter().filter(|f| !uses_other(&f.1)).collect();
                if fs.is_empty() { continue }
                rng.pick(&fs).1.clone()
            }
            1 | 2 => circ::generate(rng, &circ::Cfg::dynamic((0, 4), (0, 12), circ::ALLG)).hugr(),
            _ => {
                let mut f = prog::Feat::all().thin(rng);
                f.qsys = false;
                f.futures = false;
                f.rng = false;
                f.results = false;
                f.drops = false;
                f.final_results = false;
                f.barriers = false;
                prog::generate(rng, f)
            }
        };
        // rename some functions, and add declarations, generic functions
        // and functions nobody calls
        let fs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
        for f in fs {
            if rng.chance(0.6) {
                rename(&mut h, f, *rng.pick(&NAMES));
            }
        }
        let root = h.module_root();
        for _ in 0..rng.below(3) {
            use hugr::extension::prelude::{bool_t, qb_t};
            let name = *rng.pick(&NAMES);
            let first = h.children(root).next();
            let n = match rng.below(3) {
                0 => h.add_node_with_parent(root, FuncDecl::new(name, hugr::types::Signature::new_endo(vec![qb_t()]))),
                1 => {
                    // a generic identity
                    let v = hugr::types::Type::new_var_use(0, hugr::types::TypeBound::Copyable);
                    let sig = PolyFuncType::new(vec![hugr::types::TypeBound::Copyable.into()], hugr::types::Signature::new_endo(vec![v.clone()]));
                    ident(&mut h, root, name, sig, v)
                }
                _ => ident(&mut h, root, name, hugr::types::Signature::new_endo(vec![bool_t()]).into(), bool_t()),
            };
            if rng.chance(0.5) {
                if let Some(f) = first {
                    let e = h.entrypoint();
                    h.set_entrypoint(root);
                    h.move_before_sibling(n, f);
                    h.set_entrypoint(e);
                }
            }
        }
        if rng.chance(0.3) {
            h.set_entrypoint(root);
        }
        if let Err(e) = h.validate() {
            ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
            return;
        }
        if uses_other(&h) {
            ctx.count("package with other extensions skipped", 1);
            return;
        }
        mods.push(h);
    }
    let all: Vec<Vec<(Node, String, bool)>> = mods
        .iter()
        .map(|h| {
            h.children(h.module_root())
                .filter_map(|n| h.get_optype(n).as_func_defn().map(|f| (n, f.func_name().to_string(), f.signature().params().is_empty())))
                .collect()
        })
        .collect();
    let (c, cname) = loop {
        let c = config(rng);
        if !is_text_model(&c.0) {
            break c;
        }
    };
    let mut bytes = vec![];
    let stored = catch(|| Package::new(mods.clone()).store(&mut bytes, c));
    if !matches!(stored, Ok(Ok(_))) {
        ctx.inconclusive("package not stored");
        return;
    }
    let mut cands: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    cands.extend(["nope".to_string(), "mai".into(), "main ".into()]);
    cands.extend(all.iter().flatten().map(|f| f.1.clone()));
    rng.shuffle(&mut cands);
    for name in cands.iter().take(5) {
        ctx.eval();
        let what = format!("load_function {cname}");
        let as_text = c.zstd.is_none() && is_json(&c) && rng.chance(0.5);
        let r = match catch(|| {
            if as_text {
                Circuit::load_function_str(std::str::from_utf8(&bytes).unwrap(), name)
            } else {
                Circuit::load_function(&bytes[..], name)
            }
        }) {
            Ok(r) => r,
            Err(p) => {
                ctx.violation(format!("{what}:panic:{}", norm(&p.msg)), format!("{what} {name:?} panicked: {} {}", p.file, p.msg), mods.iter().map(dump).collect::<String>());
                return;
            }
        };
        let art = || format!("function {name:?}\n{}", mods.iter().map(dump).collect::<Vec<_>>().join("\n=====\n"));
        let home = all.iter().position(|m| m.iter().any(|f| f.1 == *name));
        match (home, r) {
            (None, Err(CircuitLoadError::FunctionNotFound { function, available_functions })) => {
                ctx.count("missing functions reported", 1);
                let mut want: Vec<String> = all.iter().flatten().map(|f| f.1.clone()).collect();
                let mut got = available_functions.clone();
                want.sort();
                got.sort();
                if function != *name || want != got {
                    ctx.violation("load_function:available", format!("FunctionNotFound names {function:?} and lists {got:?}; the package has the functions {want:?}, and {name:?} was asked for"), art());
                    return;
                }
            }
            (None, Err(e)) => {
                ctx.violation("load_function:wrong error", format!("loading the missing function {name:?} gives the error: {e}"), art());
                return;
            }
            (None, Ok(_)) => {
                ctx.violation("load_function:invented", format!("loading {name:?} succeeded, but no function has that name"), art());
                return;
            }
            (Some(m), r) => {
                let poss: Vec<&(Node, String, bool)> = all[m].iter().filter(|f| f.1 == *name).collect();
                // several functions of one name: the first
                let first = poss[0];
                match r {
                    Err(CircuitLoadError::CircuitLoadError(tket::CircuitError::ParametricSignature { .. })) if poss.iter().any(|f| !f.2) => {
                        ctx.count("generic functions refused", 1);
                        if is_json(&c) && first.2 {
                            ctx.violation("load_function:not the first", format!("the first function {name:?} is not generic, but is refused as generic"), art());
                            return;
                        }
                    }
                    Err(e) => {
                        ctx.violation("load_function:refused", format!("loading {name:?} failed: {e}"), art());
                        return;
                    }
                    Ok(cc) => {
                        if cc.hugr().entrypoint_optype().as_func_defn().map(|f| f.func_name().as_str()) != Some(name.as_str()) {
                            ctx.violation("load_function:wrong function", format!("loading {name:?} gives {}", cc.hugr().entrypoint_optype()), art());
                            return;
                        }
                        ctx.count("functions loaded by name", 1);
                        // which of them was loaded?
                        let mut ok = false;
                        let mut why = String::new();
                        for f in &poss {
                            if is_json(&c) && f.0 != first.0 {
                                break;
                            }
                            let mut o = mods[m].clone();
                            o.set_entrypoint(f.0);
                            let r = if is_json(&c) {
                                identical(&o, cc.hugr(), true).map_err(|e| e.1)
                            } else {
                                let (a, b) = (canonical(&o), canonical(cc.hugr()));
                                if a == b { Ok(()) } else { Err("another graph".to_string()) }
                            };
                            match r {
                                Ok(()) => ok = true,
                                Err(e) => why = e,
                            }
                        }
                        if !ok {
                            ctx.violation("load_function:changed", format!("the loaded function {name:?} is not the stored one: {why}"), art());
                            return;
                        }
                        if poss.len() == 1 {
                            let mut o = mods[m].clone();
                            o.set_entrypoint(first.0);
                            if !same_circuit(ctx, "load_function", &o, &cc, &c) {
                                return;
                            }
                        }
                        ctx.nontrivial(&format!("fn{cname}{k}{m}{}{}{}", poss.len(), key_of(cc.hugr()), name));
                    }
                }
            }
        }
    }
}

fn ident(h: &mut Hugr, root: Node, name: &str, sig: PolyFuncType, t: hugr::types::Type) -> Node {
    use hugr::ops::{Input, Output};
    let f = h.add_node_with_parent(root, FuncDefn::new(name, sig));
    let i = h.add_node_with_parent(f, Input { types: vec![t.clone()].into() });
    let o = h.add_node_with_parent(f, Output { types: vec![t].into() });
    h.connect(i, 0, o, 0);
    f
}

/// Owned copies and extracted circuits.
fn copies(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(mut h) = some_region(ctx, rng) else { return };
    add_meta(&mut h, rng);
    let js = EnvelopeConfig::text();
    ctx.eval();
    let art = dump(&h);
    let r = catch(|| {
        let a = Circuit::new(&h).to_owned();
        let b = Circuit::new(h.clone()).extract_dfg();
        let e = h.entrypoint();
        let w = h.with_entrypoint(h.module_root());
        let c = Circuit::new(w.with_entrypoint(e)).extract_dfg();
        (a, b, c)
    });
    let (a, b, c) = match r {
        Ok(x) => x,
        Err(p) => {
            ctx.violation(format!("extract:panic:{}", norm(&p.msg)), format!("making the circuit owned panicked: {} {}", p.file, p.msg), art);
            return;
        }
    };
    let mut all = vec![("to_owned", Ok(a)), ("extract_dfg", b), ("extract_dfg of a view", c)];
    for (what, r) in all.drain(..) {
        match r {
            Err(e) => {
                ctx.violation(format!("{what}:refused"), format!("{what} failed: {e}"), art.clone());
                return;
            }
            Ok(n) => {
                ctx.count("owned copies", 1);
                if let Err(e) = n.hugr().validate() {
                    ctx.violation(format!("{what}:invalid"), format!("{what}: {e}"), art.clone());
                    return;
                }
                if !same_circuit(ctx, what, &h, &n, &js) {
                    return;
                }
            }
        }
    }
    ctx.nontrivial(&format!("own{}", key_of(&h)));
}

fn case(ctx: &mut Ctx) {
    let rng = &mut ctx.rng.fork();
    match rng.below(10) {
        0..=5 => round_trip(ctx, rng),
        6..=8 => functions(ctx, rng),
        _ => copies(ctx, rng),
    }
}
