use crate::gen::assets;
use crate::report::*;
use crate::rng::Rng;
use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::prelude::{bool_t, qb_t, usize_t};
use hugr::extension::simple_op::{HasConcrete, MakeExtensionOp, MakeOpDef, MakeRegisteredOp};
use hugr::extension::{ExtensionRegistry, PRELUDE};
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::ops::{ExtensionOp, OpType};
use hugr::std_extensions::arithmetic::float_types::float64_type;
use hugr::std_extensions::arithmetic::int_types::int_type;
use hugr::std_extensions::collections::array::array_type;
use hugr::types::{Signature, Term, Type, TypeArg, TypeRow};
use hugr::{Extension, Hugr, HugrView};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, LazyLock};
use strum::IntoEnumIterator;
use tket::extension as t;
use tket_qsystem::extension as q;

pub static CHECK: Check = Check {
    id: "C22",
    rule: "cases 0..17: every extension the Rust code declares against its published data file (deep comparison of name, version, types, operations, signatures, parameters, metadata), the set of data files against the set of extensions, the output of the published Python classes for every type and operation they expose against the Rust operation values, and every custom type and constant. Other cases: a random value of a random operation enum with random type arguments: it must become an extension operation, be recognised as the same value again and as no other enum's operation, have the signature computed from the published definition, and still be the same value after the program holding it is stored (JSON and binary) and loaded with the built-in or with the published definitions. Non-trivial = distinct operation values.",
    assumptions: &["hugr-core computes signatures from definitions correctly", "the Python hugr package in /opt/vp/venv"],
    cases: |t| if t == Tier::Quick { 4_000 } else { 60_000 },
    min_nontrivial: 300,
    budget: (40, 400),
    case_timeout: 60,
    f: case,
};

const DATA: &str = "/repo/tket-exts/src/tket_exts/data";

fn exts() -> Vec<Arc<Extension>> {
    vec![
        t::TKET_EXTENSION.clone(),
        t::bool::BOOL_EXTENSION.clone(),
        t::debug::DEBUG_EXTENSION.clone(),
        t::guppy::GUPPY_EXTENSION.clone(),
        t::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        t::rotation::ROTATION_EXTENSION.clone(),
        t::modifier::MODIFIER_EXTENSION.clone(),
        q::qsystem::EXTENSION.clone(),
        q::futures::EXTENSION.clone(),
        q::result::EXTENSION.clone(),
        q::random::EXTENSION.clone(),
        q::utils::EXTENSION.clone(),
        q::gpu::EXTENSION.clone(),
        q::wasm::EXTENSION.clone(),
    ]
}

fn file_of(name: &str) -> String {
    format!("{DATA}/{}.json", name.replace('.', "/"))
}

/// The published definitions, as a registry.
static PUBLISHED: LazyLock<Result<ExtensionRegistry, String>> = LazyLock::new(|| {
    let mut all = vec![];
    for e in exts() {
        let f = file_of(e.name());
        let s = std::fs::read_to_string(&f).map_err(|e| format!("{f}: {e}"))?;
        all.push(s);
    }
    let text = format!("[{}]", all.join(","));
    ExtensionRegistry::load_json(text.as_bytes(), &hugr::std_extensions::STD_REG).map_err(|e| format!("published definitions do not load: {e}"))
});

fn diff(path: &str, a: &J, b: &J, out: &mut Vec<String>) {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for k in x.keys().chain(y.keys()).collect::<BTreeSet<_>>() {
                match (x.get(k), y.get(k)) {
                    (Some(u), Some(v)) => diff(&format!("{path}/{k}"), u, v, out),
                    (Some(_), None) => out.push(format!("{path}/{k}: only in the Rust definition")),
                    _ => out.push(format!("{path}/{k}: only in the published file")),
                }
            }
        }
        (J::Array(x), J::Array(y)) if x.len() == y.len() => {
            for (i, (u, v)) in x.iter().zip(y).enumerate() {
                diff(&format!("{path}/{i}"), u, v, out);
            }
        }
        _ => {
            // numbers of different spelling are the same number
            let same = a == b || a.as_f64().is_some() && a.as_f64() == b.as_f64();
            if !same {
                out.push(format!("{path}: Rust {a}, published {b}"));
            }
        }
    }
}

fn case(ctx: &mut Ctx) {
    let es = exts();
    let i = ctx.idx;
    if i < es.len() {
        extension(ctx, &es[i]);
    } else if i == es.len() {
        files(ctx, &es);
    } else if i == es.len() + 1 {
        python(ctx);
    } else if i == es.len() + 2 {
        types(ctx);
    } else if i == es.len() + 3 {
        probe(ctx);
    } else {
        value(ctx);
    }
}

/// Functions of a compute device over linear rows: the declared parameter
/// allows them, the signature does not.
fn probe(ctx: &mut Ctx) {
    ctx.eval();
    let r = catch(|| q::gpu::GpuOp::ReadResult { outputs: vec![array_type(1, bool_t())].into() }.to_extension_op());
    match r {
        Ok(Some(_)) => {}
        Ok(None) => ctx.violation("probe:linear-row", "gpu.read_result with an array result does not become an operation", ""),
        Err(p) => ctx.violation("probe:linear-row", format!("gpu.read_result with an array result panics: {}", norm(&p.msg)), "GpuOp::ReadResult { outputs: [array<1, bool>] }"),
    }
}

fn extension(ctx: &mut Ctx, e: &Arc<Extension>) {
    ctx.eval();
    let f = file_of(e.name());
    let pubd: J = match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(x) => x,
        Err(err) => {
            ctx.violation(format!("published:{}:unreadable", e.name()), format!("{f}: {err}"), "");
            return;
        }
    };
    let rust = serde_json::to_value(&**e).unwrap();
    let mut d = vec![];
    diff("", &rust, &pubd, &mut d);
    if !d.is_empty() {
        ctx.violation(format!("published:{}:differs", e.name()), format!("{} and {f} differ: {}", e.name(), d[..d.len().min(8)].join("; ")), d.join("\n"));
    }
    ctx.nontrivial(&format!("{rust}"));
    ctx.count("definitions compared", (e.operations().count() + e.types().count()) as u64);
    ctx.sample(format!("{}: {} operations, {} types equal to {f}", e.name(), e.operations().count(), e.types().count()));
    // the file loads as an extension, and writing that again gives the same
    match serde_json::from_value::<Extension>(pubd.clone()) {
        Ok(x) => {
            let mut d = vec![];
            diff("", &serde_json::to_value(&x).unwrap(), &pubd, &mut d);
            if !d.is_empty() {
                ctx.violation(format!("published:{}:reload", e.name()), format!("loading and writing {f} changes it: {}", d.join("; ")), "");
            }
        }
        Err(err) => ctx.violation(format!("published:{}:load", e.name()), format!("{f} does not load: {err}"), ""),
    }
    if let Err(err) = PUBLISHED.as_ref() {
        ctx.violation("published:registry", err.clone(), "");
    }
}

fn walk(d: &str, out: &mut Vec<String>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(p.to_str().unwrap(), out);
        } else if p.extension().is_some_and(|e| e == "json") {
            out.push(p.display().to_string());
        }
    }
}

fn files(ctx: &mut Ctx, es: &[Arc<Extension>]) {
    ctx.eval();
    let mut v = vec![];
    walk(DATA, &mut v);
    let got: BTreeSet<String> = v.into_iter().collect();
    let want: BTreeSet<String> = es.iter().map(|e| file_of(e.name())).collect();
    for f in got.symmetric_difference(&want) {
        ctx.violation("published:files", format!("{f} is {}", if got.contains(f) { "published, but no extension of that name is declared" } else { "missing" }), "");
    }
    // registries the Rust code offers hold these very definitions
    let regs: [(&str, &ExtensionRegistry); 5] = [
        ("random", &q::random::REGISTRY),
        ("utils", &q::utils::REGISTRY),
        ("qsystem", &q::qsystem::REGISTRY),
        ("wasm", &q::wasm::REGISTRY),
        ("gpu", &q::gpu::REGISTRY),
    ];
    for (n, r) in regs {
        for e in es {
            if let Some(x) = r.get(e.name()) {
                if serde_json::to_value(&**x).unwrap() != serde_json::to_value(&**e).unwrap() {
                    ctx.violation("published:registry", format!("the {n} registry holds another definition of {}", e.name()), "");
                }
            }
        }
        if let Err(e) = r.validate() {
            ctx.violation("published:registry", format!("the {n} registry is invalid: {e}"), "");
        }
    }
}

// ------------------------------------------------------------------ Python

const PY: &str = r#"
import json, sys
import tket_exts
from hugr import tys
from hugr.hugr.node_port import Node
from hugr.ops import ExtOp
from hugr.ext import OpDef, TypeDef
from hugr.std.float import FLOAT_T
out = {"exts": {}, "ops": [], "attrs": []}
Q, B, F = tys.Qubit, tys.Bool, FLOAT_T
def op(e, what, o):
    sj = None
    try:
        sj = json.loads(o.outer_signature()._to_serial().model_dump_json())
        args = json.loads(o._to_serial(Node(0)).model_dump_json()).get("args")
    except ValueError:
        # polymorphic: the signature is left to the loader
        args = [json.loads(a._to_serial_root().model_dump_json()) for a in o.args]
    out["ops"].append([e, what, o.op_def().name, o.op_def().get_extension().name, args, sj])
for name in tket_exts.__all__:
    e = getattr(tket_exts, name)
    x = e()
    out["exts"][name] = {
        "ext": x.name, "version": str(e.version), "ext_version": str(x.version),
        "OPS": [o.name for o in e.OPS()], "TYPES": [t.name for t in e.TYPES()],
        "ops": list(x.operations), "types": list(x.types),
    }
    # The attributes the class offers.
    for a in dir(type(e)):
        if a.startswith("_") or a in ("OPS", "TYPES", "version"): continue
        v = getattr(e, a)
        if isinstance(v, ExtOp): op(name, a, v); out["attrs"].append([name, a, "op", v.op_def().name])
        elif isinstance(v, OpDef): out["attrs"].append([name, a, "opdef", v.name])
        elif isinstance(v, TypeDef): out["attrs"].append([name, a, "typedef", v.name])
        elif isinstance(v, tys.ExtType):
            out["attrs"].append([name, a, "type", v.type_def.name])
T = tket_exts
calls = {
 "result": [("result_bool('a')", lambda e: e.result_bool("a")), ("result_int('a',5)", lambda e: e.result_int("a",5)),
   ("result_uint('a',5)", lambda e: e.result_uint("a",5)), ("result_f64('a')", lambda e: e.result_f64("a")),
   ("result_array_bool('a',3)", lambda e: e.result_array_bool("a",3)), ("result_array_f64('a',3)", lambda e: e.result_array_f64("a",3)),
   ("result_array_int('a',3,5)", lambda e: e.result_array_int("a",3,5)), ("result_array_uint('a',3,5)", lambda e: e.result_array_uint("a",3,5))],
 "debug": [("state_result('a',3)", lambda e: e.state_result("a",3))],
 "futures": [(f"{n}({m})", lambda e, n=n, ty=ty: getattr(e,n)(ty)) for n in ("dup","free","read") for m, ty in (("Q",Q),("B",B))],
 "guppy": [(f"drop({m})", lambda e, ty=ty: e.drop(ty)) for m, ty in (("Q",Q),("B",B))],
 "qsystem": [("runtime_barrier(4)", lambda e: e.runtime_barrier(4))],
 "quantum": [("symbolic_angle('x+y')", lambda e: e.symbolic_angle("x+y"))],
}
for k in ("wasm","gpu"):
    calls[k] = [("call([B],[F,B])", lambda e: e.call([B],[F,B])), ("read_result([F,B])", lambda e: e.read_result([F,B])),
      ("lookup_by_id(7,[B],[F,B])", lambda e: e.lookup_by_id(7,[B],[F,B])), ("lookup_by_name('f',[B],[F,B])", lambda e: e.lookup_by_name("f",[B],[F,B]))]
for k, v in calls.items():
    for what, f in v: op(k, what, f(getattr(T, k)))
json.dump(out, sys.stdout)
"#;

fn ty_str(s: &Signature) -> J {
    serde_json::to_value(s).unwrap()
}

fn py_expected() -> BTreeMap<(String, String), ExtensionOp> {
    let mut m = BTreeMap::new();
    let mut put = |e: &str, w: &str, o: ExtensionOp| {
        m.insert((e.to_string(), w.to_string()), o);
    };
    let bt = || vec![bool_t()];
    let fb = || vec![float64_type(), bool_t()];
    use q::result::ResultOp as R;
    for (w, o) in [
        ("result_bool('a')", R::new_bool("a")),
        ("result_int('a',5)", R::new_int("a", 5)),
        ("result_uint('a',5)", R::new_uint("a", 5)),
        ("result_f64('a')", R::new_f64("a")),
        ("result_array_bool('a',3)", R::new_bool("a").array_op(3)),
        ("result_array_f64('a',3)", R::new_f64("a").array_op(3)),
        ("result_array_int('a',3,5)", R::new_int("a", 5).array_op(3)),
        ("result_array_uint('a',3,5)", R::new_uint("a", 5).array_op(3)),
    ] {
        put("result", w, o.to_extension_op().unwrap());
    }
    put("debug", "state_result('a',3)", t::debug::StateResult::new("a".into(), 3).to_extension_op().unwrap());
    for (n, op) in [("dup", q::futures::FutureOpDef::Dup), ("free", q::futures::FutureOpDef::Free), ("read", q::futures::FutureOpDef::Read)] {
        for (m, ty) in [("Q", qb_t()), ("B", bool_t())] {
            put("futures", &format!("{n}({m})"), q::futures::FutureOp { op, typ: ty }.to_extension_op().unwrap());
        }
    }
    for (m, ty) in [("Q", qb_t()), ("B", bool_t())] {
        put("guppy", &format!("drop({m})"), t::guppy::GUPPY_EXTENSION.instantiate_extension_op(&t::guppy::DROP_OP_NAME, [ty.into()]).unwrap());
    }
    put("qsystem", "runtime_barrier(4)", q::qsystem::RuntimeBarrierDef.instantiate_ext(4));
    put("quantum", "symbolic_angle('x+y')", t::sympy::SympyOpDef.with_expr("x+y".into()).to_extension_op().unwrap());
    macro_rules! compute {
        ($k:expr, $op:ty) => {{
            type O = $op;
            put($k, "call([B],[F,B])", O::Call { inputs: bt().into(), outputs: fb().into() }.to_extension_op().unwrap());
            put($k, "read_result([F,B])", O::ReadResult { outputs: fb().into() }.to_extension_op().unwrap());
            put($k, "lookup_by_id(7,[B],[F,B])", O::LookupById { id: 7, inputs: bt().into(), outputs: fb().into() }.to_extension_op().unwrap());
            put($k, "lookup_by_name('f',[B],[F,B])", O::LookupByName { name: "f".into(), inputs: bt().into(), outputs: fb().into() }.to_extension_op().unwrap());
            put($k, "get_context", O::GetContext.to_extension_op().unwrap());
            put($k, "dispose_context", O::DisposeContext.to_extension_op().unwrap());
        }};
    }
    compute!("wasm", q::wasm::WasmOp);
    compute!("gpu", q::gpu::GpuOp);
    use q::qsystem::QSystemOp as Y;
    for (a, o) in [
        ("lazy_measure", Y::LazyMeasure),
        ("lazy_measure_leaked", Y::LazyMeasureLeaked),
        ("lazy_measure_reset", Y::LazyMeasureReset),
        ("measure", Y::Measure),
        ("measure_reset", Y::MeasureReset),
        ("phasedX", Y::PhasedX),
        ("qFree", Y::QFree),
        ("reset", Y::Reset),
        ("Rz", Y::Rz),
        ("try_QAlloc", Y::TryQAlloc),
        ("ZZPhase", Y::ZZPhase),
    ] {
        put("qsystem", a, o.to_extension_op().unwrap());
    }
    use tket::TketOp as K;
    for (a, o) in [
        ("CRz", K::CRz), ("CX", K::CX), ("CY", K::CY), ("CZ", K::CZ), ("H", K::H), ("measure", K::Measure), ("measure_free", K::MeasureFree),
        ("qAlloc", K::QAlloc), ("qFree", K::QFree), ("reset", K::Reset), ("Rx", K::Rx), ("Ry", K::Ry), ("Rz", K::Rz), ("S", K::S), ("Sdg", K::Sdg),
        ("T", K::T), ("Tdg", K::Tdg), ("toffoli", K::Toffoli), ("try_QAlloc", K::TryQAlloc), ("V", K::V), ("Vdg", K::Vdg), ("X", K::X), ("Y", K::Y), ("Z", K::Z),
    ] {
        put("quantum", a, o.to_extension_op().unwrap());
    }
    use t::bool::BoolOp as B;
    for (a, o) in [("and_op", B::and), ("eq", B::eq), ("make_opaque", B::make_opaque), ("not_op", B::not), ("or_op", B::or), ("read", B::read), ("xor", B::xor)] {
        put("bool", a, o.to_extension_op().unwrap());
    }
    use t::rotation::RotationOp as O;
    for (a, o) in [("from_halfturns", O::from_halfturns), ("from_halfturns_unchecked", O::from_halfturns_unchecked), ("radd", O::radd), ("to_halfturns", O::to_halfturns)] {
        put("rotation", a, o.to_extension_op().unwrap());
    }
    use q::random::RandomOp as N;
    for (a, o) in [
        ("delete_RNGContext", N::DeleteRNGContext), ("new_RNGContext", N::NewRNGContext), ("random_float", N::RandomFloat),
        ("random_int", N::RandomInt), ("random_int_bounded", N::RandomIntBounded), ("random_advance", N::RandomAdvance),
    ] {
        put("qsystem_random", a, o.to_extension_op().unwrap());
    }
    put("qsystem_utils", "get_current_shot", q::utils::UtilsOp::GetCurrentShot.to_extension_op().unwrap());
    m
}

trait InstBar {
    fn instantiate_ext(&self, n: u64) -> ExtensionOp;
}
impl InstBar for q::qsystem::RuntimeBarrierDef {
    fn instantiate_ext(&self, n: u64) -> ExtensionOp {
        q::qsystem::EXTENSION.instantiate_extension_op(&self.opdef_id(), [n.into()]).unwrap()
    }
}

fn python(ctx: &mut Ctx) {
    ctx.eval();
    let out = std::process::Command::new("/opt/vp/venv/bin/python")
        .args(["-B", "-c", PY])
        .env("PYTHONPATH", "/repo/tket-exts/src")
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            ctx.inconclusive(format!("python does not start: {e}"));
            return;
        }
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let Ok(d) = serde_json::from_slice::<J>(&out.stdout) else {
        ctx.violation("python:fails", format!("the published Python package fails: {}", err.lines().last().unwrap_or("")), err);
        return;
    };
    let es: BTreeMap<String, Arc<Extension>> = exts().into_iter().map(|e| (e.name().to_string(), e)).collect();
    let names = |v: &J| -> Vec<String> {
        let mut x: Vec<String> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        x.sort();
        x
    };
    let mut seen = BTreeSet::new();
    for (n, x) in d["exts"].as_object().unwrap() {
        let en = x["ext"].as_str().unwrap();
        seen.insert(en.to_string());
        let Some(e) = es.get(en) else {
            ctx.violation("python:extension", format!("Python publishes an extension {en} (as {n}) that Rust does not declare"), "");
            continue;
        };
        let mut ops: Vec<String> = e.operations().map(|(n, _)| n.to_string()).collect();
        ops.sort();
        let mut tys: Vec<String> = e.types().map(|(n, _)| n.to_string()).collect();
        tys.sort();
        for (k, want) in [("OPS", &ops), ("ops", &ops), ("TYPES", &tys), ("types", &tys)] {
            if &names(&x[k]) != want {
                ctx.violation(format!("python:{n}:{k}"), format!("Python's {n}.{k} is {:?}, Rust declares {want:?}", names(&x[k])), "");
            }
        }
        for k in ["version", "ext_version"] {
            if x[k].as_str() != Some(&e.version().to_string()) {
                ctx.violation(format!("python:{n}:version"), format!("Python's {n} has version {}, Rust {}", x[k], e.version()), "");
            }
        }
    }
    for e in es.keys() {
        if !seen.contains(e) {
            ctx.violation("python:missing", format!("Python does not publish {e}"), "");
        }
    }
    let want = py_expected();
    let mut got = BTreeSet::new();
    for o in d["ops"].as_array().unwrap() {
        let (e, w) = (o[0].as_str().unwrap().to_string(), o[1].as_str().unwrap().to_string());
        let Some(x) = want.get(&(e.clone(), w.clone())) else {
            // an attribute this monitor does not know
            ctx.count("python attributes without a counterpart here", 1);
            continue;
        };
        got.insert((e.clone(), w.clone()));
        ctx.count("python operations compared", 1);
        let sig = x.signature().into_owned();
        let ser = serde_json::to_value(hugr::ops::OpType::from(x.clone())).unwrap();
        let _ = &ser;
        let name = x.def().name().to_string();
        if o[2].as_str() != Some(&name) || o[3].as_str() != Some(x.def().extension_id().as_ref()) {
            ctx.violation(format!("python:{e}:{w}"), format!("Python's {e}.{w} is the operation {}.{}, Rust's is {}.{name}", o[3], o[2], x.def().extension_id()), o.to_string());
            continue;
        }
        let mut dd = vec![];
        let args = serde_json::to_value(x.args()).unwrap();
        diff("args", &clean(&args), &clean(&o[4]), &mut dd);
        if !o[5].is_null() && x.args().is_empty() {
            ctx.count("python signatures compared", 1);
            diff("signature", &clean(&ty_str(&sig)), &clean(&o[5]), &mut dd);
        }
        if !dd.is_empty() {
            ctx.violation(format!("python:{e}:{w}"), format!("Python's {e}.{w} differs from Rust's: {}", dd.join("; ")), o.to_string());
        }
    }
    for k in want.keys() {
        if !got.contains(k) {
            ctx.violation(format!("python:{}:{}", k.0, k.1), "the Python class no longer offers this operation", "");
        }
    }
    ctx.nontrivial(&d.to_string());
}

/// Drop what the two serialisers spell differently.
fn clean(v: &J) -> J {
    match v {
        J::Object(m) => {
            let mut o: serde_json::Map<String, J> = m.iter().filter(|(k, _)| !matches!(k.as_str(), "bound" | "runtime_reqs" | "id_bound")).map(|(k, v)| (k.clone(), clean(v))).collect();
            // unit sums
            if o.get("t") == Some(&J::from("Sum")) && o.get("s") == Some(&J::from("Unit")) {
                let n = o["size"].as_u64().unwrap();
                o = serde_json::Map::new();
                o.insert("t".into(), "Sum".into());
                o.insert("s".into(), "General".into());
                o.insert("rows".into(), J::Array((0..n).map(|_| J::Array(vec![])).collect()));
            }
            if o.get("t") == Some(&J::from("G")) && o.contains_key("input") {
                o.remove("t");
            }
            J::Object(o)
        }
        J::Array(a) => J::Array(a.iter().map(clean).collect()),
        _ => v.clone(),
    }
}

// ------------------------------------------------------------------ types and constants

fn types(ctx: &mut Ctx) {
    let Ok(reg) = PUBLISHED.as_ref() else { return };
    let cases: Vec<(&str, Type)> = vec![
        ("bool", t::bool::bool_type()),
        ("rotation", t::rotation::rotation_type()),
        ("future", q::futures::future_type(bool_t())),
        ("future<qubit>", q::futures::future_type(qb_t())),
        ("rng", q::random::EXTENSION.get_type("context").unwrap().instantiate([]).unwrap().into()),
        ("wasm.context", q::wasm::WasmType::Context.into()),
        ("wasm.module", q::wasm::WasmType::Module.into()),
        ("wasm.func", q::wasm::WasmType::new_func(vec![bool_t()], vec![usize_t()]).into()),
        ("wasm.result", q::wasm::WasmType::Result { outputs: vec![usize_t()].into() }.into()),
        ("gpu.context", q::gpu::GpuType::Context.into()),
        ("gpu.module", q::gpu::GpuType::Module.into()),
        ("gpu.func", q::gpu::GpuType::new_func(vec![bool_t()], vec![usize_t()]).into()),
        ("gpu.result", q::gpu::GpuType::Result { outputs: vec![usize_t()].into() }.into()),
    ];
    for (n, ty) in cases {
        ctx.eval();
        let hugr::types::TypeEnum::Extension(c) = ty.as_type_enum() else {
            ctx.violation(format!("type:{n}"), format!("{ty} is not an extension type"), "");
            continue;
        };
        let Some(td) = reg.get(c.extension()).and_then(|e| e.get_type(c.name())) else {
            ctx.violation(format!("type:{n}"), format!("{ty}: no published type {}.{}", c.extension(), c.name()), "");
            continue;
        };
        match td.instantiate(c.args().to_vec()) {
            Ok(x) => {
                if x != *c || x.bound() != c.bound() {
                    ctx.violation(format!("type:{n}"), format!("{c} (bound {:?}) differs from the published {x} (bound {:?})", c.bound(), x.bound()), "");
                }
            }
            Err(e) => ctx.violation(format!("type:{n}"), format!("{ty}: the published definition rejects it: {e}"), ""),
        }
        ctx.nontrivial(&format!("type {ty}"));
        ctx.count("types compared", 1);
        // recognised again
        let ok = match c.extension().as_ref() as &str {
            "tket.wasm" => q::wasm::WasmType::try_from(c.clone()).map(|x| Type::from(x) == ty).unwrap_or(false) && q::gpu::GpuType::try_from(c.clone()).is_err(),
            "tket.gpu" => q::gpu::GpuType::try_from(c.clone()).map(|x| Type::from(x) == ty).unwrap_or(false) && q::wasm::WasmType::try_from(c.clone()).is_err(),
            _ => true,
        };
        if !ok {
            ctx.violation(format!("type:{n}:recognised"), format!("{ty} is not recognised as itself"), "");
        }
    }
}

// ------------------------------------------------------------------ operation values

fn ty(rng: &mut Rng) -> Type {
    match rng.below(9) {
        0 | 1 => qb_t(),
        2 => bool_t(),
        3 => usize_t(),
        4 => float64_type(),
        5 => int_type(rng.below(7) as u64),
        6 => t::bool::bool_type(),
        7 => array_type(rng.below(4) as u64, if rng.chance(0.5) { qb_t() } else { bool_t() }),
        _ => q::futures::future_type(bool_t()),
    }
}
fn row(rng: &mut Rng) -> TypeRow {
    let n = rng.below(4);
    (0..n).map(|_| ty(rng)).collect::<Vec<_>>().into()
}
fn crow(rng: &mut Rng) -> TypeRow {
    row(rng).iter().filter(|t| t.copyable()).cloned().collect::<Vec<_>>().into()
}
fn text(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "cos(pi/2)".into(),
        2 => "\"quoted\" \\ \n \u{1F600}".into(),
        3 => "a".repeat(1 + rng.below(300)),
        4 => "USER:BOOL:x".into(),
        _ => format!("t{}", rng.below(1000)),
    }
}
fn nat(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - rng.below(2) as u64,
        3 => 1 << rng.below(63),
        _ => rng.below(40) as u64,
    }
}

/// Every reader of operations; which of them accept it.
fn readers(o: &OpType) -> Vec<(&'static str, String)> {
    let Some(x) = o.as_extension_op() else { return vec![] };
    let mut v = vec![];
    macro_rules! rd {
        ($n:expr, $t:ty) => {
            if let Ok(a) = <$t>::from_extension_op(x) {
                v.push(($n, format!("{a:?}")));
            }
        };
    }
    rd!("quantum", tket::TketOp);
    rd!("bool", t::bool::BoolOp);
    rd!("rotation", t::rotation::RotationOp);
    rd!("symbolic", t::sympy::SympyOp);
    rd!("state", t::debug::StateResult);
    rd!("phase", t::global_phase::GlobalPhase);
    rd!("qsystem", q::qsystem::QSystemOp);
    rd!("future", q::futures::FutureOp);
    rd!("random", q::random::RandomOp);
    rd!("utils", q::utils::UtilsOp);
    rd!("result", q::result::ResultOp);
    rd!("wasm", q::wasm::WasmOp);
    rd!("gpu", q::gpu::GpuOp);
    if let Ok(a) = q::qsystem::RuntimeBarrierDef::from_op(x) {
        v.push(("barrier", format!("{a:?}")));
    }
    if let Ok(a) = t::modifier::Modifier::from_op(x) {
        v.push(("modifier", format!("{a:?}")));
    }
    v
}

fn pick<T: IntoEnumIterator>(rng: &mut Rng) -> T {
    let n = T::iter().count();
    T::iter().nth(rng.below(n)).unwrap()
}

fn value(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let rng = &mut rng;
    // (reader, debug text, operation)
    macro_rules! reg {
        ($n:expr, $v:expr) => {{
            let v = $v;
            ($n, format!("{v:?}"), ctx.guard("to_extension_op", &|| format!("{v:?}"), || v.clone().to_extension_op().ok_or("no extension operation".to_string())))
        }};
    }
    let (who, dbg, op): (&str, String, Option<Result<ExtensionOp, String>>) = match rng.below(16) {
        0 | 1 => reg!("quantum", pick::<tket::TketOp>(rng)),
        2 => reg!("bool", pick::<t::bool::BoolOp>(rng)),
        3 => reg!("rotation", pick::<t::rotation::RotationOp>(rng)),
        4 => reg!("symbolic", t::sympy::SympyOpDef.with_expr(text(rng))),
        5 => reg!("state", t::debug::StateResult::new(text(rng), nat(rng))),
        6 => reg!("phase", t::global_phase::GlobalPhase),
        7 | 8 => reg!("qsystem", pick::<q::qsystem::QSystemOp>(rng)),
        9 => reg!("future", q::futures::FutureOp { op: pick::<q::futures::FutureOpDef>(rng), typ: ty(rng) }),
        10 => reg!("random", pick::<q::random::RandomOp>(rng)),
        11 => reg!("utils", pick::<q::utils::UtilsOp>(rng)),
        12 => {
            use q::result::ResultOp as R;
            let w = rng.below(7) as u8;
            let mut r = match rng.below(4) {
                0 => R::new_bool(text(rng)),
                1 => R::new_int(text(rng), w),
                2 => R::new_uint(text(rng), w),
                _ => R::new_f64(text(rng)),
            };
            for _ in 0..rng.below(3) {
                r = r.array_op(nat(rng));
            }
            reg!("result", r)
        }
        13 => {
            use q::wasm::WasmOp as O;
            let o = match rng.below(6) {
                0 => O::GetContext,
                1 => O::DisposeContext,
                2 => O::LookupById { id: nat(rng), inputs: crow(rng).into(), outputs: crow(rng).into() },
                3 => O::LookupByName { name: text(rng), inputs: crow(rng).into(), outputs: crow(rng).into() },
                4 => O::Call { inputs: crow(rng), outputs: crow(rng) },
                _ => O::ReadResult { outputs: crow(rng) },
            };
            reg!("wasm", o)
        }
        14 => {
            use q::gpu::GpuOp as O;
            let o = match rng.below(6) {
                0 => O::GetContext,
                1 => O::DisposeContext,
                2 => O::LookupById { id: nat(rng), inputs: crow(rng).into(), outputs: crow(rng).into() },
                3 => O::LookupByName { name: text(rng), inputs: crow(rng).into(), outputs: crow(rng).into() },
                4 => O::Call { inputs: crow(rng), outputs: crow(rng) },
                _ => O::ReadResult { outputs: crow(rng) },
            };
            reg!("gpu", o)
        }
        _ => {
            if rng.chance(0.4) {
                let n = nat(rng);
                ("barrier", "RuntimeBarrierDef".to_string(), Some(Ok(q::qsystem::RuntimeBarrierDef.instantiate_ext(n))))
            } else {
                let m = pick::<t::modifier::Modifier>(rng);
                let (a, mut b) = (row(rng), row(rng));
                if m == t::modifier::Modifier::PowerModifier {
                    b = b.iter().filter(|t| t.copyable()).cloned().collect::<Vec<_>>().into();
                }
                let mut args: Vec<TypeArg> = vec![Term::new_list(a.iter().map(|t| t.clone().into())), Term::new_list(b.iter().map(|t| t.clone().into()))];
                if m == t::modifier::Modifier::ControlModifier {
                    args.insert(0, Term::BoundedNat(rng.below(5) as u64));
                }
                let o = t::modifier::MODIFIER_EXTENSION.instantiate_extension_op(&m.opdef_id(), args).map_err(|e| e.to_string());
                ("modifier", format!("{m:?}"), Some(o))
            }
        }
    };
    let Some(op) = op else { return };
    ctx.eval();
    ctx.count(format!("values of {who}"), 1);
    let op = match op {
        Ok(o) => o,
        Err(e) => {
            ctx.violation(format!("value:{who}:rejected"), format!("{dbg} does not become an extension operation: {e}"), "");
            return;
        }
    };
    let sig = op.signature().into_owned();
    let art = format!("{dbg} = {}.{} {:?} : {sig}", op.def().extension_id(), op.def().name(), op.args());
    ctx.nontrivial(&art);
    let want = vec![(who, dbg.clone())];
    let check = |ctx: &mut Ctx, what: &str, o: &OpType| {
        let got = readers(o);
        if got != want {
            ctx.violation(format!("value:{who}:{what}"), format!("{dbg} is recognised as {got:?} ({what})"), art.clone());
        }
        // the op-definition readers
        if let Some(x) = o.as_extension_op() {
            if (x.def().name(), x.args()) != (op.def().name(), op.args()) || x.def().extension_id() != op.def().extension_id() {
                ctx.violation(format!("value:{who}:{what}:args"), format!("{dbg} became {}.{} {:?} ({what})", x.def().extension_id(), x.def().name(), x.args()), art.clone());
            }
            if *x.signature() != sig {
                ctx.violation(format!("value:{who}:{what}:signature"), format!("{dbg} : {sig} became {} ({what})", x.signature()), art.clone());
            }
        } else {
            ctx.violation(format!("value:{who}:{what}:opaque"), format!("{dbg} became the unresolved {o} ({what})"), art.clone());
        }
    };
    check(ctx, "value", &op.clone().into());
    // the published definition
    let Ok(reg) = PUBLISHED.as_ref() else { return };
    let Some(e) = reg.get(op.def().extension_id()) else {
        ctx.violation(format!("value:{who}:unpublished"), format!("{dbg}: extension {} is not published", op.def().extension_id()), art.clone());
        return;
    };
    match e.instantiate_extension_op(op.def().name(), op.args().to_vec()) {
        Ok(x) => check(ctx, "published", &x.into()),
        Err(e) => ctx.violation(format!("value:{who}:published"), format!("{dbg}: the published definition rejects it: {e}"), art.clone()),
    }
    // in a stored program
    let h: Hugr = {
        let mut b = FunctionBuilder::new("f", sig.clone()).unwrap();
        let ins: Vec<_> = b.input_wires().collect();
        let outs = b.add_dataflow_op(op.clone(), ins).unwrap().outputs();
        match b.finish_hugr_with_outputs(outs) {
            Ok(h) => h,
            Err(e) => {
                ctx.violation(format!("value:{who}:program"), format!("a program with only {dbg} is invalid: {e}"), art.clone());
                return;
            }
        }
    };
    let fmt = *rng.pick(&[EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions]);
    let cfg = EnvelopeConfig::new(fmt);
    let mut buf = vec![];
    if let Err(e) = h.store(&mut buf, cfg) {
        ctx.count(format!("store {fmt:?} fails: {}", norm(&e.to_string())), 1);
        return;
    }
    let regs: [(&str, ExtensionRegistry); 2] = [("stored, built-in definitions", assets::REG.clone()), ("stored, published definitions", {
        let mut r = reg.clone();
        for x in hugr::std_extensions::STD_REG.iter() {
            r.register_updated_ref(x);
        }
        r.register_updated_ref(&PRELUDE);
        r
    })];
    for (what, r) in regs {
        match Hugr::load(&buf[..], Some(&r)) {
            Ok(l) => {
                let Some(n) = l.nodes().find(|n| l.get_optype(*n).as_extension_op().is_some() || matches!(l.get_optype(*n), OpType::OpaqueOp(_))) else {
                    ctx.violation(format!("value:{who}:{what}:lost"), format!("{dbg} is lost ({what})"), art.clone());
                    continue;
                };
                check(ctx, what, l.get_optype(n));
                ctx.count("stored and loaded", 1);
            }
            Err(e) => ctx.violation(format!("value:{who}:{what}:load"), format!("{dbg}: {fmt:?} does not load: {e}"), art.clone()),
        }
    }
}
