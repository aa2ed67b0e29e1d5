use crate::gen::{assets, circ, dump, prog};
use crate::interp::{self, Stop};
use crate::native::{self, Compiled, Compiler, Ran};
use crate::report::*;
use hugr::envelope::EnvelopeConfig;
use hugr::extension::ExtensionRegistry;
use hugr::ops::DataflowParent;
use hugr::{Hugr, HugrView};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub static CHECK: Check = Check {
    id: "C19",
    rule: "case = one program without inputs (compiled Guppy files first, then generated ones), compiled by the real compiler through its Python interface at a random optimisation level; the machine code runs on a monitored runtime over every measurement branch, and the probability of each trace of results, panics and exits is compared with the reference interpreter running the source program. Non-trivial = distinct program that compiled and whose machine code ran and was compared.",
    assumptions: &[
        "the reference interpreter in mon/src/interp.rs gives the meaning of programs",
        "one random number generator is alive at a time, as the runtime has only one",
    ],
    cases: |t| if t == Tier::Quick { 4_000 } else { 200_000 },
    min_nontrivial: 1000,
    budget: (100, 800),
    case_timeout: 120,
    f: case,
};

thread_local! {
    static COMPILER: RefCell<Option<Compiler>> = const { RefCell::new(None) };
}
pub fn compile(what: u8, bytes: &[u8], opt: u8, triple: &str) -> Option<Compiled> {
    COMPILER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Compiler::start().ok();
        }
        c.as_mut().map(|c| c.call(what, bytes, opt, triple))
    })
}

/// Extensions that the compiler does not know itself travel with the program.
static EXTRA: std::sync::LazyLock<ExtensionRegistry> = std::sync::LazyLock::new(|| {
    ExtensionRegistry::new([
        tket_qsystem::extension::random::EXTENSION.clone(),
        tket_qsystem::extension::utils::EXTENSION.clone(),
        tket::extension::guppy::GUPPY_EXTENSION.clone(),
    ])
});

pub fn bytes(h: &Hugr) -> Option<Vec<u8>> {
    let mut b = vec![];
    h.store_with_exts(&mut b, EnvelopeConfig::binary(), &EXTRA).ok()?;
    Some(b)
}

/// Errors that say that the program uses something the compiler does not support.
fn unsupported(e: &str) -> bool {
    ["Constant string too long", "Entry point function must have no input", "unimplemented op", "nonlocal edges", "not currently supported", "Unsupported", "unsupported", "No codegen", "not supported", "Empty"].iter().any(|k| e.contains(k))
}

pub fn program(ctx: &mut Ctx, rng: &mut crate::rng::Rng) -> Option<Hugr> {
    let mut idx = ctx.idx;
    if let Some((name, h)) = assets::GUPPY.get(idx) {
        ctx.sample(name);
        ctx.count("compiled Guppy files", 1);
        return Some(h.clone());
    }
    idx -= assets::GUPPY.len();
    let mut f = prog::Feat::all();
    f = if idx % 2 == 0 { f.thin(rng) } else { f.focus(rng) };
    f.main_io = false;
    f.io_tbool = false;
    f.results = true;
    f.final_results = true;
    f.meas_budget = 4;
    f.tbool_get = false;
    f.ext_edges &= rng.chance(0.05);
    if idx % 3 == 0 {
        let mut c = circ::Cfg::dynamic((1, 4), (3, 16), circ::ALLG);
        c.fancy_angles = rng.chance(0.3);
        let h = circ::generate(rng, &c).hugr();
        let main = h.entrypoint();
        return prog::entry(rng, h, main, f);
    }
    if idx % 5 == 1 {
        f.main_io = true;
        f.meas_budget = 2;
        let h = prog::generate(rng, f.clone());
        let main = h.entrypoint();
        return prog::entry(rng, h, main, f);
    }
    Some(prog::generate(rng, f))
}

/// Anything but a panic or a crash is fine for requests that make no sense.
fn hostile(ctx: &mut Ctx, rng: &mut crate::rng::Rng) {
    use hugr::hugr::hugrmut::HugrMut;
    let mut f = prog::Feat::all().focus(rng);
    f.main_io = rng.chance(0.7);
    f.stmts = (1, 8);
    let mut h = prog::generate(rng, f);
    let mut triple = "native";
    let mut opt = rng.below(4) as u8;
    let what = rng.below(2) as u8;
    match rng.below(4) {
        0 => {
            let r = h.module_root();
            h.set_entrypoint(r);
        }
        1 => {
            let n = *rng.pick(&h.descendants(h.module_root()).collect::<Vec<_>>());
            h.set_entrypoint(n);
        }
        2 => opt = *rng.pick(&[4, 5, 255]),
        _ => {
            triple = rng.pick(&[
                "", "native ", "x86_64", "x86_64-unknown-linux-gnu", "x86_64-apple-darwin", "aarch64-apple-darwin",
                "aarch64-unknown-linux-gnu", "x86_64-pc-windows-msvc", "a-b-c",
                "é", "x\0y",
            ])
        }
    }
    if h.validate().is_err() {
        return;
    }
    let Some(mut b) = bytes(&h) else { return };
    if rng.chance(0.1) {
        let k = rng.below(b.len());
        b.truncate(k);
    }
    ctx.eval();
    ctx.count("odd requests", 1);
    ctx.nontrivial(&format!("{triple:?} {opt} {what} {}", dump(&h)));
    let art = format!("opt level {opt}, target {triple:?}, request {what}\n{}", dump(&h));
    match compile(what, &b, opt, triple) {
        None => ctx.inconclusive("the compiler does not start"),
        Some(Compiled::Ok(_)) => ctx.count("odd requests served", 1),
        Some(Compiled::Error(e)) => ctx.count(format!("odd request refused: {}", norm(e.lines().next().unwrap_or(""))), 1),
        Some(Compiled::Panic(e)) => ctx.violation(format!("panic:{}", norm(&e)), format!("the compiler panicked: {e}"), art),
        Some(Compiled::Died(e)) => ctx.violation(format!("died:{}", norm(&e)), format!("the compiler died: {e}"), art),
    }
}

/// Odd tags, messages and names.
fn spice(h: &mut Hugr, rng: &mut crate::rng::Rng) {
    use hugr_core::hugr::internal::HugrMutInternals;
    let text = |rng: &mut crate::rng::Rng| -> String {
        match rng.below(9) {
            0 => "é".repeat(rng.range(1, 12)),
            1 => "x".repeat(rng.range(118, 130)),
            2 => "y".repeat(rng.range(236, 250)),
            3 => "z".repeat(rng.range(300, 700)),
            4 => format!("a\0{}", rng.below(3)),
            5 => format!("same prefix {}", rng.below(4)),
            6 => "\"\\{}%s\n".into(),
            7 if rng.chance(0.1) => "".into(),
            _ => format!("t{}", rng.below(3)),
        }
    };
    for n in h.descendants(h.module_root()).collect::<Vec<_>>() {
        if rng.chance(0.5) {
            continue;
        }
        match h.get_optype(n).clone() {
            hugr::ops::OpType::ExtensionOp(e) if &**e.extension_id() == "tket.result" => {
                let mut args = e.args().to_vec();
                args[0] = hugr::types::TypeArg::String(text(rng));
                let e = hugr::ops::ExtensionOp::new(e.def_arc().clone(), args).unwrap();
                h.replace_op(n, e);
            }
            hugr::ops::OpType::Const(c) => {
                if let Some(_) = c.get_custom_value::<hugr::extension::prelude::ConstError>() {
                    let e = hugr::extension::prelude::ConstError { signal: 1 + rng.below(1000) as u32, message: text(rng) };
                    h.replace_op(n, hugr::ops::Const::new(e.into()));
                }
            }
            hugr::ops::OpType::FuncDefn(mut f) if n != h.entrypoint() || h.entrypoint() != h.module_root() => {
                *f.func_name_mut() = text(rng).replace(char::from(0), "");
                h.replace_op(n, f);
            }
            _ => {}
        }
    }
}

/// Implicit panics differ in their message.
fn fold(o: &interp::Outcomes) -> (BTreeMap<String, f64>, BTreeSet<String>) {
    let mut map: BTreeMap<String, f64> = BTreeMap::new();
    let mut errs = BTreeSet::new();
    for (k, v) in &o.map {
        let w = v.iter().map(|v| v.iter().map(|x| x.n2()).sum::<f64>()).sum::<f64>();
        let mut k = k.clone();
        if let Some(t) = k.strip_suffix("|halt") {
            let at = t.rfind("panic:").max(t.rfind("exit:")).unwrap_or(0);
            let explicit = [t.rfind("panic:err("), t.rfind("exit:err(")].into_iter().flatten().max();
            match explicit {
                Some(p) if t.ends_with(')') => {
                    errs.insert(t[p..].to_string());
                }
                _ => k = format!("{}panic:implicit|halt", &t[..at]),
            }
        }
        *map.entry(k).or_default() += w;
    }
    (map, errs)
}

/// What `main` returns is not reported.
fn drop_returned(map: BTreeMap<String, f64>) -> BTreeMap<String, f64> {
    let mut out: BTreeMap<String, f64> = BTreeMap::new();
    for (mut k, v) in map {
        if let Some(p) = k.rfind("|out:") {
            k.truncate(p + 5);
        } else if k.starts_with("out:") {
            k.truncate(4);
        }
        *out.entry(k).or_default() += v;
    }
    out
}

fn case(ctx: &mut Ctx) {
    let rng = &mut ctx.rng.fork();
    if ctx.idx % 16 == 15 {
        return hostile(ctx, rng);
    }
    let Some(mut h) = program(ctx, rng) else { return };
    if ctx.idx >= assets::GUPPY.len() && rng.chance(0.15) {
        ctx.count("programs with odd names", 1);
        spice(&mut h, rng);
    }
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let opt = rng.below(4) as u8;
    let mut main = h.entrypoint();
    if main == h.module_root() {
        match h.children(main).find(|n| h.get_optype(*n).as_func_defn().is_some_and(|f| f.func_name() == "main")) {
            Some(n) => main = n,
            None => {
                ctx.inconclusive("no main");
                return;
            }
        }
    }
    let art = format!("opt level {opt}\n{}", dump(&h));
    let Some(b) = bytes(&h) else {
        ctx.inconclusive("the program cannot be stored");
        return;
    };
    ctx.eval();
    let bc = match compile(0, &b, opt, "native") {
        None => {
            ctx.inconclusive("the compiler does not start");
            return;
        }
        Some(Compiled::Ok(b)) => b,
        Some(Compiled::Error(e)) => {
            let e = e.lines().next().unwrap_or("").to_string();
            ctx.count(format!("rejected: {}", norm(&e)), 1);
            if !unsupported(&e) {
                ctx.violation(format!("error:{}", norm(&e)), format!("a valid program does not compile: {e}"), art);
            }
            return;
        }
        Some(Compiled::Panic(e)) => {
            ctx.violation(format!("panic:{}", norm(&e)), format!("the compiler panicked: {e}"), art);
            return;
        }
        Some(Compiled::Died(e)) => {
            ctx.violation(format!("died:{}", norm(&e)), format!("the compiler died: {e}"), art);
            return;
        }
    };
    ctx.count("programs compiled", 1);
    if rng.chance(0.03) {
        // the other ways to ask
        let t = rng.pick(&["native", "x86_64-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "x86_64-apple-darwin"]);
        for what in [0, 1, 2] {
            match compile(what, &b, opt, t) {
                Some(Compiled::Ok(b)) => {
                    ctx.count(format!("also compiled for {t}"), 1);
                    if what == 0 {
                        if let Err(e) = native::verify(&b) {
                            ctx.violation(format!("module:{}", norm(&e)), format!("the module for {t} is broken: {e}"), art);
                            return;
                        }
                    }
                }
                Some(Compiled::Error(e) | Compiled::Panic(e) | Compiled::Died(e)) => {
                    ctx.violation(format!("other:{what}:{}", norm(&e)), format!("compiles for this machine, but not (request {what}) for {t}: {e}"), art);
                    return;
                }
                None => {}
            }
        }
    }
    if !h.get_optype(main).as_func_defn().is_some_and(|f| f.inner_signature().input_count() == 0) {
        return;
    }
    let cfg = interp::Cfg { max_paths: 256, allow_uninterp: false, ..Default::default() };
    let want = match interp::run(&h, main, 1, &cfg) {
        Ok(o) => o,
        Err(e) => {
            let e = match e { Stop::Unsupported(s) => s, e => format!("{e:?}") };
            ctx.inconclusive(format!("not evaluated: {}", norm(&e)));
            return;
        }
    };
    let (mut want, errs) = fold(&want);
    if want.keys().any(|k| k.matches("rng_new(").count() > 1) {
        ctx.inconclusive("several random number generators");
        return;
    }
    let mut got = match native::run(&bc, &cfg, &errs) {
        Ran::Ok(n) => n,
        Ran::Unsupported(s) => {
            ctx.inconclusive(format!("not run: {}", norm(&s)));
            return;
        }
        Ran::Fault(s) => {
            ctx.violation(format!("fault:{}", norm(&s)), format!("the machine code breaks a rule of the runtime: {s}"), art);
            return;
        }
        Ran::BadModule(s) => {
            ctx.violation(format!("module:{}", norm(&s)), format!("the module is broken: {s}"), art);
            return;
        }
        Ran::Died(s) => {
            ctx.violation(format!("native:{}", norm(&s)), format!("the machine code died: {s}"), art);
            return;
        }
    };
    if h.get_optype(main).as_func_defn().is_some_and(|f| f.inner_signature().output_count() > 0) {
        want = drop_returned(want);
        got.map = drop_returned(got.map);
    }
    ctx.count(format!("opt level {opt}"), 1);
    ctx.count("paths", got.paths as u64);
    for (k, n) in &got.calls {
        ctx.count(format!("call {k}"), *n);
    }
    ctx.nontrivial(&dump(&h));
    let mut keys: Vec<&String> = want.keys().chain(got.map.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let (x, y) = (want.get(k).copied().unwrap_or(0.), got.map.get(k).copied().unwrap_or(0.));
        if (x - y).abs() > interp::TOL {
            let kind = if k.contains("panic:") { "panic" } else { "trace" };
            ctx.violation(
                format!("differs:{kind}"),
                format!("probability of [{k}]: {x:.6} in the program, {y:.6} in the machine code"),
                format!("{art}\nprogram: {want:#?}\nmachine code: {:#?}", got.map),
            );
            return;
        }
    }
}
