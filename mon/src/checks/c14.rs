use super::util::*;
use crate::gen::{assets, dump, flat, prog};
use crate::interp;
use crate::report::*;
use hugr::builder::{Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder, HugrBuilder, ModuleBuilder};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::NodeHandle;
use hugr::extension::prelude::{bool_t, ConstUsize};
use hugr::ops::Value;
use hugr::std_extensions::collections::borrow_array::{self, borrow_array_type, BArrayValue};
use hugr::std_extensions::collections::array;
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{EdgeKind, Signature};
use tket::extension::bool::bool_type;
use hugr::{Hugr, HugrView};
use tket_qsystem::QSystemPass;

pub static CHECK: Check = Check {
    id: "C14",
    rule: "case = one generated program and one option setting of QSystemPass; non-trivial = distinct (options, set of observed outcomes) of programs that were run before and after the pass",
    assumptions: &[
        "the reference interpreter (mon/src/interp.rs) gives the meaning of programs before and after",
        "programs with value edges between regions may be rejected with an error (documented limitation of ReplaceBoolPass)",
    ],
    cases: |t| if t == Tier::Quick { 24_000 } else { 400_000 },
    min_nontrivial: 500,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

pub fn has_ext_edges(h: &Hugr) -> bool {
    h.descendants(h.module_root()).any(|n| {
        h.node_inputs(n).any(|p| {
            h.linked_outputs(n, p).any(|(s, sp)| {
                matches!(h.get_optype(s).port_kind(sp), Some(EdgeKind::Value(_))) && h.get_parent(s) != h.get_parent(n)
            })
        })
    })
}

/// An element is read from a standard array of tket.bool.
fn probe_array_get() -> Hugr {
    let t = bool_type();
    let mut b = FunctionBuilder::new("main", Signature::new(vec![t.clone(), bool_t()], vec![bool_t()])).unwrap();
    let [x, y] = b.input_wires_arr();
    let a = b.add_dataflow_op(array::EXTENSION.instantiate_extension_op("new_array", [1u64.into(), t.clone().into()]).unwrap(), [x]).unwrap().out_wire(0);
    let i = b.add_load_value(ConstUsize::new(0));
    let g = b.add_dataflow_op(array::EXTENSION.instantiate_extension_op("get", [1u64.into(), t.clone().into()]).unwrap(), [a, i]).unwrap();
    let a = g.out_wire(1);
    b.add_dataflow_op(array::EXTENSION.instantiate_extension_op("discard", [1u64.into(), t.into()]).unwrap(), [a]).unwrap();
    b.finish_hugr_with_outputs([y]).unwrap()
}
/// A constant borrow array goes through a call.
fn probe_fold_linear() -> Hugr {
    let t = borrow_array_type(1, bool_t());
    let mut m = ModuleBuilder::new();
    let f = {
        let b = m.define_function("f", Signature::new_endo(vec![t.clone()])).unwrap();
        let w = b.input_wires();
        b.finish_with_outputs(w).unwrap()
    };
    let main = {
        let mut b = m.define_function("main", Signature::new(vec![], vec![bool_t()])).unwrap();
        let a = b.add_load_value(BArrayValue::new(bool_t(), vec![Value::true_val()]));
        let a = b.call(f.handle(), &[], [a]).unwrap().out_wire(0);
        let x = b.add_dataflow_op(borrow_array::EXTENSION.instantiate_extension_op("unpack", [1u64.into(), bool_t().into()]).unwrap(), [a]).unwrap().out_wire(0);
        b.finish_with_outputs([x]).unwrap()
    };
    let mut h = m.finish_hugr().unwrap();
    h.set_entrypoint(main.node());
    h
}
/// Equality of an unknown with the constant false.
fn probe_fold_eq() -> Hugr {
    let mut b = FunctionBuilder::new("main", Signature::new(vec![bool_t()], vec![bool_t()])).unwrap();
    let [x] = b.input_wires_arr();
    let f = b.add_load_value(Value::false_val());
    let y = b.add_dataflow_op(LogicOp::Eq, [x, f]).unwrap().out_wire(0);
    b.finish_hugr_with_outputs([y]).unwrap()
}

fn probe(ctx: &mut Ctx, what: &str, h: Hugr, fold: bool) {
    h.validate().unwrap();
    let pass = QSystemPass::default().with_constant_fold(fold);
    let mut k = h.clone();
    let Some(res) = ctx.guard(what, &|| dump(&h), || pass.run(&mut k)) else { return };
    match res {
        Err(e) => ctx.violation(format!("{what}:error"), format!("{what}: {e}"), dump(&h)),
        Ok(()) => {
            check_same(ctx, what, &h, &k, &interp::Cfg::default(), 4, false, what);
        }
    }
}

fn case(ctx: &mut Ctx) {
    match ctx.idx {
        0 => return probe(ctx, "get on a standard array of tket.bool", probe_array_get(), false),
        1 => return probe(ctx, "constant folding of a linear constant", probe_fold_linear(), true),
        2 => return probe(ctx, "constant folding of an equality", probe_fold_eq(), true),
        _ => {}
    }
    let mut rng = ctx.rng.fork();
    let mut f = prog::Feat::all();
    f = if rng.chance(0.35) { f.focus(&mut rng) } else { f.thin(&mut rng) };
    if rng.chance(0.15) {
        // booleans kept in containers
        (f.tbool, f.barrays, f.arrays, f.options, f.risky, f.cond) = (true, true, true, true, true, true);
    }
    f.ext_edges = rng.chance(0.05);
    f.io_tbool = false;
    f.barriers &= rng.chance(0.5);
    f.tbool_get = false;
    let (cf, mono, fo, lazy) = (rng.chance(0.3), rng.chance(0.7), rng.chance(0.7), rng.chance(0.8));
    if cf {
        // known finding: constants of linear types are folded
        f.tbool = false;
        f.futures = false;
        f.arrays = false;
        f.barrays = false;
        f.options = false;
        // known finding: folding of equality with one constant
        f.logic_eq = false;
    }
    let files = &*assets::GUPPY;
    let file = files.get((ctx.idx - 3) / 2).filter(|f| {
        let h = &f.1;
        // values of type tket.bool at the boundary change their representation
        let t = format!("{:?}", flat::region_sig(h, h.entrypoint()));
        ctx.idx < 3 + 2 * files.len() && h.entrypoint() != h.module_root() && !t.contains("tket.bool")
    });
    let (cf, h) = match file {
        Some((name, h)) => {
            ctx.count("compiled Guppy files", 1);
            ctx.sample(name);
            (false, h.clone())
        }
        None => (cf, prog::generate(&mut rng, f)),
    };
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let opts = format!("constant_fold={cf} monomorphize={mono} force_order={fo} lazify={lazy}");
    let pass = QSystemPass::default().with_constant_fold(cf).with_monormophize(mono).with_force_order(fo).with_lazify(lazy);
    let mut k = h.clone();
    let art = || format!("{opts}\n{}", dump(&h));
    ctx.eval();
    let Some(res) = ctx.guard("QSystemPass", &art, || pass.run(&mut k)) else { return };
    if let Err(e) = res {
        let t = e.to_string();
        if has_ext_edges(&h) {
            ctx.count("rejected: value edges between regions", 1);
        } else {
            ctx.violation(format!("error:{}", norm(&t)), format!("{opts}: {t}"), art());
        }
        return;
    }
    if k.entrypoint_optype() != h.entrypoint_optype() {
        ctx.violation("entrypoint", "the entrypoint or its signature changed", art());
    }
    if lazy {
        for n in k.descendants(k.module_root()) {
            if let Some(e) = k.get_optype(n).as_extension_op() {
                if e.def().extension_id().to_string() == "tket.bool" {
                    ctx.violation(format!("left over:{}", e.def().name()), "a tket.bool operation is left after lazification", art());
                }
            }
        }
    }
    if let Ok(o) = interp::run(&h, h.entrypoint(), 5, &interp::Cfg::default()) {
        ctx.nontrivial(&format!("{opts} {:?}", o.map.keys()));
        ctx.count("measurement branches of the originals", o.paths as u64);
        ctx.count("observable outcomes", o.map.len() as u64);
    }
    ctx.sample(format!("{opts}\n{}", dump(&h)));
    let cfp = if cf { "fold:" } else { "" };
    check_same(ctx, &format!("{cfp}QSystemPass"), &h, &k, &interp::Cfg::default(), 1, false, &opts);
}
