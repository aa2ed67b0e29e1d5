use super::util::*;
use crate::gen::dump;
use crate::gen::prog::{arr_any, is_ext, opt_of, sum_rows, xop};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::algorithms::{ComposablePass, ReplaceTypes};
use hugr::builder::{Container, Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t, usize_t, Barrier, ConstUsize, MakeTuple, UnpackTuple};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{Tag, Value};
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt};
use hugr::std_extensions::collections::array::array_type;
use hugr::std_extensions::collections::borrow_array::borrow_array_type;
use hugr::std_extensions::collections::value_array::value_array_type;
use hugr::std_extensions::collections::{array, borrow_array, value_array};
use hugr::types::{Signature, Type, TypeRow};
use hugr::{Hugr, HugrView, Wire};
use tket::passes::unpack_container::{TypeUnpacker, UnpackContainerBuilder};
use tket_qsystem::extension::qsystem::{LowerTketToQSystemPass, QSystemOp};
use tket_qsystem::QSystemPass;

pub static CHECK: Check = Check {
    id: "C15",
    rule: "half of the cases: a random program that packs its qubits into nested containers (arrays of three kinds, tuples, options, empty ones) and puts barriers on them, between hardware gates and under control flow, lowered by LowerTketToQSystemPass or the whole pipeline; the interpreter compares values and states, and the sequence of gates and barriers seen by every qubit, where a Barrier of the original must appear as one RuntimeBarrier with the same qubits. Other half: random rows and element types unpacked and repacked by UnpackContainerBuilder, compared with a reference unpacking. Non-trivial = distinct type rows for which a barrier event or element was observed.",
    assumptions: &[
        "a barrier covers bare qubits, those in tuples and arrays (nested), and those in full arrays of optional qubits; other optional qubits are not covered, as type_unpack.rs documents",
        "the reference interpreter in mon/src/interp.rs",
    ],
    cases: |t| if t == Tier::Quick { 40_000 } else { 150_000 },
    min_nontrivial: 1000,
    budget: (50, 800),
    case_timeout: 60,
    f: case,
};

fn leaf(r: &mut Rng) -> Type {
    match r.below(5) {
        0 => bool_t(),
        1 => usize_t(),
        2 => float64_type(),
        3 => int_type(r.below(7) as u64),
        _ => Type::new_unit_sum(3),
    }
}
/// A random type; `elem` occurs often. `opt`: allow options of `elem` in arrays.
fn ty(r: &mut Rng, d: usize, elem: &Type, opt: bool) -> Type {
    if d == 0 || r.chance(0.2) {
        return if r.chance(0.6) { elem.clone() } else { leaf(r) };
    }
    match r.below(9) {
        0..=3 => {
            let n = *r.pick(&[0u64, 1, 1, 2, 2, 3]);
            let mut e = ty(r, d - 1, elem, opt);
            if opt && r.chance(0.15) {
                e = opt_of(elem.clone());
            } else if e == opt_of(elem.clone()) {
                e = elem.clone();
            }
            match r.below(3) {
                0 => array_type(n, e),
                1 => borrow_array_type(n, e),
                _ if e.copyable() => value_array_type(n, e),
                _ if opt => value_array_type(n, e),
                _ => array_type(n, e),
            }
        }
        4..=6 => {
            let k = r.below(4);
            Type::new_tuple((0..k).map(|_| ty(r, d - 1, elem, opt)).collect::<Vec<_>>())
        }
        7 => opt_of(ty(r, d - 1, elem, opt)),
        _ => {
            if r.chance(0.4) {
                opt_of(elem.clone())
            } else {
                leaf(r)
            }
        }
    }
}
fn qubits_in(t: &Type) -> usize {
    if t == &qb_t() {
        1
    } else if let Some((n, e)) = arr_any(t) {
        n as usize * qubits_in(&e)
    } else if let Some(rows) = sum_rows(t) {
        rows.iter().map(|r| r.iter().map(qubits_in).sum()).max().unwrap_or(0)
    } else {
        0
    }
}
fn kind(t: &Type) -> Option<&'static hugr::Extension> {
    Some(if is_ext(t, "array").is_some() {
        &array::EXTENSION
    } else if is_ext(t, "borrow_array").is_some() {
        &borrow_array::EXTENSION
    } else if is_ext(t, "value_array").is_some() {
        &value_array::EXTENSION
    } else {
        return None;
    })
}

/// Build a value, taking qubits from `qs`; arrays of optional qubits are full.
fn make<D: Dataflow>(b: &mut D, r: &mut Rng, t: &Type, qs: &mut Vec<Wire>, in_arr: bool) -> Wire {
    if t == &qb_t() {
        return qs.remove(0);
    }
    if let Some((n, e)) = arr_any(t) {
        let ws: Vec<Wire> = (0..n).map(|_| make(b, r, &e, qs, true)).collect();
        return b.add_dataflow_op(xop(kind(t).unwrap(), "new_array", vec![n.into(), e.into()]), ws).unwrap().out_wire(0);
    }
    if let Some(rows) = sum_rows(t) {
        let tag = if in_arr && rows.len() == 2 && rows[0].is_empty() && rows[1] == vec![qb_t()] {
            1
        } else {
            r.below(rows.len())
        };
        let ws: Vec<Wire> = rows[tag].iter().map(|t| make(b, r, t, qs, false)).collect();
        let vs: Vec<TypeRow> = rows.iter().map(|r| r.clone().into()).collect();
        return b.add_dataflow_op(Tag::new(tag, vs), ws).unwrap().out_wire(0);
    }
    let v: Value = if t == &usize_t() {
        Value::extension(ConstUsize::new(r.below(99) as u64))
    } else if t == &float64_type() {
        Value::extension(ConstF64::new(r.below(99) as f64 / 8.))
    } else {
        let lw = (0..7).find(|w| t == &int_type(*w as u64)).unwrap();
        Value::extension(ConstInt::new_u(lw, r.below(2) as u64).unwrap())
    };
    b.add_load_value(v)
}

fn gate<D: Dataflow>(b: &mut D, r: &mut Rng, q: &mut [Wire]) {
    if q.is_empty() {
        return;
    }
    let ang = |b: &mut D, r: &mut Rng| b.add_load_value(ConstF64::new(r.f() * 6.));
    let i = r.below(q.len());
    match r.below(4) {
        0 => {
            let a = ang(b, r);
            q[i] = b.add_dataflow_op(QSystemOp::Rz, [q[i], a]).unwrap().out_wire(0);
        }
        1 | 2 if q.len() > 1 => {
            let j = (i + 1 + r.below(q.len() - 1)) % q.len();
            let a = ang(b, r);
            let [x, y] = b.add_dataflow_op(QSystemOp::ZZPhase, [q[i], q[j], a]).unwrap().outputs_arr();
            q[i] = x;
            q[j] = y;
        }
        _ => {
            let (a, c) = (ang(b, r), ang(b, r));
            q[i] = b.add_dataflow_op(QSystemOp::PhasedX, [q[i], a, c]).unwrap().out_wire(0);
        }
    }
}

/// Barriers (and gates on bare qubits) over the values.
fn barriers<D: Dataflow>(b: &mut D, r: &mut Rng, vals: &mut [(Type, Wire)], depth: usize) {
    for _ in 0..r.range(1, 3) {
        let qi: Vec<usize> = (0..vals.len()).filter(|&i| vals[i].0 == qb_t()).collect();
        if !qi.is_empty() && r.chance(0.6) {
            let mut q: Vec<Wire> = qi.iter().map(|&i| vals[i].1).collect();
            gate(b, r, &mut q);
            qi.iter().zip(q).for_each(|(&i, w)| vals[i].1 = w);
        }
        if vals.is_empty() {
            return;
        }
        if depth > 0 && r.chance(0.3) {
            let ts: Vec<Type> = vals.iter().map(|v| v.0.clone()).collect();
            let ws: Vec<(Type, Wire)> = vals.to_vec();
            let outs: Vec<Wire> = match r.below(3) {
                0 => {
                    let mut d = b.dfg_builder(Signature::new_endo(ts.clone()), ws.iter().map(|x| x.1)).unwrap();
                    let mut v: Vec<(Type, Wire)> = ts.iter().cloned().zip(d.input_wires()).collect();
                    barriers(&mut d, r, &mut v, depth - 1);
                    d.finish_with_outputs(v.iter().map(|x| x.1)).unwrap().outputs().collect()
                }
                1 => {
                    let c = b.add_load_value(if r.chance(0.5) { Value::true_val() } else { Value::false_val() });
                    let mut cb = b.conditional_builder(([vec![].into(), vec![].into()] as [TypeRow; 2], c), ws, ts.clone().into()).unwrap();
                    for k in 0..2 {
                        let mut d = cb.case_builder(k).unwrap();
                        let mut v: Vec<(Type, Wire)> = ts.iter().cloned().zip(d.input_wires()).collect();
                        if k == 0 || r.chance(0.7) {
                            barriers(&mut d, r, &mut v, depth - 1);
                        }
                        d.finish_with_outputs(v.iter().map(|x| x.1)).unwrap();
                    }
                    cb.finish_sub_container().unwrap().outputs().collect()
                }
                _ => {
                    let mut d = b.tail_loop_builder([], ws, vec![].into()).unwrap();
                    let mut v: Vec<(Type, Wire)> = ts.iter().cloned().zip(d.input_wires()).collect();
                    barriers(&mut d, r, &mut v, depth - 1);
                    let stop = d.add_load_value(Value::true_val());
                    d.finish_with_outputs(stop, v.iter().map(|x| x.1)).unwrap().outputs().collect()
                }
            };
            vals.iter_mut().zip(outs).for_each(|(v, w)| v.1 = w);
            continue;
        }
        let n = r.range(1, vals.len().min(5));
        let ix = r.distinct(vals.len(), n);
        let ts: Vec<Type> = ix.iter().map(|&i| vals[i].0.clone()).collect();
        let k = b.add_dataflow_op(Barrier::new(ts), ix.iter().map(|&i| vals[i].1)).unwrap();
        for (o, &i) in ix.iter().enumerate() {
            vals[i].1 = k.out_wire(o);
        }
    }
}

fn row(r: &mut Rng) -> Vec<Type> {
    loop {
        let ts: Vec<Type> = (0..r.range(1, 4)).map(|_| {
            let d = r.below(4);
            ty(r, d, &qb_t(), true)
        }).collect();
        if ts.iter().map(qubits_in).sum::<usize>() <= 8 {
            return ts;
        }
    }
}

fn barrier_case(ctx: &mut Ctx, mut rng: Rng) {
    let r = &mut rng;
    let mut ts = row(r);
    let bare = r.below(3);
    ts.extend((0..bare).map(|_| qb_t()));
    let nq: usize = ts.iter().map(qubits_in).sum();
    let mut b = FunctionBuilder::new("main", Signature::new(vec![qb_t(); nq], ts.clone())).unwrap();
    let mut qs: Vec<Wire> = b.input_wires().collect();
    for _ in 0..r.below(6) {
        gate(&mut b, r, &mut qs);
    }
    let mut vals: Vec<(Type, Wire)> = vec![];
    for t in &ts {
        let w = make(&mut b, r, t, &mut qs, false);
        vals.push((t.clone(), w));
    }
    for q in qs {
        b.add_dataflow_op(QSystemOp::QFree, [q]).unwrap();
    }
    barriers(&mut b, r, &mut vals, 2);
    b.set_outputs(vals.iter().map(|x| x.1)).unwrap();
    let h = std::mem::take(b.hugr_mut());
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let names = ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
    let mut k = h.clone();
    let whole = r.chance(0.3);
    let art = || format!("[{names}]\n{}", dump(&h));
    let Some(res) = ctx.guard("barrier lowering", &art, || {
        if whole {
            QSystemPass::default().run(&mut k).map_err(|e| e.to_string())
        } else {
            LowerTketToQSystemPass.run(&mut k).map_err(|e| e.to_string())
        }
    }) else {
        return;
    };
    if let Err(e) = res {
        ctx.violation(format!("error:{}", norm(&e)), e, art());
        return;
    }
    for n in k.nodes() {
        if let Some(e) = k.get_optype(n).as_extension_op() {
            if e.def().extension_id().to_string().starts_with("__tket") {
                ctx.violation("left over", format!("temporary operation {} left", e.def().name()), art());
            }
        }
    }
    let c = interp::Cfg::default();
    if !check_same(ctx, "barrier lowering", &h, &k, &c, 1, false, &names) {
        return;
    }
    let seed = ctx.rng.next();
    let c1 = interp::Cfg { log_barrier: 1, ..c.clone() };
    let c2 = interp::Cfg { log_barrier: 2, sched: seed | 1, ..c };
    match (interp::run(&h, h.entrypoint(), seed, &c1), interp::run(&k, k.entrypoint(), seed, &c2)) {
        (Ok(x), Ok(y)) => {
            ctx.eval();
            ctx.count("barrier events observed", x.events);
            if x.events > 0 {
                ctx.nontrivial(&format!("{names} {}", x.map.keys().next().cloned().unwrap_or_default()));
            }
            if !x.map.keys().eq(y.map.keys()) {
                ctx.violation(
                    "events",
                    format!("sequence of gates and barriers per qubit: expected {:?}, observed {:?}", x.map.keys(), y.map.keys()),
                    format!("{}\n--- after\n{}", art(), dump(&k)),
                );
            }
        }
        (x, y) => ctx.inconclusive(format!("not evaluated: {:?} {:?}", x.err(), y.err())),
    }
    ctx.sample(format!("[{names}]"));
}

/// Reference unpacking.
fn unpack_ref<D: Dataflow>(b: &mut D, t: &Type, elem: &Type, w: Wire) -> Vec<(Type, Wire)> {
    if t == elem || !contains(t, elem) {
        return vec![(t.clone(), w)];
    }
    if let Some((n, e)) = arr_any(t) {
        let k = b.add_dataflow_op(xop(kind(t).unwrap(), "unpack", vec![n.into(), e.clone().into()]), [w]).unwrap();
        return (0..n as usize).flat_map(|i| unpack_ref(b, &e, elem, k.out_wire(i))).collect();
    }
    let rows = sum_rows(t).unwrap();
    let k = b.add_dataflow_op(UnpackTuple::new(rows[0].clone().into()), [w]).unwrap();
    rows[0].iter().enumerate().flat_map(|(i, t)| unpack_ref(b, t, elem, k.out_wire(i))).collect()
}
fn contains(t: &Type, elem: &Type) -> bool {
    if t == elem {
        return true;
    }
    if let Some((_, e)) = arr_any(t) {
        return contains(&e, elem);
    }
    match sum_rows(t) {
        Some(rows) if rows.len() == 1 => rows[0].iter().any(|t| contains(t, elem)),
        _ => false,
    }
}

fn unpack_case(ctx: &mut Ctx, mut rng: Rng) {
    let r = &mut rng;
    let elem = match r.below(8) {
        0..=2 => qb_t(),
        3 => bool_t(),
        4 => int_type(6),
        5 => Type::new_tuple(vec![qb_t(), bool_t()]),
        6 => array_type(2, qb_t()),
        _ => float64_type(),
    };
    let ts = loop {
        let ts: Vec<Type> = (0..r.below(4)).map(|_| {
            let d = r.below(4);
            ty(r, d, &elem, false)
        }).collect();
        if ts.iter().map(qubits_in).sum::<usize>() <= 8 {
            break ts;
        }
    };
    let names = format!("[{}] for {elem}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "));
    // reference
    let refr = {
        let mut b = FunctionBuilder::new("ref", Signature::new(ts.clone(), vec![Type::UNIT])).unwrap();
        let ws: Vec<Wire> = b.input_wires().collect();
        let v: Vec<(Type, Wire)> = ts.iter().zip(ws).flat_map(|(t, w)| unpack_ref(&mut b, t, &elem, w)).collect();
        let row: Vec<Type> = v.iter().map(|x| x.0.clone()).collect();
        let mut b2 = FunctionBuilder::new("ref", Signature::new(ts.clone(), row.clone())).unwrap();
        let ws: Vec<Wire> = b2.input_wires().collect();
        let v: Vec<(Type, Wire)> = ts.iter().zip(ws).flat_map(|(t, w)| unpack_ref(&mut b2, t, &elem, w)).collect();
        (row, b2.finish_hugr_with_outputs(v.iter().map(|x| x.1)).unwrap())
    };
    let art = || names.clone();
    let an = TypeUnpacker::new(elem.clone());
    let mut row = vec![];
    for t in &ts {
        let u = an.unpack_type(t);
        if u.is_some() != contains(t, &elem) || an.contains_element_type(t) != u.is_some() {
            ctx.violation("contains", format!("contains_element_type of {t} for {elem} is {}", u.is_some()), art());
            return;
        }
        let u = u.unwrap_or_else(|| vec![t.clone()]);
        if an.num_unpacked_wires(t) != u.len() {
            ctx.violation("num wires", format!("num_unpacked_wires of {t} for {elem}"), art());
        }
        row.extend(u);
    }
    ctx.eval();
    if row != refr.0 {
        ctx.violation("row", format!("{names}: unpacked row {row:?}, expected {:?}", refr.0), art());
        return;
    }
    if !row.is_empty() {
        ctx.nontrivial(&names);
    }
    // unpack only, and unpack and repack
    for repack in [false, true] {
        let f = || -> Result<Hugr, String> {
            let outs = if repack { ts.clone() } else { row.clone() };
            let mut b = FunctionBuilder::new("main", Signature::new(ts.clone(), outs)).map_err(|e| e.to_string())?;
            let ws: Vec<Wire> = b.input_wires().collect();
            let u = UnpackContainerBuilder::new(TypeUnpacker::new(elem.clone()));
            let mut v = u.unpack_row(&mut b, &ts, ws).map_err(|e| e.to_string())?;
            if v.len() != row.len() {
                return Err(format!("{} wires unpacked, expected {}", v.len(), row.len()));
            }
            if repack {
                v = u.repack_row(&mut b, &ts, v).map_err(|e| e.to_string())?;
            }
            b.set_outputs(v).map_err(|e| e.to_string())?;
            let mut h = std::mem::take(b.hugr_mut());
            let mut lw = ReplaceTypes::new_empty();
            u.into_function_map().register_operation_replacements(&mut h, &mut lw);
            let e = h.entrypoint();
            h.set_entrypoint(h.module_root());
            lw.run(&mut h).map_err(|e| e.to_string())?;
            h.set_entrypoint(e);
            Ok(h)
        };
        let what = if repack { "unpack and repack" } else { "unpack" };
        let Some(res) = ctx.guard(what, &art, f) else { return };
        match res {
            Err(e) => {
                ctx.violation(format!("{what}:error:{}", norm(&e)), format!("{names}: {e}"), art());
                return;
            }
            Ok(h) => {
                ctx.count(what, 1);
                let expect = if repack {
                    let b = FunctionBuilder::new("id", Signature::new_endo(ts.clone())).unwrap();
                    let w = b.input_wires();
                    b.finish_hugr_with_outputs(w).unwrap()
                } else {
                    refr.1.clone()
                };
                check_same(ctx, what, &expect, &h, &interp::Cfg::default(), 1, true, &names);
            }
        }
    }
}

fn case(ctx: &mut Ctx) {
    let rng = ctx.rng.fork();
    if ctx.idx % 2 == 0 {
        barrier_case(ctx, rng)
    } else {
        unpack_case(ctx, rng)
    }
}
