use super::util::*;
use crate::gen::dump;
use crate::report::*;
use crate::rng::Rng;
use hugr::ops::{OpTrait, OpType};
use hugr::types::{EdgeKind, Type};
use hugr::{CircuitUnit, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use std::collections::{HashMap, HashSet};
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C07",
    rule: "case = one region (random circuit, region of a generated program or of a compiled Guppy file, renumbered at random); a monitor consumes the command iterator and replays it against the graph: every operation once, dependencies first, unit ids carried along linear wires and distinct among live wires, units/ports/types equal to the signature. Non-trivial = distinct region with at least two commands.",
    assumptions: &["commands for constants and constant loads that nothing in the region uses may be left out (documented: they are delayed until a consumer needs them)"],
    cases: |t| if t == Tier::Quick { 40_000 } else { 1_500_000 },
    min_nontrivial: 2000,
    budget: (60, 800),
    case_timeout: 30,
    f: case,
};

fn linear(t: &Type) -> bool {
    !t.copyable()
}
/// Value and constant ports in order: (port index, type, linear).
fn ports(h: &Hugr, n: Node, d: Direction) -> Vec<(usize, Type, bool)> {
    let op = h.get_optype(n);
    let k = match d {
        Direction::Incoming => h.num_inputs(n),
        Direction::Outgoing => h.num_outputs(n),
    };
    (0..k)
        .filter_map(|i| match op.port_kind(Port::new(d, i)) {
            Some(EdgeKind::Value(t)) => {
                let l = linear(&t);
                Some((i, t, l))
            }
            Some(EdgeKind::Const(t)) => Some((i, t, false)),
            _ => None,
        })
        .collect()
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let Some(h) = some_region(ctx, &mut rng) else { return };
    check(ctx, &h, &mut rng);
}

fn check(ctx: &mut Ctx, h: &Hugr, _rng: &mut Rng) {
    let art = || dump(h);
    ctx.eval();
    let Some(circ) = ctx.guard("Circuit::try_new", &art, || Circuit::try_new(h)) else { return };
    let circ = match circ {
        Ok(c) => c,
        Err(e) => {
            ctx.count(format!("not a circuit: {}", norm(&e.to_string())), 1);
            return;
        }
    };
    let parent = h.entrypoint();
    let [inp, out] = h.get_io(parent).unwrap();
    let mut bad: Vec<(String, String)> = vec![];
    macro_rules! bad { ($s:expr, $($m:tt)*) => { bad.push(($s.to_string(), format!($($m)*))) } }

    // boundary
    let sig_in: Vec<Type> = match h.get_optype(inp) {
        OpType::Input(i) => i.types.iter().cloned().collect(),
        _ => unreachable!(),
    };
    let qb = hugr::extension::prelude::qb_t();
    let units: Vec<_> = circ.units().collect();
    if units.iter().map(|u| (u.1.index(), u.2.clone())).collect::<Vec<_>>() != sig_in.iter().cloned().enumerate().collect::<Vec<_>>() {
        bad!("boundary", "units() reports {units:?} for inputs {sig_in:?}");
    }
    let mut live: HashMap<Wire, usize> = HashMap::new();
    let mut ids = HashSet::new();
    for (u, p, t) in &units {
        match u {
            CircuitUnit::Linear(i) => {
                if !linear(t) {
                    bad!("boundary", "copyable input {p:?} has a linear unit");
                }
                if !ids.insert(*i) {
                    bad!("boundary ids", "two inputs have unit {i}");
                }
                live.insert(Wire::new(inp, *p), *i);
            }
            CircuitUnit::Wire(w) => {
                if linear(t) || *w != Wire::new(inp, *p) {
                    bad!("boundary", "input {p:?} of type {t} has unit {w:?}");
                }
            }
        }
    }
    let lin: Vec<_> = circ.linear_units().map(|(u, p, _)| (u.index(), p)).collect();
    let want: Vec<_> = units.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(i) = u { Some((*i, *p)) } else { None }).collect();
    if lin != want {
        bad!("boundary", "linear_units() = {lin:?}, expected {want:?}");
    }
    let nonlin = circ.nonlinear_units().count();
    if nonlin != sig_in.iter().filter(|t| !linear(t)).count() {
        bad!("boundary", "nonlinear_units() has {nonlin} entries");
    }
    let nq = sig_in.iter().filter(|t| **t == qb).count();
    let qs: Vec<_> = circ.qubits().map(|q| q.1.index()).collect();
    if circ.qubit_count() != nq || qs != sig_in.iter().enumerate().filter(|x| *x.1 == qb).map(|x| x.0).collect::<Vec<_>>() {
        bad!("boundary", "qubit_count() = {} and qubits() = {qs:?} for {sig_in:?}", circ.qubit_count());
    }

    // commands
    let kids: Vec<Node> = h.children(parent).filter(|n| *n != inp && *n != out).collect();
    let kidset: HashSet<Node> = kids.iter().copied().collect();
    let mut at: HashMap<Node, usize> = HashMap::new();
    let mut n_cmd = 0;
    let cmds = ctx.guard("commands", &art, || circ.commands().collect::<Vec<_>>());
    let Some(cmds) = cmds else { return };
    let hint = circ.commands().size_hint().1.unwrap();
    if hint < cmds.len() {
        bad!("size hint", "{} commands, size_hint says at most {hint}", cmds.len());
    }
    let again: Vec<Node> = circ.commands().map(|c| c.node()).collect();
    if again != cmds.iter().map(|c| c.node()).collect::<Vec<_>>() {
        bad!("unstable", "two iterations give different orders");
    }
    for c in &cmds {
        let n = c.node();
        n_cmd += 1;
        if !kidset.contains(&n) {
            bad!("foreign", "command for {n:?}, not an operation of the region");
            continue;
        }
        if at.insert(n, at.len()).is_some() {
            bad!("twice", "{n:?} ({}) yielded twice", h.get_optype(n));
            continue;
        }
        if !std::ptr::eq(c.optype(), h.get_optype(n)) {
            bad!("optype", "{n:?}");
        }
        let op = h.get_optype(n);
        let r = catch(|| {
            let ins: Vec<(CircuitUnit, IncomingPort, Type)> = c.inputs().collect();
            let outs: Vec<(CircuitUnit, OutgoingPort, Type)> = c.outputs().collect();
            (ins, outs)
        });
        let (ins, outs) = match r {
            Ok(x) => x,
            Err(p) => {
                bad!(format!("panic:units:{}:{}", stem(&p.file), norm(&p.msg)), "units of {n:?} ({op}): {}", p.msg);
                continue;
            }
        };
        // inputs
        let want_l = ports(h, n, Direction::Incoming);
        let lin_port = |i: usize| want_l.iter().any(|x| x.0 == i && x.2);
        let want: Vec<(usize, Type)> = want_l.iter().filter(|(i, _, l)| *l || h.linked_outputs(n, *i).next().is_some()).map(|x| (x.0, x.1.clone())).collect();
        if ins.iter().map(|x| (x.1.index(), x.2.clone())).collect::<Vec<_>>() != want {
            bad!("input ports", "{n:?} ({op}): inputs() {ins:?}, expected {want:?}");
        }
        let mut seen = HashSet::new();
        for (u, p, _) in &ins {
            let src = h.linked_outputs(n, *p).next().map(|(a, b)| Wire::new(a, b));
            match u {
                CircuitUnit::Linear(i) => {
                    if !lin_port(p.index()) {
                        bad!("unit kind", "{n:?} {p:?}");
                    }
                    if !seen.insert(*i) {
                        bad!("input ids", "{n:?} ({op}) has unit {i} twice");
                    }
                    match src.and_then(|w| live.remove(&w)) {
                        Some(j) if j == *i => {}
                        other => bad!("unit carried", "{n:?} ({op}) input {p:?} has unit {i}, its wire carries {other:?}"),
                    }
                }
                CircuitUnit::Wire(w) => {
                    if lin_port(p.index()) || Some(*w) != src {
                        bad!("unit wire", "{n:?} ({op}) input {p:?} reports {w:?}, connected to {src:?}");
                    }
                }
            }
        }
        // outputs
        let want_l = ports(h, n, Direction::Outgoing);
        let lin_port = |i: usize| want_l.iter().any(|x| x.0 == i && x.2);
        let want: Vec<(usize, Type)> = want_l.iter().map(|x| (x.0, x.1.clone())).collect();
        if outs.iter().map(|x| (x.1.index(), x.2.clone())).collect::<Vec<_>>() != want {
            bad!("output ports", "{n:?} ({op}): outputs() {outs:?}, expected {want:?}");
        }
        for (u, p, _) in &outs {
            match u {
                CircuitUnit::Linear(i) => {
                    if !lin_port(p.index()) {
                        bad!("unit kind", "{n:?} {p:?}");
                    }
                    if live.values().any(|j| j == i) {
                        bad!("live ids", "{n:?} ({op}) output {p:?} has unit {i} of another live wire");
                    }
                    live.insert(Wire::new(n, *p), *i);
                }
                CircuitUnit::Wire(w) => {
                    if lin_port(p.index()) || *w != Wire::new(n, *p) {
                        bad!("unit wire", "{n:?} ({op}) output {p:?} reports {w:?}");
                    }
                }
            }
        }
        // derived views
        let lin_in: Vec<_> = ins.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(i) = u { Some((*i, p.index())) } else { None }).collect();
        let lin_out: Vec<_> = outs.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(i) = u { Some((*i, p.index())) } else { None }).collect();
        if c.linear_inputs().map(|(u, p, _)| (u.index(), p.index())).collect::<Vec<_>>() != lin_in
            || c.linear_units(Direction::Incoming).map(|(u, p, _)| (u.index(), p.index())).collect::<Vec<_>>() != lin_in
            || c.linear_outputs().map(|(u, p, _)| (u.index(), p.index())).collect::<Vec<_>>() != lin_out
            || c.linear_units(Direction::Outgoing).map(|(u, p, _)| (u.index(), p.index())).collect::<Vec<_>>() != lin_out
        {
            bad!("linear view", "{n:?} ({op})");
        }
        if c.units(Direction::Incoming).map(|(u, p, _)| (u, p.index())).collect::<Vec<_>>() != ins.iter().map(|x| (x.0, x.1.index())).collect::<Vec<_>>()
            || c.units(Direction::Outgoing).map(|(u, p, _)| (u, p.index())).collect::<Vec<_>>() != outs.iter().map(|x| (x.0, x.1.index())).collect::<Vec<_>>()
        {
            bad!("units view", "{n:?} ({op})");
        }
        let q_in: Vec<usize> = ins.iter().filter(|x| x.2 == qb).map(|x| x.1.index()).collect();
        let q_out: Vec<usize> = outs.iter().filter(|x| x.2 == qb).map(|x| x.1.index()).collect();
        if c.input_qubits().map(|x| x.1.index()).collect::<Vec<_>>() != q_in || c.output_qubits().map(|x| x.1.index()).collect::<Vec<_>>() != q_out {
            bad!("qubit view", "{n:?} ({op})");
        }
        for (i, p) in &lin_in {
            let u = tket::circuit::units::LinearUnit::new(*i);
            if c.linear_unit_port(u, Direction::Incoming) != Some(Port::new(Direction::Incoming, *p)) {
                bad!("linear_unit_port", "{n:?} ({op}) unit {i}");
            }
        }
        for (i, p) in &lin_out {
            let u = tket::circuit::units::LinearUnit::new(*i);
            if c.linear_unit_port(u, Direction::Outgoing) != Some(Port::new(Direction::Outgoing, *p)) {
                bad!("linear_unit_port", "{n:?} ({op}) unit {i}");
            }
        }
        for (u, w) in c.input_wires() {
            let Some(x) = ins.iter().find(|x| x.0 == u) else {
                bad!("input_wires", "{n:?} ({op}) unit {u:?}");
                continue;
            };
            // a copyable wire may come in more than once: compare as wires
            let ok = match u {
                CircuitUnit::Wire(v) => v == w,
                CircuitUnit::Linear(_) => h.linked_outputs(n, x.1).next().map(|(a, b)| Wire::new(a, b)) == Some(w),
            };
            if !ok {
                bad!("input_wires", "{n:?} ({op}) unit {u:?} wire {w:?}");
            }
        }
        for ((u, w), x) in c.output_wires().zip(&outs) {
            if u != x.0 || w != Wire::new(n, x.1) {
                bad!("output_wires", "{n:?} ({op}) unit {u:?} wire {w:?}");
            }
        }
        let ni = op.value_input_count() + op.static_input_port().is_some() as usize;
        let no = op.value_output_count() + op.static_output_port().is_some() as usize;
        if c.input_count() != ni || c.output_count() != no {
            bad!("port counts", "{n:?} ({op}): {} and {}", c.input_count(), c.output_count());
        }
        for d in [Direction::Incoming, Direction::Outgoing] {
            for (i, _, l) in ports(h, n, d) {
                if c.is_linear_port(Port::new(d, i)) != l {
                    bad!("is_linear_port", "{n:?} ({op}) {d:?} {i}");
                }
            }
        }
        for k in ["name", "verif"] {
            if c.metadata(k) != h.get_metadata(n, k) {
                bad!("metadata", "{n:?} {k}");
            }
        }
    }
    // everything there, constants without users excepted
    let needed = |n: Node| -> bool {
        match h.get_optype(n) {
            OpType::Const(_) => h.output_neighbours(n).any(|m| h.get_parent(m) == Some(parent) && h.output_neighbours(m).next().is_some()),
            OpType::LoadConstant(_) => h.output_neighbours(n).any(|m| h.get_parent(m) == Some(parent)),
            _ => true,
        }
    };
    for n in &kids {
        if !at.contains_key(n) && needed(*n) {
            bad!("missing", "{n:?} ({}) is not among the commands", h.get_optype(*n));
        }
    }
    // dependencies
    for &n in &kids {
        for p in h.node_outputs(n) {
            for (m, _) in h.linked_inputs(n, p) {
                // the operation of this region that holds m
                let mut k = m;
                while h.get_parent(k) != Some(parent) {
                    match h.get_parent(k) {
                        Some(x) => k = x,
                        None => break,
                    }
                }
                if let (Some(a), Some(b)) = (at.get(&n), at.get(&k)) {
                    if a >= b {
                        bad!("order", "{n:?} ({}) comes after {k:?} ({}), which depends on it", h.get_optype(n), h.get_optype(k));
                    }
                }
            }
        }
    }
    // left over live wires are those that reach the output
    for (w, i) in &live {
        let users: Vec<_> = h.linked_inputs(w.node(), w.source()).collect();
        if users.iter().any(|u| u.0 != out && kidset.contains(&u.0)) {
            bad!("unit lost", "unit {i} of {w:?} is consumed by {users:?} but no command took it");
        }
    }
    // operations(): the extension operations among the commands
    let ops: Vec<Node> = circ.operations().map(|c| c.node()).collect();
    let want: Vec<Node> = cmds
        .iter()
        .map(|c| c.node())
        .filter(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| {
            let d = e.def();
            !(d.extension_id().to_string() == "prelude" && ["Noop", "MakeTuple", "UnpackTuple"].contains(&d.name().as_str()))
        }))
        .collect();
    if ops != want {
        bad!("operations", "operations() = {ops:?}, expected {want:?}");
    }
    ctx.count("commands", n_cmd as u64);
    ctx.count("live unit ids followed", ids.len() as u64);
    if n_cmd >= 2 {
        ctx.nontrivial(&dump(h));
    }
    ctx.sample(dump(h));
    bad.dedup_by(|a, b| a.0 == b.0);
    for (s, m) in bad {
        ctx.violation(s, m, art());
    }
}
