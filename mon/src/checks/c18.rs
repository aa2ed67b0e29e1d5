use super::util::*;
use crate::gen::dump;
use crate::report::*;
use crate::rng::Rng;
use hugr::hugr::views::sibling_subgraph::{InvalidSubgraph, ValidationMode};
use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::{OpTrait, OpType};
use hugr::types::EdgeKind;
use hugr::hugr::hugrmut::HugrMut;
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use indexmap::IndexSet;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use tket::resource::{CircuitUnit, DefaultResourceFlow, ResourceFlow, ResourceId, ResourceScope, ResourceScopeConfig, UnsupportedOp};
use tket::subcircuit::CopyableExpr;
#[cfg(verif_hooks)]
use tket::subcircuit::Interval;
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C18",
    rule: "case = a dataflow region (random circuits and structured programs, compiled files, node order shuffled), as a whole or a random convex part of it. The resource view is compared with a model built from the graph alone: units of every port, origin of every resource, paths, positions along every edge, listings. Then random intervals are created and extended by random nodes and compared with index ranges of the modelled paths, and expressions computing random copyable values are built with random boundaries and compared with a backwards search. Non-trivial = distinct region with a resource path over at least three operations.",
    assumptions: &["the flow of resources through an operation is the documented one (or the custom one of the test)", "expressions whose value passes through an excluded or impure operation end there"],
    cases: |t| if t == Tier::Quick { 30_000 } else { 400_000 },
    min_nontrivial: 1500,
    budget: (60, 800),
    case_timeout: 120,
    f: case,
};

/// Gives back equally many linear values in the opposite order.
struct Reverse;
fn reversed(op: &OpType) -> bool {
    op.dataflow_signature().is_some_and(|s| s.input_count() > 1 && s.input() == s.output() && s.input().iter().all(|t| !t.copyable() && *t == s.input()[0]))
}
impl<H: HugrView> ResourceFlow<H> for Reverse {
    fn map_resources(&self, node: H::Node, h: &H, inputs: &[Option<ResourceId>]) -> Result<Vec<Option<ResourceId>>, UnsupportedOp> {
        if reversed(h.get_optype(node)) {
            Ok(inputs.iter().rev().copied().collect())
        } else {
            DefaultResourceFlow.map_resources(node, h, inputs)
        }
    }
}

fn case(ctx: &mut Ctx) {
    let rng = &mut ctx.rng.fork();
    let Some(mut h) = some_region(ctx, rng) else { return };
    if rng.chance(0.3) {
        order(&mut h, rng);
    }
    let h = h;
    let art = dump(&h);
    let art = &art;
    let ep = h.entrypoint();
    let circ = match Circuit::try_new(h.clone()) {
        Ok(c) => c,
        Err(_) => return ctx.count("not a circuit", 1),
    };
    let whole = match catch(|| circ.subgraph()) {
        Ok(r) => r,
        Err(m) => return ctx.violation(format!("subgraph panics {}", norm(&m.msg)), m.msg, art),
    };
    if rng.chance(0.1) {
        // the constructor for circuits agrees with the one for subgraphs
        match (catch(|| ResourceScope::try_from_circuit_ref(&circ).map(|s| s.nodes().len())), &whole) {
            (Err(m), _) => return ctx.violation(format!("scope panics {}", norm(&m.msg)), m.msg, art),
            (Ok(Ok(0)), Err(InvalidSubgraph::EmptySubgraph)) => return ctx.count("empty", 1),
            (Ok(Ok(n)), Ok(w)) if n == w.nodes().len() => {}
            (Ok(Err(_)), Err(_)) => {}
            (Ok(a), b) => return ctx.violation("try_from_circuit", format!("{a:?} for {b:?}"), art),
        }
    }
    let whole = match whole {
        Ok(w) => w,
        Err(e) => return ctx.count(format!("no subgraph: {}", norm(&e.to_string())), 1),
    };
    let mut sub = whole;
    if rng.chance(0.4) {
        // a convex part
        for _ in 0..8 {
            let nodes = some_part(rng, &h, sub.nodes());
            match catch(|| SiblingSubgraph::try_from_nodes(nodes.clone(), &h)) {
                Ok(Ok(s)) => {
                    sub = s;
                    ctx.count("parts", 1);
                    break;
                }
                _ => continue,
            }
        }
    }
    let nodes: Vec<Node> = sub.nodes().iter().copied().filter(|n| h.get_optype(*n).dataflow_signature().is_some()).collect();
    let inside: BTreeSet<Node> = nodes.iter().copied().collect();
    let rev = rng.chance(0.2);
    let scope = match catch(|| {
        if rev {
            ResourceScope::with_config(&h, sub.clone(), &ResourceScopeConfig::from_iter([Reverse]))
        } else {
            ResourceScope::new(&h, sub.clone())
        }
    }) {
        Ok(s) => s,
        Err(m) => return ctx.violation(format!("scope panics {}", norm(&m.msg)), m.msg, art),
    };
    if scope.nodes() != sub.nodes() || scope.is_empty() {
        return ctx.violation("nodes", "scope lists other nodes than the subgraph", art);
    }
    // model: origins of linear values
    let m = Model::new(&h, &nodes, &inside, rev);
    let r = catch(|| check_scope(ctx, &h, &sub, &scope, &m));
    match r {
        Err(e) => return ctx.violation(format!("queries panic {}", norm(&e.msg)), e.msg, art),
        Ok(Err(e)) => return ctx.violation(format!("scope: {}", norm(&e)), e, art),
        Ok(Ok(())) => {}
    }
    ctx.eval();
    let longest = m.paths.values().map(|p| p.len()).max().unwrap_or(0);
    if longest >= 3 {
        ctx.nontrivial(art);
    }
    ctx.count("resources", m.paths.len() as u64);
    ctx.count("operations", nodes.len() as u64);
    #[cfg(verif_hooks)]
    if !m.paths.is_empty() {
        for _ in 0..6 {
            match catch(|| intervals(ctx, rng, &scope, &m, &nodes)) {
                Err(e) => return ctx.violation(format!("interval panics {}", norm(&e.msg)), e.msg, art),
                Ok(Err(e)) => return ctx.violation(format!("interval: {}", norm(&e)), e, art),
                Ok(Ok(())) => {}
            }
        }
    }
    let outs: Vec<(Node, OutgoingPort)> = nodes
        .iter()
        .chain(h.get_io(ep).iter().map(|io| &io[0]))
        .flat_map(|n| h.out_value_types(*n).filter(|(_, t)| t.copyable()).map(|(p, _)| (*n, p)).collect::<Vec<_>>())
        .collect();
    if !outs.is_empty() {
        for _ in 0..6 {
            let o = *rng.pick(&outs);
            match catch(|| expression(ctx, rng, &h, &scope, &nodes, o)) {
                Err(e) => return ctx.violation(format!("expression panics {}", norm(&e.msg)), format!("{o:?} {}", e.msg), art),
                Ok(Err(e)) => return ctx.violation(format!("expression: {}", norm(&e)), format!("{o:?} {e}"), art),
                Ok(Ok(())) => {}
            }
        }
        for _ in 0..3 {
            match catch(|| reach(ctx, rng, &h, &scope, &nodes)) {
                Err(e) => return ctx.violation(format!("reachability panics {}", norm(&e.msg)), e.msg, art),
                Ok(Err(e)) => return ctx.violation(format!("reachability: {}", norm(&e)), e, art),
                Ok(Ok(())) => {}
            }
        }
    }
}

/// Add a few order edges between operations of the region.
fn order(h: &mut Hugr, rng: &mut Rng) {
    let ep = h.entrypoint();
    let Some([i, o]) = h.get_io(ep) else { return };
    let ns: Vec<Node> = h.children(ep).filter(|n| *n != i && *n != o && h.get_optype(*n).dataflow_signature().is_some()).collect();
    if ns.len() < 2 {
        return;
    }
    for _ in 0..rng.range(1, 6) {
        let (a, b) = (*rng.pick(&ns), *rng.pick(&ns));
        let mut todo = vec![b];
        let mut seen = HashSet::new();
        while let Some(n) = todo.pop() {
            if seen.insert(n) {
                todo.extend(h.output_neighbours(n));
            }
        }
        let (op, ip) = (h.get_optype(a).other_output_port(), h.get_optype(b).other_input_port());
        if !seen.contains(&a) && op.is_some() && ip.is_some() && !h.output_neighbours(a).any(|x| x == b) {
            h.add_other_edge(a, b);
        }
    }
}

/// nodes within a few steps of a random one, or a range of the node list
fn some_part(rng: &mut Rng, h: &Hugr, nodes: &[Node]) -> Vec<Node> {
    let all: BTreeSet<Node> = nodes.iter().copied().collect();
    let mut part = BTreeSet::from([*rng.pick(nodes)]);
    let n = rng.range(1, 12);
    for _ in 0..n * 3 {
        if part.len() >= n {
            break;
        }
        let v: Vec<Node> = part.iter().copied().collect();
        let x = *rng.pick(&v);
        let around: Vec<Node> = if rng.chance(0.5) { h.output_neighbours(x).collect() } else { h.input_neighbours(x).collect() };
        let around: Vec<Node> = around.into_iter().filter(|n| all.contains(n)).collect();
        if !around.is_empty() {
            part.insert(*rng.pick(&around));
        }
    }
    part.into_iter().collect()
}

struct Model {
    /// the resource of every linear port, named by the port where it begins
    of: HashMap<(Node, Port), (Node, Port)>,
    /// operations of each resource, first one first
    paths: BTreeMap<(Node, Port), Vec<Node>>,
}
impl Model {
    fn new(h: &Hugr, nodes: &[Node], inside: &BTreeSet<Node>, rev: bool) -> Model {
        // where does the value at this incoming port come from
        let mut m = Model { of: HashMap::new(), paths: BTreeMap::new() };
        let flow = |n: Node, dir: Direction, i: usize| -> Option<usize> {
            let op = h.get_optype(n);
            let s = op.dataflow_signature()?;
            if rev && reversed(op) {
                return Some(s.input_count() - 1 - i);
            }
            let _ = dir;
            let k = s.input_count().max(s.output_count());
            let keeps = (0..k).all(|j| match (s.input().get(j), s.output().get(j)) {
                (Some(a), Some(b)) => (a.copyable() && b.copyable()) || (!a.copyable() && a == b),
                (Some(a), None) | (None, Some(a)) => a.copyable(),
                _ => true,
            });
            keeps.then_some(i)
        };
        // begin at every linear port without a predecessor and follow the wire
        for &n in nodes {
            let s = h.get_optype(n).dataflow_signature().unwrap().into_owned();
            let mut starts: Vec<(Node, Port)> = Vec::new();
            for (i, t) in s.input().iter().enumerate() {
                let p = IncomingPort::from(i);
                if !t.copyable() && h.single_linked_output(n, p).is_none_or(|(a, _)| !inside.contains(&a)) {
                    starts.push((n, p.into()));
                }
            }
            for (i, t) in s.output().iter().enumerate() {
                if !t.copyable() && flow(n, Direction::Outgoing, i).is_none() {
                    starts.push((n, OutgoingPort::from(i).into()));
                }
            }
            for st in starts {
                let mut at = st;
                let mut path = vec![n];
                loop {
                    m.of.insert(at, st);
                    let next = match at.1.as_directed() {
                        itertools::Either::Left(p) => flow(at.0, Direction::Incoming, p.index()).map(|i| (at.0, OutgoingPort::from(i).into())),
                        itertools::Either::Right(p) => h.single_linked_input(at.0, p).filter(|(a, _)| inside.contains(a)).map(|(a, q)| (a, q.into())),
                    };
                    let Some(next) = next else { break };
                    if next.0 != at.0 {
                        path.push(next.0);
                    }
                    at = next;
                }
                m.paths.insert(st, path);
            }
        }
        m
    }
}

macro_rules! want {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn check_scope(ctx: &mut Ctx, h: &Hugr, sub: &SiblingSubgraph, scope: &ResourceScope<&Hugr>, m: &Model) -> Result<(), String> {
    let mut id: BTreeMap<(Node, Port), ResourceId> = BTreeMap::new();
    let mut back: BTreeMap<ResourceId, (Node, Port)> = BTreeMap::new();
    let mut listed: Vec<ResourceId> = Vec::new();
    for &n in sub.nodes() {
        let op = h.get_optype(n);
        let Some(s) = op.dataflow_signature() else {
            want!(scope.get_position(n).is_none(), "position of a static operation");
            continue;
        };
        want!(scope.get_position(n).is_some(), "no position for {op}");
        let mut all: BTreeSet<ResourceId> = BTreeSet::new();
        for dir in Direction::BOTH {
            let tys = if dir == Direction::Incoming { s.input() } else { s.output() };
            let units = scope.get_circuit_units_slice(n, dir).ok_or(format!("no units for {op}"))?;
            want!(units.len() == tys.len(), "{} units for {} ports of {op}", units.len(), tys.len());
            let mut res = Vec::new();
            let mut wires = Vec::new();
            for (i, t) in tys.iter().enumerate() {
                let p = Port::new(dir, i);
                let u = scope.get_circuit_unit(n, p);
                want!(u == Some(units[i]), "unit of a port differs from the slice");
                match units[i] {
                    CircuitUnit::Copyable(w) => {
                        want!(t.copyable(), "linear port of {op} tracked as a copyable value");
                        let src = match p.as_directed() {
                            itertools::Either::Left(q) => h.single_linked_output(n, q).map(|(a, b)| Wire::new(a, b)),
                            itertools::Either::Right(q) => Some(Wire::new(n, q)),
                        };
                        want!(Some(w) == src, "copyable wire {w:?} of {op} should be {src:?}");
                        want!(scope.get_resource_id(n, p).is_none(), "resource id of a copyable port");
                        wires.push(w);
                    }
                    CircuitUnit::Resource(r) => {
                        want!(!t.copyable(), "copyable port of {op} tracked as a resource");
                        want!(scope.get_resource_id(n, p) == Some(r), "resource id differs from the unit");
                        want!(!res.contains(&r), "resource twice at {op}");
                        let st = m.of.get(&(n, p)).ok_or(format!("resource at an unmodelled port of {op}"))?;
                        let old = id.insert(*st, r);
                        want!(old.is_none_or(|o| o == r), "resource changes along its path at {op}");
                        let old = back.insert(r, *st);
                        want!(old.is_none_or(|o| o == *st), "two values share a resource at {op}");
                        want!(scope.get_port(n, r, dir) == Some(p), "get_port of {op}");
                        res.push(r);
                        all.insert(r);
                    }
                }
            }
            want!(scope.get_resources(n, dir).collect::<Vec<_>>() == res, "get_resources of {op}");
            want!(scope.get_copyable_wires(n, dir).collect::<Vec<_>>() == wires, "get_copyable_wires of {op}");
        }
        want!(scope.get_all_resources(n) == all.iter().copied().collect::<Vec<_>>(), "get_all_resources of {op}");
        listed.extend(all);
    }
    listed.sort();
    listed.dedup();
    want!(scope.resources_iter().collect::<Vec<_>>() == listed, "resources_iter");
    want!(id.len() == m.paths.len(), "{} resources instead of {}", id.len(), m.paths.len());
    // inputs first, in their order
    let ins: Vec<ResourceId> = sub.incoming_ports().iter().flatten().filter_map(|(n, p)| id.get(&(*n, Port::from(*p))).copied()).collect();
    want!(ins.windows(2).all(|w| w[0] < w[1]), "resources of the inputs are not in order");
    want!(listed.starts_with(&ins), "resources of the inputs do not come first");
    for (st, path) in &m.paths {
        let r = id[st];
        for (i, &n) in path.iter().enumerate() {
            let fwd: Vec<Node> = scope.resource_path_iter(r, n, Direction::Outgoing).collect();
            want!(fwd == path[i..], "path forwards {fwd:?} should be {:?}", &path[i..]);
            let bwd: Vec<Node> = scope.resource_path_iter(r, n, Direction::Incoming).collect();
            want!(bwd.iter().rev().eq(&path[..=i]), "path backwards {bwd:?} should reverse {:?}", &path[..=i]);
            let created = i == 0 && st.1.direction() == Direction::Outgoing;
            want!(scope.is_resource_start(n, r) == created, "is_resource_start");
            ctx.count("path steps", 1);
        }
    }
    for &n in sub.nodes() {
        let Some(p) = scope.get_position(n) else { continue };
        for x in h.output_neighbours(n) {
            if !sub.nodes().contains(&x) {
                continue;
            }
            if let Some(q) = scope.get_position(x) {
                let value = h.node_outputs(n).any(|o| h.linked_inputs(n, o).any(|(a, _)| a == x) && matches!(h.get_optype(n).port_kind(o), Some(EdgeKind::Value(_))));
                // (positions do not follow order edges)
                want!(p < q || !value, "position {p:?} before {q:?} along a value edge");
                ctx.count(if value { "value edges" } else { "order edges" }, 1);
            }
        }
    }
    Ok(())
}

#[cfg(verif_hooks)]
fn intervals(ctx: &mut Ctx, rng: &mut Rng, scope: &ResourceScope<&Hugr>, m: &Model, nodes: &[Node]) -> Result<(), String> {
    let h = scope.hugr();
    let keys: Vec<_> = m.paths.keys().collect();
    let mut st = **rng.pick(&keys);
    for _ in 0..2 {
        let o = **rng.pick(&keys);
        if m.paths[&o].len() > m.paths[&st].len() {
            st = o;
        }
    }
    let path = &m.paths[&st];
    let r = scope.get_resource_id(st.0, st.1).ok_or("no id")?;
    let at = |n: Node| path.iter().position(|x| *x == n);
    // creation
    let any = |rng: &mut Rng| if rng.chance(0.75) { *rng.pick(path) } else { *rng.pick(nodes) };
    let (a, b) = (any(rng), any(rng));
    match (at(a), at(b), Interval::try_new(r, a, b, scope)) {
        (Some(i), Some(j), Ok(iv)) if i <= j => same(scope, m, st, r, &iv, i, j)?,
        (Some(i), Some(j), Err(_)) if i > j => ctx.count("rejected ranges", 1),
        (None, _, Err(_)) | (_, None, Err(_)) => ctx.count("rejected ranges", 1),
        (i, j, x) => return Err(format!("try_new of {i:?} to {j:?} gives {}", if x.is_ok() { "an interval" } else { "an error" })),
    }
    let a = any(rng);
    match (at(a), Interval::new_singleton(r, a, scope)) {
        (Some(i), Some(iv)) => same(scope, m, st, r, &iv, i, i)?,
        (None, None) => {}
        (i, x) => return Err(format!("new_singleton at {i:?} gives {}", x.is_some())),
    }
    // growth
    let i0 = rng.below(path.len());
    let (mut i, mut j) = (i0, i0 + rng.below((path.len() - i0).min(4)));
    let mut iv = Interval::try_new(r, path[i], path[j], scope).map_err(|e| format!("{e}"))?;
    for _ in 0..rng.range(2, 10) {
        let x = match rng.below(10) {
            0..=2 if i > 0 => path[i - 1],
            3..=5 if j + 1 < path.len() => path[j + 1],
            6 => *rng.pick(path),
            7 => path[rng.range(i, j)],
            _ => *rng.pick(nodes),
        };
        let before = iv;
        let got = iv.try_extend(x, scope);
        let want = match at(x) {
            Some(k) if k >= i && k <= j => Some(None),
            Some(k) if k + 1 == i => Some(Some(Direction::Incoming)),
            Some(k) if k == j + 1 => Some(Some(Direction::Outgoing)),
            _ => None,
        };
        match (&got, &want) {
            (Ok(a), Some(b)) if a == b => {
                match b {
                    Some(Direction::Incoming) => i -= 1,
                    Some(Direction::Outgoing) => j += 1,
                    None => {}
                }
                ctx.count("extensions", 1);
            }
            (Err(_), None) => {
                want!(before == iv, "failed extension changes the interval");
                ctx.count("rejected extensions", 1);
            }
            _ => return Err(format!("try_extend {} gives {:?} instead of {want:?}", if at(x).is_some() { "on the path" } else { "off the path" }, got.map_err(|_| "error"))),
        }
        same(scope, m, st, r, &iv, i, j)?;
    }
    let _ = h;
    Ok(())
}

#[cfg(verif_hooks)]
fn same(scope: &ResourceScope<&Hugr>, m: &Model, st: (Node, Port), r: ResourceId, iv: &Interval<Node>, i: usize, j: usize) -> Result<(), String> {
    let path = &m.paths[&st];
    want!(iv.start_node() == path[i] && iv.end_node() == path[j], "ends of the interval");
    want!(iv.resource_id(scope) == r, "resource of the interval");
    let got: Vec<Node> = scope.nodes_in_interval(*iv).collect();
    want!(got == path[i..=j], "nodes of the interval");
    for (dir, n) in [(Direction::Incoming, path[i]), (Direction::Outgoing, path[j])] {
        let b = iv.boundary_port(dir, scope);
        let has = m.of.iter().find(|(k, v)| k.0 == n && k.1.direction() == dir && **v == st).map(|(k, _)| *k);
        want!(b == has, "{dir:?} boundary {b:?} should be {has:?}");
        let c = if dir == Direction::Incoming {
            iv.incoming_boundary_port(scope).map(|(n, p)| (n, Port::from(p)))
        } else {
            iv.outgoing_boundary_port(scope).map(|(n, p)| (n, Port::from(p)))
        };
        want!(b == c, "directed boundary port");
    }
    Ok(())
}

fn reach(ctx: &mut Ctx, rng: &mut Rng, h: &Hugr, scope: &ResourceScope<&Hugr>, nodes: &[Node]) -> Result<(), String> {
    let mut starts = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..rng.range(1, 2) {
        let n = *rng.pick(nodes);
        let k = h.get_optype(n).dataflow_signature().unwrap().output_count();
        if k > 0 {
            starts.push((n, OutgoingPort::from(rng.below(k))));
        }
        let late: Vec<Node> = nodes.iter().copied().filter(|n| h.get_optype(*n).other_input_port().is_some_and(|p| h.is_linked(*n, p))).collect();
        let n = if !late.is_empty() && rng.chance(0.5) { *rng.pick(&late) } else { *rng.pick(nodes) };
        let k = h.get_optype(n).dataflow_signature().unwrap().input_count();
        if k > 0 {
            ends.push((n, IncomingPort::from(rng.below(k))));
        }
    }
    let inside: HashSet<Node> = nodes.iter().copied().collect();
    let stop: HashSet<Node> = ends.iter().map(|e| e.0).collect();
    let mut todo: Vec<Node> = starts.iter().flat_map(|(n, p)| h.linked_inputs(*n, *p).map(|x| x.0)).collect();
    let mut seen = HashSet::new();
    let mut hit = false;
    while let Some(n) = todo.pop() {
        if !inside.contains(&n) || !seen.insert(n) {
            continue;
        }
        hit |= stop.contains(&n);
        todo.extend(h.output_neighbours(n));
    }
    let got = scope.any_reachable_from(starts.iter().copied(), ends.iter().copied());
    want!(got == hit, "any_reachable_from says {got}");
    ctx.count(if hit { "reachable" } else { "unreachable" }, 1);
    Ok(())
}

fn expression(ctx: &mut Ctx, rng: &mut Rng, h: &Hugr, scope: &ResourceScope<&Hugr>, nodes: &[Node], out: (Node, OutgoingPort)) -> Result<(), String> {
    let inside: HashSet<Node> = nodes.iter().copied().collect();
    let pure = |n: Node| Direction::BOTH.iter().all(|d| h.value_types(n, *d).all(|(_, t)| t.copyable()));
    let mut allowed: IndexSet<(Node, IncomingPort)> = IndexSet::new();
    let mut excluded: IndexSet<Node> = IndexSet::new();
    // nodes in the past of the value
    let mut past = vec![out.0];
    let mut seen = HashSet::new();
    let mut k = 0;
    while k < past.len() && k < 60 {
        let n = past[k];
        k += 1;
        for p in h.in_value_types(n).map(|x| x.0).collect::<Vec<_>>() {
            if let Some((a, _)) = h.single_linked_output(n, p) {
                if inside.contains(&a) && seen.insert(a) {
                    past.push(a);
                }
            }
        }
    }
    if rng.chance(0.4) {
        for _ in 0..rng.range(1, 3) {
            let n = *rng.pick(&past);
            let ps: Vec<IncomingPort> = h.in_value_types(n).map(|x| x.0).collect();
            if !ps.is_empty() {
                allowed.insert((n, *rng.pick(&ps)));
            }
        }
    }
    if rng.chance(0.4) {
        for _ in 0..rng.range(1, 3) {
            excluded.insert(if rng.chance(0.8) { *rng.pick(&past) } else { *rng.pick(nodes) });
        }
        if rng.chance(0.8) {
            excluded.shift_remove(&out.0);
        }
    }
    let adm = |n: Node| inside.contains(&n) && pure(n) && !excluded.contains(&n);
    let res = CopyableExpr::try_new(out, allowed.clone(), excluded.clone(), scope);
    if !adm(out.0) {
        return match res {
            Ok(CopyableExpr::Wire(w)) if w == Wire::new(out.0, out.1) => {
                ctx.count("trivial expressions", 1);
                Ok(())
            }
            x => Err(format!("trivial expression gives {}", kind(&x))),
        };
    }
    let mut set = BTreeSet::new();
    let mut bounds: BTreeSet<(Node, IncomingPort)> = BTreeSet::new();
    let mut todo = vec![out.0];
    while let Some(n) = todo.pop() {
        if !set.insert(n) {
            continue;
        }
        for p in h.in_value_types(n).map(|x| x.0).collect::<Vec<_>>() {
            let (a, _) = h.single_linked_output(n, p).ok_or("unconnected")?;
            if allowed.contains(&(n, p)) || !adm(a) {
                bounds.insert((n, p));
            } else {
                todo.push(a);
            }
        }
    }
    // leaves the set and comes back
    let mut back = bounds.iter().any(|(n, p)| set.contains(&h.single_linked_output(*n, *p).unwrap().0));
    let mut todo: Vec<Node> = set.iter().flat_map(|n| h.output_neighbours(*n)).filter(|n| !set.contains(n)).collect();
    let mut seen = HashSet::new();
    while let Some(n) = todo.pop() {
        if set.contains(&n) {
            back = true;
            break;
        }
        if h.get_parent(n) == h.get_parent(out.0) && seen.insert(n) {
            todo.extend(h.output_neighbours(n));
        }
    }
    let e = match res {
        Err(InvalidSubgraph::NotConvex) if back => {
            ctx.count("not convex", 1);
            return Ok(());
        }
        Ok(e) if !back => e,
        x => return Err(format!("{} expression gives {}", if back { "non-convex" } else { "convex" }, kind(&x))),
    };
    let CopyableExpr::Composite { subgraph } = &e else {
        return Err("expression is a wire".into());
    };
    want!(subgraph.nodes().iter().copied().collect::<BTreeSet<_>>() == set && subgraph.nodes().len() == set.len(), "nodes of the expression");
    want!(e.output() == out, "output {:?} of the expression", e.output());
    want!(subgraph.incoming_ports().iter().all(|p| p.len() == 1), "shared inputs");
    let ins: Vec<(Node, IncomingPort)> = subgraph.incoming_ports().iter().flatten().copied().collect();
    want!(ins.iter().copied().collect::<BTreeSet<_>>() == bounds && ins.len() == bounds.len(), "inputs of the expression");
    let rank = |x: &(Node, IncomingPort)| {
        let src = h.single_linked_output(x.0, x.1).unwrap().0;
        match (allowed.get_index_of(x), excluded.get_index_of(&src)) {
            (Some(i), _) => (0, i),
            (_, Some(i)) => (1, i),
            _ => (2, 0),
        }
    };
    want!(ins.windows(2).all(|w| rank(&w[0]) <= rank(&w[1])), "order of the inputs");
    // every value used elsewhere is an output
    let outs: BTreeSet<(Node, OutgoingPort)> = subgraph.outgoing_ports().iter().copied().collect();
    for &n in &set {
        for (p, _) in h.out_value_types(n) {
            let used = h.linked_inputs(n, p).any(|(a, q)| !set.contains(&a) || bounds.contains(&(a, q)));
            want!(!used || outs.contains(&(n, p)), "missing output of the expression");
            want!(used || (n, p) == out || !outs.contains(&(n, p)), "unused output of the expression");
        }
    }
    if h.linked_inputs(out.0, out.1).next().is_some() && !bounds.is_empty() && !set.iter().any(|n| h.get_optype(*n).is_load_constant())
        && !set.iter().any(|n| h.get_optype(*n).other_output_port().is_some_and(|p| h.is_linked(*n, p)) || h.get_optype(*n).other_input_port().is_some_and(|p| h.is_linked(*n, p)))
    {
        // (constants are left out of the node set, and order edges pull more nodes into it)
        if let Err(x) = subgraph.validate(h, ValidationMode::CheckConvexity) {
            return Err(format!("invalid expression: {x}"));
        }
    }
    ctx.count("expressions", 1);
    if set.len() > 2 {
        ctx.count("larger expressions", 1);
    }
    Ok(())
}

fn kind<E: std::fmt::Display>(r: &Result<CopyableExpr<Node>, E>) -> String {
    match r {
        Ok(CopyableExpr::Wire(_)) => "a wire".into(),
        Ok(_) => "a composite".into(),
        Err(e) => norm(&e.to_string()),
    }
}
