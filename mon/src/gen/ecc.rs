//! Random sets of classes of equivalent circuits, found by running circuits.
use super::circ::{self, Ang, Circ, Op};
use crate::interp::{self, Outcomes};
use crate::rng::Rng;
use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr::{Hugr, HugrView, Wire};
use tket::TketOp;

pub struct EccSet {
    pub gates: Vec<TketOp>,
    pub classes: Vec<Vec<Circ>>,
}

/// The circuit as a HUGR rooted at a DFG.
pub fn dfg(c: &Circ) -> Hugr {
    let mut f = DFGBuilder::new(c.signature()).unwrap();
    let iw: Vec<Wire> = f.input_wires().collect();
    let mut st = circ::B { q: (0..c.nq).map(|i| (i, iw[i])).collect(), b: Default::default(), rot: iw[c.nq..].to_vec() };
    circ::emit(&mut f, &mut st, &c.ops);
    let outs: Vec<Wire> = c.out.iter().map(|q| st.q[q]).collect();
    f.finish_hugr_with_outputs(outs).unwrap()
}

pub const PALETTE: &[TketOp] = &[
    TketOp::H, TketOp::CX, TketOp::CX, TketOp::CY, TketOp::CZ, TketOp::CRz, TketOp::T, TketOp::Tdg, TketOp::S, TketOp::Sdg,
    TketOp::X, TketOp::Y, TketOp::Z, TketOp::Rx, TketOp::Ry, TketOp::Rz, TketOp::Rz, TketOp::Toffoli, TketOp::V, TketOp::Vdg,
];

fn ang(r: &mut Rng, nrot: usize, consts: bool) -> Ang {
    if nrot > 0 && (!consts || r.chance(0.7)) {
        let i = Ang::In(r.below(nrot));
        return if nrot > 1 && r.chance(0.3) { Ang::Sum(Box::new(i), Box::new(Ang::In(r.below(nrot)))) } else { i };
    }
    Ang::C((r.below(9) as f64 - 4.) / 4.)
}

pub fn small(r: &mut Rng, gates: &[TketOp], nq: usize, nrot: usize, len: usize, consts: bool, perm: bool) -> Circ {
    let mut ops = vec![];
    let live: Vec<usize> = (0..nq).collect();
    let cfg = circ::Cfg::pure((nq, nq), (0, 0), gates);
    for _ in 0..len {
        if perm && nq > 1 && r.chance(0.1) {
            let d = r.distinct(nq, 2);
            ops.push(Op::Swap(d[0], d[1]));
        } else if let Some(Op::G(g, qs, a)) = circ::rand_gate(r, &cfg, &live) {
            ops.push(Op::G(g, qs, a.map(|_| ang(r, nrot, consts))));
        }
    }
    Circ { nq, nrot, ops, out: live, bools: vec![] }
}

/// Operations that equivalence class files can name.
pub const NAMED: &[(TketOp, &str)] = &[
    (TketOp::H, "h"), (TketOp::CX, "cx"), (TketOp::T, "t"), (TketOp::S, "s"), (TketOp::V, "v"), (TketOp::X, "x"), (TketOp::Y, "y"),
    (TketOp::Z, "z"), (TketOp::Tdg, "tdg"), (TketOp::Sdg, "sdg"), (TketOp::Vdg, "vdg"), (TketOp::Rz, "rz"),
];

/// The classes in the file format of Quartz.
pub fn to_json(classes: &[Vec<Circ>]) -> String {
    fn param(a: &Ang, np: &mut usize, out: &mut Vec<serde_json::Value>) -> String {
        match a {
            Ang::In(i) => format!("P{i}"),
            Ang::Sum(x, y) => {
                let (x, y) = (param(x, np, out), param(y, np, out));
                let p = format!("P{np}");
                *np += 1;
                out.push(serde_json::json!(["add", [p], [x, y]]));
                p
            }
            _ => panic!("constant angle"),
        }
    }
    let mut map = serde_json::Map::new();
    for (k, class) in classes.iter().enumerate() {
        let mut v = vec![];
        for c in class {
            let mut np = c.nrot;
            let mut ops = vec![];
            for o in &c.ops {
                let Op::G(g, qs, a) = o else { panic!("only gates") };
                let name = NAMED.iter().find(|n| n.0 == *g).unwrap().1;
                let qs: Vec<String> = qs.iter().map(|q| format!("Q{q}")).collect();
                let mut ins = qs.clone();
                if let Some(a) = a {
                    ins.push(param(a, &mut np, &mut ops));
                }
                ops.push(serde_json::json!([name, qs, ins]));
            }
            v.push(serde_json::json!([[c.nq, c.nrot, np, ops.len(), [format!("id{k}")], [0.1, 0.2]], ops]));
        }
        map.insert(format!("{k}_{}", class.len()), v.into());
    }
    serde_json::json!([[], map]).to_string()
}

pub fn generate(r: &mut Rng, samples: usize) -> EccSet {
    generate_from(r, samples, false)
}

/// With `named`, only circuits that can be written to a file.
pub fn generate_from(r: &mut Rng, samples: usize, named: bool) -> EccSet {
    let wide = r.chance(0.2);
    let pal = if wide { &[TketOp::CX, TketOp::CX, TketOp::CX, TketOp::CZ, TketOp::CY, TketOp::X][..] } else { PALETTE };
    let gates: Vec<TketOp> = (0..r.range(2, 5)).map(|_| *r.pick(pal)).collect();
    let gates = if named { (0..r.range(2, 5)).map(|_| r.pick(NAMED).0).collect() } else { gates };
    let nq = if wide { 3 } else { r.range(1, 3) };
    let rot = gates.iter().any(|g| circ::has_angle(*g));
    let nrot = if rot { r.below(3) } else { 0 };
    let nrot = if named && rot { nrot.max(1) } else { nrot };
    let consts = rot && (nrot == 0 || r.chance(0.4)) && !named;
    let perm = r.chance(0.2) && !named;
    let maxlen = r.range(2, 4);
    let seeds = [r.next(), r.next()];
    let cfg = interp::Cfg::default();
    let mut classes: Vec<(Vec<Outcomes>, Vec<Circ>)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for _ in 0..samples {
        let len = r.range(0, maxlen);
        let c = small(r, &gates, nq, nrot, len, consts, perm);
        if !seen.insert(c.text()) {
            continue;
        }
        let h = c.hugr();
        let o: Vec<Outcomes> = seeds.iter().filter_map(|s| interp::run(&h, h.entrypoint(), *s, &cfg).ok()).collect();
        if o.len() < 2 {
            continue;
        }
        match classes.iter_mut().find(|(k, _)| k.iter().zip(&o).all(|(a, b)| interp::diff(a, b).is_none())) {
            Some((_, v)) => {
                if v.len() < 8 {
                    v.push(c)
                }
            }
            None => classes.push((o, vec![c])),
        }
    }
    let mut classes: Vec<Vec<Circ>> = classes.into_iter().map(|c| c.1).filter(|c| c.len() > 1).collect();
    r.shuffle(&mut classes);
    EccSet { gates, classes }
}

/// Two matches, each fine alone, that turn into a cycle when both are replaced.
pub fn interlocked(r: &mut Rng) -> (EccSet, Circ) {
    use TketOp::*;
    let g2 = *r.pick(&[CX, CX, CZ, CY]);
    let g1 = *r.pick(&[X, Y, Z, H]);
    let pads = r.range(0, 2);
    let g = |g: TketOp, qs: &[usize]| Op::G(g, qs.to_vec(), None);
    let member = |q: [usize; 3]| {
        let mut v = vec![g(g2, &[q[0], q[1]])];
        (0..2 * pads).for_each(|_| v.push(g(g1, &[q[1]])));
        v.push(g(g2, &[q[0], q[2]]));
        v
    };
    let c = |nq: usize, ops| Circ { nq, nrot: 0, ops, out: (0..nq).collect(), bools: vec![] };
    let class = vec![c(3, member([0, 1, 2])), c(3, vec![g(g2, &[0, 2]), g(g2, &[0, 1])])];
    // a = 0, b = 1, d = 2, x = 3
    let (m1, m2) = (member([0, 1, 3]), member([2, 3, 1]));
    let cut = m1.len() - 1;
    let mut ops = [&m1[..cut], &m2[..cut], &m1[cut..], &m2[cut..]].concat();
    let cfg = circ::Cfg::pure((4, 4), (0, 0), &[g2, g1]);
    for _ in 0..r.below(4) {
        let at = if r.chance(0.5) { 0 } else { ops.len() };
        ops.extend(circ::rand_gate(r, &cfg, &[0, 1, 2, 3]));
        let o = ops.pop().unwrap();
        ops.insert(at, o);
    }
    (EccSet { gates: vec![g1, g2], classes: vec![class] }, c(4, ops))
}

impl EccSet {
    /// Insert random class members into a circuit, on live qubits.
    pub fn splice(&self, r: &mut Rng, host: &mut Circ, times: usize) {
        if self.classes.is_empty() {
            return;
        }
        for _ in 0..times {
            let cl = r.pick(&self.classes);
            let m = r.pick(cl).clone();
            let at = r.below(host.ops.len() + 1);
            let mut live: Vec<usize> = (0..host.nq).collect();
            for o in &host.ops[..at] {
                match o {
                    Op::MeasFree(q, _) | Op::Free(q) => live.retain(|x| x != q),
                    Op::Alloc(q) | Op::TryAlloc(q) => live.push(*q),
                    _ => {}
                }
            }
            if live.len() < m.nq {
                continue;
            }
            let map: Vec<usize> = r.distinct(live.len(), m.nq).into_iter().map(|i| live[i]).collect();
            let rots: Vec<Ang> = (0..m.nrot)
                .map(|_| if host.nrot > 0 && r.chance(0.6) { Ang::In(r.below(host.nrot)) } else { Ang::C((r.below(9) as f64 - 4.) / 4.) })
                .collect();
            fn sub(a: &Ang, rots: &[Ang]) -> Ang {
                match a {
                    Ang::In(i) => rots[*i].clone(),
                    Ang::Sum(x, y) => Ang::Sum(Box::new(sub(x, rots)), Box::new(sub(y, rots))),
                    x => x.clone(),
                }
            }
            let ops: Vec<Op> = m
                .ops
                .iter()
                .map(|o| match o {
                    Op::G(g, qs, a) => Op::G(*g, qs.iter().map(|q| map[*q]).collect(), a.as_ref().map(|a| sub(a, &rots))),
                    Op::Swap(a, b) => Op::Swap(map[*a], map[*b]),
                    _ => unreachable!(),
                })
                .collect();
            host.ops.splice(at..at, ops);
        }
    }

    /// Insert the operations of two members, interleaved on overlapping qubits.
    pub fn interleave(&self, r: &mut Rng, host: &mut Circ) {
        if self.classes.is_empty() || !host.is_pure() {
            return;
        }
        let mut lanes: Vec<std::collections::VecDeque<Op>> = vec![];
        for _ in 0..2 {
            let mut one = Circ { ops: vec![], ..host.clone() };
            self.splice(r, &mut one, 1);
            lanes.push(one.ops.into());
        }
        let at = r.below(host.ops.len() + 1);
        let mut ops = vec![];
        while lanes.iter().any(|l| !l.is_empty()) {
            let k = r.below(2);
            ops.extend(lanes[k].pop_front());
        }
        host.ops.splice(at..at, ops);
    }

    /// A host circuit over the same gates.
    pub fn host(&self, r: &mut Rng, len: usize) -> Circ {
        let cfg = match r.below(4) {
            0 => circ::Cfg { rot_inputs: 2, angle_den: 0, fancy_angles: true, ..circ::Cfg::pure((1, 5), (0, len), circ::ALLG) },
            1 | 2 => circ::Cfg { rot_inputs: 2, ..circ::Cfg::pure((1, 4), (0, len), &self.gates) },
            _ => circ::Cfg::dynamic((1, 4), (0, len), &self.gates),
        };
        let mut c = circ::generate(r, &cfg);
        let n = r.range(0, 4);
        self.splice(r, &mut c, n);
        for _ in 0..r.below(4) {
            self.interleave(r, &mut c);
        }
        c
    }
}

/// Let equal constants be loaded once, or be loaded from one constant node.
pub fn share_constants(h: &mut Hugr, r: &mut Rng) {
    use hugr::hugr::hugrmut::HugrMut;
    use hugr::ops::OpType;
    let nodes: Vec<hugr::Node> = h.children(h.entrypoint()).collect();
    let mut seen: std::collections::HashMap<String, hugr::Node> = Default::default();
    for l in nodes {
        if !matches!(h.get_optype(l), OpType::LoadConstant(_)) {
            continue;
        }
        let Some((c, _)) = h.single_linked_output(l, 0) else { continue };
        let OpType::Const(k) = h.get_optype(c) else { continue };
        let key = format!("{:?}", k.value());
        match seen.get(&key) {
            Some(&first) if r.chance(0.6) => {
                // the shared load must not create a cycle: loads have no inputs
                let users: Vec<_> = h.linked_inputs(l, 0).collect();
                for (n, p) in users {
                    h.disconnect(n, p);
                    h.connect(first, 0, n, p);
                }
                h.remove_node(l);
                h.remove_node(c);
            }
            Some(&first) if r.chance(0.5) => {
                let (k, _) = h.single_linked_output(first, 0).unwrap();
                h.disconnect(l, hugr::IncomingPort::from(0));
                h.remove_node(c);
                h.connect(k, 0, l, 0);
            }
            _ => {
                seen.insert(key, l);
            }
        }
    }
}
