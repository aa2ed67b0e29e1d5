//! Graph-level tools: relabelling a whole HUGR, and a flat view of one region.
use crate::rng::Rng;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait, OpType, Value};
use hugr::types::Type;
use hugr::{Hugr, HugrView, Node, PortIndex};
use std::collections::{BTreeMap, HashMap};

/// An isomorphic copy with nodes and edges created in random order. Keeps
/// metadata and entrypoint.
pub fn shuffle(h: &Hugr, r: &mut Rng) -> (Hugr, HashMap<Node, Node>) {
    let mut out = Hugr::new();
    let mut map: HashMap<Node, Node> = HashMap::new();
    map.insert(h.module_root(), out.module_root());
    let queue = |n: Node, r: &mut Rng| -> Vec<Node> {
        let mut c: Vec<Node> = h.children(n).collect();
        let op = h.get_optype(n);
        if OpTag::DataflowParent.is_superset(op.tag()) && c.len() > 2 {
            let mut rest = c.split_off(2);
            r.shuffle(&mut rest);
            c.extend(rest);
        } else if matches!(op, OpType::Module(_)) {
            r.shuffle(&mut c);
        } else if matches!(op, OpType::CFG(_)) && c.len() > 2 {
            let mut rest = c.split_off(2);
            r.shuffle(&mut rest);
            c.extend(rest);
        }
        c.reverse();
        c
    };
    let mut open: Vec<(Node, Vec<Node>)> = vec![(h.module_root(), queue(h.module_root(), r))];
    while !open.is_empty() {
        let i = r.below(open.len());
        let Some(c) = open[i].1.pop() else {
            open.swap_remove(i);
            continue;
        };
        let p = map[&open[i].0];
        let n = out.add_node_with_parent(p, h.get_optype(c).clone());
        map.insert(c, n);
        if h.children(c).next().is_some() {
            let q = queue(c, r);
            open.push((c, q));
        }
    }
    let mut edges = vec![];
    for &n in map.keys() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                edges.push((n, p, m, q));
            }
        }
    }
    edges.sort();
    r.shuffle(&mut edges);
    for (n, p, m, q) in edges {
        out.connect(map[&n], p, map[&m], q);
    }
    out.set_entrypoint(map[&h.entrypoint()]);
    (out, map)
}

/// One node of a region; `ins[i]` is the source of value input i:
/// (index, port) where index 0 is the input node.
#[derive(Clone, Debug)]
pub struct FNode {
    pub op: OpType,
    pub konst: Option<Value>,
    pub ins: Vec<(usize, usize)>,
    pub orig: Option<Node>,
}
#[derive(Clone, Debug)]
pub struct Flat {
    pub inputs: Vec<Type>,
    pub outputs: Vec<Type>,
    /// index 0 is a dummy for the input
    pub nodes: Vec<FNode>,
    pub outs: Vec<(usize, usize)>,
    /// state order edges between nodes (indices)
    pub order: Vec<(usize, usize)>,
}

impl Flat {
    /// The region at `parent`, if it has no containers, calls or foreign edges.
    pub fn from_hugr(h: &Hugr, parent: Node) -> Option<Flat> {
        let [inp, out] = h.get_io(parent)?;
        let sig = region_sig(h, parent)?;
        let mut f = Flat { inputs: sig.input.to_vec(), outputs: sig.output.to_vec(), nodes: vec![], outs: vec![], order: vec![] };
        f.nodes.push(FNode { op: h.get_optype(inp).clone(), konst: None, ins: vec![], orig: Some(inp) });
        // topological order by repeated scanning of what is ready
        let kids: Vec<Node> = h.children(parent).filter(|&n| n != inp && n != out && !matches!(h.get_optype(n), OpType::Const(_))).collect();
        let mut idx: BTreeMap<Node, usize> = BTreeMap::new();
        idx.insert(inp, 0);
        let mut left = kids;
        while !left.is_empty() {
            let before = left.len();
            let mut rest = vec![];
            for n in left {
                let op = h.get_optype(n);
                if h.children(n).next().is_some() || matches!(op, OpType::Call(_) | OpType::LoadFunction(_)) {
                    return None;
                }
                let mut konst = None;
                let mut ins = vec![];
                let mut ready = true;
                if matches!(op, OpType::LoadConstant(_)) {
                    let (c, _) = h.single_linked_output(n, 0)?;
                    let OpType::Const(c) = h.get_optype(c) else { return None };
                    konst = Some(c.value().clone());
                } else {
                    for i in 0..op.value_input_count() {
                        let (s, p) = h.single_linked_output(n, i)?;
                        match idx.get(&s) {
                            Some(&k) => ins.push((k, p.index())),
                            None => {
                                ready = false;
                                break;
                            }
                        }
                    }
                }
                if ready {
                    idx.insert(n, f.nodes.len());
                    f.nodes.push(FNode { op: op.clone(), konst, ins, orig: Some(n) });
                } else {
                    rest.push(n);
                }
            }
            if rest.len() == before {
                return None;
            }
            left = rest;
        }
        for i in 0..f.outputs.len() {
            let (s, p) = h.single_linked_output(out, i)?;
            f.outs.push((*idx.get(&s)?, p.index()));
        }
        for (&n, &k) in &idx {
            if let Some(p) = h.get_optype(n).other_output_port() {
                for (m, _) in h.linked_inputs(n, p) {
                    if let Some(&j) = idx.get(&m) {
                        f.order.push((k, j));
                    }
                }
            }
        }
        Some(f)
    }

    /// Users of each output (node index, port) -> [(node index or usize::MAX for the output, port)]
    pub fn users(&self) -> HashMap<(usize, usize), Vec<(usize, usize)>> {
        let mut m: HashMap<_, Vec<_>> = HashMap::new();
        for (i, n) in self.nodes.iter().enumerate() {
            for (k, s) in n.ins.iter().enumerate() {
                m.entry(*s).or_default().push((i, k));
            }
        }
        for (k, s) in self.outs.iter().enumerate() {
            m.entry(*s).or_default().push((usize::MAX, k));
        }
        m
    }

    /// Rebuild as a module with one function, nodes inserted in the given
    /// order (a permutation of 1..nodes.len()), or as listed. Nodes for which
    /// `keep` is false are dropped (nothing may use them).
    pub fn to_hugr(&self, name: &str, order: Option<&[usize]>) -> Hugr {
        use hugr::builder::{Container, FunctionBuilder};
        use hugr::types::Signature;
        let mut fb = FunctionBuilder::new(name, Signature::new(self.inputs.clone(), self.outputs.clone())).unwrap();
        let mut h = std::mem::take(fb.hugr_mut());
        let root = h.entrypoint();
        let [inp, out] = h.get_io(root).unwrap();
        let mut map: HashMap<usize, Node> = HashMap::new();
        map.insert(0, inp);
        let natural: Vec<usize> = (1..self.nodes.len()).collect();
        for &i in order.unwrap_or(&natural) {
            let f = &self.nodes[i];
            if let Some(v) = &f.konst {
                let c = h.add_node_with_parent(root, hugr::ops::Const::new(v.clone()));
                let l = h.add_node_with_parent(root, hugr::ops::LoadConstant { datatype: v.get_type() });
                h.connect(c, 0, l, 0);
                map.insert(i, l);
            } else {
                let n = h.add_node_with_parent(root, f.op.clone());
                map.insert(i, n);
            }
        }
        for (i, f) in self.nodes.iter().enumerate().skip(1) {
            for (k, (s, p)) in f.ins.iter().enumerate() {
                h.connect(map[s], *p, map[&i], k);
            }
        }
        for (k, (s, p)) in self.outs.iter().enumerate() {
            h.connect(map[s], *p, out, k);
        }
        for (a, b) in &self.order {
            h.add_other_edge(map[a], map[b]);
        }
        h
    }

    /// Drop nodes marked dead, compacting indices.
    pub fn compact(mut self, dead: &[bool]) -> Flat {
        let mut new = vec![usize::MAX; self.nodes.len()];
        let mut k = 0;
        for i in 0..self.nodes.len() {
            if !dead[i] {
                new[i] = k;
                k += 1;
            }
        }
        let fix = |s: &mut (usize, usize)| {
            assert!(new[s.0] != usize::MAX);
            s.0 = new[s.0]
        };
        let mut i = 0;
        self.nodes.retain(|_| {
            i += 1;
            !dead[i - 1]
        });
        for n in &mut self.nodes {
            n.ins.iter_mut().for_each(fix);
        }
        self.outs.iter_mut().for_each(fix);
        self.order.retain(|(a, b)| !dead[*a] && !dead[*b]);
        for (a, b) in &mut self.order {
            *a = new[*a];
            *b = new[*b];
        }
        self
    }
}

/// The (input, output) types of a dataflow region, read off its I/O nodes.
pub fn region_sig(h: &Hugr, parent: Node) -> Option<hugr::types::Signature> {
    let [i, o] = h.get_io(parent)?;
    let OpType::Input(i) = h.get_optype(i) else { return None };
    let OpType::Output(o) = h.get_optype(o) else { return None };
    Some(hugr::types::Signature::new(i.types.clone(), o.types.clone()))
}
