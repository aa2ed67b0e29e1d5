use crate::gen::flat::Flat;
use crate::gen::{circ, dump, ecc};
use crate::report::*;
use crate::rng::Rng;
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tket::portmatching::{CircuitPattern, PatternMatch, PatternMatcher};
use tket::Circuit;

pub static CHECK: Check = Check {
    id: "C04",
    rule: "case = one host circuit and up to 6 patterns, random or cut out of the host (with shuffled boundaries, unused inputs, empty wires, unconnected parts, constants shared with operations outside, patterns without boundary). CircuitPattern::try_from_circuit must accept a pattern if and only if it is non-empty, connected and uses every input; every match of find_matches is compared with the occurrences found by an independent brute-force search (operation and constants equal, same wiring, convex, no value used outside that the pattern does not output): spurious, missing and repeated matches, roots outside the match, wrong signatures and invalid subgraphs are reported. find_matches_iter, the matcher after saving and loading must agree. Non-trivial = distinct host with at least one occurrence that has to be found.",
    assumptions: &["left open: occurrences with an order edge at a matched node, with a constant that is also loaded outside, where two pattern inputs are the same host value, or where a pattern output is not used by the host", "left open: patterns connected only through a value with several users, or made of constants only"],
    cases: |t| if t == Tier::Quick { 20_000 } else { 1_000_000 },
    min_nontrivial: 1000,
    budget: (60, 800),
    case_timeout: 60,
    f: case,
};

/// Key of a node: what must be equal in pattern and host.
fn key(f: &crate::gen::flat::FNode) -> String {
    match &f.konst {
        Some(v) => format!("load {v:?}"),
        None => serde_json::to_string(&f.op).unwrap(),
    }
}

struct Pat {
    flat: Flat,
    keys: Vec<String>,
    users: HashMap<(usize, usize), Vec<(usize, usize)>>,
    circ: Circuit,
}

fn pat(flat: Flat) -> Pat {
    let keys = flat.nodes.iter().map(key).collect();
    let users = flat.users();
    let circ = Circuit::new(flat.to_hugr("pattern", None));
    Pat { flat, keys, users, circ }
}

/// A random convex part of the host as a pattern.
fn cut(r: &mut Rng, host: &Flat) -> Option<Flat> {
    let n = host.nodes.len();
    if n < 2 {
        return None;
    }
    let users = host.users();
    let succ: Vec<BTreeSet<usize>> = (0..n)
        .map(|i| users.iter().filter(|(k, _)| k.0 == i).flat_map(|(_, u)| u.iter().map(|x| x.0)).filter(|&x| x != usize::MAX).collect())
        .collect();
    let mut set: BTreeSet<usize> = [1 + r.below(n - 1)].into();
    for _ in 0..r.below(6) {
        let mut cand: Vec<usize> = vec![];
        for &i in &set {
            cand.extend(&succ[i]);
            cand.extend(host.nodes[i].ins.iter().map(|s| s.0).filter(|&s| s != 0));
        }
        cand.retain(|c| !set.contains(c));
        if cand.is_empty() {
            break;
        }
        set.insert(*r.pick(&cand));
    }
    // close under paths
    let reach = |from: usize| {
        let mut seen = BTreeSet::new();
        let mut st = vec![from];
        while let Some(x) = st.pop() {
            for &y in &succ[x] {
                if seen.insert(y) {
                    st.push(y);
                }
            }
        }
        seen
    };
    let all: Vec<BTreeSet<usize>> = (0..n).map(reach).collect();
    for x in 1..n {
        if !set.contains(&x) && set.iter().any(|&s| all[s].contains(&x)) && set.iter().any(|s| all[x].contains(s)) {
            set.insert(x);
        }
    }
    if set.len() > 8 {
        return None;
    }
    sub(r, host, &set)
}

/// The part of the host given by a set of nodes, with shuffled boundary.
fn sub(r: &mut Rng, host: &Flat, set: &BTreeSet<usize>) -> Option<Flat> {
    let users = host.users();
    let ty = |s: (usize, usize)| -> hugr::types::Type {
        use hugr::ops::OpTrait;
        if s.0 == 0 {
            host.inputs[s.1].clone()
        } else {
            host.nodes[s.0].op.dataflow_signature().unwrap().output()[s.1].clone()
        }
    };
    let mut ins: Vec<(usize, usize)> = vec![];
    for &i in set {
        for s in &host.nodes[i].ins {
            if !set.contains(&s.0) && !ins.contains(s) {
                ins.push(*s);
            }
        }
    }
    r.shuffle(&mut ins);
    let mut outs: Vec<(usize, usize)> = users
        .iter()
        .filter(|(s, u)| set.contains(&s.0) && u.iter().any(|x| !set.contains(&x.0)))
        .map(|(s, _)| *s)
        .collect();
    outs.sort();
    r.shuffle(&mut outs);
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    let mut nodes = vec![host.nodes[0].clone()];
    for &i in set {
        map.insert(i, nodes.len());
        nodes.push(host.nodes[i].clone());
    }
    let conv = |s: &(usize, usize)| match map.get(&s.0) {
        Some(&k) => (k, s.1),
        None => (0, ins.iter().position(|x| x == s).unwrap()),
    };
    for n in nodes.iter_mut().skip(1) {
        n.ins = n.ins.iter().map(conv).collect();
        n.orig = None;
    }
    let outs2: Vec<(usize, usize)> = outs.iter().map(conv).collect();
    Some(Flat { inputs: ins.iter().map(|s| ty(*s)).collect(), outputs: outs.iter().map(|s| ty(*s)).collect(), nodes, outs: outs2, order: vec![] })
}

/// Pattern usable: connected, no empty wire, no unused input, not empty.
/// Returns what `try_from_circuit` should say.
/// `None`: either way is fine.
fn admissible(f: &Flat) -> Result<(), Option<&'static str>> {
    if f.nodes.len() < 2 {
        return Err(Some("empty"));
    }
    if f.nodes.iter().skip(1).all(|n| n.konst.is_some()) {
        return Err(None);
    }
    if (0..f.inputs.len()).any(|i| !f.users().contains_key(&(0, i))) {
        return Err(Some("unused input"));
    }
    if f.outs.iter().any(|s| s.0 == 0) {
        return Err(Some("empty wire"));
    }
    // connected through wires between nodes; values with several users may
    // not count as a connection
    if !connected(f, true) {
        return Err(Some("not connected"));
    }
    if !connected(f, false) {
        return Err(None);
    }
    Ok(())
}

/// All nodes can be reached from some node. Values that can be copied are
/// only followed from the user to the source, unless `any`.
fn connected(f: &Flat, any: bool) -> bool {
    let n = f.nodes.len();
    let linear = |s: (usize, usize)| {
        use hugr::ops::OpTrait;
        !f.nodes[s.0].op.dataflow_signature().unwrap().output()[s.1].copyable()
    };
    (1..n).any(|root| {
        let mut seen = vec![false; n];
        let mut st = vec![root];
        seen[root] = true;
        while let Some(x) = st.pop() {
            for y in 1..n {
                let linked = f.nodes[x].ins.iter().any(|s| s.0 == y) || f.nodes[y].ins.iter().any(|s| s.0 == x && (any || linear(*s)));
                if linked && !seen[y] {
                    seen[y] = true;
                    st.push(y);
                }
            }
        }
        seen.iter().skip(1).all(|s| *s)
    })
}

#[derive(Clone, Debug)]
struct Occ {
    /// host node of each pattern node
    map: Vec<usize>,
    /// the matcher may or may not report it
    optional: bool,
}

struct HostInfo<'a> {
    f: &'a Flat,
    keys: Vec<String>,
    users: HashMap<(usize, usize), Vec<(usize, usize)>>,
    reach: Vec<BTreeSet<usize>>,
    reach_order: Vec<BTreeSet<usize>>,
    /// loads of a constant that is also loaded elsewhere
    shared: BTreeSet<usize>,
}

fn info<'a>(f: &'a Flat, h: &Hugr) -> HostInfo<'a> {
    let n = f.nodes.len();
    let mut succ: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for (i, x) in f.nodes.iter().enumerate() {
        for s in &x.ins {
            succ[s.0].insert(i);
        }
    }
    let closure = |succ: &Vec<BTreeSet<usize>>| {
        (0..n)
            .map(|from| {
                let mut seen = BTreeSet::new();
                let mut st = vec![from];
                while let Some(x) = st.pop() {
                    for &y in &succ[x] {
                        if seen.insert(y) {
                            st.push(y);
                        }
                    }
                }
                seen
            })
            .collect::<Vec<_>>()
    };
    let reach = closure(&succ);
    for (a, b) in &f.order {
        succ[*a].insert(*b);
    }
    let reach_order = closure(&succ);
    let shared = (1..n)
        .filter(|i| {
            let node = f.nodes[*i].orig.unwrap();
            h.static_source(node).is_some_and(|c| h.output_neighbours(c).count() > 1)
        })
        .collect();
    HostInfo { f, shared, keys: f.nodes.iter().map(key).collect(), users: f.users(), reach, reach_order }
}

/// All occurrences of a pattern, by brute force.
fn occurrences(p: &Pat, h: &HostInfo) -> Vec<Occ> {
    let n = p.flat.nodes.len();
    let mut out = vec![];
    let mut map = vec![usize::MAX; n];
    map[0] = 0;
    fn rec(p: &Pat, h: &HostInfo, k: usize, map: &mut Vec<usize>, out: &mut Vec<Occ>) {
        let n = p.flat.nodes.len();
        if k == n {
            if let Some(o) = judge(p, h, map) {
                out.push(o);
            }
            return;
        }
        for c in 1..h.f.nodes.len() {
            if map[1..k].contains(&c) || h.keys[c] != p.keys[k] {
                continue;
            }
            // edges to earlier nodes (nodes are in topological order)
            let ok = p.flat.nodes[k].ins.iter().zip(&h.f.nodes[c].ins).all(|(ps, hs)| ps.0 == 0 || (map[ps.0] == hs.0 && ps.1 == hs.1));
            if ok {
                map[k] = c;
                rec(p, h, k + 1, map, out);
                map[k] = usize::MAX;
            }
        }
    }
    rec(p, h, 1, &mut map, &mut out);
    out
}

fn judge(p: &Pat, h: &HostInfo, map: &[usize]) -> Option<Occ> {
    let image: BTreeSet<usize> = map[1..].iter().copied().collect();
    let mut optional = false;
    // inputs: one host wire per pattern input, coming from outside
    let mut src: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for k in 1..map.len() {
        for (ps, hs) in p.flat.nodes[k].ins.iter().zip(&h.f.nodes[map[k]].ins) {
            if ps.0 == 0 {
                if image.contains(&hs.0) {
                    return None;
                }
                if *src.entry(ps.1).or_insert(*hs) != *hs {
                    return None;
                }
            }
        }
    }
    let distinct: BTreeSet<_> = src.values().collect();
    if distinct.len() < src.len() {
        optional = true;
    }
    // outputs
    for k in 1..map.len() {
        use hugr::ops::OpTrait;
        let outs = p.flat.nodes[k].op.dataflow_signature().map(|s| s.output_count()).unwrap_or(0);
        for port in 0..outs {
            let is_out = p.flat.outs.contains(&(k, port));
            let outside = h.users.get(&(map[k], port)).is_some_and(|u| u.iter().any(|x| !image.contains(&x.0)));
            if outside && !is_out {
                return None;
            }
            if is_out && !outside {
                optional = true;
            }
            // the same number of uses inside, else the output is used by more than the pattern shows
            let _ = p.users.get(&(k, port));
        }
    }
    // convex
    let convex = |reach: &Vec<BTreeSet<usize>>| {
        !(1..h.f.nodes.len()).any(|x| !image.contains(&x) && image.iter().any(|s| reach[*s].contains(&x)) && image.iter().any(|s| reach[x].contains(s)))
    };
    if !convex(&h.reach) {
        return None;
    }
    if image.iter().any(|i| h.shared.contains(i)) {
        optional = true;
    }
    if !convex(&h.reach_order) || h.f.order.iter().any(|(a, b)| image.contains(a) || image.contains(b)) {
        optional = true;
    }
    Some(Occ { map: map.to_vec(), optional })
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let gates: Vec<tket::TketOp> = (0..rng.range(1, 4)).map(|_| *rng.pick(ecc::PALETTE)).collect();
    let cfg = match rng.below(4) {
        0 => circ::Cfg { cond: 0., nested: 0., rot_inputs: 2, angle_den: 2, ..circ::Cfg::dynamic((1, 4), (1, 14), &gates) },
        1 => circ::Cfg { rot_inputs: 2, angle_den: 2, fancy_angles: true, ..circ::Cfg::pure((1, 4), (1, 14), &gates) },
        _ => circ::Cfg { rot_inputs: 1, angle_den: 2, ..circ::Cfg::pure((1, 4), (1, 14), &gates) },
    };
    let c = circ::generate(&mut rng, &cfg);
    let mut h = c.hugr();
    if rng.chance(0.5) {
        ecc::share_constants(&mut h, &mut rng);
    }
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return;
    }
    let Some(mut f) = Flat::from_hugr(&h, h.entrypoint()) else {
        ctx.inconclusive("host has containers");
        return;
    };
    // patterns
    let mut flats: Vec<Flat> = vec![];
    for _ in 0..rng.range(1, 6) {
        let p = match rng.below(3) {
            0 => {
                let s = ecc::small(&mut rng, &gates, 2, 1, 2, true, false);
                let hp = s.hugr();
                Flat::from_hugr(&hp, hp.entrypoint())
            }
            _ => cut(&mut rng, &f),
        };
        flats.extend(p);
    }
    if rng.chance(0.2) && f.nodes.len() > 3 {
        // an order edge
        let (a, b) = (1 + rng.below(f.nodes.len() - 1), 1 + rng.below(f.nodes.len() - 1));
        if a < b {
            f.order.push((a, b));
        }
    }
    let mut h = f.to_hugr("host", None);
    if rng.chance(0.3) {
        ecc::share_constants(&mut h, &mut rng);
    }
    let h = h;
    let Some(f) = Flat::from_hugr(&h, h.entrypoint()) else { return };
    let art = |extra: &str| format!("host\n{}\n{extra}", dump(&h));
    let mut pats: Vec<Pat> = vec![];
    let mut cps: Vec<CircuitPattern> = vec![];
    for fl in flats {
        let adm = admissible(&fl);
        let p = pat(fl);
        if let Err(e) = p.circ.hugr().validate() {
            ctx.inconclusive(format!("pattern: {}", norm(&e.to_string())));
            continue;
        }
        let a = || art(&format!("pattern\n{}", dump(p.circ.hugr())));
        let Some(res) = ctx.guard("try_from_circuit", &a, || CircuitPattern::try_from_circuit(&p.circ)) else { continue };
        match (res, adm) {
            (Ok(cp), Ok(())) => {
                pats.push(p);
                cps.push(cp);
            }
            (Ok(cp), Err(None)) => {
                ctx.count("unusual patterns accepted", 1);
                pats.push(p);
                cps.push(cp);
            }
            (Err(_), Err(_)) => ctx.count("patterns rejected", 1),
            (Ok(_), Err(Some(e))) => ctx.violation(format!("pattern accepted:{e}"), e.to_string(), a()),
            (Err(e), Ok(())) => ctx.violation(format!("pattern rejected:{}", norm(&e.to_string())), e.to_string(), a()),
        }
    }
    if pats.is_empty() {
        return;
    }
    ctx.count("patterns", pats.len() as u64);
    let all = || art(&pats.iter().map(|p| format!("pattern\n{}", dump(p.circ.hugr()))).collect::<Vec<_>>().join("\n"));
    let Some(m) = ctx.guard("from_patterns", &all, || PatternMatcher::from_patterns(cps.clone())) else { return };
    let hc = Circuit::new(h.clone());
    let Some(found) = ctx.guard("find_matches", &all, || m.find_matches(&hc)) else { return };
    ctx.count("matches reported", found.len() as u64);
    let hi = info(&f, &h);
    let back: BTreeMap<Node, usize> = f.nodes.iter().enumerate().filter_map(|(i, n)| Some((n.orig?, i))).collect();
    judge_all(ctx, &found, &pats, &hi, &back, &h, &all);
    let again: Vec<_> = m.find_matches_iter(&hc).collect();
    let show = |v: &[PatternMatch]| {
        let mut x: Vec<_> = v.iter().map(|m| format!("{:?} {:?} {:?}", m.pattern_id(), m.root(), m.nodes())).collect();
        x.sort();
        x
    };
    if show(&again) != show(&found) {
        ctx.violation("iter differs", "find_matches and find_matches_iter differ".to_string(), all());
    }
    if ctx.idx % 3 == 0 {
        let loaded = ctx.guard("save and load", &all, || -> Result<PatternMatcher, String> {
            let mut b = vec![];
            m.save_binary_io(&mut b).map_err(|e| e.to_string())?;
            PatternMatcher::load_binary_io(&mut &b[..]).map_err(|e| e.to_string())
        });
        match loaded {
            Some(Ok(l)) => {
                ctx.count("matchers saved and loaded", 1);
                if let Some(x) = ctx.guard("find_matches after loading", &all, || l.find_matches(&hc)) {
                    if show(&x) != show(&found) {
                        ctx.violation("loaded matcher differs", format!("{:?}\n{:?}", show(&found), show(&x)), all());
                    }
                }
            }
            Some(Err(e)) => ctx.violation(format!("save and load:{}", norm(&e)), e, all()),
            None => {}
        }
    }
}

fn judge_all(ctx: &mut Ctx, found: &[PatternMatch], pats: &[Pat], hi: &HostInfo, back: &BTreeMap<Node, usize>, h: &Hugr, art: &dyn Fn() -> String) {
    ctx.eval();
    let mut required = 0;
    for (pi, p) in pats.iter().enumerate() {
        let occ = occurrences(p, hi);
        let of = || format!("pattern {pi}\n{}\n{}", dump(p.circ.hugr()), art());
        // matches of this pattern, as sets of host nodes
        let mut sets: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
        for m in found.iter().filter(|m| m.pattern_id().0 == pi) {
            let set: BTreeSet<usize> = m.nodes().iter().filter_map(|n| back.get(n).copied()).collect();
            if !m.nodes().contains(&m.root()) {
                ctx.violation("root outside the match", format!("{m:?}"), of());
            }
            let closed = p.flat.inputs.is_empty() && p.flat.outputs.is_empty();
            if closed {
                ctx.count("matches without a boundary", 1);
            } else if let Err(e) = m.subgraph().validate(h, Default::default()) {
                ctx.violation("invalid subgraph", format!("{m:?}: {e}"), of());
            }
            let sig = m.subgraph().signature(h);
            let want = crate::gen::flat::region_sig(p.circ.hugr(), p.circ.parent()).unwrap();
            if sig.input() != want.input() || sig.output() != want.output() {
                ctx.violation("signature", format!("{m:?}: {sig} instead of {want}"), of());
            }
            *sets.entry(set).or_default() += 1;
        }
        let mut want: BTreeMap<BTreeSet<usize>, (usize, usize)> = BTreeMap::new();
        for o in &occ {
            let set: BTreeSet<usize> = o.map[1..].iter().copied().collect();
            let e = want.entry(set).or_default();
            if o.optional {
                e.1 += 1;
            } else {
                e.0 += 1;
            }
        }
        required += want.values().map(|w| w.0).sum::<usize>();
        let name = |s: &BTreeSet<usize>| s.iter().map(|i| format!("{}", hi.f.nodes[*i].orig.unwrap())).collect::<Vec<_>>().join(",");
        for (s, n) in &sets {
            match want.get(s) {
                None => ctx.violation("spurious match", format!("nodes {} are not an occurrence", name(s)), of()),
                Some((req, opt)) => {
                    if *n > req + opt {
                        ctx.violation("reported too often", format!("nodes {}: {n} matches, {} occurrences", name(s), req + opt), of());
                    }
                }
            }
        }
        for (s, (req, _)) in &want {
            let n = sets.get(s).copied().unwrap_or(0);
            if n < *req {
                let hc = Circuit::new(h.clone());
                let cp = CircuitPattern::try_from_circuit(&p.circ).unwrap();
                let alone = PatternMatcher::from_patterns(vec![cp]).find_matches(&hc);
                let only = alone.iter().any(|m| m.nodes().iter().filter_map(|n| back.get(n).copied()).collect::<BTreeSet<_>>() == *s);
                ctx.violation(if only { "missing with other patterns" } else { "missing match" }, format!("nodes {}: {n} matches, {req} occurrences", name(s)), of());
            }
        }
    }
    ctx.count("occurrences required", required as u64);
    if required > 0 {
        ctx.nontrivial(&dump(h));
    }
}

