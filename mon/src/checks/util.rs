//! Shared oracles.
use crate::interp::{self, Cfg, Outcomes, Stop};
use crate::report::Ctx;
use hugr::{Hugr, HugrView, Node};

/// How running the transformed program compares with the original.
pub enum Cmp {
    Same,
    Differs(String),
    /// The original could not be evaluated.
    Skip(String),
}

pub fn outcomes(h: &Hugr, n: Node, seed: u64, cfg: &Cfg) -> Result<Outcomes, Stop> {
    interp::run(h, n, seed, cfg)
}

/// Compare two programs on the same random input.
pub fn compare(a: &Hugr, an: Node, b: &Hugr, bn: Node, seed: u64, cfg: &Cfg, exact: bool) -> Cmp {
    let mut c1 = cfg.clone();
    c1.sched = 0;
    let x = match interp::run(a, an, seed, &c1) {
        Ok(x) => x,
        Err(e) => return Cmp::Skip(format!("{e:?}")),
    };
    let mut c2 = cfg.clone();
    c2.sched = seed | 1;
    let y = match interp::run(b, bn, seed, &c2) {
        Ok(y) => y,
        Err(Stop::Unsupported(s)) => return Cmp::Skip(s),
        Err(e) => return Cmp::Differs(format!("the transformed program is broken: {e:?}")),
    };
    match if exact { interp::diff_exact(&x, &y) } else { interp::diff(&x, &y) } {
        None => Cmp::Same,
        Some(d) => Cmp::Differs(d),
    }
}

/// Validate and compare; reports into ctx. Returns true when judged equal.
#[allow(clippy::too_many_arguments)]
pub fn check_same(ctx: &mut Ctx, what: &str, orig: &Hugr, new: &Hugr, cfg: &Cfg, inputs: usize, exact: bool, artefact: &str) -> bool {
    ctx.eval();
    if let Err(e) = new.validate() {
        ctx.violation(
            format!("{what}:invalid:{}", crate::report::norm(&format!("{e}"))),
            format!("{what} produced an invalid HUGR: {e}"),
            artefact.to_string(),
        );
        return false;
    }
    for _ in 0..inputs {
        let seed = ctx.rng.next();
        match compare(orig, orig.entrypoint(), new, new.entrypoint(), seed, cfg, exact) {
            Cmp::Same => ctx.count("executions compared equal", 1),
            Cmp::Skip(s) => {
                ctx.inconclusive(format!("not evaluated: {}", crate::report::norm(&s)));
                return false;
            }
            Cmp::Differs(d) => {
                ctx.violation(
                    format!("{what}:differs"),
                    format!("{what} changed the behaviour: {d}"),
                    format!("{artefact}\n--- before\n{}\n--- after\n{}", crate::gen::dump(orig), crate::gen::dump(new)),
                );
                return false;
            }
        }
    }
    true
}

/// A random region to look at as a circuit: random circuits, regions of
/// generated programs and of the compiled files in the repository.
pub fn some_region(ctx: &mut Ctx, rng: &mut crate::rng::Rng) -> Option<Hugr> {
    use crate::gen::{assets, circ, flat, prog};
    use hugr::hugr::hugrmut::HugrMut;
    use hugr::ops::{OpTag, OpTrait};
    let files: Vec<&Hugr> = assets::GUPPY.iter().map(|f| &f.1).collect();
    let mut h = match rng.below(10) {
        0 if !files.is_empty() => {
            ctx.count("compiled files", 1);
            (*rng.pick(&files)).clone()
        }
        0..=4 => {
            let c = if rng.chance(0.3) {
                circ::Cfg { permute: rng.chance(0.7), ..circ::Cfg::pure((1, 6), (0, 30), circ::ALLG) }
            } else {
                circ::Cfg::dynamic((0, 6), (0, 40), circ::ALLG)
            };
            circ::generate(rng, &c).hugr()
        }
        _ => {
            let f = if rng.chance(0.5) { prog::Feat::all().focus(rng) } else { prog::Feat::all().thin(rng) };
            prog::generate(rng, f)
        }
    };
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", crate::report::norm(&e.to_string())));
        return None;
    }
    let regions: Vec<Node> = h.nodes().filter(|n| h.get_io(*n).is_some() && OpTag::DataflowParent.is_superset(h.get_optype(*n).tag()))
        .filter(|n| h.get_optype(*n).as_func_defn().is_none_or(|f| f.signature().params().is_empty()))
        .collect();
    // larger regions more often
    let mut best = *rng.pick(&regions);
    for _ in 0..rng.below(4) {
        let o = *rng.pick(&regions);
        if h.children(o).count() > h.children(best).count() {
            best = o;
        }
    }
    h.set_entrypoint(best);
    if rng.chance(0.5) {
        h = flat::shuffle(&h, rng).0;
    }
    Some(h)
}
