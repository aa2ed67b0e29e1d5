//! Self-test of generator and interpreter (not a claimed check): programs are
//! valid, evaluation does not depend on the schedule.
use super::util::*;
use crate::gen::{dump, prog};
use crate::interp;
use crate::report::*;
use hugr::HugrView;

pub static CHECK: Check = Check {
    id: "GEN",
    rule: "self-test",
    assumptions: &[],
    cases: |_| 4000,
    min_nontrivial: 1,
    budget: (100, 1500),
    case_timeout: 60,
    f: case,
};

fn case(ctx: &mut Ctx) {
    let a = &*crate::gen::assets::GUPPY;
    if ctx.idx < a.len() {
        let (n, h) = &a[ctx.idx];
        match interp::run(h, h.entrypoint(), 5, &interp::Cfg::default()) {
            Ok(o) => println!("{n}: paths {} steps {} outcomes {}", o.paths, o.steps, o.map.len()),
            Err(e) => println!("{n}: {e:?} {}", h.entrypoint_optype()),
        }
        return;
    }
    let mut rng = ctx.rng.fork();
    let f = prog::Feat::all().thin(&mut rng);
    let h = prog::generate(&mut rng, f);
    ctx.eval();
    if let Err(e) = h.validate() {
        ctx.violation(format!("invalid:{}", norm(&e.to_string())), e.to_string(), dump(&h));
        return;
    }
    let (s, _) = crate::gen::flat::shuffle(&h, &mut rng);
    if let Err(e) = s.validate() {
        ctx.violation(format!("shuffled invalid:{}", norm(&e.to_string())), e.to_string(), dump(&h));
        return;
    }
    let cfg = interp::Cfg::default();
    match interp::run(&h, h.entrypoint(), 5, &cfg) {
        Ok(o) => {
            ctx.count("paths", o.paths as u64);
            ctx.count("steps", o.steps);
            ctx.count("outcomes", o.map.len() as u64);
            if o.map.keys().any(|k| k.contains("halt")) {
                ctx.count("programs that can halt", 1);
            }
            ctx.count(format!("nodes<{}", (h.num_nodes() / 50 + 1) * 50), 1);
            ctx.nontrivial(&format!("{:?}", o.map.keys()));
        }
        Err(interp::Stop::Fault(e)) => {
            ctx.violation(format!("fault:{}", norm(&e)), e, dump(&h));
            return;
        }
        Err(e) => {
            ctx.inconclusive(format!("{e:?}"));
            return;
        }
    }
    match compare(&h, h.entrypoint(), &s, s.entrypoint(), 5, &cfg, true) {
        Cmp::Same => ctx.count("same", 1),
        Cmp::Skip(s) => ctx.inconclusive(s),
        Cmp::Differs(d) => ctx.violation(format!("sched:{}", norm(&d)), d, dump(&h)),
    }
}
