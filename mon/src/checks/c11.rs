use super::util::*;
use crate::gen::{assets, circ, dump, flat, prog};
use crate::interp;
use crate::report::*;
use crate::rng::Rng;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait};
use hugr::{Hugr, HugrView, Node};
use std::sync::Arc;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, EncodedCircuit, PytketDecoderConfig, PytketEncoderConfig, TKETDecode};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;

pub static CHECK: Check = Check {
    id: "C11",
    rule: "case = a program (random circuits with measurements, allocation, conditionals, boxes, computed angles; structured programs over all extensions; compiled Guppy files) encoded to pytket with the default or the qsystem configuration, with or without nested regions, and put back: reassembled in place (EncodedCircuit::reassemble_inplace), stand-alone (EncodedCircuit::new_standalone + reassemble) or as plain pytket JSON (SerialCircuit::encode + decode with the original signature). The result must validate, keep its signature and behave the same under the interpreter. Non-trivial = distinct circuits with at least one pytket command.",
    assumptions: &["the reference interpreter in mon/src/interp.rs"],
    cases: |t| if t == Tier::Quick { 12_000 } else { 300_000 },
    min_nontrivial: 500,
    budget: (45, 800),
    case_timeout: 60,
    f: case,
};

pub fn enc_cfg(qs: bool) -> PytketEncoderConfig<Hugr> {
    if qs {
        tket_qsystem::pytket::qsystem_encoder_config()
    } else {
        tket::serialize::pytket::default_encoder_config()
    }
}
pub fn dec_cfg(qs: bool) -> Arc<PytketDecoderConfig> {
    Arc::new(if qs { tket_qsystem::pytket::qsystem_decoder_config() } else { tket::serialize::pytket::default_decoder_config() })
}

/// Remove what differs between equivalent encodings.
pub fn commands(c: &SerialCircuit) -> String {
    serde_json::to_string(&c.commands).unwrap()
}

pub fn source(ctx: &mut Ctx, rng: &mut Rng) -> Option<Hugr> {
    let mut h = match rng.below(10) {
        0 => {
            ctx.count("compiled files", 1);
            rng.pick(&assets::GUPPY).1.clone()
        }
        1..=5 => {
            let c = if rng.chance(0.3) {
                circ::Cfg { permute: rng.chance(0.7), ..circ::Cfg::pure((1, 6), (0, 30), circ::ALLG) }
            } else {
                circ::Cfg::dynamic((0, 6), (0, 40), circ::ALLG)
            };
            circ::generate(rng, &c).hugr()
        }
        _ => {
            let f = if rng.chance(0.5) { prog::Feat::all().focus(rng) } else { prog::Feat::all().thin(rng) };
            prog::generate(rng, f)
        }
    };
    if rng.chance(0.3) {
        h = flat::shuffle(&h, rng).0;
    }
    if let Err(e) = h.validate() {
        ctx.inconclusive(format!("generator: {}", norm(&e.to_string())));
        return None;
    }
    Some(h)
}

pub fn regions(h: &Hugr) -> Vec<Node> {
    h.nodes().filter(|n| h.get_io(*n).is_some() && OpTag::DataflowParent.is_superset(h.get_optype(*n).tag())).collect()
}

fn case(ctx: &mut Ctx) {
    let mut rng = ctx.rng.fork();
    let Some(h) = source(ctx, &mut rng) else { return };
    let art = dump(&h);
    let cfg = interp::Cfg::default();
    match rng.below(10) {
        0..=5 => inplace(ctx, &mut rng, h, &art, &cfg),
        _ => alone(ctx, &mut rng, h, &art, &cfg),
    }
}

fn reject(ctx: &mut Ctx, what: &str, e: &str) {
    let mut e = norm(e);
    for k in ["output types", "with type", "wires types", "subgraph payload", "Unsupported nodes"] {
        if let Some(i) = e.find(k) {
            e.truncate(i);
        }
    }
    ctx.count(&format!("rejected: {what}: {}", e.chars().take(90).collect::<String>()), 1);
}

fn inplace(ctx: &mut Ctx, rng: &mut Rng, h: Hugr, art: &str, cfg: &interp::Cfg) {
    let main = h.entrypoint();
    let rs = regions(&h);
    let n = if rng.chance(0.5) && h.get_io(main).is_some() { main } else { *rng.pick(&rs) };
    let (qs, sub) = (rng.chance(0.5), rng.chance(0.6));
    let mut c = Circuit::new(h.clone());
    let mut hh = h.clone();
    hh.set_entrypoint(n);
    c = match Circuit::try_new(hh) {
        Ok(c) => c,
        Err(_) => return,
    };
    let art = format!("in place: region {n}, qsystem {qs}, subcircuits {sub}\n{art}");
    let enc = ctx.guard("encode", &|| art.clone(), || EncodedCircuit::new(&c, EncodeOptions::new().with_subcircuits(sub).with_config(enc_cfg(qs))));
    let Some(enc) = enc else { return };
    let enc = match enc {
        Ok(e) => e,
        Err(e) => {
            ctx.eval();
            reject(ctx, "inplace:encode", &format!("{e}"));
            return;
        }
    };
    let mut texts = String::new();
    let mut cmds = 0;
    for (r, s) in enc.iter() {
        cmds += s.commands.len();
        texts += &format!("--- region {r}\n{}\n", serde_json::to_string(&s).unwrap());
    }
    ctx.count("regions encoded", enc.len() as u64);
    ctx.count("commands", cmds as u64);
    if cmds > 0 {
        ctx.nontrivial(&texts);
    }
    let art = format!("{art}\n{texts}");
    let mut new = c.into_hugr();
    let dc = dec_cfg(qs);
    let Some(res) = ctx.guard("reassemble_inplace", &|| art.clone(), || enc.reassemble_inplace(&mut new, Some(dc))) else { return };
    if let Err(e) = res {
        ctx.eval();
        reject(ctx, "inplace:decode", &format!("{e}"));
        return;
    }
    new.set_entrypoint(main);
    check_same(ctx, "inplace", &h, &new, cfg, 2, false, &art);
}

fn alone(ctx: &mut Ctx, rng: &mut Rng, h: Hugr, art: &str, cfg: &interp::Cfg) {
    let rs = regions(&h);
    let main = h.entrypoint();
    let n = if rng.chance(0.7) && h.get_io(main).is_some() { main } else { *rng.pick(&rs) };
    let qs = rng.chance(0.5);
    // plain pytket output registers are in register order
    let mut plain = rng.chance(0.5);
    let mut hh = h.clone();
    hh.set_entrypoint(n);
    let Ok(c) = Circuit::try_new(hh.clone()) else { return };
    let Some(sig) = flat::region_sig(&hh, n) else { return };
    plain &= sig.output().iter().all(|t| *t == hugr::extension::prelude::qb_t());
    let art = format!("stand-alone: region {n}, qsystem {qs}, plain {plain}\n{art}");
    let opt = EncodeOptions::new().with_config(enc_cfg(qs));
    let ser: SerialCircuit;
    let dopt = DecodeOptions::new().with_config(dec_cfg(qs)).with_signature(sig.clone()).with_extensions(assets::REG.clone());
    let np = sig.input().iter().filter(|t| **t == tket::extension::rotation::rotation_type() || **t == hugr::std_extensions::arithmetic::float_types::float64_type()).count();
    let dopt = if plain { dopt.with_input_params((0..np).map(|i| format!("f{i}"))) } else { dopt };
    let mut encd = None;
    if plain {
        let Some(e) = ctx.guard("encode", &|| art.clone(), || SerialCircuit::encode(&c, opt)) else { return };
        match e {
            Ok(s) => ser = s,
            Err(e) => {
                ctx.count(&format!("encode rejected: {}", norm(&format!("{e}")).chars().take(90).collect::<String>()), 1);
                return;
            }
        }
    } else {
        let Some(e) = ctx.guard("encode", &|| art.clone(), || EncodedCircuit::new_standalone(&c, opt)) else { return };
        match e {
            Ok(s) => {
                ser = s[n].clone();
                encd = Some(s);
            }
            Err(e) => {
                ctx.count(&format!("encode rejected: {}", norm(&format!("{e}")).chars().take(90).collect::<String>()), 1);
                return;
            }
        }
    }
    if !ser.commands.is_empty() {
        ctx.nontrivial(&commands(&ser));
    }
    let art = format!("{art}\n--- pytket\n{}", serde_json::to_string(&ser).unwrap());
    let res = match encd {
        Some(e) => ctx.guard("reassemble", &|| art.clone(), || e.reassemble(n, None, dopt)),
        None => ctx.guard("decode", &|| art.clone(), || ser.decode(dopt).map(|c| c.into_hugr())),
    };
    let Some(res) = res else { return };
    ctx.eval();
    match res {
        Err(e) => reject(ctx, "alone:decode", &format!("{e}")),
        Ok(mut new) => {
            if new.get_io(new.entrypoint()).is_none() {
                let Some(f) = new.nodes().find(|n| new.get_parent(*n) == Some(new.module_root()) && new.get_io(*n).is_some()) else { return };
                new.set_entrypoint(f);
            }
            let got = flat::region_sig(&new, new.entrypoint());
            if got.as_ref() != Some(&sig) {
                ctx.violation("alone:signature", format!("signature {sig} became {got:?}"), art);
                return;
            }
            check_same(ctx, "alone", &hh, &new, cfg, 2, false, &art);
        }
    }
}
