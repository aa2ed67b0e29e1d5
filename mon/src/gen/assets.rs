//! HUGR files in the repository used as inputs.
use hugr::extension::ExtensionRegistry;
use hugr::package::Package;
use hugr::{Hugr, HugrView};
use std::sync::LazyLock;

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "hugr") {
            out.push(p);
        }
    }
}

pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    use tket::extension as t;
    use tket_qsystem::extension as q;
    ExtensionRegistry::new(hugr::std_extensions::STD_REG.iter().cloned().chain([
        t::TKET1_EXTENSION.clone(),
        t::TKET_EXTENSION.clone(),
        t::bool::BOOL_EXTENSION.clone(),
        t::debug::DEBUG_EXTENSION.clone(),
        t::guppy::GUPPY_EXTENSION.clone(),
        t::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        t::rotation::ROTATION_EXTENSION.clone(),
        t::modifier::MODIFIER_EXTENSION.clone(),
        q::qsystem::EXTENSION.clone(),
        q::futures::EXTENSION.clone(),
        q::result::EXTENSION.clone(),
        q::random::EXTENSION.clone(),
        q::utils::EXTENSION.clone(),
        q::gpu::EXTENSION.clone(),
        q::wasm::EXTENSION.clone(),
    ]))
});
/// Programs compiled from Guppy that the repository carries.
pub static GUPPY: LazyLock<Vec<(String, Hugr)>> = LazyLock::new(|| {
    let mut fs = vec![];
    for d in ["/repo/test_files", "/repo/qis-compiler/python/tests/resources"] {
        walk(std::path::Path::new(d), &mut fs);
    }
    let mut out = vec![];
    for f in fs {
        let Ok(b) = std::fs::read(&f) else { continue };
        let name = f.strip_prefix("/repo").unwrap().display().to_string();
        let Ok(p) = Package::load(&b[..], Some(&REG)) else { continue };
        for h in p.modules {
            if h.validate().is_ok() {
                out.push((name.clone(), h));
            }
        }
    }
    out
});
