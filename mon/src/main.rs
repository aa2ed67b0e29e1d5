#![allow(dead_code)]
mod checks;
mod gen;
mod interp;
mod native;
mod pk;
mod qstate;
mod report;
mod rng;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    report::install_hook();
    let find = |id: &str| {
        checks::ALL.iter().copied().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no check {id}");
            std::process::exit(3)
        })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => report::worker(find(&args[2]), &args[3..]),
        Some("replay") => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).unwrap();
            let tier = if j["tier"] == "thorough" { report::Tier::Thorough } else { report::Tier::Quick };
            std::process::exit(report::replay(
                find(j["property"].as_str().unwrap()),
                tier,
                j["seed"].as_u64().unwrap(),
                j["case"].as_u64().unwrap() as usize,
            ));
        }
        Some("case") => {
            let seed = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(report::replay(find(&args[2]), report::Tier::Quick, seed, args[3].parse().unwrap()));
        }
        Some("list") => {
            for c in checks::ALL {
                println!("{}", c.id);
            }
        }
        Some(id) => std::process::exit(report::run_check(find(id))),
        None => {
            eprintln!("usage: mon <check>|list|replay FILE|case ID IDX [SEED]");
            std::process::exit(3)
        }
    }
}
