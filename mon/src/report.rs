//! Case runner: worker processes, verdicts, evidence, replay files.
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of cases (quick, thorough)
    pub cases: fn(Tier) -> usize,
    /// fewest distinct non-trivial cases for the run to count as an answer
    pub min_nontrivial: usize,
    /// seconds after which no new case starts (quick, thorough)
    pub budget: (u64, u64),
    /// watchdog per case, seconds
    pub case_timeout: u64,
    pub f: fn(&mut Ctx),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
    pub artefact: String,
}

pub struct Ctx {
    pub idx: usize,
    pub tier: Tier,
    pub rng: Rng,
    pub seed: u64,
    pub evals: u64,
    pub keys: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub inconclusive: BTreeMap<String, u64>,
    pub verbose: bool,
}

thread_local! {
    /// keep the call stack of panics
    pub static TRACE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_TRACE: RefCell<String> = const { RefCell::new(String::new()) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var("MON_BT").is_ok() {
            eprintln!("panic at {loc}:{line}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if TRACE.with(|t| t.get()) {
            let b = std::backtrace::Backtrace::force_capture().to_string();
            LAST_TRACE.with(|t| *t.borrow_mut() = b);
        }
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

/// Stable text of a panic message: digits and node ids dropped.
pub fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut last = false;
    for c in s.chars().take(400) {
        if c.is_ascii_digit() {
            if !last {
                out.push('#');
            }
            last = true;
        } else {
            last = false;
            out.push(if c.is_whitespace() { ' ' } else { c });
        }
    }
    out.chars().take(110).collect()
}
pub fn stem(f: &str) -> String {
    let v: Vec<&str> = f.split('/').collect();
    v[v.len().saturating_sub(2)..].join("/")
}

pub struct Panicked {
    pub file: String,
    pub msg: String,
}
/// Run f, catching a panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (file, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "panic on another thread".into()));
            Err(Panicked { file, msg })
        }
    }
}

impl Ctx {
    pub fn count(&mut self, k: impl Into<String>, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, key: &str) {
        self.keys.push(hash_str(key));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 2 {
            let s: String = s.into();
            self.samples.push(s.chars().take(1500).collect());
        }
    }
    pub fn inconclusive(&mut self, why: impl Into<String>) {
        *self.inconclusive.entry(why.into()).or_default() += 1;
    }
    pub fn violation(&mut self, sig: impl Into<String>, msg: impl Into<String>, artefact: impl Into<String>) {
        let v = Viol { sig: sig.into(), msg: msg.into(), artefact: artefact.into() };
        if self.verbose {
            eprintln!("VIOL {}\n  {}\n{}", v.sig, v.msg, v.artefact);
        }
        self.viols.push(v);
    }
    /// Run target code; a panic is a violation.
    pub fn guard<T>(&mut self, what: &str, artefact: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(x) => Some(x),
            Err(p) => {
                self.violation(
                    format!("panic:{what}:{}:{}", stem(&p.file), norm(&p.msg)),
                    format!("{what} panicked at {}: {}", p.file, p.msg),
                    artefact(),
                );
                None
            }
        }
    }
}

fn run_case(ch: &Check, tier: Tier, seed: u64, idx: usize, verbose: bool) -> Ctx {
    let mut ctx = Ctx {
        idx,
        tier,
        seed,
        rng: Rng::keyed(&[seed, hash_str(ch.id), idx as u64]),
        evals: 0,
        keys: vec![],
        counters: BTreeMap::new(),
        samples: vec![],
        viols: vec![],
        inconclusive: BTreeMap::new(),
        verbose,
    };
    let r = catch(|| (ch.f)(&mut ctx));
    if let Err(p) = r {
        let f = &p.file;
        if (f.starts_with("/repo/") || f.contains("tket")) && !f.contains("/verif/") {
            ctx.violation(
                format!("panic:unguarded:{}:{}", stem(f), norm(&p.msg)),
                format!("panic at {}: {}", f, p.msg),
                "",
            );
        } else {
            ctx.inconclusive(format!("harness panic: {}: {}", stem(f), norm(&p.msg)));
        }
    }
    ctx
}

fn ctx_json(c: &Ctx) -> J {
    json!({
        "idx": c.idx, "evals": c.evals, "keys": c.keys, "counters": c.counters, "samples": c.samples,
        "inc": c.inconclusive,
        "viols": c.viols.iter().map(|v| json!([v.sig, v.msg, v.artefact])).collect::<Vec<_>>(),
    })
}

pub fn worker(ch: &'static Check, args: &[String]) {
    let tier = if args[0] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = args[1].parse().unwrap();
    let nw: usize = args[2].parse().unwrap();
    let total: usize = args[3].parse().unwrap();
    let mut idx: usize = args[4].parse().unwrap();
    let budget: f64 = args[5].parse().unwrap();
    let t0 = Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let out = std::io::stdout();
            while idx < total {
                if t0.elapsed().as_secs_f64() > budget {
                    writeln!(out.lock(), "T {idx}").unwrap();
                    break;
                }
                writeln!(out.lock(), "S {idx}").unwrap();
                out.lock().flush().unwrap();
                let c = run_case(ch, tier, seed, idx, false);
                writeln!(out.lock(), "D {}", ctx_json(&c)).unwrap();
                out.lock().flush().unwrap();
                idx += nw;
            }
        })
        .unwrap();
    h.join().unwrap();
}

enum Msg {
    Line(usize, u64, String),
    Eof(usize, u64),
}

struct W {
    child: std::process::Child,
    gen: u64,
    cur: Option<(usize, Instant)>,
    next: usize,
    done: bool,
    killed: bool,
    hang: bool,
    cpu0: f64,
}

/// Processor time used by a worker.
fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.)
}

fn spawn(ch: &Check, tier: Tier, seed: u64, nw: usize, total: usize, start: usize, budget: f64, w: usize, gen: u64, tx: &mpsc::Sender<Msg>) -> W {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            ch.id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            &seed.to_string(),
            &nw.to_string(),
            &total.to_string(),
            &start.to_string(),
            &budget.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if std::env::var("MON_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(w, gen, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(w, gen));
    });
    W { child, gen, cur: None, next: start, done: false, killed: false, hang: false, cpu0: 0. }
}

pub fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=")) else { continue };
            if let Some((sig, desc)) = rest.split_once(" :: ") {
                m.insert(sig.trim().to_string(), desc.trim().to_string());
            }
        }
    }
    m
}

pub fn run_check(ch: &'static Check) -> i32 {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let nw: usize = std::env::var("MON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let budget = if tier == Tier::Quick { ch.budget.0 } else { ch.budget.1 } as f64;
    let total = (ch.cases)(tier);
    let nw = nw.min(total.max(1));
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(ch, tier, seed, nw, total, w, budget, w, 0, &tx)).collect();

    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut keys: BTreeSet<u64> = BTreeSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(usize, String)> = vec![];
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: BTreeMap<String, (usize, Viol, u64)> = BTreeMap::new();
    let mut unstarted = false;

    let add_viol = |viols: &mut BTreeMap<String, (usize, Viol, u64)>, idx: usize, v: Viol| {
        let e = viols.entry(v.sig.clone()).or_insert((idx, v.clone(), 0));
        e.2 += 1;
        if idx < e.0 {
            e.0 = idx;
            e.1 = v;
        }
    };

    while ws.iter().any(|w| !w.done) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, gen, l)) => {
                if ws[w].gen != gen {
                    continue;
                }
                if let Some(i) = l.strip_prefix("S ") {
                    ws[w].cur = Some((i.trim().parse().unwrap(), Instant::now()));
                    ws[w].cpu0 = cpu_seconds(ws[w].child.id()).unwrap_or(0.);
                } else if l.starts_with("T ") {
                    unstarted = true;
                } else if let Some(d) = l.strip_prefix("D ") {
                    let Ok(j) = serde_json::from_str::<J>(d) else { continue };
                    let idx = j["idx"].as_u64().unwrap() as usize;
                    ws[w].cur = None;
                    ws[w].next = idx + nw;
                    cases += 1;
                    evals += j["evals"].as_u64().unwrap();
                    for k in j["keys"].as_array().unwrap() {
                        keys.insert(k.as_u64().unwrap());
                    }
                    for (k, v) in j["counters"].as_object().unwrap() {
                        *counters.entry(k.clone()).or_default() += v.as_u64().unwrap();
                    }
                    for (k, v) in j["inc"].as_object().unwrap() {
                        *inc.entry(k.clone()).or_default() += v.as_u64().unwrap();
                    }
                    if samples.len() < 40 {
                        for s in j["samples"].as_array().unwrap() {
                            samples.push((idx, s.as_str().unwrap().to_string()));
                        }
                    }
                    for v in j["viols"].as_array().unwrap() {
                        let g = |i: usize| v[i].as_str().unwrap().to_string();
                        add_viol(&mut viols, idx, Viol { sig: g(0), msg: g(1), artefact: g(2) });
                    }
                }
            }
            Ok(Msg::Eof(w, gen)) => {
                if ws[w].gen != gen {
                    continue;
                }
                let st = ws[w].child.wait().unwrap();
                if let Some((idx, _)) = ws[w].cur.take() {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.signal();
                    if ws[w].hang {
                        add_viol(
                            &mut viols,
                            idx,
                            Viol {
                                sig: "hang".into(),
                                msg: format!("case {idx} was still computing after {} s", ch.case_timeout),
                                artefact: String::new(),
                            },
                        );
                    } else if ws[w].killed {
                        *inc.entry("case timeout".into()).or_default() += 1;
                        eprintln!("{}: case {idx} timed out", ch.id);
                    } else if sig == Some(9) {
                        *inc.entry("worker killed (memory)".into()).or_default() += 1;
                    } else {
                        add_viol(
                            &mut viols,
                            idx,
                            Viol {
                                sig: format!("crash:signal={sig:?}:code={:?}", st.code()),
                                msg: format!("the process died (signal {sig:?}, exit {:?}) in case {idx}", st.code()),
                                artefact: String::new(),
                            },
                        );
                    }
                    let left = budget - t0.elapsed().as_secs_f64();
                    if idx + nw < total && left > 0. {
                        ws[w] = spawn(ch, tier, seed, nw, total, idx + nw, left, w, gen + 1, &tx);
                        continue;
                    }
                }
                ws[w].done = true;
            }
            Err(_) => {}
        }
        for w in ws.iter_mut() {
            if let Some((_, t)) = w.cur {
                if !w.killed && t.elapsed().as_secs() > ch.case_timeout {
                    w.killed = true;
                    w.hang = cpu_seconds(w.child.id()).unwrap_or(0.) - w.cpu0 >= 0.6 * ch.case_timeout as f64;
                    let _ = w.child.kill();
                }
            }
        }
    }

    // verdict
    let known = known_findings(ch.id);
    let mut bad = 0;
    let mut lines = vec![];
    let _ = std::fs::create_dir_all(format!("{VERIF}/replays"));
    let mut sigs: HashMap<String, u64> = HashMap::new();
    for (sig, (idx, v, n)) in &viols {
        sigs.insert(sig.clone(), *n);
        if known.contains_key(sig) {
            continue;
        }
        bad += 1;
        let path = format!("{VERIF}/replays/{}-{:016x}.json", ch.id, hash_str(sig));
        let j = json!({"property": ch.id, "seed": seed, "tier": if tier==Tier::Quick {"quick"} else {"thorough"},
            "case": idx, "signature": sig, "message": v.msg, "artefact": v.artefact, "times": n,
            "replay_cmd": format!("/verif/check.sh --replay {path}")});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        if lines.len() < std::env::var("MON_ALL").map_or(12, |_| 100000) {
            lines.push(format!("VIOLATION property={} replay={}", ch.id, path));
            eprintln!("[{}] case {} x{}: {}\n    {}", ch.id, idx, n, sig, v.msg.chars().take(600).collect::<String>());
        }
    }
    for (sig, desc) in &known {
        let seen = sigs.get(sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} [seen {} times in this run]", ch.id, desc, seen);
    }
    if inc.len() > 12 {
        let mut v: Vec<(String, u64)> = inc.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        let rest: u64 = v.drain(11..).map(|x| x.1).sum();
        inc = v.into_iter().collect();
        inc.insert("other".into(), rest);
    }
    samples.sort();
    let samples: Vec<String> = samples.into_iter().map(|x| x.1).take(6).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": ch.id,
        "tier": if tier==Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": keys.len(),
            "rule": ch.rule,
            "samples": samples,
            "cases_run": cases,
            "cases_planned": total,
            "stopped_by_time_budget": unstarted,
            "observed_events": counters,
            "inconclusive": inc,
        },
        "assumptions": ch.assumptions,
        "wall_s": wall,
        "violations": bad,
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{}.json", ch.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {} violations, inconclusive {:?}, {:.1}s",
        ch.id, cases, evals, keys.len(), bad, inc, wall
    );
    for (k, v) in &counters {
        println!("    {k}: {v}");
    }
    if bad > 0 {
        for l in lines {
            println!("{l}");
        }
        return 1;
    }
    if keys.len() < ch.min_nontrivial {
        println!("{}: INCONCLUSIVE: only {} non-trivial cases observed (need {})", ch.id, keys.len(), ch.min_nontrivial);
        return 2;
    }
    0
}

pub fn replay(ch: &'static Check, tier: Tier, seed: u64, idx: usize) -> i32 {
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let c = run_case(ch, tier, seed, idx, true);
            println!("evals {} keys {} counters {:?} inconclusive {:?}", c.evals, c.keys.len(), c.counters, c.inconclusive);
            for s in &c.samples {
                println!("sample: {s}");
            }
            c.viols.len()
        })
        .unwrap();
    let n = h.join().unwrap();
    println!("{n} violations");
    (n > 0) as i32
}
