//! Compiles programs with the real compiler (through its Python interface, in a
//! helper process) and runs the machine code on a monitored runtime.
//!
//! The runtime functions that the compiled code calls are implemented on the state
//! of the reference interpreter, so that both see the same measurement branches,
//! and watch the rules of the runtime: no use of freed qubits, futures or memory,
//! no writes outside of an allocation, one setup and one teardown.
use crate::interp::{self, Cfg, Interp, Stop, Val, R};
use crate::qstate::*;
use crate::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use tket::hugr::llvm::inkwell::{
    context::Context, memory_buffer::MemoryBuffer, module::Module, targets::{InitializationConfig, Target}, OptimizationLevel,
};

// ------------------------------------------------------------------ compiler

const WORKER: &str = r#"
import sys, struct, ctypes, os
ctypes.CDLL(None).prctl(1, 9)
sys.path.insert(0, sys.argv[1])
import selene_hugr_qis_compiler as c
i, o = sys.stdin.buffer, sys.stdout.buffer
def rd(n):
    b = b""
    while len(b) < n:
        x = i.read(n - len(b))
        if not x: os._exit(0)
        b += x
    return b
while True:
    n, what, opt, t = struct.unpack("<IBBB", rd(7))
    triple = rd(t).decode()
    b = rd(n)
    try:
        if what == 0: r = c.compile_to_bitcode(b, opt, triple)
        elif what == 1: r = c.compile_to_llvm_ir(b, opt, triple).encode()
        else:
            c.check_hugr(b)
            r = b""
        s, r = 0, bytes(r)
    except Exception as e: s, r = 1, (type(e).__name__ + ": " + str(e)).encode()
    except BaseException as e: s, r = 2, (type(e).__name__ + ": " + str(e)).encode()
    o.write(struct.pack("<BI", s, len(r)) + r)
    o.flush()
"#;

pub enum Compiled {
    Ok(Vec<u8>),
    Error(String),
    /// The compiler panicked.
    Panic(String),
    /// The compiler died.
    Died(String),
}

pub struct Compiler {
    child: Child,
}

impl Compiler {
    pub fn start() -> std::io::Result<Compiler> {
        let exe = std::env::current_exe()?;
        let dir = exe.parent().unwrap();
        let stage = dir.join("pymod");
        std::fs::create_dir_all(&stage)?;
        let link = stage.join("selene_hugr_qis_compiler.abi3.so");
        if !link.exists() {
            // several workers may do this at once
            let _ = std::os::unix::fs::symlink(dir.join("libselene_hugr_qis_compiler.so"), &link);
        }
        let child = Command::new("/usr/bin/python3.12")
            .args(["-I", "-S", "-c", WORKER])
            .arg(&stage)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .env("RUST_BACKTRACE", "0")
            .spawn()?;
        Ok(Compiler { child })
    }
    /// `what`: 0 bitcode, 1 text, 2 only check.
    pub fn call(&mut self, what: u8, bytes: &[u8], opt: u8, triple: &str) -> Compiled {
        let mut req = (bytes.len() as u32).to_le_bytes().to_vec();
        req.extend([what, opt, triple.len() as u8]);
        req.extend(triple.as_bytes());
        req.extend(bytes);
        let mut head = [0u8; 5];
        let res = (|| {
            let i = self.child.stdin.as_mut().unwrap();
            i.write_all(&req)?;
            i.flush()?;
            let o = self.child.stdout.as_mut().unwrap();
            o.read_exact(&mut head)?;
            let mut b = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
            o.read_exact(&mut b)?;
            std::io::Result::Ok(b)
        })();
        match (res, head[0]) {
            (Ok(b), 0) => Compiled::Ok(b),
            (Ok(b), 1) => Compiled::Error(String::from_utf8_lossy(&b).into_owned()),
            (Ok(b), _) => Compiled::Panic(String::from_utf8_lossy(&b).into_owned()),
            (Err(_), _) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                if let Ok(c) = Compiler::start() {
                    *self = c;
                }
                Compiled::Died(st)
            }
        }
    }
}
impl Drop for Compiler {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ------------------------------------------------------------------- runtime

std::arch::global_asm!(
    ".globl mon_call_escape",
    "mon_call_escape:",
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "mov [rdx], rsp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    "xor eax, eax",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
    ".globl mon_escape",
    "mon_escape:",
    "mov rsp, [rdi]",
    "mov eax, 1",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
);
extern "C" {
    /// Calls `f(arg)`; 0 if it returns, 1 if it is left through `mon_escape`.
    fn mon_call_escape(f: usize, arg: u64, buf: *mut usize) -> u32;
    fn mon_escape(buf: *const usize) -> !;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, v: &[u64; 2]) -> i32;
    fn prctl(o: i32, ...) -> i32;
    fn malloc(n: usize) -> *mut u8;
    fn dlsym(h: *const u8, name: *const u8) -> usize;
}

const GUARD: usize = 32;
const FILL: u8 = 0xC7;

struct Rt {
    it: *mut Interp<'static>,
    jb: [usize; 1],
    stop: Option<Stop>,
    futures: Vec<(u64, bool, i64)>,
    heap: BTreeMap<usize, (usize, bool)>,
    total: usize,
    rng: Option<(u64, u64)>,
    shot: u64,
    setup: u32,
    teardown: u32,
    errors: BTreeSet<String>,
    calls: BTreeMap<&'static str, u64>,
}
static mut RT: *mut Rt = std::ptr::null_mut();

fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
fn it() -> &'static mut Interp<'static> {
    unsafe { &mut *rt().it }
}
fn seen(k: &'static str) {
    *rt().calls.entry(k).or_default() += 1;
    if rt().teardown > 0 || rt().setup == 0 {
        stop(Stop::Fault(format!("{k} called outside of setup and teardown")));
    }
}
fn stop(s: Stop) -> ! {
    let r = rt();
    r.stop = Some(s);
    unsafe { mon_escape(r.jb.as_ptr()) }
}
fn fault(s: impl Into<String>) -> ! {
    stop(Stop::Fault(s.into()))
}
fn ok<T>(r: R<T>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => stop(e),
    }
}

extern "C" fn setup(_: u64) {
    rt().setup += 1;
    if rt().setup > 1 {
        fault("setup called twice");
    }
}
extern "C" fn teardown() -> u64 {
    seen("teardown");
    rt().teardown += 1;
    42
}
extern "C" fn qalloc() -> u64 {
    seen("qalloc");
    let q = ok(it().alloc());
    // the runtime does not promise a state
    ok(it().gate(&g_x(), &[q]));
    q as u64
}
fn qb(q: u64) -> u32 {
    u32::try_from(q).unwrap_or_else(|_| fault(format!("a gate on qubit {q}")))
}
extern "C" fn qfree(q: u64) {
    seen("qfree");
    ok(it().kill(qb(q)));
}
extern "C" fn reset(q: u64) {
    seen("reset");
    ok(it().reset(qb(q)));
}
fn gate(name: &str, m: Mat, qs: &[u32]) {
    ok(it().gate(&m, qs));
    it().gates.push((name.into(), qs.to_vec()));
}
const PI: f64 = std::f64::consts::PI;
fn fin(a: f64) -> f64 {
    if a.is_finite() {
        a / PI
    } else {
        stop(Stop::Unsupported("a gate with a non-finite angle".into()))
    }
}
extern "C" fn rz(q: u64, a: f64) {
    seen("rz");
    gate("Rz", g_rz(fin(a)), &[qb(q)]);
}
extern "C" fn rxy(q: u64, a: f64, b: f64) {
    seen("rxy");
    gate("PhasedX", g_phasedx(fin(a), fin(b)), &[qb(q)]);
}
extern "C" fn rzz(q: u64, p: u64, a: f64) {
    seen("rzz");
    if q == p {
        fault("rzz on one qubit twice");
    }
    gate("ZZPhase", g_zzphase(fin(a)), &[qb(q), qb(p)]);
}
extern "C" fn measure(q: u64) -> bool {
    seen("measure");
    ok(it().measure(qb(q), false))
}
fn future(v: u64, boolean: bool) -> u64 {
    rt().futures.push((v, boolean, 1));
    rt().futures.len() as u64 + 7000
}
extern "C" fn lazy_measure(q: u64) -> u64 {
    seen("lazy_measure");
    future(ok(it().measure(qb(q), false)) as u64, true)
}
extern "C" fn lazy_measure_leaked(q: u64) -> u64 {
    seen("lazy_measure_leaked");
    future(ok(it().measure(qb(q), false)) as u64, false)
}
fn fut(f: u64) -> &'static mut (u64, bool, i64) {
    match rt().futures.get_mut((f as usize).wrapping_sub(7001)) {
        None => fault(format!("use of {f}, which is not a future")),
        Some(x) if x.2 <= 0 => fault("use of a freed future"),
        Some(x) => x,
    }
}
extern "C" fn read_future_bool(f: u64) -> bool {
    seen("read_future_bool");
    let x = fut(f);
    if !x.1 {
        fault("a future number is read as a bool");
    }
    x.0 != 0
}
extern "C" fn read_future_uint(f: u64) -> u64 {
    seen("read_future_uint");
    let x = fut(f);
    if x.1 {
        fault("a future bool is read as a number");
    }
    x.0
}
extern "C" fn inc_future(f: u64) {
    seen("inc_future_refcount");
    fut(f).2 += 1;
}
extern "C" fn dec_future(f: u64) {
    seen("dec_future_refcount");
    fut(f).2 -= 1;
}

fn text(p: *const u8) -> String {
    let n = unsafe { *p } as usize;
    let b = unsafe { std::slice::from_raw_parts(p.add(1), n) };
    match std::str::from_utf8(b) {
        Ok(s) => s.into(),
        Err(_) => fault("a string of the program is cut inside a character"),
    }
}
fn tag(p: *const u8, n: u64, pre: &str) -> String {
    let t = text(p);
    if t.len() as u64 != n {
        fault(format!("a tag of length {} passed with length {n}", t.len()));
    }
    match t.strip_prefix(pre) {
        Some(t) => t.to_string(),
        None => fault(format!("tag {t} does not begin with {pre}")),
    }
}
fn event(op: &str, tag: String, v: String) {
    it().trace.push(format!("{op}:{tag}={v}"));
}
extern "C" fn print_bool(p: *const u8, n: u64, v: u32) {
    seen("print_bool");
    event("result_bool", tag(p, n, "USER:BOOL:"), format!("{}", v & 1));
}
extern "C" fn print_int(p: *const u8, n: u64, v: u64) {
    seen("print_int");
    event("result_int", tag(p, n, "USER:INT:"), format!("{}", v as i64));
}
extern "C" fn print_uint(p: *const u8, n: u64, v: u64) {
    seen("print_uint");
    event("result_uint", tag(p, n, "USER:INT:"), format!("i{v}"));
}
extern "C" fn print_float(p: *const u8, n: u64, v: f64) {
    seen("print_float");
    event("result_f64", tag(p, n, "USER:FLOAT:"), interp::fmt_f(v));
}
#[repr(C, packed)]
struct Arr {
    x: i32,
    y: i32,
    data: *const u8,
    mask: *const u8,
}
fn elems<T: Copy>(a: *const Arr) -> Vec<T> {
    let (x, y, d, m) = unsafe { ((*a).x, (*a).y, (*a).data, (*a).mask) };
    if y != 1 || x < 0 {
        fault(format!("an array of shape {x} x {y}"));
    }
    for i in 0..x as usize {
        if unsafe { *m.add(i) } & 1 != 0 {
            fault("an array whose mask hides elements");
        }
    }
    // inside one allocation
    let at = d as usize;
    if x > 0 {
        if let Some((lo, (n, live))) = rt().heap.range(..=at).next_back() {
            if at < lo + n + GUARD && (at + x as usize * std::mem::size_of::<T>() > lo + n || !live) {
                fault("an array reaches outside of its memory");
            }
        }
    }
    (0..x as usize).map(|i| unsafe { d.cast::<T>().add(i).read_unaligned() }).collect()
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
extern "C" fn print_bool_arr(p: *const u8, n: u64, a: *const Arr) {
    seen("print_bool_arr");
    let v = elems::<u8>(a).iter().map(|v| format!("{}", v & 1)).collect();
    event("result_array_bool", tag(p, n, "USER:BOOLARR:"), list(v));
}
extern "C" fn print_int_arr(p: *const u8, n: u64, a: *const Arr) {
    seen("print_int_arr");
    let v = elems::<i64>(a).iter().map(|v| format!("{v}")).collect();
    event("result_array_int", tag(p, n, "USER:INTARR:"), list(v));
}
extern "C" fn print_uint_arr(p: *const u8, n: u64, a: *const Arr) {
    seen("print_uint_arr");
    let v = elems::<u64>(a).iter().map(|v| format!("i{v}")).collect();
    event("result_array_uint", tag(p, n, "USER:INTARR:"), list(v));
}
extern "C" fn print_float_arr(p: *const u8, n: u64, a: *const Arr) {
    seen("print_float_arr");
    let v = elems::<f64>(a).iter().map(|v| interp::fmt_f(*v)).collect();
    event("result_array_f64", tag(p, n, "USER:FLOATARR:"), list(v));
}
extern "C" fn print_state_result(p: *const u8, n: u64, a: *const Arr) {
    seen("print_state_result");
    let qs = elems::<u64>(a);
    let mut d = BTreeSet::new();
    for q in &qs {
        if it().st.pos(qb(*q)).is_none() || !d.insert(*q) {
            fault("the state of a freed qubit, or of one qubit twice");
        }
    }
    it().trace.push(format!("state:{:?}={}q", tag(p, n, "USER:STATE:"), qs.len()));
}
fn halt(ev: String) -> ! {
    it().trace.push(ev);
    stop(Stop::Halt)
}
extern "C" fn panic_fn(code: u32, p: *const u8) {
    seen("panic");
    let t = text(p);
    let Some(m) = t.strip_prefix("EXIT:INT:") else { fault(format!("panic message {t}")) };
    // the codes of panics are shifted by 1000
    for (kind, from) in [("panic", 1000), ("exit", 0)] {
        if code >= from && (kind == "panic" || code <= 1000) {
            let ev = format!("{kind}:{}", Val::Err(code - from, m.into()).canon());
            if rt().errors.contains(&ev) {
                halt(ev)
            }
        }
    }
    let kind = if code > 1000 { "panic" } else { "exit" };
    halt(format!("{kind}:implicit"))
}
extern "C" fn panic_str(_: u32, _: *const u8) {
    seen("panic_str");
    halt("panic:implicit".into())
}
extern "C" fn abort_fn() {
    seen("abort");
    halt("panic:implicit".into())
}

extern "C" fn heap_alloc(n: u64) -> *mut u8 {
    seen("heap_alloc");
    rt().total += n as usize;
    if n > 1 << 24 || rt().total > 1 << 26 {
        stop(Stop::Unsupported("too much memory".into()));
    }
    unsafe {
        let n = n as usize;
        let p = malloc(n + 2 * GUARD);
        std::ptr::write_bytes(p, FILL, n + 2 * GUARD);
        let a = p.add(GUARD);
        rt().heap.insert(a as usize, (n, true));
        a
    }
}
fn guards(a: usize, n: usize, live: bool) {
    for i in (0..GUARD).chain(GUARD + n..2 * GUARD + n) {
        if unsafe { *((a - GUARD + i) as *const u8) } != FILL {
            fault(format!("a write outside of an allocation of {n} bytes (at {})", i as i64 - GUARD as i64));
        }
    }
    if !live && (0..n).any(|i| unsafe { *((a + i) as *const u8) } != FILL) {
        fault("a write to freed memory");
    }
}
extern "C" fn heap_free(p: *mut u8) {
    seen("heap_free");
    let a = p as usize;
    match rt().heap.get_mut(&a) {
        None => fault("free of a pointer that was not allocated"),
        Some((_, false)) => fault("double free"),
        Some((n, live)) => {
            guards(a, *n, true);
            // kept, so that later uses show
            unsafe { std::ptr::write_bytes(p, FILL, *n) };
            *live = false;
        }
    }
}
fn raw() -> u64 {
    let Some((s, p)) = rt().rng.as_mut() else { fault("random number without a seed") };
    *p += 1;
    mix(mix(*s) ^ (*p - 1))
}
extern "C" fn random_seed(s: u64) {
    seen("random_seed");
    it().trace.push(format!("rng_new({s})"));
    rt().rng = Some((s, 0));
}
extern "C" fn random_int() -> u32 {
    seen("random_int");
    raw() as u32
}
extern "C" fn random_float() -> f64 {
    seen("random_float");
    (raw() >> 11) as f64 / (1u64 << 53) as f64
}
extern "C" fn random_rng(b: u32) -> u32 {
    seen("random_rng");
    let r = raw();
    if b == 0 {
        0
    } else {
        (r % b as u64) as u32
    }
}
extern "C" fn random_advance(d: u64) {
    seen("random_advance");
    match rt().rng.as_mut() {
        Some(x) => x.1 = x.1.wrapping_add(d),
        None => fault("random_advance without a seed"),
    }
}
extern "C" fn get_current_shot() -> u64 {
    seen("get_current_shot");
    rt().shot
}

fn table() -> Vec<(&'static str, usize)> {
    vec![
        ("setup", setup as *const () as usize),
        ("teardown", teardown as *const () as usize),
        ("___qalloc", qalloc as *const () as usize),
        ("___qfree", qfree as *const () as usize),
        ("___reset", reset as *const () as usize),
        ("___rz", rz as *const () as usize),
        ("___rxy", rxy as *const () as usize),
        ("___rzz", rzz as *const () as usize),
        ("___measure", measure as *const () as usize),
        ("___lazy_measure", lazy_measure as *const () as usize),
        ("___lazy_measure_leaked", lazy_measure_leaked as *const () as usize),
        ("___read_future_bool", read_future_bool as *const () as usize),
        ("___read_future_uint", read_future_uint as *const () as usize),
        ("___inc_future_refcount", inc_future as *const () as usize),
        ("___dec_future_refcount", dec_future as *const () as usize),
        ("print_bool", print_bool as *const () as usize),
        ("print_int", print_int as *const () as usize),
        ("print_uint", print_uint as *const () as usize),
        ("print_float", print_float as *const () as usize),
        ("print_bool_arr", print_bool_arr as *const () as usize),
        ("print_int_arr", print_int_arr as *const () as usize),
        ("print_uint_arr", print_uint_arr as *const () as usize),
        ("print_float_arr", print_float_arr as *const () as usize),
        ("print_state_result", print_state_result as *const () as usize),
        ("panic", panic_fn as *const () as usize),
        ("panic_str", panic_str as *const () as usize),
        ("abort", abort_fn as *const () as usize),
        ("heap_alloc", heap_alloc as *const () as usize),
        ("heap_free", heap_free as *const () as usize),
        ("random_seed", random_seed as *const () as usize),
        ("random_int", random_int as *const () as usize),
        ("random_float", random_float as *const () as usize),
        ("random_rng", random_rng as *const () as usize),
        ("random_advance", random_advance as *const () as usize),
        ("get_current_shot", get_current_shot as *const () as usize),
    ]
}

// ----------------------------------------------------------------- execution

#[derive(Default, Debug, serde::Serialize, serde::Deserialize)]
pub struct Native {
    /// probability of each trace
    pub map: BTreeMap<String, f64>,
    pub paths: usize,
    pub calls: BTreeMap<String, u64>,
}
pub enum Ran {
    Ok(Native),
    /// The code broke a rule of the runtime.
    Fault(String),
    Unsupported(String),
    /// The module is broken.
    BadModule(String),
    /// The code crashed or did not end.
    Died(String),
}

fn load<'c>(ctx: &'c Context, bc: &[u8]) -> Result<Module<'c>, String> {
    let buf = MemoryBuffer::create_from_memory_range_copy(bc, "bc");
    let m = Module::parse_bitcode_from_buffer(&buf, ctx).map_err(|e| format!("bitcode: {e}"))?;
    m.verify().map_err(|e| format!("verifier: {e}"))?;
    Ok(m)
}

fn child(bc: &[u8], cfg: &Cfg, errors: &BTreeSet<String>) -> Result<Native, (u8, String)> {
    let bad = |s: String| (2u8, s);
    let ctx = Context::create();
    let m = load(&ctx, bc).map_err(bad)?;
    let t = table();
    let mut f = m.get_first_function();
    let ee = m.create_jit_execution_engine(OptimizationLevel::None).map_err(|e| bad(format!("jit: {e}")))?;
    while let Some(x) = f {
        f = x.get_next_function();
        if x.count_basic_blocks() > 0 || x.get_intrinsic_id() != 0 {
            continue;
        }
        let name = x.get_name().to_str().unwrap_or("").to_string();
        match t.iter().find(|(n, _)| *n == name) {
            Some((_, a)) => ee.add_global_mapping(&x, *a),
            None => {
                let c = std::ffi::CString::new(name.clone()).unwrap();
                if unsafe { dlsym(std::ptr::null(), c.as_ptr().cast()) } == 0 || name.starts_with("print") || name.starts_with("_") {
                    return Err((1, format!("external function {name}")));
                }
            }
        }
    }
    let Ok(main) = ee.get_function_address("qmain") else {
        return Err(bad("there is no qmain".into()));
    };
    let mut calls: BTreeMap<String, u64> = BTreeMap::new();
    let calls_cell = std::cell::RefCell::new(&mut calls);
    let body = |i: &mut Interp, _: Vec<Val>| -> R<Vec<Val>> {
        let mut r = Rt {
            it: (i as *mut Interp).cast(),
            jb: [0],
            stop: None,
            futures: vec![],
            heap: BTreeMap::new(),
            total: 0,
            rng: None,
            shot: cfg.shot,
            setup: 0,
            teardown: 0,
            errors: errors.clone(),
            calls: BTreeMap::new(),
        };
        let jb = r.jb.as_mut_ptr();
        unsafe {
            RT = &mut r;
            let p = RT;
            let left = mon_call_escape(main, 5, jb);
            let r = &mut *p;
            if left == 0 && (r.setup, r.teardown) != (1, 1) {
                r.stop = Some(Stop::Fault(format!("setup called {} and teardown {} times", r.setup, r.teardown)));
            }
            if matches!(r.stop, None | Some(Stop::Halt)) {
                // look for writes outside of the allocations
                let heap: Vec<_> = r.heap.iter().map(|(a, (n, l))| (*a, *n, *l)).collect();
                extern "C" fn scan(v: u64) {
                    let v = unsafe { &*(v as *const Vec<(usize, usize, bool)>) };
                    v.iter().for_each(|(a, n, l)| guards(*a, *n, *l));
                }
                let keep = r.stop.take();
                if mon_call_escape(scan as *const () as usize, &heap as *const _ as u64, jb) == 0 {
                    (*p).stop = keep;
                }
            }
            let r = &mut *p;
            for (k, n) in &r.calls {
                *calls_cell.borrow_mut().entry(k.to_string()).or_default() += n;
            }
            match r.stop.take() {
                Some(e) => Err(e),
                None => Ok(vec![]),
            }
        }
    };
    let out = match interp::run_with(&[], 1, cfg, &body) {
        Ok(o) => o,
        Err(Stop::Fault(s)) => return Err((0, s)),
        Err(Stop::Unsupported(s)) => return Err((1, s)),
        Err(Stop::Halt) => return Err((1, "halt".into())),
    };
    let w = |vs: &Vec<Vec<C>>| vs.iter().map(|v| v.iter().map(|x| x.n2()).sum::<f64>()).sum::<f64>();
    Ok(Native { map: out.map.iter().map(|(k, v)| (k.clone(), w(v))).collect(), paths: out.paths, calls })
}

/// Run the `qmain` of a bitcode module over all measurement branches, in a process
/// of its own.
pub fn run(bc: &[u8], cfg: &Cfg, errors: &BTreeSet<String>) -> Ran {
    use std::os::fd::FromRawFd;
    static INIT: std::sync::Once = std::sync::Once::new();
    INIT.call_once(|| {
        let _ = Target::initialize_native(&InitializationConfig::default());
    });
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return Ran::Unsupported("no pipe".into());
        }
        let pid = fork();
        if pid < 0 {
            close(fds[0]);
            close(fds[1]);
            return Ran::Unsupported("no fork".into());
        }
        if pid == 0 {
            prctl(1, 9);
            alarm(100);
            setrlimit(0, &[30u64, 40]);
            close(fds[0]);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| child(bc, cfg, errors)));
            let res = res.unwrap_or_else(|_| Err((3, "the monitor panicked".into())));
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(serde_json::to_string(&res).unwrap_or_default().as_bytes());
            let _ = f.flush();
            _exit(0);
        }
        close(fds[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            return match st & 0x7f {
                24 => Ran::Died("does not end".into()),
                9 | 14 => Ran::Unsupported("killed".into()),
                k => Ran::Died(format!("signal {k}")),
            };
        }
        match serde_json::from_str::<Result<Native, (u8, String)>>(&s) {
            Ok(Ok(n)) => Ran::Ok(n),
            Ok(Err((0, s))) => Ran::Fault(s),
            Ok(Err((2, s))) => Ran::BadModule(s),
            Ok(Err((_, s))) => Ran::Unsupported(s),
            Err(e) => Ran::Unsupported(format!("no answer: {e}")),
        }
    }
}

/// Does the module load and verify?
pub fn verify(bc: &[u8]) -> Result<(), String> {
    let ctx = Context::create();
    load(&ctx, bc).map(|_| ())
}
