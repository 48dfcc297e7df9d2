//! Seeded search over fork-isolated runs; shrinking; replay; evidence.
use crate::json::{obj, J};
use crate::rng::{hash_bytes, mix, Rng};
use crate::tape::{self, Chooser, Src};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub const TAPE_CAP: usize = 1 << 19;
const TRACE_CAP: usize = 1 << 20;
const NSTAT: usize = 512;

#[repr(C)]
pub struct Shm {
    status: u64, // 0 running/died, 1 violation, 2 ok, 3 harness error, 4 discarded
    nontrivial: u64,
    hash: u64,
    steps: u64,
    tape_len: u64,
    trace_on: u64,
    trace_len: u64,
    lowest: AtomicU64, // lowest violating index over all workers (only in the parent's block)
    kind: [u8; 128],
    msg: [u8; 4096],
    stats: [u64; NSTAT],
    stat_names: [u8; NSTAT * 48],
    nstats: u64,
    tape: [u32; TAPE_CAP],
    trace: [u8; TRACE_CAP],
}
static mut SHM: *mut Shm = std::ptr::null_mut();
fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
unsafe fn map_shm() -> *mut Shm {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<Shm>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut Shm
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

// ---------------------------------------------------------------- API used inside a run

/// Count one occurrence of a named fault / probe / size. Names: "fault.x", "probe.x", "sum.x".
pub fn stat(name: &'static str) {
    stat_add(name, 1)
}
pub fn stat_add(name: &'static str, n: u64) {
    let s = shm();
    let k = s.nstats as usize;
    for i in 0..k {
        let slot = &s.stat_names[i * 48..i * 48 + 48];
        let b = name.as_bytes();
        if slot[b.len()] == 0 && &slot[..b.len()] == b {
            s.stats[i] += n;
            return;
        }
    }
    if k < NSTAT {
        put(&mut s.stat_names[k * 48..k * 48 + 48], name);
        s.stats[k] = n;
        s.nstats = k as u64 + 1;
    }
}
pub fn trace_enabled() -> bool {
    shm().trace_on != 0
}
pub fn trace(line: &str) {
    let s = shm();
    if s.trace_on == 0 {
        return;
    }
    let b = line.as_bytes();
    let n = s.trace_len as usize;
    if n + b.len() + 1 < TRACE_CAP {
        s.trace[n..n + b.len()].copy_from_slice(b);
        s.trace[n + b.len()] = b'\n';
        s.trace_len = (n + b.len() + 1) as u64;
    }
}
/// One event of the run's history: always hashed, written out only when tracing.
pub fn ev(name: &'static str, a: u64, b: u64) {
    let s = shm();
    s.hash = mix(mix(s.hash, hash_bytes(name.as_bytes())), mix(a, b));
    if s.trace_on != 0 {
        trace(&format!("{name} {} {}", a as i64, b as i64));
    }
}
pub fn ev_bytes(name: &'static str, b: &[u8]) {
    let s = shm();
    s.hash = mix(mix(s.hash, hash_bytes(name.as_bytes())), hash_bytes(b));
    if s.trace_on != 0 {
        let shown: String = String::from_utf8_lossy(&b[..b.len().min(80)]).escape_debug().collect();
        trace(&format!("{name} len={} \"{}\"{}", b.len(), shown, if b.len() > 80 { "..." } else { "" }));
    }
}
pub fn steps_add(n: u64) {
    shm().steps += n;
}
pub fn set_nontrivial() {
    shm().nontrivial = 1;
}
static mut TAG: String = String::new();
/// Names the run's input in the message of a violation.
#[allow(static_mut_refs)]
pub fn set_tag(t: String) {
    unsafe { TAG = t }
}
/// End the run: the property is violated.
#[allow(static_mut_refs)]
pub fn violation(kind: &str, msg: &str) -> ! {
    let s = shm();
    put(&mut s.kind, kind);
    let tag = unsafe { &TAG };
    if tag.is_empty() {
        put(&mut s.msg, msg);
    } else {
        let mut n = msg.len().min(3800);
        while !msg.is_char_boundary(n) {
            n -= 1;
        }
        put(&mut s.msg, &format!("{} [{tag}]", &msg[..n]));
    }
    s.status = 1;
    unsafe { libc::_exit(0) }
}
pub fn harness_error(msg: &str) -> ! {
    let s = shm();
    put(&mut s.kind, "harness");
    put(&mut s.msg, msg);
    s.status = 3;
    unsafe { libc::_exit(0) }
}
/// End the run without judging it (outside the property's precondition).
pub fn discard(why: &'static str) -> ! {
    stat(why);
    shm().status = 4;
    unsafe { libc::_exit(0) }
}
pub fn finish() -> ! {
    shm().status = 2;
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------- running one tape

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Discard,
    Violation(String, String),
    Harness(String),
}
#[derive(Clone)]
pub struct Outcome {
    pub end: End,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub tape: Vec<u32>,
    pub trace: String,
}
pub type CrashFn = fn(sig: i32, addr: usize, ip: usize) -> String;
pub struct Spec {
    pub property: &'static str,
    pub run: fn(),
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// CPU seconds after which one run counts as hung.
    pub hang_secs: i64,
    /// Counters that must not stay at zero over a whole quick batch (reach probes).
    pub must_reach: &'static [&'static str],
    /// Number of directed scenarios, run before the generated ones.
    pub directed: u32,
    /// Kinds of violation that recorded findings also produce, at a low rate, for inputs beyond those on
    /// which this tree was recorded (another seed, deeper runs): reported once they exceed SOFT_ALLOW.
    pub soft: &'static [&'static str],
}
/// Seed and number of runs over which every recorded finding is listed by its input.
const LISTED_SEED: u64 = 1;
const LISTED_RUNS: u64 = 4000;
fn soft_allow(runs: u64) -> u64 {
    4 + runs / 250
}
static mut CRASH: Option<CrashFn> = None;
pub fn set_crash_describer(f: CrashFn) {
    unsafe { CRASH = Some(f) }
}
static mut TRAP: Option<fn(i32, usize, usize) -> bool> = None;
/// Called first on a fatal signal; may end the simulated process instead (and then does not return).
pub fn set_trap_hook(f: fn(i32, usize, usize) -> bool) {
    unsafe { TRAP = Some(f) }
}
extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        if sig == libc::SIGVTALRM {
            violation("hang", "the run used its CPU budget without finishing (no progress)");
        }
        let addr = (*info).si_addr() as usize;
        let ip = (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if let Some(f) = TRAP {
            f(sig, addr, ip);
        }
        let d = match CRASH {
            Some(f) => f(sig, addr, ip),
            None => String::new(),
        };
        violation(&format!("signal-{sig}"), &format!("the simulated process died of signal {sig} at address {addr:#x}, ip {ip:#x}; {d}"));
    }
}
unsafe fn install_handlers(hang_secs: i64) {
    let sz = 256 * 1024;
    let st = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
    let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: sz };
    libc::sigaltstack(&ss, std::ptr::null_mut());
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP, libc::SIGVTALRM] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(s, &sa, std::ptr::null_mut());
    }
    let it = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: hang_secs, tv_usec: 0 },
    };
    libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
}

/// Execute one run in a forked child.
pub fn run_once(spec: &Spec, src: Src, trace_on: bool) -> Outcome {
    run_job(spec, src, trace_on, 0)
}
pub fn run_job(spec: &Spec, src: Src, trace_on: bool, directed: u32) -> Outcome {
    let s = shm();
    s.status = 0;
    s.nontrivial = 0;
    s.hash = 0;
    s.steps = 0;
    s.trace_on = trace_on as u64;
    s.trace_len = 0;
    s.tape_len = 0;
    s.kind[0] = 0;
    s.msg[0] = 0;
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            install_handlers(spec.hang_secs);
            libc::alarm(300); // wall limit: only a harness problem gets there
            tape::install(Chooser::new(src, s.tape.as_mut_ptr(), TAPE_CAP, &mut s.tape_len));
            tape::ch().directed = directed;
            std::panic::set_hook(Box::new(|i| {
                let bt = if std::env::var_os("SIM_BT").is_some() { std::backtrace::Backtrace::force_capture().to_string() } else { String::new() };
                if crate::runner::PANIC_IS_VIOLATION.load(Ordering::Relaxed) == 0 {
                    harness_error(&format!("panic: {i} {bt}"));
                }
                LAST_PANIC.with(|p| *p.borrow_mut() = format!("{i} {bt}"));
            }));
            (spec.run)();
            if tape::ch().overflow {
                stat("probe.tape_overflow");
            }
            finish();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let end = match s.status {
            1 => End::Violation(get(&s.kind), get(&s.msg)),
            2 => End::Ok,
            4 => End::Discard,
            3 => End::Harness(get(&s.msg)),
            _ => {
                if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    if sig == libc::SIGKILL || sig == libc::SIGALRM {
                        End::Harness(format!("run was killed by signal {sig}"))
                    } else {
                        End::Violation(format!("signal-{sig}"), format!("the simulated process died of signal {sig}"))
                    }
                } else {
                    End::Violation("unexpected-exit".into(), format!("the simulated process exited with status {st:#x} outside the simulated exit path"))
                }
            }
        };
        Outcome {
            end,
            hash: s.hash,
            steps: s.steps,
            nontrivial: s.nontrivial != 0,
            tape: s.tape[..s.tape_len as usize].to_vec(),
            trace: String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned(),
        }
    }
}
pub static PANIC_IS_VIOLATION: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Run repository code that may panic; a panic is returned as its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC_IS_VIOLATION.fetch_add(1, Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    PANIC_IS_VIOLATION.fetch_sub(1, Ordering::Relaxed);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Run `f` in a forked copy of the current run (same tape, same history), k-th of its kind. The copy ends
/// with finish(), violation() or harness_error(); anything but finish() also ends this run.
pub fn sub(k: u64, hang_secs: i64, f: impl FnOnce()) {
    unsafe {
        let s = shm();
        s.status = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            install_handlers(hang_secs);
            tape::ch().resync(2 * k + 1);
            f();
            finish();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        match s.status {
            2 => {}
            1 | 3 | 4 => libc::_exit(0),
            _ => {
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                    harness_error("part of a run was killed");
                }
                violation("unexpected-exit", &format!("the simulated process ended with status {st:#x} outside the simulated exit path"));
            }
        }
        s.status = 0;
        tape::ch().resync(2 * k + 2);
    }
}

// ---------------------------------------------------------------- shrinking

/// The same kind of violation; a text after '|' must occur in the message as well.
fn same(o: &Outcome, kind: &str) -> bool {
    let (kind, has) = kind.split_once('|').unwrap_or((kind, ""));
    matches!(&o.end, End::Violation(k, m) if k == kind && m.contains(has))
}
pub fn shrink(spec: &Spec, tape0: Vec<u32>, kind: &str, max_secs: u64) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = tape0;
    let mut tries = 0u64;
    let attempt = |cand: Vec<u32>, best: &mut Vec<u32>, tries: &mut u64| -> bool {
        *tries += 1;
        let o = run_once(spec, Src::Replay(cand, 0), false);
        if same(&o, kind) {
            // the run's own recording is canonical (clamped, trailing part dropped)
            let t = o.tape;
            let better = t.len() < best.len() || (t.len() == best.len() && t.iter().map(|&x| x as u64).sum::<u64>() < best.iter().map(|&x| x as u64).sum::<u64>());
            if better {
                *best = t;
                return true;
            }
        }
        false
    };
    let over = |tries: u64| t0.elapsed().as_secs() >= max_secs || tries > 6000;
    loop {
        let before = best.clone();
        // truncate
        let mut n = best.len() / 2;
        while n > 0 && !over(tries) {
            if best.len() > n {
                let c = best[..best.len() - n].to_vec();
                if attempt(c, &mut best, &mut tries) {
                    n = n.min(best.len() / 2).max(1);
                    continue;
                }
            }
            n /= 2;
        }
        // delete chunks
        let mut sz = (best.len() / 4).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && !over(tries) {
                let lo = i.saturating_sub(sz);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                attempt(c, &mut best, &mut tries);
                i = lo.min(best.len());
            }
            if sz == 1 || over(tries) {
                break;
            }
            sz /= 2;
        }
        // zero chunks
        let mut sz = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(tries) {
                let hi = (i + sz).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..hi].fill(0);
                    attempt(c, &mut best, &mut tries);
                }
                i += sz;
            }
            if sz == 1 || over(tries) {
                break;
            }
            sz /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && !over(tries) {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    attempt(c, &mut best, &mut tries);
                }
            }
            i += 1;
        }
        if best == before || over(tries) {
            break;
        }
    }
    (best, tries)
}

// ---------------------------------------------------------------- batch driver

pub fn run_seed(base: u64, property: &str, idx: u64) -> u64 {
    mix(mix(base, hash_bytes(property.as_bytes())), idx)
}
fn die(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    std::process::exit(3)
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn tape_json(t: &[u32]) -> J {
    J::Arr(t.iter().map(|&x| J::Int(x as i64)).collect())
}
fn trace_json(t: &str, max: usize) -> J {
    let lines: Vec<&str> = t.lines().collect();
    let mut out: Vec<J> = lines.iter().take(max).map(|s| J::Str(s.to_string())).collect();
    if lines.len() > max {
        out.push(J::Str(format!("... {} more events", lines.len() - max)));
    }
    J::Arr(out)
}

pub fn init() {
    unsafe { SHM = map_shm() }
}
pub fn main(specs: &[Spec]) -> ! {
    init();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let spec = specs.iter().find(|s| s.property == id).unwrap_or_else(|| die("unknown property"));
            check(spec)
        }
        Some("replay") => {
            let f = args.get(2).unwrap_or_else(|| die("usage: replay FILE"));
            let txt = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{f}: {e}")));
            let j = J::parse(&txt).unwrap_or_else(|| die("bad replay file"));
            let id = j.get("property").and_then(|x| x.str()).unwrap_or("").to_string();
            let spec = specs.iter().find(|s| s.property == id).unwrap_or_else(|| die("unknown property in replay file"));
            let tape: Vec<u32> = j.get("tape").map(|t| t.arr().iter().filter_map(|x| x.int()).map(|x| x as u32).collect()).unwrap_or_default();
            let kind = j.get("kind").and_then(|x| x.str()).unwrap_or("").to_string();
            let o = run_once(spec, Src::Replay(tape, 0), true);
            print!("{}", o.trace);
            match &o.end {
                End::Violation(k, m) => {
                    println!("{k}: {m}");
                    let h = j.get("event_hash").and_then(|x| x.str()).unwrap_or("").to_string();
                    println!("event hash {:016x} ({})", o.hash, if h == format!("{:016x}", o.hash) { "as recorded" } else { "differs from the recording" });
                    println!("VIOLATION property={} replay={}", spec.property, f);
                    std::process::exit(if *k == kind { 1 } else { 1 })
                }
                e => {
                    println!("not reproduced: {e:?}");
                    std::process::exit(0)
                }
            }
        }
        Some("one") => {
            // one PROPERTY IDX : trace a single run of the batch
            let id = args.get(2).cloned().unwrap_or_default();
            let spec = specs.iter().find(|s| s.property == id).unwrap_or_else(|| die("unknown property"));
            let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let a = args.get(3).map(String::as_str).unwrap_or("0");
            let job = match a.strip_prefix('d') {
                Some(d) => d.parse::<u64>().unwrap_or(1) - 1, // d1, d2, ...: a directed scenario
                None => a.parse::<u64>().unwrap_or(0) + spec.directed as u64,
            };
            let o = run_n(spec, base, job, true);
            print!("{}", o.trace);
            println!("{:?} hash={:016x} steps={} tape={}", o.end, o.hash, o.steps, o.tape.len());
            std::process::exit(0)
        }
        Some("shrink") => {
            // shrink PROPERTY IDX SECS [SUBSTRING] : minimise one failing run of the batch
            let id = args.get(2).cloned().unwrap_or_default();
            let spec = specs.iter().find(|s| s.property == id).unwrap_or_else(|| die("unknown property"));
            let idx: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            let secs: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(60);
            let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let o = run_once(spec, Src::Rng(Rng::new(run_seed(base, spec.property, idx))), false);
            let End::Violation(k, _) = &o.end else { die(&format!("no violation: {:?}", o.end)) };
            let kind = format!("{k}|{}", args.get(5).cloned().unwrap_or_default());
            let (t, n) = shrink(spec, o.tape, &kind, secs);
            let o = run_once(spec, Src::Replay(t, 0), true);
            print!("{}", o.trace);
            println!("{:?} hash={:016x} steps={} tape={} tries={n}", o.end, o.hash, o.steps, o.tape.len());
            std::process::exit(0)
        }
        Some("list") => {
            for s in specs {
                println!("{}", s.property);
            }
            std::process::exit(0)
        }
        _ => die("usage: check PROPERTY | replay FILE | one PROPERTY IDX | list"),
    }
}

/// Job 0.. of a batch: first the directed scenarios, then the generated runs.
fn run_n(spec: &Spec, base: u64, job: u64, trace_on: bool) -> Outcome {
    let nd = spec.directed as u64;
    if job < nd {
        run_job(spec, Src::Rng(Rng::new(run_seed(base, spec.property, (1 << 40) + job))), trace_on, job as u32 + 1)
    } else {
        run_once(spec, Src::Rng(Rng::new(run_seed(base, spec.property, job - nd))), trace_on)
    }
}
struct Known {
    signature: String,
    /// when not empty: one of these must be the violation's input
    inputs: Vec<String>,
    what: String,
}
impl Known {
    fn covers(&self, sig: &str) -> bool {
        sig.contains(&self.signature) && (self.inputs.is_empty() || self.inputs.iter().any(|i| sig.ends_with(&format!("[{i}]"))))
    }
}
fn known_findings(property: &str) -> Vec<Known> {
    // known_findings.json: {"findings":[{"status":"known","property":..,"kind":..,"match":..,"what":..}, {"status":"fixed",..}]}
    let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) else { return vec![] };
    let Some(j) = J::parse(&t) else { die("known_findings.json does not parse") };
    let mut v = vec![];
    for f in j.get("findings").map(|f| f.arr()).unwrap_or(&[]) {
        let g = |k: &str| f.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
        if g("status") == "known" && g("property") == property {
            let inputs = f.get("inputs").map(|x| x.arr().iter().filter_map(|x| x.str()).map(String::from).collect()).unwrap_or_default();
            v.push(Known { signature: g("signature"), inputs, what: g("what") });
        }
    }
    v
}

fn check(spec: &Spec) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let (mut runs, secs) = if tier == "quick" { (spec.quick_runs, spec.quick_secs) } else { (spec.thorough_runs, spec.thorough_secs) };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)) as u64;
    println!("check {} tier={tier} seed={seed} runs={runs} workers={nw}", spec.property);
    let known = known_findings(spec.property);
    let parent_shm = unsafe { SHM };
    unsafe { (*parent_shm).lowest.store(u64::MAX, Ordering::SeqCst) };
    const DET: u64 = 150;
    let mut readers = vec![];
    let mut pids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            std::io::stdout().flush().ok();
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                SHM = map_shm();
                let mut out = String::new();
                let mut done = 0u64;
                let mut steps = 0u64;
                let mut discards = 0u64;
                let mut seen: HashSet<u64> = HashSet::new();
                let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
                let lowest = &(*parent_shm).lowest;
                let nd = spec.directed as u64;
                let mut soft = 0u64;
                let mut idx = w;
                while idx < runs + nd {
                    if lowest.load(Ordering::SeqCst) < idx {
                        break;
                    }
                    if t0.elapsed().as_secs() >= secs && idx >= DET {
                        break;
                    }
                    let o = run_n(spec, seed, idx, false);
                    done += 1;
                    steps += o.steps;
                    if idx < DET {
                        out.push_str(&format!("D\t{idx}\t{:x}\n", o.hash));
                    }
                    if o.nontrivial && seen.insert(o.hash) {
                        out.push_str(&format!("H\t{:x}\n", o.hash));
                    }
                    match o.end {
                        End::Ok => {}
                        End::Discard => discards += 1,
                        End::Violation(k, m) => {
                            let sig = format!("{k}: {m}");
                            let listed = seed == LISTED_SEED && idx < nd + LISTED_RUNS;
                            if let Some(s) = known.iter().position(|s| s.covers(&sig)) {
                                *known_hits.entry(s.to_string()).or_default() += 1;
                            } else if idx >= nd && (!listed || k == "unsettled-receiver") && spec.soft.contains(&k.as_str()) {
                                soft += 1;
                                let t: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
                                out.push_str(&format!("F\t{idx}\t{k}\t{}\t{}\n", m.replace(['\n', '\t'], " "), if soft > 40 { String::new() } else { t.join(",") }));
                            } else {
                                lowest.fetch_min(idx, Ordering::SeqCst);
                                let t: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
                                out.push_str(&format!("V\t{idx}\t{k}\t{}\t{}\n", m.replace(['\n', '\t'], " "), t.join(",")));
                                break;
                            }
                        }
                        End::Harness(m) => {
                            out.push_str(&format!("E\t{idx}\t{}\n", m.replace(['\n', '\t'], " ")));
                            break;
                        }
                    }
                    idx += nw;
                }
                out.push_str(&format!("T\t{done}\t{steps}\t{discards}\n"));
                for (k, n) in known_hits {
                    out.push_str(&format!("K\t{k}\t{n}\n"));
                }
                let s = shm();
                for i in 0..s.nstats as usize {
                    out.push_str(&format!("S\t{}\t{}\n", get(&s.stat_names[i * 48..i * 48 + 48]), s.stats[i]));
                }
                let mut b = out.as_bytes();
                while !b.is_empty() {
                    let n = libc::write(fds[1], b.as_ptr().cast(), b.len());
                    if n <= 0 {
                        break;
                    }
                    b = &b[n as usize..];
                }
                libc::_exit(0);
            }
            assert!(pid > 0);
            libc::close(fds[1]);
            pids.push(pid);
            let fd = fds[0];
            readers.push(std::thread::spawn(move || {
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fd);
                let mut s = String::new();
                f.read_to_string(&mut s).ok();
                s
            }));
        }
    }
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut det: BTreeMap<u64, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let (mut total, mut steps, mut discards) = (0u64, 0u64, 0u64);
    let mut viol: Option<(u64, String, String, Vec<u32>)> = None;
    let mut soft: Vec<(u64, String, String, Vec<u32>)> = vec![];
    let mut errors = vec![];
    let mut complete = 0;
    for r in readers {
        let txt = r.join().unwrap_or_default();
        for l in txt.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "H" => {
                    hashes.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                "D" => {
                    det.insert(f[1].parse().unwrap_or(0), u64::from_str_radix(f[2], 16).unwrap_or(0));
                }
                "S" => *stats.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "K" => *known_hits.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "T" => {
                    complete += 1;
                    total += f[1].parse::<u64>().unwrap_or(0);
                    steps += f[2].parse::<u64>().unwrap_or(0);
                    discards += f[3].parse::<u64>().unwrap_or(0);
                }
                "F" => {
                    let t = f.get(4).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
                    soft.push((f[1].parse().unwrap_or(0), f[2].into(), f[3].into(), t));
                }
                "E" => errors.push(format!("run {}: {}", f[1], f[2])),
                "V" => {
                    let idx: u64 = f[1].parse().unwrap_or(0);
                    if viol.as_ref().is_none_or(|v| idx < v.0) {
                        let t = f.get(4).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
                        viol = Some((idx, f[2].into(), f[3].into(), t));
                    }
                }
                _ => {}
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let nsoft = soft.len() as u64;
    if viol.is_none() && nsoft > soft_allow(total) {
        soft.sort();
        println!("{nsoft} of {total} generated inputs fail in a way that recorded findings account for on at most {}", soft_allow(total));
        viol = soft.drain(..).next();
    }
    // determinism: repeat the first runs in this (different) process and compare event histories
    let mut det_checked = 0u64;
    let mut det_bad = vec![];
    if viol.is_none() {
        let tdet = Instant::now();
        let mut sh = unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(SHM), map_shm()) };
        for (idx, h) in det.iter().rev() {
            if tdet.elapsed().as_secs() > 20 {
                break;
            }
            let o = run_n(spec, seed, *idx, false);
            det_checked += 1;
            if o.hash != *h {
                det_bad.push(*idx);
            }
        }
        unsafe { std::mem::swap(&mut *std::ptr::addr_of_mut!(SHM), &mut sh) };
    }
    let mut replay_path = String::new();
    if let Some((idx, kind, msg, tape)) = &viol {
        println!("run {idx} violates {}: {kind}: {msg}", spec.property);
        let (min, tries) = if *idx < spec.directed as u64 { (tape.clone(), 0) } else { shrink(spec, tape.clone(), kind, if tier == "quick" { 25 } else { 90 }) };
        let o = run_once(spec, Src::Replay(min.clone(), 0), true);
        let o2 = run_once(spec, Src::Replay(min.clone(), 0), true);
        let (k, m) = match &o.end {
            End::Violation(k, m) => (k.clone(), m.clone()),
            e => ("unstable".into(), format!("{e:?}")),
        };
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).ok();
        replay_path = format!("{dir}/{}-{:016x}.json", spec.property, o.hash);
        let j = obj([
            ("property", spec.property.into()),
            ("kind", k.clone().into()),
            ("message", m.clone().into()),
            ("base_seed", seed.into()),
            ("run_index", (*idx).into()),
            ("original_decisions", tape.len().into()),
            ("minimised_decisions", min.len().into()),
            ("shrink_runs", tries.into()),
            ("event_hash", format!("{:016x}", o.hash).into()),
            ("replays_identically", (o.hash == o2.hash && o.end == o2.end).into()),
            ("tape", tape_json(&min)),
            ("trace", trace_json(&o.trace, 4000)),
        ]);
        std::fs::write(&replay_path, j.print()).ok();
        println!("minimised from {} to {} decisions in {tries} runs: {k}: {m}", tape.len(), min.len());
    }
    // evidence
    let mut samples = vec![];
    if errors.is_empty() {
        for idx in [0u64, 1, 7] {
            if idx < runs {
                let o = run_n(spec, seed, idx + spec.directed as u64, true);
                samples.push(obj([
                    ("run", idx.into()),
                    ("seed", format!("{:016x}", run_seed(seed, spec.property, idx)).into()),
                    ("decisions", o.tape.len().into()),
                    ("outcome", format!("{:?}", o.end).into()),
                    ("events", trace_json(&o.trace, 40)),
                ]));
            }
        }
    }
    let sel = |p: &str| J::Obj(stats.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), J::Int(*v as i64))).collect());
    let strs = |v: &[&str]| J::Arr(v.iter().map(|s| J::Str(s.to_string())).collect());
    let unreached: Vec<&str> = spec.must_reach.iter().copied().filter(|n| stats.get(*n).copied().unwrap_or(0) == 0).collect();
    let wall = t0.elapsed().as_secs_f64();
    let e = obj([
        ("property", spec.property.into()),
        ("tier", tier.into()),
        ("seed", seed.into()),
        ("level", "exploration".into()),
        (
            "coverage",
            obj([
                ("evaluations", total.into()),
                ("distinct_nontrivial", hashes.len().into()),
                ("rule", spec.rule.into()),
                ("discarded_runs", discards.into()),
                ("runs_per_hour", (total as f64 / search_wall.max(0.001) * 3600.0).into()),
                ("simulated_steps", steps.into()),
                ("simulated_time_note", "the system has no clock; simulated time is counted in scheduler steps (instrumented basic blocks and memory accesses, simulated system calls)".into()),
                ("faults_injected", sel("fault.")),
                ("probes", sel("probe.")),
                ("totals", sel("sum.")),
                ("unreached_probes", J::Arr(unreached.iter().map(|s| J::Str(s.to_string())).collect())),
                ("components_real", strs(spec.real)),
                ("components_stubbed", strs(spec.stub)),
                ("determinism", obj([("runs_repeated_in_another_process", det_checked.into()), ("histories_differing", det_bad.len().into()), ("workers", nw.into())])),
                ("known_findings_hit", J::Obj(known_hits.iter().map(|(k, v)| (known[k.parse::<usize>().unwrap_or(0)].what.clone(), J::Int(*v as i64))).collect())),
                ("directed_scenarios", (spec.directed as u64).into()),
                ("unlisted_inputs_failing_like_recorded_findings", nsoft.into()),
                ("samples", J::Arr(samples)),
            ]),
        ),
        ("assumptions", strs(spec.assumptions)),
        ("wall_s", wall.into()),
        ("violations", J::Int(viol.is_some() as i64)),
    ]);
    let edir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&edir).ok();
    if let Err(x) = std::fs::write(format!("{edir}/{}.json", spec.property), e.print()) {
        die(&format!("cannot write evidence: {x}"));
    }
    println!(
        "{}: {total} runs ({discards} discarded), {} distinct nontrivial histories, {steps} steps, {:.0} runs/s, {:.1}s",
        spec.property,
        hashes.len(),
        total as f64 / search_wall.max(0.001),
        wall
    );
    for (i, f) in known.iter().enumerate() {
        // listed findings are announced whenever they are listed
        println!("KNOWN-FINDING: property={} {} [{} occurrence(s) in this run]", spec.property, f.what, known_hits.get(&i.to_string()).copied().unwrap_or(0));
    }
    if viol.is_some() {
        println!("VIOLATION property={} replay={}", spec.property, replay_path);
        std::process::exit(1);
    }
    if !errors.is_empty() {
        die(&errors.join("; "));
    }
    if complete != nw {
        die("a worker did not finish");
    }
    if !det_bad.is_empty() {
        die(&format!("runs {det_bad:?} did not repeat exactly: a nondeterminism source escaped the simulator"));
    }
    if total == 0 || hashes.is_empty() {
        die("nothing was explored");
    }
    std::process::exit(0)
}
