//! WebAssembly-target properties: the emitted module runs on a real engine (node) whose host calls are
//! decided by the simulator beforehand.
use crate::ast;
use crate::genp::Cfg;
use crate::interp::{self, End};
use crate::{host, native, world};
use simcore::runner::{self, catch, discard, ev, ev_bytes, harness_error, stat, stat_add, steps_add, violation};
use simcore::tape::ch;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

const FULL: i64 = 1_000_000;
pub struct Out {
    pub end: String,
    pub msg: String,
    pub bad: String,
    pub grew: bool,
    pub bytes: Vec<u8>,
}
fn field(j: &str, k: &str) -> String {
    let Some(i) = j.find(&format!("\"{k}\":")) else { return String::new() };
    let t = &j[i + k.len() + 3..];
    if let Some(t) = t.strip_prefix('"') {
        let mut s = String::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => break,
                '\\' => s.extend(it.next()),
                c => s.push(c),
            }
        }
        s
    } else {
        t.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect()
    }
}
pub struct Plan {
    acts: Vec<i64>,
    rest: i64,
    pages: Option<u32>,
}
/// One instance of the module per plan.
fn run(module: &[u8], plans: &[Plan]) -> Vec<Out> {
    let list: Vec<String> = plans
        .iter()
        .map(|p| format!("{{\"acts\":[{}],\"rest\":{},\"pages\":{}}}", p.acts.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","), p.rest, p.pages.unwrap_or(0)))
        .collect();
    node("wasm_host.js", &format!("[{}]", list.join(",")), &[module], plans.len())
}
/// Several modules; one instance per plan (module, host call to stop at).
pub fn run_ir(modules: &[&[u8]], plans: &[(usize, u64)]) -> Vec<Out> {
    let sizes: Vec<String> = modules.iter().map(|m| m.len().to_string()).collect();
    let list: Vec<String> = plans.iter().map(|(m, s)| format!("{{\"mod\":{m},\"stop\":{s}}}")).collect();
    node("wasm_ir_host.js", &format!("{{\"sizes\":[{}],\"plans\":[{}]}}", sizes.join(","), list.join(",")), modules, plans.len())
}
fn node(script: &str, list: &str, modules: &[&[u8]], plans: usize) -> Vec<Out> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("node");
    c.arg("--stack-size=3900").arg("--single-threaded").arg(format!("{dir}/tools/{script}"));
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin");
    unsafe extern "C" {
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    }
    // CPU seconds; a healthy run takes a fraction of one
    unsafe { std::os::unix::process::CommandExt::pre_exec(&mut c, || { setrlimit(0, &[20, 25]); Ok(()) }) };
    let mut p = c.spawn().unwrap_or_else(|e| harness_error(&format!("cannot start node: {e}")));
    let mut i = p.stdin.take().unwrap();
    let _ = i.write_all(&(list.len() as u32).to_le_bytes()).and_then(|_| i.write_all(list.as_bytes()));
    for m in modules {
        let _ = i.write_all(m);
    }
    drop(i);
    let mut all = vec![];
    p.stdout.take().unwrap().read_to_end(&mut all).ok();
    let st = p.wait();
    if let Ok(Some(24)) = st.as_ref().map(std::os::unix::process::ExitStatusExt::signal) {
        violation("hang", "the program used 20 s of CPU time without ending");
    }
    let mut at = 0;
    let mut res = vec![];
    for _ in 0..plans {
        let Some(k) = all[at..].iter().position(|&b| b == b'\n') else { harness_error(&format!("node gave no answer ({st:?})")) };
        let head = String::from_utf8_lossy(&all[at..at + k]).to_string();
        at += k + 1;
        let n: u64 = field(&head, "calls").parse().unwrap_or(0);
        steps_add(n);
        let size: usize = field(&head, "size").parse().unwrap_or(0);
        if at + size > all.len() {
            harness_error(&format!("node's answer is cut off ({st:?})"));
        }
        res.push(Out { end: field(&head, "end"), msg: field(&head, "msg"), bad: field(&head, "bad"), grew: field(&head, "growths") == "1", bytes: all[at..at + size].to_vec() });
        at += size;
    }
    res
}
pub const CFG: Cfg = Cfg { effects: 0, io: true, input: false, wasm: true, ..native::DEFAULT };
pub fn w01() {
    if ch().chance(1, 3) {
        return big();
    }
    judge(&native::program(CFG));
}
fn compile(src: &str) -> Vec<u8> {
    match catch(|| {
        let db = host::Db::default();
        let s = host::source(&db, "main.trb", src);
        let r = host::wasm(&db, s);
        std::mem::forget(db);
        r
    }) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => violation("rejected", &e.replace('\n', " ")),
        Err(p) => violation("compiler-panic", &format!("the compiler panicked: {p}")),
    }
}
fn plan(n: u32, piece: u32) -> Vec<i64> {
    let c = ch();
    let (eintr, short) = (*c.of(&[0, 20, 50]), *c.of(&[0, 30, 70]));
    let mut acts: Vec<i64> = vec![];
    for _ in 0..c.pick(n) {
        acts.push(if c.chance(eintr, 100) {
            stat("fault.write_eintr");
            -27
        } else if c.chance(short, 100) {
            stat("fault.write_short");
            c.range(1, piece) as i64
        } else {
            FULL
        });
    }
    acts
}
const PAGE: usize = 65536;
/// Large outputs: each write goes through a buffer in linear memory that has to grow, and growing can fail.
fn big() {
    let c = ch();
    let mut src = String::from("use std::io::Io\nfn rep(n: Nat, s: String) -> String {\n    case n {\n        0 -> \"\"\n        _ -> s <> rep(n - 1, s)\n    }\n}\nfn main() ->{Io} Nil {\n");
    let mut parts: Vec<Vec<u8>> = vec![];
    for k in 0..1 + c.pick(5) {
        let unit = format!("{}{k}", *c.of(&["a", "long text that repeats ", "\u{e9}\u{2713}", "x"]));
        let most = *c.of(&[3, 60, 120]);
        let piece = unit.repeat(1 + c.pick(most) as usize);
        let most = *c.of(&[2, 60, 300]);
        let mut n = c.pick(most) as usize;
        let nl = c.chance(1, 2);
        // keep clear of the page boundary: the offset of the buffer is the compiler's business
        while (piece.len() * n + 300) % PAGE < 600 {
            n += 1;
        }
        src.push_str(&format!("    std::io::print{}(rep({n}, \"{piece}\"))\n", if nl { "_line" } else { "" }));
        let mut out = piece.repeat(n).into_bytes();
        if nl {
            out.push(10);
        }
        parts.push(out);
    }
    src.push_str("    Nil\n}\n");
    runner::set_tag(format!("program {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(&src);
    let m = compile(&src);
    let plans: Vec<Plan> = (0..4)
        .map(|k| {
            let acts = plan(60, 90_000);
            let c = ch();
            let pages = (k >= 2).then(|| 1 + c.pick(3));
            Plan { acts, rest: if k == 1 { *c.of(&[-29, 0, -64, -51]) } else { FULL }, pages }
        })
        .collect();
    for (o, Plan { acts, rest, pages: max }) in run(&m, &plans).into_iter().zip(plans) {
        ev("wasm", acts.len() as u64, o.bytes.len() as u64);
        ev_bytes("stdout", &o.bytes);
        if !o.bad.is_empty() {
            violation("bad-host-call", &o.bad);
        }
        if o.end == "stack" {
            discard("probe.stack");
        }
        let fits = |p: &&Vec<u8>| max.is_none_or(|m| p.len() + 300 < m as usize * PAGE);
        let n = parts.iter().take_while(fits).count();
        let want: Vec<u8> = parts[..n].concat();
        let end = if n < parts.len() { "trap" } else { "done" };
        if rest < 1 {
            stat("fault.write_dead");
        }
        if n < parts.len() {
            stat("fault.memory_limit");
        }
        if o.grew {
            stat("probe.memory_grown");
        }
        if o.bytes != want && !(rest < 1 && want.starts_with(&o.bytes)) {
            violation("wrong-output", &format!("{} ({} {})", world::diff(&want, &o.bytes), o.end, o.msg));
        }
        if o.end != end {
            violation("wrong-end", &format!("the program ended with {} ({}), expected {end}", o.end, o.msg));
        }
        if !o.bytes.is_empty() {
            runner::set_nontrivial();
        }
    }
}
pub fn judge(p: &ast::Prog) {
    let src = ast::to_source(p);
    runner::set_tag(format!("program {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(&src);
    stat_add("sum.program_bytes", src.len() as u64);
    let r = interp::run(p, &[], &interp::Limits { steps: 60_000, depth: 600 });
    match r.end {
        End::Budget => discard("probe.over_budget"),
        End::Finding => discard("probe.known_finding_shape"),
        _ => {}
    }
    let m = compile(&src);
    let plans: Vec<Plan> = (0..3)
        .map(|k| {
            let acts = plan(60, 7);
            Plan { acts, rest: if k == 1 { *ch().of(&[-29, 0, -64, -51]) } else { FULL }, pages: None }
        })
        .collect();
    for (o, Plan { acts, rest, .. }) in run(&m, &plans).into_iter().zip(plans) {
        let dead = rest < 1;
        if dead {
            stat("fault.write_dead");
        }
        ev("wasm", acts.len() as u64, o.bytes.len() as u64);
        ev_bytes("stdout", &o.bytes);
        if !o.bad.is_empty() {
            violation("bad-host-call", &o.bad);
        }
        let want = if r.end == End::Panic { "trap" } else { "done" };
        if o.end == "invalid" {
            violation("invalid-module", &format!("the engine refused the module: {}", o.msg));
        }
        if o.end == "stack" {
            discard("probe.stack");
        }
        if o.bytes != r.out && !(dead && r.out.starts_with(&o.bytes)) {
            violation("wrong-output", &format!("{} ({} {})", world::diff(&r.out, &o.bytes), o.end, o.msg));
        }
        if o.end != want {
            violation("wrong-end", &format!("the program ended with {} ({}), expected {want}", o.end, o.msg));
        }
        if o.grew {
            stat("probe.memory_grown");
        }
        if !o.bytes.is_empty() {
            runner::set_nontrivial();
        }
    }
}
