//! Running one compiled program in one environment, and judging it against the reference.
use crate::ast::Prog;
use crate::interp::{self, Input};
use crate::jit;
use simcore::heap::heap;
use simcore::os::{os, Rd, Wr};
use simcore::runner::{discard, ev, ev_bytes, stat, steps_add, trace, trace_enabled, violation};
use simcore::sched::{run_all, sched, spawn, RunEnd};
use simcore::tape::ch;

pub const LIM: interp::Limits = interp::Limits { steps: 60_000, depth: 4000 };

pub struct Got {
    pub end: RunEnd,
    pub out: Vec<u8>,
    pub trapped: bool,
}
pub static mut TRAPPED: bool = false;
/// A trap instruction of the compiled program ends the simulated process.
pub fn on_trap(sig: i32, _addr: usize, ip: usize) -> bool {
    if sig == libc::SIGILL && jit::in_image(ip) && simcore::sched::in_fiber() {
        unsafe { TRAPPED = true };
        simcore::sched::end_process(RunEnd::Abort);
    }
    false
}
/// Load and run to the end under the environment configured in os().
pub fn execute(obj: &[u8]) -> Got {
    let img = match jit::load(obj) {
        Ok(i) => i,
        Err(e) => violation("link", &format!("the object file cannot be linked: {e}")),
    };
    let Some(&main) = img.syms.get("main") else { violation("link", "the object file has no main") };
    heap();
    sched().limit = 60_000_000;
    spawn(512 << 20, move || unsafe {
        let f: extern "C" fn(i32, usize) -> i32 = std::mem::transmute(main);
        let r = f(1, 0);
        if r != 0 {
            simcore::sched::end_process(RunEnd::Exit(r));
        }
    });
    let end = run_all();
    steps_add(os().reads.len() as u64 + os().writes.len() as u64);
    Got { end, out: os().stdout.clone(), trapped: unsafe { TRAPPED } }
}
/// The results successive line reads give, from the recorded system-call history. Read errors are
/// injected only when everything delivered so far ends at a line end, so each stands between two lines.
pub fn inputs() -> Vec<Input> {
    let o = os();
    let mut v = vec![];
    let s = &o.stdin;
    let mut at = 0;
    let line = |v: &mut Vec<Input>, l: &[u8]| v.push(if std::str::from_utf8(l).is_ok() { Input::Line(l.to_vec()) } else { Input::Bad });
    let upto = |v: &mut Vec<Input>, at: &mut usize, end: usize| {
        while let Some(k) = s[*at..end].iter().position(|&b| b == b'\n') {
            let mut l = &s[*at..*at + k];
            if l.last() == Some(&b'\r') {
                l = &l[..l.len() - 1];
            }
            line(v, l);
            *at += k + 1;
        }
    };
    let mut seen = 0;
    for r in &o.reads {
        match r.res {
            Rd::Data(_, b) => seen = b,
            Rd::Err(e) => {
                upto(&mut v, &mut at, seen);
                v.push(Input::Sys(e));
            }
            _ => {}
        }
    }
    upto(&mut v, &mut at, s.len());
    if at < s.len() {
        line(&mut v, &s[at..]);
    }
    v
}
fn show(b: &[u8]) -> String {
    let t: String = String::from_utf8_lossy(&b[..b.len().min(300)]).escape_debug().collect();
    format!("\"{t}\"{} ({} bytes)", if b.len() > 300 { "..." } else { "" }, b.len())
}
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let k = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let s = k.saturating_sub(40);
    format!("outputs differ from byte {k}: expected ...{}, got ...{}", show(&want[s..]), show(&got[s..]))
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    /// all output arrives
    Full,
    /// stdout stops accepting data for good
    Prefix,
    /// memory runs out
    Oom,
}
/// Draw the environment's behaviour. `calm`: no faults at all.
pub fn environment(kind: u32) -> Expect {
    let c = ch();
    let o = os();
    match kind {
        0 => {
            // short and interrupted transfers, read errors between lines
            o.r_eintr = *c.of(&[0, 20, 50]);
            o.r_chunk = c.pick(5);
            o.w_eintr = *c.of(&[0, 20, 50]);
            o.w_short = *c.of(&[0, 30, 70]);
            if c.chance(1, 2) {
                o.r_err = 20;
                o.r_err_boundary = true;
                o.r_errs_left = 1 + c.pick(3);
            }
            Expect::Full
        }
        1 => {
            // stdout fails for good at some point
            o.r_chunk = c.pick(5);
            o.w_short = *c.of(&[0, 30, 70]);
            o.w_dead_at = Some(c.pick(60) as usize);
            o.w_dead_zero = c.chance(1, 2);
            Expect::Prefix
        }
        2 => {
            o.w_short = *c.of(&[0, 30]);
            o.r_chunk = c.pick(5);
            Expect::Oom
        }
        _ => Expect::Full,
    }
}
pub fn judge(p: &Prog, g: &Got, ex: Expect) -> interp::Run {
    let inp = inputs();
    let r = interp::run(p, &inp, &LIM);
    match r.end {
        interp::End::Finding => discard("probe.known_finding_shape"),
        interp::End::Budget => discard("probe.over_budget"),
        _ => {}
    }
    ev_bytes("stdout", &g.out);
    heap().check_all();
    if ex == Expect::Oom && os().oom_hit {
        if !r.out.starts_with(&g.out) {
            violation("oom-output", &format!("after memory ran out: {}", diff(&r.out, &g.out)));
        }
        if g.end != RunEnd::Abort {
            violation("oom-survived", &format!("an allocation failed but the program ended with {:?}", g.end));
        }
        stat("probe.oom_abort");
        return r;
    }
    let want_end = if r.end == interp::End::Panic { RunEnd::Abort } else { RunEnd::AllDone };
    if g.out != r.out && !(ex == Expect::Prefix && r.out.starts_with(&g.out)) {
        violation("wrong-output", &diff(&r.out, &g.out));
    }
    if g.end != want_end {
        violation("wrong-end", &format!("the program ended with {:?} (trap: {}), expected {:?}", g.end, g.trapped, want_end));
    }
    if ex == Expect::Prefix {
        // everything up to the point where the stream died must be there
        let first = os().writes.iter().position(|w| matches!(w.res, Wr::Zero | Wr::Err(_)));
        if first.is_none() && g.out != r.out {
            violation("wrong-output", &diff(&r.out, &g.out));
        }
    }
    if r.end == interp::End::Panic {
        stat("probe.expected_panic");
    }
    ev("judged", r.st.performs, r.st.resumes);
    r
}
/// Only what concerns memory: the accesses are checked while the program runs; here, the end of the run.
pub fn judge_memory(p: &Prog, g: &Got, ex: Expect) {
    heap().check_all();
    ev_bytes("stdout", &g.out);
    if ex == Expect::Oom && os().oom_hit {
        let r = interp::run(p, &inputs(), &LIM);
        match r.end {
            interp::End::Finding => discard("probe.known_finding_shape"),
            interp::End::Budget => discard("probe.over_budget"),
            _ => {}
        }
        if !r.out.starts_with(&g.out) {
            violation("oom-output", &format!("after memory ran out: {}", diff(&r.out, &g.out)));
        }
        if g.end != RunEnd::Abort {
            violation("oom-survived", &format!("an allocation failed but the program ended with {:?}", g.end));
        }
        stat("probe.oom_abort");
    }
}
pub fn log_source(src: &str) {
    ev_bytes("program", src.as_bytes());
    if trace_enabled() {
        for l in src.lines() {
            trace(&format!("  | {l}"));
        }
    }
}
