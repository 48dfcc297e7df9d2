//! Native-target properties.
use crate::ast::{self, Prog};
use crate::genp::{self, Cfg};
use crate::{host, pipeline, world};
use pipeline::OptimizationOptions;
use simcore::os::os;
use simcore::runner::{self, catch, stat, stat_add, violation};
use simcore::tape::ch;

pub const DEFAULT: Cfg = Cfg { effects: 1, io: true, input: true, size: 120, loops: 6, wasm: false, fns: false, panics: true, wide: false, small: false };
pub fn program(mut cfg: Cfg) -> Prog {
    let c = ch();
    cfg.size = *c.of(if cfg.effects > 1 || cfg.small { &[30, 80, 160] } else { &[40, 120, 220] });
    if let Some(n) = std::env::var("PG_SIZE").ok().and_then(|s| s.parse().ok()) {
        cfg.size = n; // calibration only
    }
    cfg.effects = *c.of(&[cfg.effects, cfg.effects, if cfg.effects > 1 { 1 } else { 0 }]);
    cfg.loops = *c.of(&[4, 7, 16]);
    genp::generate(cfg)
}
pub fn compile(src: &str, asan: bool, opt: OptimizationOptions) -> Vec<u8> {
    let r = catch(|| {
        let db = host::Db::default();
        let s = host::source(&db, "main.trb", src);
        let r = host::native(&db, s, asan, opt);
        std::mem::forget(db);
        r
    });
    match r {
        Ok(Ok(b)) => b,
        // A recorded finding: the receiver's type is settled only by code further on.
        Ok(Err(e)) if e.contains("unresolved method") => violation("unsettled-receiver", &format!("the compiler rejected a well-typed program: {}", e.replace('\n', " "))),
        Ok(Err(e)) => violation("rejected", &format!("the compiler rejected a well-typed program: {}", e.replace('\n', " "))),
        Err(p) => violation("compiler-panic", &format!("the compiler panicked: {p}")),
    }
}
fn stdin_text() -> Vec<u8> {
    let n = ch().pick(6);
    let mut v = vec![];
    for i in 0..n {
        match ch().weighted(&[4, 2, 1, 1]) {
            0 => v.extend_from_slice(b"alpha"),
            1 => {}
            2 => v.extend_from_slice("déjà vu".as_bytes()),
            _ => v.extend_from_slice(b"bad\xff"),
        }
        match ch().weighted(&[5, 2, if i + 1 == n { 2 } else { 0 }]) {
            0 => v.push(b'\n'),
            1 => v.extend_from_slice(b"\r\n"),
            _ => {}
        }
    }
    v
}
/// Generate a program worth judging; its source is part of the history.
fn generated(cfg: Cfg) -> (Prog, String) {
    let p = program(cfg);
    let src = ast::to_source(&p);
    runner::set_tag(format!("program {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(&src);
    stat_add("sum.program_bytes", src.len() as u64);
    let pre = crate::interp::run(&p, &[], &world::LIM);
    if pre.end == crate::interp::End::Budget {
        runner::discard("probe.over_budget");
    }
    if pre.end == crate::interp::End::Finding {
        runner::discard("probe.known_finding_shape");
    }
    (p, src)
}
pub fn cfg_for(prop: &str) -> Cfg {
    match prop {
        "N02" => Cfg { effects: *ch().of(&[2, 3, 4]), ..DEFAULT },
        "W01" => crate::wasm::CFG,
        "N05" => Cfg { effects: *ch().of(&[1, 1, 2]), small: true, ..DEFAULT },
        _ => DEFAULT,
    }
}
fn scenario(set: &[(&'static str, &'static str)]) -> bool {
    let d = ch().scenario() as usize;
    if d > 0 && d <= set.len() {
        crate::directed::run(set[d - 1]);
        return true;
    }
    false
}
pub fn n01() {
    if scenario(crate::directed::N01) {
        return;
    }
    let (p, src) = generated(DEFAULT);
    let obj = compile(&src, false, OptimizationOptions::production());
    let stdin = stdin_text();
    for k in 0..3u32 {
        let (obj, p, stdin) = (&obj, &p, &stdin);
        runner::sub(k as u64, 20, || {
            os().stdin = stdin.clone();
            let ex = world::environment(k);
            if ex == world::Expect::Oom {
                os().oom_at = ch().pick(400) as u64;
            }
            let g = world::execute(obj);
            let r = world::judge(p, &g, ex);
            if r.st.reads > 0 {
                stat("probe.reads_input");
            }
            if !g.out.is_empty() {
                runner::set_nontrivial();
            }
        });
    }
}
/// Effect handlers: programs made of operations, handlers and resumptions.
pub fn n02() {
    if scenario(crate::directed::N02) {
        return;
    }
    let (p, src) = generated(cfg_for("N02"));
    let obj = compile(&src, false, OptimizationOptions::production());
    let stdin = stdin_text();
    for k in 0..2u32 {
        let (obj, p, stdin) = (&obj, &p, &stdin);
        runner::sub(k as u64, 20, || {
            os().stdin = stdin.clone();
            let ex = world::environment(k);
            let g = world::execute(obj);
            let r = world::judge(p, &g, ex);
            stat_add("sum.performs", r.st.performs);
            stat_add("sum.resumes", r.st.resumes);
            if r.st.drops > 0 {
                stat("probe.continuation_dropped");
            }
            if r.st.performs > 0 {
                runner::set_nontrivial();
            }
        });
    }
}
/// Memory safety, and orderly death when memory runs out at any allocation.
pub fn n03() {
    if scenario(crate::directed::N03) {
        return;
    }
    let (p, src) = generated(DEFAULT);
    let obj = compile(&src, false, OptimizationOptions::production());
    let stdin = stdin_text();
    for k in 0..8u32 {
        let (obj, p, stdin) = (&obj, &p, &stdin);
        runner::sub(k as u64, 20, || {
            os().stdin = stdin.clone();
            let ex = if k == 0 {
                world::environment(0)
            } else {
                let m = *ch().of(&[8, 40, 150, 600]);
                os().oom_at = ch().pick(m) as u64;
                world::environment(2)
            };
            let g = world::execute(obj);
            world::judge_memory(p, &g, ex);
            stat_add("sum.allocations", os().allocs);
            if os().allocs > 0 {
                runner::set_nontrivial();
            }
        });
    }
}
fn options(k: u32) -> (bool, OptimizationOptions, &'static str) {
    let c = ch();
    let (on, off) = (OptimizationOptions::production(), OptimizationOptions::baseline());
    match k {
        0 => (false, off, "probe.baseline"),
        1 => {
            let mut o = on;
            o.native.paired_rc_elimination = *c.of(&[off.native.paired_rc_elimination, on.native.paired_rc_elimination]);
            o.native.borrowed_parameters = *c.of(&[off.native.borrowed_parameters, on.native.borrowed_parameters]);
            o.native.temporary_borrows = *c.of(&[off.native.temporary_borrows, on.native.temporary_borrows]);
            o.ast_to_ir = *c.of(&[off.ast_to_ir, on.ast_to_ir]);
            (false, o, "probe.mixed_options")
        }
        2 => (true, if c.chance(1, 2) { on } else { off }, "probe.sanitizer_build"),
        _ => (false, on, "probe.production"),
    }
}
/// Every build configuration gives the same program.
pub fn n05() {
    let (p, src) = generated(cfg_for("N05"));
    let stdin = stdin_text();
    let live = unsafe { &mut *(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut [u64; 4]) };
    for k in 0..4u32 {
        let (p, stdin, src, live) = (&p, &stdin, &src, &mut *live);
        runner::sub(k as u64, 20, || {
            let (asan, opt, name) = options(k);
            stat(name);
            let obj = compile(src, asan, opt);
            os().stdin = stdin.clone();
            let ex = world::environment(if asan { 3 } else { 0 });
            os().r_err = 0; // the same input for every build
            let g = world::execute(&obj);
            world::judge(p, &g, ex);
            live[k as usize] = simcore::heap::heap().live_blocks() as u64 + 1;
            if !g.out.is_empty() {
                runner::set_nontrivial();
            }
        });
    }
    // builds differ in where they release, not in what they never release
    let grows = |l: u64| l > live[0] + 4 + live[0] / 16;
    if grows(live[1]) || grows(live[3]) {
        violation("leak", &format!("objects left at the end: {} in the baseline build, {} with some, {} with all optimisations", live[0], live[1], live[3]));
    }
}
