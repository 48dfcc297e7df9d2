//! Whole-program world: generated programs go through the repository's real compiler, the object code it
//! emits is loaded and linked with the shipped runtime, and the program runs on the simulated OS.
#[allow(dead_code)]
#[path = "/repo/src/pipeline.rs"]
mod pipeline;
mod ast;
mod compile;
mod directed;
mod genp;
mod host;
mod interp;
mod irsim;
mod irtext;
mod lift;
mod jit;
mod native;
mod reduce;
mod wasm;
mod world;
use simcore::runner::Spec;
pub use tribute_front::SourceCst;

/// Hash seeds are part of the simulated world.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = simcore::rng::Rng::new(HASH_SEED.load(std::sync::atomic::Ordering::Relaxed));
    for i in 0..len {
        unsafe { *buf.add(i) = r.below(256) as u8 };
    }
    len as isize
}
pub static HASH_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub const REAL: &[&str] = &[
    "compiler: tribute-front, tribute-passes, trunk-ir, both back ends, Cranelift; src/pipeline.rs compiled in as it stands",
    "standard library lib/std/prelude.trb",
    "tribute-runtime (shipped no_std, panic=abort build; instrumented with yield points)",
    "the machine code the compiler emitted for the generated program",
];
pub const STUB: &[&str] = &[
    "tree-sitter C library and generated grammar (a hand-written parser producing the same tree shapes; the real one is not in this sandbox)",
    "ropey, fluent-uri (API stand-ins)",
    "system linker (an in-process ELF loader)",
    "operating system: read, write, posix_memalign, free, abort, pthread keys (simulated)",
];
pub const ASSUME: &[&str] = &[
    "generated programs are bounded in size, loop counts and arithmetic range; no integer overflow or division by zero",
    "programs in the shape of a recorded finding (see known_findings.json) are not judged",
    "x86-64 code generation only",
];
fn cli(a: &[String]) {
    if let Some(h) = std::env::var("HS").ok().and_then(|s| s.parse().ok()) {
        HASH_SEED.store(h, std::sync::atomic::Ordering::Relaxed);
    }
    if a[1] == "gen" {
        let seed: u64 = a[2].parse().unwrap();
        let mut len = 0u64;
        let mut buf = vec![0u32; 1 << 16];
        simcore::tape::install(simcore::tape::Chooser::new(simcore::tape::Src::Rng(simcore::rng::Rng::new(seed)), buf.as_mut_ptr(), 1 << 16, &mut len));
        let p = native::program(native::DEFAULT);
        println!("{}", ast::to_source(&p));
        let r = interp::run(&p, &[], &world::LIM);
        println!("// {:?} steps {} {}\n{}", r.end, r.st.steps, r.msg, String::from_utf8_lossy(&r.out).lines().map(|l| format!("// {l}\n")).collect::<String>());
        return;
    }
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let db = host::Db::default();
    let t = std::time::Instant::now();
    let s = host::source(&db, &a[2], &src);
    let r = match a[1].as_str() {
        "native" => host::native(&db, s, false, pipeline::OptimizationOptions::production()),
        "wasm" => host::wasm(&db, s),
        "rc" => pipeline::dump_native_ir_at_stage(&db, s, pipeline::NativePipelineStage::AfterRcOptimization, pipeline::OptimizationOptions::production()).map(String::into_bytes).map_err(|e| e.to_string()),
        _ => pipeline::dump_shared_ir_at_stage(&db, s, pipeline::SharedPipelineStage::AfterFrontend, pipeline::OptimizationOptions::production()).map(String::into_bytes).map_err(|e| e.to_string()),
    };
    eprintln!("{:?}", t.elapsed());
    match r {
        Ok(b) => std::fs::write(&a[3], b).unwrap(),
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(1)
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && ["native", "wasm", "ir", "rc", "gen"].contains(&a[1].as_str()) {
        return cli(&a);
    }
    simcore::runner::set_crash_describer(simcore::heap::crash_describer);
    simcore::runner::set_trap_hook(world::on_trap);
    let base = |property, run, quick_runs, rule, must_reach| Spec {
        property,
        run,
        quick_runs,
        thorough_runs: quick_runs * 20,
        quick_secs: 90,
        thorough_secs: 1500,
        rule,
        assumptions: ASSUME,
        real: REAL,
        stub: STUB,
        hang_secs: 30,
        must_reach,
        directed: 0,
        soft: &["rejected", "unsettled-receiver"],
    };
    let specs = [
        Spec { directed: directed::N01.len() as u32, ..base("N01", native::n01 as fn(), 4000,
            "one run = one generated program compiled by the real compiler and executed in three simulated environments (short, interrupted and failing transfers; stdout failing for good; memory running out); nontrivial = it printed something; distinct = distinct hash of the full event history (program text included)",
            &["fault.read_short", "fault.write_short", "fault.write_eintr", "probe.reads_input", "probe.oom_abort", "fault.write_dead"]) },
        Spec { directed: directed::N02.len() as u32, ..base("N02", native::n02 as fn(), 4000,
            "one run = one generated program built around operations, handlers and resumptions, compiled and executed in two simulated environments; nontrivial = it performed an operation; distinct = distinct hash of the full event history (program text included)",
            &["fault.write_short", "fault.write_dead", "probe.continuation_dropped"]) },
        Spec { directed: directed::N03.len() as u32, ..base("N03", native::n03 as fn(), 3000,
            "one run = one generated program executed once in full and seven times with an allocation failing at a chosen point, every heap access checked (guard pages, freed blocks unmapped, canaries); nontrivial = it allocated; distinct = distinct hash of the full event history (program text included)",
            &["probe.oom_abort"]) },
        base("N05", native::n05 as fn(), 2000,
            "one run = one generated program built in four configurations and executed in a simulated environment each; nontrivial = it printed something; distinct = distinct hash of the full event history (program text included)",
            &["probe.baseline", "probe.mixed_options", "probe.sanitizer_build"]),
        Spec { soft: &[], ..base("C03", compile::c03 as fn(), 4000,
            "one run = one generated (and possibly edited, ill-typed) program compiled to one artefact or its diagnostics in a reference process and in three others that differ in hash seeds, memory layout, interning order and what was compiled before; nontrivial = there was an artefact or a diagnostic; distinct = distinct hash of the full event history (program text and results included)",
            &["fault.hash_seed", "fault.heap_layout", "fault.interning_order", "fault.compiled_before", "probe.artefact", "probe.diagnostics"]) },
        Spec { soft: &[], ..base("C06", compile::c06 as fn(), 4000,
            "one run = one program edited 1 to 7 times in one query database, with requests (some torn down at a chosen query event) between edits, the final answer compared with that of a fresh database; nontrivial = there was an artefact or a diagnostic; distinct = distinct hash of the full event history (texts, requests and results included)",
            &["fault.query_torn_down", "probe.edits", "probe.artefact", "probe.diagnostics"]) },
        Spec { soft: &[], ..base("C02", irsim::c02 as fn(), 25000,
            "one run = one generated IR module lowered directly, and again after a drawn schedule of middle-end passes with the compiler stopped and restarted from the printed IR between them, both executed natively and compared with the module's meaning; nontrivial = at least one observable call; distinct = distinct hash of the full event history (IR texts included)",
            &["fault.restart_from_text", "fault.killed_at_call", "probe.canonicalize", "probe.dce", "probe.global_dce", "probe.inline", "probe.scf_to_cf"]) },
        Spec { soft: &[], ..base("C07", irtext::c07 as fn(), 20000,
            "one run = one generated IR module (all kinds of attributes, types, operations, regions and nested modules) written as text, read back after up to three restarts in contexts with another history, and read from text torn or damaged at drawn places; nontrivial = every run; distinct = distinct hash of the full event history (texts included)",
            &["fault.restart_from_text", "fault.torn_text", "fault.damaged_text", "fault.interning_order", "probe.named_type", "probe.damaged_accepted", "probe.damaged_refused"]) },
        base("W02", irsim::w02 as fn(), 3000,
            "one run = one generated IR module lowered directly to WebAssembly, and again twice after drawn schedules of middle-end passes with the compiler stopped and restarted from the printed IR between them; all are executed on a real engine, also with the host ending the instance at a drawn call; nontrivial = at least one observable call; distinct = distinct hash of the full event history (IR texts included)",
            &["fault.restart_from_text", "fault.killed_at_call", "probe.canonicalize", "probe.dce", "probe.global_dce", "probe.inline"]),
        base("W01", wasm::w01 as fn(), 2000,
            "one run = one generated program compiled to WebAssembly and executed three or four times on a real engine whose host splits, interrupts or refuses writes and limits memory growth as planned by the simulator; nontrivial = it printed something; distinct = distinct hash of the full event history (program text included)",
            &["fault.write_short", "fault.write_eintr", "fault.write_dead", "fault.memory_limit", "probe.memory_grown"]),
    ];
    if a.len() > 4 && a[1] == "reduce" {
        // reduce PROPERTY IDX SECS KIND|TEXT
        let spec = Spec { run: reduce::run_cur as fn(), ..base("N00", reduce::run_cur as fn(), 1, "", &[]) };
        let seed = simcore::runner::run_seed(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), &a[2], a[3].parse().unwrap());
        let mut len = 0u64;
        let mut buf = vec![0u32; 1 << 16];
        simcore::tape::install(simcore::tape::Chooser::new(simcore::tape::Src::Rng(simcore::rng::Rng::new(seed)), buf.as_mut_ptr(), 1 << 16, &mut len));
        let p = native::program(native::cfg_for(&a[2]));
        simcore::runner::init();
        reduce::reduce(&spec, p, a.get(5).map_or("", |s| s), a[4].parse().unwrap());
        return;
    }
    simcore::runner::main(&specs);
}
