//! Compiler-core world: the IR library on simulated threads and under operation histories.
mod damage;
mod edits;
mod passes;
mod rewrites;
mod symbols;
use simcore::runner::Spec;

/// Hash seeds are part of the simulated world.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = simcore::rng::Rng::new(1);
    for i in 0..len {
        unsafe { *buf.add(i) = r.below(256) as u8 };
    }
    len as isize
}
/// The standard library's locks wait on futexes; a simulated thread that would wait gives up its turn and
/// looks again (futexes may wake without cause).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && simcore::sched::in_fiber() {
        if (b as i32 & 0x7f) == libc::FUTEX_WAIT || (b as i32 & 0x7f) == 9 {
            if unsafe { *(a as *const u32) } != c as u32 {
                unsafe { *libc::__errno_location() = libc::EAGAIN };
                return -1;
            }
            simcore::stat("probe.futex_wait");
            simcore::sched::pass();
        }
        return 0;
    }
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    }
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r
}
const REAL: &[&str] = &["trunk-ir (instrumented with yield points at every basic block, load and store)", "lasso (instrumented), smallvec, cranelift-entity, inventory", "std LazyLock and other standard locks, waiting through the simulated futex"];
const STUB: &[&str] = &["parking_lot (same locking rules, waits decided by the simulator)", "threads (fibers driven by the seeded scheduler)", "hash seeds (supplied by the simulator)"];
const ASSUME: &[&str] = &["sequentially consistent interleavings at basic-block and load/store granularity; weaker hardware memory orderings are not explored"];

fn main() {
    let base = |property, run, quick_runs, rule, must_reach| Spec {
        property,
        run,
        quick_runs,
        thorough_runs: quick_runs * 30,
        quick_secs: 60,
        thorough_secs: 1200,
        rule,
        assumptions: ASSUME,
        real: REAL,
        stub: STUB,
        hang_secs: 30,
        must_reach,
        directed: 0,
        soft: &[],
    };
    let specs = [
        base("C01", symbols::c01 as fn(), 120_000,
            "one run = 2..5 simulated threads interning, looking up, resolving, comparing and hashing names from a shared pool, drawing block identities, or parsing, transforming and printing modules, preempted at any basic block, load or store; nontrivial = at least 3 context switches; distinct = distinct event-history hash (switch points included)",
            &["probe.lock_wait", "probe.nested_resolve", "probe.modules", "probe.same_text_race"]),
        base("C04", edits::c04 as fn(), 200_000,
            "one run = a generated history of IR edits (create, clone, replace, add/remove operands, move, detach, erase, refused calls) checked against a model after every step; nontrivial = at least 5 edits; distinct = distinct event-history hash",
            &["probe.refused_call", "probe.clone_region", "probe.replace_all", "probe.remove_operand", "probe.erase_subtree", "probe.split_block", "probe.move_blocks"]),
        base("C05", passes::c05 as fn(), 200_000,
            "one run = a generated tree of pass managers over a generated module tree, with passes that edit, erase or append targets, and passes, verifiers or hooks failing at a chosen call, run one to three times and compared with a model; nontrivial = at least 3 pass executions; distinct = distinct event-history hash",
            &["fault.pass_failure", "fault.verifier_failure", "probe.erased_target", "probe.nested"]),
        base("C08", damage::c08 as fn(), 200_000,
            "one run = a generated module (nested modules, functions, structured control flow, calls) that is damaged step by step (foreign values, lost or moved operations and blocks, use lists out of step, malformed operations, wrong calls) or edited soundly, with the verifier's verdict compared after every step with an independent reading of its contract; nontrivial = at least one step; distinct = distinct event-history hash",
            &["fault.foreign_value", "fault.swapped_operands", "fault.lost_operation", "fault.lost_block", "fault.moved_operation", "fault.attribute", "fault.structure", "fault.call", "probe.sound_edit", "probe.damaged", "probe.sound"]),
        base("C09", rewrites::c09 as fn(), 200_000,
            "one run = a generated module rewritten in one or two stages by generated patterns (replace, prefix, forward, outline, erase a neighbour, give up half-way) towards a generated legality target, with and without type conversion, limited rounds, over the module or one function, compared with a model; nontrivial = at least two changes; distinct = distinct event-history hash",
            &["probe.cast", "probe.eaten", "probe.gone_sibling", "probe.recursively_legal", "probe.out_of_rounds", "probe.boundary_passed", "probe.boundary_refused"]),
    ];
    simcore::runner::main(&specs)
}
