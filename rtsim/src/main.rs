//! Runtime world: the shipped native runtime under a simulated operating system and scheduler.
mod gen;
mod r_io;
mod r_mem;
mod r_thread;
mod rt;
use simcore::runner::Spec;

pub const REAL: &[&str] = &["tribute-runtime (shipped no_std, panic=abort build; instrumented with yield points)", "tribute-rc", "itoa, zmij, smallvec, alloc/core as linked into the shipped library"];
pub const STUB: &[&str] = &[
    "operating system: read, write, posix_memalign, free, abort, errno, pthread keys (simulated)",
    "threads (fibers driven by the seeded scheduler)",
    "compiled program (the workload calls the runtime's C entry points directly)",
];
pub const ASSUME: &[&str] = &[
    "sequentially consistent interleavings at basic-block and load/store granularity; weaker hardware memory orderings are not explored",
    "the Windows code paths are not built here",
];
fn main() {
    simcore::runner::set_crash_describer(simcore::heap::crash_describer);
    let base = |property, run, quick_runs, rule, must_reach| Spec {
        property,
        run,
        quick_runs,
        thorough_runs: quick_runs * 40,
        quick_secs: 60,
        thorough_secs: 1200,
        rule,
        assumptions: ASSUME,
        real: REAL,
        stub: STUB,
        hang_secs: 20,
        must_reach,
        directed: 0,
        soft: &[],
    };
    let specs = [
        base("R01", r_io::r01 as fn(), 40_000,
            "one run = one generated byte stream (line contents, lengths around the 8 KiB refill boundary, terminators, encodings) read to its end through the real line reader while the simulated OS splits and interrupts reads; nontrivial = at least one line delivered and at least one short or interrupted read; distinct = distinct hash of the full event history",
            &["fault.read_short", "fault.read_eintr", "probe.crlf_split", "probe.line_over_buffer", "probe.bad_utf8", "probe.unterminated"]),
        base("R02", r_io::r02 as fn(), 40_000,
            "as R01 plus injected read errors and continued reading after each; nontrivial = at least one injected error and at least one later line; distinct = distinct event-history hash",
            &["fault.read_error", "fault.read_eintr", "probe.error_mid_line", "probe.error_at_boundary"]),
        base("R03", r_io::r03 as fn(), 40_000,
            "one run = a generated sequence of print operations of all kinds against a stdout that accepts parts, interrupts, fails or makes no progress; nontrivial = at least one fault fired inside an operation; distinct = distinct event-history hash",
            &["fault.write_short", "fault.write_eintr", "fault.write_error", "fault.write_zero", "fault.write_dead"]),
        base("R04", r_thread::r04 as fn(), 60_000,
            "one run = 2..5 simulated threads racing through initialisation, tag generation, line reading and exit, preempted at any basic block, load or store; nontrivial = at least 3 context switches; distinct = distinct event-history hash (switch points included)",
            &["probe.init_race", "fault.tls_key_create", "fault.tls_set"]),
        base("R05", r_thread::r05 as fn(), 40_000,
            "one run = a generated tree of handler installations with lookups against a map model, by 1..4 simulated threads sharing evidence values; nontrivial = at least 5 installations; distinct = distinct event-history hash",
            &["probe.shadowed", "probe.spilled", "probe.old_requery"]),
        base("R06", r_mem::r06 as fn(), 40_000,
            "one run = a generated mix of all allocating runtime operations with memory running out at a chosen allocation (or not at all), in normal or sanitizer mode; nontrivial = an allocation failed or at least 5 blocks were handed out; distinct = distinct event-history hash",
            &["fault.alloc_failure", "probe.process_abort", "probe.huge_request"]),
        base("R07", r_mem::r07 as fn(), 30_000,
            "one run = a generated history of allocations and releases in sanitizer mode with (or without) one stray write at a chosen distance from a block; nontrivial = a release happened after a stray write or at least 3 blocks passed the quarantine; distinct = distinct event-history hash",
            &["fault.stray_write", "probe.quarantine_evict", "probe.big_block"]),
        base("R08", r_mem::r08 as fn(), 40_000,
            "one run = a generated history of byte-string operations over a shared pool by 1..3 simulated threads, with failing allocations; nontrivial = at least one concatenation or slice; distinct = distinct event-history hash",
            &["probe.slice_of_slice", "probe.oob_slice", "fault.alloc_failure", "probe.empty_operand"]),
    ];
    simcore::runner::main(&specs)
}
