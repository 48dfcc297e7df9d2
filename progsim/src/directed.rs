//! Directed scenarios: programs whose output is known from their text. Those named fixed_* failed before a
//! repair in /repo; those named known_* are recorded findings (known_findings.json).
use crate::native::compile;
use crate::{pipeline::OptimizationOptions, world};
use simcore::os::os;
use simcore::runner::{set_nontrivial, set_tag, violation};
use simcore::sched::RunEnd;

macro_rules! progs { ($($n:literal),* $(,)?) => { &[$(($n, include_str!(concat!("../directed/", $n, ".trb")))),*] } }
pub const N01: &[(&str, &str)] = progs![
    "fixed_row_var_method", "fixed_record_spread", "fixed_variant_in_tuple", "fixed_ctor_fields", "fixed_pattern_field_type",
    "fixed_tuple_elements", "fixed_and_or", "fixed_pattern_variables", "fixed_nil_handle",
    "known_user_generic_enum", "known_unwrap_or_prim", "known_tuple_of_method", "known_unsettled_receiver",
];
pub const N02: &[(&str, &str)] = progs![
    "fixed_op_argument", "fixed_done_evidence", "fixed_resumed_value_unread", "fixed_rehandle", "fixed_rehandle_nil",
    "known_arm_performs_own", "known_arm_sees_inner_handler", "known_state_lost", "known_nontail_resume_do",
    "known_nontail_resume_between", "known_abort_after_nontail",
];
pub const N03: &[(&str, &str)] = progs![
    "fixed_live_block_argument", "fixed_row_numbering", "fixed_resumed_value_unread", "fixed_rehandle", "known_bytes_get_or_panic",
];
pub fn run((name, src): (&str, &str)) {
    set_tag(format!("directed {name}"));
    world::log_source(src);
    let want: String = src.lines().filter_map(|l| l.strip_prefix("//= ")).flat_map(|l| [l, "\n"]).collect();
    let panics = src.contains("//! panic");
    let obj = compile(src, false, OptimizationOptions::production());
    let o = os();
    o.w_short = 50;
    o.w_eintr = 20;
    let g = world::execute(&obj);
    if g.out != want.as_bytes() {
        violation("wrong-output", &world::diff(want.as_bytes(), &g.out));
    }
    let end = if panics { RunEnd::Abort } else { RunEnd::AllDone };
    if g.end != end {
        violation("wrong-end", &format!("the program ended with {:?}, expected {end:?}", g.end));
    }
    simcore::heap::heap().check_all();
    set_nontrivial();
}
