//! Seeded cooperative scheduler over fibers. Instrumented code calls `yield_point` at every basic
//! block and memory access; the schedule is a sequence of (next thread, slice length) decisions.
use crate::fiber::*;
use crate::runner::{ev, stat, steps_add, violation};
use crate::tape::ch;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FState {
    Runnable,
    Blocked,
    Done,
}
pub struct Fiber {
    sp: usize,
    pub state: FState,
    entry: Option<Box<dyn FnOnce()>>,
    #[allow(dead_code)]
    stack: Stack,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RunEnd {
    AllDone,
    Abort,
    Exit(i32),
    Deadlock,
}
pub struct Sched {
    pub fibers: Vec<Fiber>,
    pub cur: usize,
    main_sp: usize,
    slice: u64,
    pub steps: u64,
    pub limit: u64,
    end: Option<RunEnd>,
    active: bool,
    /// 0: run to completion, 1..: finer and finer interleaving
    pub grain: u32,
    pub switches: u64,
}
static mut S: *mut Sched = std::ptr::null_mut();
pub fn sched() -> &'static mut Sched {
    unsafe {
        if S.is_null() {
            S = Box::into_raw(Box::new(Sched { fibers: vec![], cur: 0, main_sp: 0, slice: 0, steps: 0, limit: 3_000_000, end: None, active: false, grain: 0, switches: 0 }));
        }
        &mut *S
    }
}
extern "C" fn fiber_main(i: usize) -> ! {
    let s = sched();
    let f = s.fibers[i].entry.take().unwrap();
    f();
    let s = sched();
    s.fibers[i].state = FState::Done;
    ev("thread-done", i as u64, 0);
    loop {
        to_main();
    }
}
fn to_main() {
    let s = sched();
    s.active = false;
    let cur = s.cur;
    let p: *mut usize = &mut s.fibers[cur].sp;
    let m = s.main_sp;
    unsafe { sim_fiber_switch(p, m) };
    sched().active = true;
}
pub fn spawn(stack: usize, f: impl FnOnce() + 'static) -> usize {
    let s = sched();
    let i = s.fibers.len();
    let st = new_stack(stack);
    let sp = prepare(&st, fiber_main, i);
    s.fibers.push(Fiber { sp, state: FState::Runnable, entry: Some(Box::new(f)), stack: st });
    i
}
pub fn current() -> usize {
    sched().cur
}
pub fn in_fiber() -> bool {
    unsafe { !S.is_null() && (*S).active }
}
fn draw_slice(s: &mut Sched) -> u64 {
    let c = ch();
    match s.grain {
        0 => 20_000,
        1 => match c.weighted(&[4, 3, 2, 1]) {
            0 => 5_000,
            1 => c.range(1, 200) as u64,
            2 => c.range(1, 30) as u64,
            _ => c.range(1, 4) as u64,
        },
        2 => match c.weighted(&[1, 3, 4, 4]) {
            0 => 5_000,
            1 => c.range(1, 100) as u64,
            2 => c.range(1, 20) as u64,
            _ => c.range(1, 4) as u64,
        },
        _ => c.range(1, 6) as u64,
    }
}
/// Run all fibers until done, aborted, exited or deadlocked. May be called again after adding fibers.
pub fn run_all() -> RunEnd {
    loop {
        let s = sched();
        let runnable: Vec<usize> = s.fibers.iter().enumerate().filter(|(_, f)| f.state == FState::Runnable).map(|(i, _)| i).collect();
        if runnable.is_empty() {
            steps_add(s.steps);
            s.steps = 0;
            return if s.fibers.iter().all(|f| f.state == FState::Done) { RunEnd::AllDone } else { RunEnd::Deadlock };
        }
        let next = if runnable.len() == 1 {
            s.slice = u64::MAX;
            runnable[0]
        } else {
            // rotate so that "0" means: the current thread's successor
            let k = ch().pick(runnable.len() as u32) as usize;
            let start = runnable.iter().position(|&i| i > s.cur).unwrap_or(0);
            let n = runnable[(start + k) % runnable.len()];
            s.slice = draw_slice(s);
            n
        };
        if next != s.cur {
            s.switches += 1;
            ev("switch-to", next as u64, s.steps);
        }
        s.cur = next;
        s.active = true;
        let p: *mut usize = &mut s.main_sp;
        let to = s.fibers[next].sp;
        unsafe { sim_fiber_switch(p, to) };
        let s = sched();
        s.active = false;
        if let Some(e) = s.end.take() {
            steps_add(s.steps);
            s.steps = 0;
            return e;
        }
    }
}
static mut QUIET: u32 = 0;
/// The harness's own bookkeeping: not preempted (its generic code may share instrumented instances).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    unsafe { QUIET += 1 };
    let r = f();
    unsafe { QUIET -= 1 };
    r
}
#[inline]
pub fn yield_point() {
    unsafe {
        if S.is_null() || !(*S).active || QUIET > 0 {
            return;
        }
        let s = &mut *S;
        s.steps += 1;
        if s.steps > s.limit {
            steps_add(s.steps);
            violation("no-progress", "the run did not finish within its step budget: an operation loops or waits forever");
        }
        if s.slice == u64::MAX {
            return;
        }
        if s.slice == 0 {
            to_main();
        } else {
            s.slice -= 1;
        }
    }
}
/// The current fiber waits until another makes it runnable.
pub fn block() {
    let s = sched();
    let c = s.cur;
    s.fibers[c].state = FState::Blocked;
    to_main();
}
pub fn unblock(i: usize) {
    let s = sched();
    if s.fibers[i].state == FState::Blocked {
        s.fibers[i].state = FState::Runnable;
    }
}
/// Give up the slice voluntarily.
pub fn pass() {
    if in_fiber() {
        let s = sched();
        s.steps += 1;
        if s.steps > s.limit {
            violation("no-progress", "the run did not finish within its step budget");
        }
        to_main();
    }
}
/// The simulated process ends here (abort/exit): never returns to the caller.
pub fn end_process(e: RunEnd) -> ! {
    let s = sched();
    if !s.active {
        crate::runner::violation("abort-outside-run", "process ended outside a simulated thread");
    }
    s.end = Some(e);
    stat(match e {
        RunEnd::Abort => "probe.process_abort",
        _ => "probe.process_exit",
    });
    ev("process-end", matches!(e, RunEnd::Abort) as u64, if let RunEnd::Exit(c) = e { c as u64 } else { 0 });
    loop {
        to_main();
        crate::runner::harness_error("ended process was resumed");
    }
}
/// Wait for a simulated lock: blocked until some lock is released (the caller checks again).
pub fn wait_on_lock() {
    if !in_fiber() {
        violation("deadlock", "a thread waits for a lock that it holds itself, with no other thread running");
    }
    let s = sched();
    s.steps += 1;
    if s.steps > s.limit {
        steps_add(s.steps);
        violation("no-progress", "the run did not finish within its step budget");
    }
    block();
}
/// Every thread waiting for a lock gets to look again.
pub fn lock_released() {
    if unsafe { S.is_null() } {
        return;
    }
    for f in &mut sched().fibers {
        if f.state == FState::Blocked {
            f.state = FState::Runnable;
        }
    }
}
