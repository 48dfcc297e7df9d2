//! Stackful fibers: simulated threads of the simulated process, switched only by the scheduler.
core::arch::global_asm!(
    ".global sim_fiber_switch",
    "sim_fiber_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global sim_fiber_tramp",
    "sim_fiber_tramp:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);
extern "C" {
    pub fn sim_fiber_switch(save: *mut usize, to: usize);
    fn sim_fiber_tramp();
}
pub struct Stack {
    pub base: usize,
    pub size: usize,
}
pub fn new_stack(size: usize) -> Stack {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        libc::mprotect(p, 4096, libc::PROT_NONE);
        Stack { base: p as usize, size }
    }
}
/// Prepare a stack so that switching to the returned sp calls entry(arg).
pub fn prepare(st: &Stack, entry: extern "C" fn(usize) -> !, arg: usize) -> usize {
    unsafe {
        let top = (st.base + st.size) & !15;
        // layout popped by switch: r15 r14 r13 r12 rbx rbp ret ; after ret rsp must be 16-aligned
        let sp = top - 72;
        let w = sp as *mut usize;
        *w.add(0) = 0;
        *w.add(1) = 0;
        *w.add(2) = entry as usize;
        *w.add(3) = arg;
        *w.add(4) = 0;
        *w.add(5) = 0;
        *w.add(6) = sim_fiber_tramp as *const () as usize;
        sp
    }
}
