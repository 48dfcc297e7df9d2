//! The simulated operating system the shipped native runtime runs against. The runtime's undefined
//! libc symbols are renamed to sim_* at link time, so no system call of the runtime is real.
use crate::heap::heap;
use crate::runner::{ev, ev_bytes, stat, violation};
use crate::sched::{self, current, end_process, yield_point, RunEnd};
use crate::tape::ch;
use std::ffi::{c_int, c_void};

#[derive(Clone, Debug, PartialEq)]
pub enum Rd {
    Data(usize, usize), // stream range
    Eof,
    Eintr,
    Err(i32),
}
#[derive(Clone, Debug)]
pub struct ReadRec {
    pub thread: usize,
    pub op: u64,
    pub res: Rd,
    pub count: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Wr {
    Data(usize, usize), // range of stdout
    Zero,
    Eintr,
    Err(i32),
}
#[derive(Clone, Debug)]
pub struct WriteRec {
    pub thread: usize,
    pub op: u64,
    pub res: Wr,
}
pub struct Os {
    pub stdin: Vec<u8>,
    pub in_pos: usize,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub reads: Vec<ReadRec>,
    pub writes: Vec<WriteRec>,
    /// the workload's operation number, attached to each record
    pub op: u64,
    // fault configuration, in percent
    pub r_eintr: u32,
    pub r_err: u32,
    pub r_errs_left: u32,
    /// read errors only when everything delivered so far ends at a line end
    pub r_err_boundary: bool,
    pub r_chunk: u32, // 0 whole, 1 mixture, 2 single bytes, 3 tiny, 4 line ends
    pub w_eintr: u32,
    pub w_short: u32,
    pub w_err: u32,
    pub w_zero: u32,
    pub w_hard_left: u32,
    pub w_dead: bool, // every write fails
    /// stdout fails for good once this many bytes arrived
    pub w_dead_at: Option<usize>,
    pub w_dead_zero: bool,
    // memory
    pub oom_at: u64,
    pub oom_hit: bool,
    pub allocs: u64,
    pub alloc_failed: Vec<usize>, // threads that saw a failed allocation
    // TLS
    pub key_create_calls: u32,
    pub key_fail: bool,
    pub set_fail_at: u32,
    pub set_calls: u32,
    pub tls_fault_hit: bool,
    pub keys: Vec<(Option<extern "C" fn(*mut c_void)>, bool)>,
    pub tls: Vec<Vec<usize>>, // [thread][key]
    pub errno: Vec<Box<c_int>>,
    pub used_unset_key: bool,
    pub consec: u32,
}
static mut O: *mut Os = std::ptr::null_mut();
pub fn os() -> &'static mut Os {
    unsafe {
        if O.is_null() {
            O = Box::into_raw(Box::new(Os {
                stdin: vec![],
                in_pos: 0,
                stdout: vec![],
                stderr: vec![],
                reads: vec![],
                writes: vec![],
                op: 0,
                r_eintr: 0,
                r_err: 0,
                r_errs_left: 0,
                r_err_boundary: false,
                r_chunk: 0,
                w_eintr: 0,
                w_short: 0,
                w_err: 0,
                w_zero: 0,
                w_hard_left: 0,
                w_dead: false,
                w_dead_at: None,
                w_dead_zero: false,
                oom_at: u64::MAX,
                oom_hit: false,
                allocs: 0,
                alloc_failed: vec![],
                key_create_calls: 0,
                key_fail: false,
                set_fail_at: 0,
                set_calls: 0,
                tls_fault_hit: false,
                keys: vec![],
                tls: vec![],
                errno: vec![],
                used_unset_key: false,
                consec: 0,
            }));
        }
        &mut *O
    }
}
fn set_errno(e: i32) {
    unsafe { *sim_errno_location() = e }
}
#[no_mangle]
pub extern "C" fn sim_errno_location() -> *mut c_int {
    let o = os();
    let t = if sched::in_fiber() { current() } else { 0 };
    while o.errno.len() <= t {
        o.errno.push(Box::new(0));
    }
    &mut *o.errno[t]
}
pub const READ_ERRNOS: [i32; 7] = [libc::EIO, libc::EAGAIN, libc::EBADF, libc::EISDIR, libc::EINVAL, libc::ECONNRESET, libc::ENXIO];
pub const WRITE_ERRNOS: [i32; 6] = [libc::EIO, libc::EPIPE, libc::EAGAIN, libc::EBADF, libc::ENOSPC, libc::EFBIG];
#[no_mangle]
pub extern "C" fn sim_read(fd: c_int, buf: *mut u8, count: usize) -> isize {
    yield_point();
    let o = os();
    let c = ch();
    let rec = |o: &mut Os, res: Rd| {
        let (thread, op) = (current(), o.op);
        o.reads.push(ReadRec { thread, op, res, count });
    };
    if fd != 0 {
        set_errno(libc::EBADF);
        ev("read-bad-fd", fd as u64, 0);
        return -1;
    }
    if o.r_eintr > 0 && o.consec < 60 && c.chance(o.r_eintr, 100) {
        o.consec += 1;
        stat("fault.read_eintr");
        set_errno(libc::EINTR);
        ev("read=EINTR", count as u64, 0);
        rec(o, Rd::Eintr);
        return -1;
    }
    o.consec = 0;
    let at_end = o.reads.iter().any(|r| matches!(r.res, Rd::Eof));
    let boundary = !o.r_err_boundary || (!at_end && (o.in_pos == 0 || o.stdin[o.in_pos - 1] == b'\n'));
    if o.r_err > 0 && o.r_errs_left > 0 && boundary && c.chance(o.r_err, 100) {
        o.r_errs_left -= 1;
        let e = *c.of(&READ_ERRNOS);
        stat("fault.read_error");
        set_errno(e);
        ev("read=error", e as u64, 0);
        rec(o, Rd::Err(e));
        return -1;
    }
    let left = o.stdin.len() - o.in_pos;
    let max = left.min(count);
    if max == 0 {
        ev("read=eof", count as u64, 0);
        stat("fault.read_eof");
        if count > 0 {
            rec(o, Rd::Eof);
        }
        return 0;
    }
    let n = match o.r_chunk {
        0 => max,
        2 => 1,
        3 => 1 + c.pick(max.min(4) as u32) as usize,
        4 => match o.stdin[o.in_pos..o.in_pos + max].iter().position(|&b| b == b'\n') {
            Some(p) => match c.weighted(&[4, 2, 2]) {
                0 => p + 1,
                1 => p.max(1),
                _ => p.saturating_sub(1).max(1),
            },
            None => max,
        },
        _ => match c.weighted(&[4, 2, 2, 2]) {
            0 => max,
            1 => 1 + c.pick(max as u32) as usize,
            2 => 1 + c.pick(max.min(8) as u32) as usize,
            _ => 1,
        },
    };
    if n < max {
        stat("fault.read_short");
    }
    let s = o.in_pos;
    unsafe { std::ptr::copy_nonoverlapping(o.stdin.as_ptr().add(s), buf, n) };
    o.in_pos += n;
    ev("read=data", n as u64, count as u64);
    rec(o, Rd::Data(s, s + n));
    n as isize
}
#[no_mangle]
pub extern "C" fn sim_write(fd: c_int, buf: *const u8, count: usize) -> isize {
    yield_point();
    let o = os();
    let c = ch();
    if count > isize::MAX as usize {
        set_errno(libc::EINVAL);
        return -1;
    }
    if fd == 2 {
        let b = unsafe { std::slice::from_raw_parts(buf, count) };
        o.stderr.extend_from_slice(b);
        ev_bytes("write-stderr", b);
        return count as isize;
    }
    if fd != 1 {
        set_errno(libc::EBADF);
        ev("write-bad-fd", fd as u64, 0);
        return -1;
    }
    let rec = |o: &mut Os, res: Wr| {
        let (thread, op) = (current(), o.op);
        o.writes.push(WriteRec { thread, op, res });
    };
    if o.w_dead_at.is_some_and(|n| o.stdout.len() >= n) {
        o.w_dead = true;
    }
    if o.w_dead {
        stat("fault.write_dead");
        if o.w_dead_zero {
            ev("write=0 (dead)", count as u64, 0);
            rec(o, Wr::Zero);
            return 0;
        }
        set_errno(libc::EIO);
        ev("write=EIO (dead)", count as u64, 0);
        rec(o, Wr::Err(libc::EIO));
        return -1;
    }
    if o.w_eintr > 0 && o.consec < 60 && c.chance(o.w_eintr, 100) {
        o.consec += 1;
        stat("fault.write_eintr");
        set_errno(libc::EINTR);
        ev("write=EINTR", count as u64, 0);
        rec(o, Wr::Eintr);
        return -1;
    }
    o.consec = 0;
    if o.w_hard_left > 0 && count > 0 {
        if o.w_err > 0 && c.chance(o.w_err, 100) {
            o.w_hard_left -= 1;
            let e = *c.of(&WRITE_ERRNOS);
            stat("fault.write_error");
            set_errno(e);
            ev("write=error", e as u64, count as u64);
            rec(o, Wr::Err(e));
            return -1;
        }
        if o.w_zero > 0 && c.chance(o.w_zero, 100) {
            o.w_hard_left -= 1;
            stat("fault.write_zero");
            ev("write=0", count as u64, 0);
            rec(o, Wr::Zero);
            return 0;
        }
    }
    let mut n = count;
    if count > 1 && o.w_short > 0 && c.chance(o.w_short, 100) {
        n = match c.pick(3) {
            0 => 1,
            1 => 1 + c.pick(count as u32 - 1) as usize,
            _ => count - 1,
        };
        stat("fault.write_short");
    }
    let b = unsafe { std::slice::from_raw_parts(buf, n) };
    let s = o.stdout.len();
    o.stdout.extend_from_slice(b);
    ev_bytes("write", b);
    rec(o, Wr::Data(s, s + n));
    n as isize
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub extern "C" fn sim_writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    let mut all = vec![];
    for i in 0..cnt as usize {
        unsafe {
            let v = &*iov.add(i);
            if v.len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.base, v.len));
            }
        }
    }
    sim_write(fd, all.as_ptr(), all.len())
}
#[no_mangle]
pub extern "C" fn sim_readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    for i in 0..cnt as usize {
        unsafe {
            let v = &*iov.add(i);
            if v.len > 0 {
                return sim_read(fd, v.base, v.len);
            }
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn sim_fsync(_fd: c_int) -> c_int {
    0
}

// ---------------------------------------------------------------- memory
fn sim_alloc(size: usize, align: usize) -> usize {
    yield_point();
    let o = os();
    let k = o.allocs;
    o.allocs += 1;
    if k >= o.oom_at {
        if !o.oom_hit {
            stat("fault.alloc_failure");
        }
        o.oom_hit = true;
        o.alloc_failed.push(current());
        ev("alloc=ENOMEM", k, size as u64);
        return 0;
    }
    let a = heap().alloc(size, align);
    ev("alloc", size as u64, align as u64);
    if a == 0 {
        o.oom_hit = true;
        o.alloc_failed.push(current());
        stat("probe.alloc_too_big");
    }
    a
}
#[no_mangle]
pub extern "C" fn sim_posix_memalign(out: *mut usize, align: usize, size: usize) -> c_int {
    if !align.is_power_of_two() || align % 8 != 0 {
        return libc::EINVAL;
    }
    let a = sim_alloc(size, align);
    if a == 0 {
        return libc::ENOMEM;
    }
    unsafe { *out = a };
    0
}
#[no_mangle]
pub extern "C" fn sim_malloc(size: usize) -> usize {
    let a = sim_alloc(size, 16);
    if a == 0 {
        set_errno(libc::ENOMEM);
    }
    a
}
#[no_mangle]
pub extern "C" fn sim_aligned_alloc(align: usize, size: usize) -> usize {
    sim_alloc(size, align)
}
#[no_mangle]
pub extern "C" fn sim_calloc(n: usize, size: usize) -> usize {
    let Some(t) = n.checked_mul(size) else { return 0 };
    let a = sim_alloc(t, 16);
    if a != 0 {
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, t) };
    }
    a
}
#[no_mangle]
pub extern "C" fn sim_realloc(p: usize, size: usize) -> usize {
    if p == 0 {
        return sim_malloc(size);
    }
    let Some(i) = heap().find(p) else { violation("invalid-realloc", &heap().describe(p)) };
    let old = heap().blocks[i].size;
    let a = sim_alloc(size, 16);
    if a != 0 {
        unsafe { std::ptr::copy_nonoverlapping(p as *const u8, a as *mut u8, old.min(size)) };
        heap().free(p);
    }
    a
}
#[no_mangle]
pub extern "C" fn sim_free(p: usize) {
    yield_point();
    heap().free(p)
}

// ---------------------------------------------------------------- process
#[no_mangle]
pub extern "C" fn sim_abort() -> ! {
    ev("abort", 0, 0);
    end_process(RunEnd::Abort)
}
#[no_mangle]
pub extern "C" fn sim_exit(code: c_int) -> ! {
    end_process(RunEnd::Exit(code))
}
#[no_mangle]
pub extern "C" fn sim_sched_yield() -> c_int {
    sched::pass();
    0
}

// ---------------------------------------------------------------- threads
#[no_mangle]
pub extern "C" fn sim_pthread_key_create(key: *mut u32, dtor: Option<extern "C" fn(*mut c_void)>) -> c_int {
    yield_point();
    let o = os();
    o.key_create_calls += 1;
    if o.key_fail {
        o.tls_fault_hit = true;
        stat("fault.tls_key_create");
        ev("pthread_key_create=EAGAIN", 0, 0);
        return libc::EAGAIN;
    }
    o.keys.push((dtor, true));
    unsafe { *key = o.keys.len() as u32 + 2 }; // key values start at 3
    ev("pthread_key_create", o.keys.len() as u64 + 2, 0);
    yield_point();
    0
}
#[no_mangle]
pub extern "C" fn sim_pthread_key_delete(key: u32) -> c_int {
    let o = os();
    let k = key.wrapping_sub(3) as usize;
    if k < o.keys.len() {
        o.keys[k].1 = false;
        ev("pthread_key_delete", key as u64, 0);
        0
    } else {
        libc::EINVAL
    }
}
fn slot(key: u32) -> Option<&'static mut usize> {
    let o = os();
    let k = key.wrapping_sub(3) as usize;
    if k >= o.keys.len() || !o.keys[k].1 {
        o.used_unset_key = true;
        stat("probe.tls_bad_key");
        ev("tls-bad-key", key as u64, 0);
        return None;
    }
    let t = current();
    while o.tls.len() <= t {
        o.tls.push(vec![]);
    }
    while o.tls[t].len() <= k {
        o.tls[t].push(0);
    }
    Some(&mut o.tls[t][k])
}
#[no_mangle]
pub extern "C" fn sim_pthread_getspecific(key: u32) -> usize {
    yield_point();
    slot(key).map(|s| *s).unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sim_pthread_setspecific(key: u32, v: usize) -> c_int {
    yield_point();
    let o = os();
    o.set_calls += 1;
    if o.set_fail_at != 0 && o.set_calls == o.set_fail_at {
        o.tls_fault_hit = true;
        stat("fault.tls_set");
        ev("pthread_setspecific=ENOMEM", 0, 0);
        return libc::ENOMEM;
    }
    match slot(key) {
        Some(s) => {
            *s = v;
            ev("pthread_setspecific", key as u64, (v != 0) as u64);
            0
        }
        None => libc::EINVAL,
    }
}
/// What the OS does when a thread ends: run destructors of non-null slots.
pub fn thread_exit() {
    let t = current();
    for _round in 0..4 {
        let o = os();
        let n = o.tls.get(t).map(|v| v.len()).unwrap_or(0);
        let mut any = false;
        for k in 0..n {
            let v = os().tls[t][k];
            if v != 0 {
                os().tls[t][k] = 0;
                if let (Some(d), true) = os().keys[k] {
                    any = true;
                    ev("tls-destructor", t as u64, k as u64);
                    d(v as *mut c_void);
                }
            }
        }
        if !any {
            break;
        }
    }
}
#[no_mangle]
pub extern "C" fn sim_pthread_self() -> usize {
    current() + 1
}
#[no_mangle]
pub extern "C" fn sim_pthread_mutex_lock(m: *mut u32) -> c_int {
    loop {
        yield_point();
        unsafe {
            if *m == 0 {
                *m = current() as u32 + 1;
                return 0;
            }
        }
        sched::pass();
    }
}
#[no_mangle]
pub extern "C" fn sim_pthread_mutex_trylock(m: *mut u32) -> c_int {
    yield_point();
    unsafe {
        if *m == 0 {
            *m = current() as u32 + 1;
            0
        } else {
            libc::EBUSY
        }
    }
}
#[no_mangle]
pub extern "C" fn sim_pthread_mutex_unlock(m: *mut u32) -> c_int {
    yield_point();
    unsafe { *m = 0 };
    0
}
#[no_mangle]
pub extern "C" fn sim_pthread_once(m: *mut u32, f: extern "C" fn()) -> c_int {
    loop {
        yield_point();
        unsafe {
            match *m {
                0 => {
                    *m = 1;
                    f();
                    *m = 2;
                    return 0;
                }
                2 => return 0,
                _ => sched::pass(),
            }
        }
    }
}

// ---------------------------------------------------------------- instrumentation callbacks
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    yield_point()
}
macro_rules! ls {
    ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(_a: usize) { yield_point() } )* };
}
ls!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
#[no_mangle]
pub extern "C" fn sim__exit(code: c_int) -> ! {
    end_process(RunEnd::Exit(code))
}
