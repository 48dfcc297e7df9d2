use crate::gen::*;
use crate::rt::{self, *};
use simcore::ch;
use simcore::heap::heap;
use simcore::os::{os, thread_exit};
use simcore::runner::{ev, ev_bytes, set_nontrivial, stat, violation};
use simcore::sched::{run_all, sched, spawn, RunEnd};
use std::cell::RefCell;
use std::rc::Rc;

struct Blk {
    p: usize,
    n: usize,
    pat: u8,
}
fn pat(b: u8, i: usize) -> u8 {
    // never 0xFD / 0xCC, varies by position
    let x = b.wrapping_add((i as u8).wrapping_mul(31)) & 0x7f;
    x | 1
}
unsafe fn fill(b: &Blk) {
    for i in 0..b.n {
        *((b.p + i) as *mut u8) = pat(b.pat, i);
    }
}
unsafe fn verify(b: &Blk, when: &str) {
    for i in 0..b.n {
        let x = *((b.p + i) as *const u8);
        if x != pat(b.pat, i) {
            violation("block-changed", &format!("{when}: byte {i} of a live block of {} bytes changed to {x:#x}", b.n));
        }
    }
}
/// A block the runtime handed out: aligned, inside one live system block, disjoint from the others.
fn admit(blks: &[Blk], p: usize, n: usize) {
    if p % 8 != 0 {
        violation("misaligned", &format!("block of {n} bytes at {p:#x}"));
    }
    if !heap().valid(p, n) {
        violation("undersized", &format!("block of {n} bytes at {p:#x} is not backed by allocated memory: {}", heap().describe(p + n - 1)));
    }
    for b in blks {
        if p < b.p + b.n && b.p < p + n {
            violation("overlap", &format!("new block of {n} bytes overlaps a live block of {} bytes", b.n));
        }
    }
}
fn size_choice() -> u64 {
    let c = ch();
    match c.weighted(&[6, 4, 2, 1]) {
        0 => 1 + c.pick(64) as u64,
        1 => 1 + c.pick(600) as u64,
        2 => 1 + c.pick(9000) as u64,
        _ => 0,
    }
}
pub fn r06() {
    let c = ch();
    let asan = c.chance(1, 3);
    let oom = c.chance(2, 3);
    if oom {
        os().oom_at = match c.pick(3) {
            0 => c.pick(6) as u64,
            1 => c.pick(25) as u64,
            _ => c.pick(80) as u64,
        };
    }
    let huge = c.chance(1, 12);
    let n = c.range(1, 28);
    os().stdin = stream(6).bytes;
    os().r_chunk = 1;
    let handed = Rc::new(RefCell::new(0u32));
    let want_out: Rc<RefCell<Vec<u8>>> = Rc::new(RefCell::new(vec![]));
    let (hd, wo) = (handed.clone(), want_out.clone());
    let huge_pending = Rc::new(RefCell::new(false));
    let hp = huge_pending.clone();
    let live_at_end: Rc<RefCell<Option<usize>>> = Rc::new(RefCell::new(None));
    let le = live_at_end.clone();
    spawn(1 << 20, move || unsafe {
        if asan {
            __asan_init();
        }
        after_op("asan_init");
        __tribute_init();
        after_op("init");
        let mut blks: Vec<Blk> = vec![];
        let mut evs: usize = 0; // evidence blocks are never released by the runtime
        let mut pool: Vec<(*mut TBytes, Vec<u8>)> = vec![];
        let mut cur_ev: *mut rt::Ev = std::ptr::null_mut();
        let base_live = |_: ()| heap().live;
        let _ = base_live;
        for i in 0..n {
            let c = ch();
            if huge && i == n / 2 {
                let sz = *c.of(&[u64::MAX, i64::MAX as u64, (i64::MAX as u64) - 7, u64::MAX - 63, u64::MAX - 64, 1 << 62, (1 << 47) + 3]);
                stat("probe.huge_request");
                ev("alloc-huge", sz, 0);
                *hp.borrow_mut() = true;
                let p = __tribute_alloc(sz);
                violation("huge-allocation-returned", &format!("a request for {sz} bytes returned {p:p}"));
            }
            match c.weighted(&[6, 5, 2, 2, 2, 1]) {
                0 => {
                    let sz = size_choice();
                    ev("op-alloc", sz, 0);
                    let p = __tribute_alloc(sz) as usize;
                    after_op("alloc");
                    if sz == 0 {
                        if p != 0 {
                            violation("zero-size", "a zero-sized request returned a non-null pointer");
                        }
                        continue;
                    }
                    if p == 0 {
                        violation("null-returned", &format!("a request for {sz} bytes returned null"));
                    }
                    admit(&blks, p, sz as usize);
                    let b = Blk { p, n: sz as usize, pat: c.byte() };
                    fill(&b);
                    blks.push(b);
                    *hd.borrow_mut() += 1;
                }
                1 => {
                    if blks.is_empty() {
                        // releasing nothing is a no-op
                        __tribute_dealloc(std::ptr::null_mut(), c.pick(64) as u64);
                        after_op("dealloc-null");
                        continue;
                    }
                    let k = c.pick(blks.len() as u32) as usize;
                    let b = blks.swap_remove(k);
                    verify(&b, "before release");
                    let frees = heap().frees.len();
                    ev("op-dealloc", b.n as u64, 0);
                    __tribute_dealloc(b.p as *mut u8, b.n as u64);
                    after_op("dealloc");
                    if !asan && heap().frees.len() != frees + 1 {
                        violation("not-released", "releasing a block did not return it to the system exactly once");
                    }
                }
                2 => {
                    ev("op-read-line", 0, 0);
                    let _ = rt::read_line();
                    after_op("read_line");
                }
                3 => {
                    let d = { let mut d = line_content(); d.truncate(50); d };
                    let src = alloc_bytes(&d);
                    let b = __tribute_bytes_concat(src, src);
                    after_op("concat");
                    let mut w = d.clone();
                    w.extend_from_slice(&d);
                    if bytes_of(b) != w {
                        violation("partial-value", "concatenation returned wrong contents");
                    }
                    pool.push((b, w));
                    free_bytes(src);
                }
                4 => {
                    if cur_ev.is_null() {
                        cur_ev = __tribute_evidence_empty();
                        after_op("evidence_empty");
                        evs += 1;
                    }
                    let id = c.pick(12) as i32;
                    let l0 = heap().live;
                    cur_ev = __tribute_evidence_extend(cur_ev, id, i as i32, std::ptr::null(), std::ptr::null());
                    after_op("evidence_extend");
                    evs += heap().live - l0;
                    if __tribute_evidence_lookup(cur_ev, id) != i as i32 {
                        violation("partial-value", "evidence lookup after extension");
                    }
                }
                _ => {
                    let v = c.pick(100000) as i32;
                    wo.borrow_mut().extend_from_slice(format!("{v}\n").as_bytes());
                    __tribute_print_int(v);
                    after_op("print_int");
                }
            }
        }
        for b in blks.drain(..) {
            verify(&b, "at the end");
            __tribute_dealloc(b.p as *mut u8, b.n as u64);
            after_op("dealloc");
        }
        for (b, w) in pool {
            if bytes_of(b) != w {
                violation("block-changed", "a byte string changed");
            }
            drop_bytes(b, true);
            after_op("dealloc");
        }
        thread_exit();
        *le.borrow_mut() = Some(evs);
    });
    let end = run_all();
    let o = os();
    match end {
        RunEnd::AllDone => {
            if o.oom_hit {
                violation("continued-after-oom", "an allocation failed and the program ran to its end");
            }
            let evs = live_at_end.borrow().unwrap();
            if !asan && heap().live != evs {
                violation("leak", &format!("{} blocks live at the end, expected {evs} (evidence values only)", heap().live));
            }
        }
        RunEnd::Abort if o.oom_hit || *huge_pending.borrow() => {}
        e => violation("ended", &format!("{e:?} although every allocation succeeded")),
    }
    let want = want_out.borrow();
    if !want.starts_with(&o.stdout) {
        violation("output-not-prefix", "output is not a prefix of the expected output");
    }
    if end == RunEnd::AllDone && *want != o.stdout {
        violation("output-lost", "output differs");
    }
    heap().check_all();
    if o.oom_hit || *handed.borrow() >= 5 {
        set_nontrivial();
    }
}
/// An operation returned to its caller: no allocation may have failed inside it.
fn after_op(name: &'static str) {
    if os().alloc_failed.contains(&simcore::sched::current()) {
        violation("continued-after-oom", &format!("{name} returned although an allocation inside it failed"));
    }
}
/// Workload-owned byte string (payload pointer), built in simulated memory without using the runtime.
unsafe fn alloc_bytes(d: &[u8]) -> *mut TBytes {
    let h = heap();
    let p = if d.is_empty() { 0 } else { h.alloc(d.len(), 8) };
    std::ptr::copy_nonoverlapping(d.as_ptr(), p as *mut u8, d.len());
    let b = h.alloc(24, 8);
    *(b as *mut u32) = 1;
    *((b + 4) as *mut u32) = 0;
    let t = (b + 8) as *mut TBytes;
    t.write(TBytes { ptr: p as *const u8, len: d.len() as u64 });
    t
}
unsafe fn free_bytes(b: *mut TBytes) {
    if (*b).len > 0 {
        heap().free((*b).ptr as usize);
    }
    heap().free(b as usize - HDR);
}

pub fn r07() {
    let c = ch();
    let big = c.chance(1, 3);
    let n = c.range(1, if big { 60 } else { 30 });
    // corruption plan: after operation `at`, one byte at distance d of some live block
    let corrupt = c.chance(3, 5);
    let at = c.pick(n);
    struct St {
        expect_abort: bool,
        evicted: usize,
        released: usize,
    }
    let st = Rc::new(RefCell::new(St { expect_abort: false, evicted: 0, released: 0 }));
    let s2 = st.clone();
    spawn(1 << 20, move || unsafe {
        __asan_init();
        __tribute_init();
        let mut blks: Vec<(Blk, bool)> = vec![]; // bool: corrupted
        let mut quar: std::collections::VecDeque<(usize, usize, usize, Blk)> = Default::default(); // (block idx, base, total, payload)
        let mut corrupted = false;
        for i in 0..n {
            let c = ch();
            match c.weighted(&[5, 4]) {
                0 => {
                    let sz = if big {
                        match c.weighted(&[3, 3, 2, 1]) {
                            0 => 1 + c.pick(4000) as u64,
                            1 => 60_000 + c.pick(60_000) as u64,
                            2 => (1 << 18) + c.pick(1000) as u64,
                            _ => (1 << 20) - 64 - 20 + c.pick(40) as u64,
                        }
                    } else {
                        1 + c.pick(200) as u64
                    };
                    if sz > (1 << 19) {
                        stat("probe.big_block");
                    }
                    let p = __tribute_alloc(sz) as usize;
                    if p == 0 {
                        violation("null-returned", "null from an allocation that succeeded");
                    }
                    for (_, base, total, _) in &quar {
                        if p < base + total && *base < p + sz as usize {
                            violation("quarantine-reused", "a block still in quarantine was handed out again");
                        }
                    }
                    if !heap().valid(p, sz as usize) || p % 8 != 0 {
                        violation("undersized", "block not backed by memory");
                    }
                    let b = Blk { p, n: sz as usize, pat: c.byte() };
                    ev("op-alloc", sz, 0);
                    fill(&b);
                    blks.push((b, false));
                }
                _ => {
                    if blks.is_empty() {
                        continue;
                    }
                    let k = c.pick(blks.len() as u32) as usize;
                    let (b, bad) = blks.swap_remove(k);
                    verify(&b, "before release");
                    ev("op-release", b.n as u64, bad as u64);
                    let frees0 = heap().frees.len();
                    let blk = heap().containing(b.p);
                    s2.borrow_mut().expect_abort = bad;
                    if bad {
                        set_nontrivial();
                    }
                    __tribute_dealloc(b.p as *mut u8, b.n as u64);
                    if bad {
                        violation("corruption-missed", &format!("a stray write next to a block of {} bytes was not reported when it was released", b.n));
                    }
                    let bi = blk.unwrap();
                    let total = heap().blocks[bi].size;
                    let base = heap().blocks[bi].addr;
                    if heap().blocks[bi].live {
                        // overwritten while quarantined
                        for j in 0..b.n {
                            if *((b.p + j) as *const u8) == pat(b.pat, j) {
                                violation("not-overwritten", &format!("byte {j} of a released block of {} bytes still holds its old value", b.n));
                            }
                        }
                    }
                    quar.push_back((bi, base, total, b));
                    s2.borrow_mut().released += 1;
                    // evictions: oldest first, only when over the bound, and never leaving more than the bound
                    let freed: Vec<usize> = heap().frees[frees0..].to_vec();
                    for f in freed {
                        if !heap().blocks.iter().any(|_| true) {
                            break;
                        }
                        if let Some(pos) = quar.iter().position(|q| q.0 == f) {
                            let held: usize = quar.iter().map(|q| q.2).sum();
                            if pos != 0 {
                                violation("eviction-order", "a released block left the quarantine before an older one");
                            }
                            if held <= 1 << 20 {
                                violation("eviction-early", &format!("a released block left the quarantine while it held only {held} bytes"));
                            }
                            quar.pop_front();
                            stat("probe.quarantine_evict");
                            s2.borrow_mut().evicted += 1;
                        }
                    }
                    let held: usize = quar.iter().map(|q| q.2).sum();
                    if held > 1 << 20 {
                        violation("quarantine-over-bound", &format!("the quarantine holds {held} bytes"));
                    }
                }
            }
            if corrupt && !corrupted && i >= at && !blks.is_empty() {
                let c = ch();
                let k = c.pick(blks.len() as u32) as usize;
                let d = c.pick(32) as usize;
                let addr = if c.chance(1, 2) { blks[k].0.p + blks[k].0.n + d } else { blks[k].0.p - 1 - d };
                let old = *(addr as *const u8);
                let new = match c.pick(4) {
                    0 => old ^ 1,
                    1 => old ^ 0x80,
                    2 => 0,
                    _ => c.byte(),
                };
                if new != old {
                    *(addr as *mut u8) = new;
                    blks[k].1 = true;
                    corrupted = true;
                    stat("fault.stray_write");
                    ev("stray-write", addr.wrapping_sub(blks[k].0.p) as u64, new as u64);
                }
            }
        }
        // release everything at the end, corrupted blocks last
        blks.sort_by_key(|b| b.1);
        for (b, bad) in blks.drain(..) {
            verify(&b, "at the end");
            s2.borrow_mut().expect_abort = bad;
            if bad {
                set_nontrivial();
            }
            __tribute_dealloc(b.p as *mut u8, b.n as u64);
            if bad {
                violation("corruption-missed", &format!("a stray write next to a block of {} bytes was not reported when it was released", b.n));
            }
            s2.borrow_mut().released += 1;
        }
    });
    let end = run_all();
    let st = st.borrow();
    let o = os();
    match end {
        RunEnd::AllDone => {
            if !o.stderr.is_empty() {
                violation("false-alarm", &format!("a clean program was reported: {}", String::from_utf8_lossy(&o.stderr)));
            }
        }
        RunEnd::Abort => {
            if !st.expect_abort {
                violation("false-alarm", &format!("a clean release aborted: {}", String::from_utf8_lossy(&o.stderr)));
            }
            if o.stderr.is_empty() {
                violation("silent-abort", "corruption aborted the program without a report on standard error");
            }
        }
        e => violation("ended", &format!("{e:?}")),
    }
    if st.released >= 3 {
        set_nontrivial();
    }
}

#[derive(Clone)]
struct Val {
    p: *mut TBytes,
    want: Vec<u8>,
    root: Option<usize>, // slice of pool[root]
    depth: u32,
    slices: u32,
    mine: bool, // built by the workload, not the runtime
}
pub fn r08() {
    let c = ch();
    let nt = 1 + c.weighted(&[4, 2, 1]);
    sched().grain = if nt > 1 { 1 + c.pick(3) } else { 0 };
    if c.chance(1, 6) {
        os().oom_at = c.pick(30) as u64;
    }
    let pool: Rc<RefCell<Vec<Val>>> = Rc::new(RefCell::new(vec![]));
    let expect_abort = Rc::new(RefCell::new(false));
    let pure_single = nt == 1;
    for _ in 0..c.range(1, 4) {
        let mut d = line_content();
        if d.len() > 80 {
            d.truncate(80);
        }
        if d.is_empty() {
            stat("probe.empty_operand");
        }
        let p = unsafe { alloc_bytes(&d) };
        pool.borrow_mut().push(Val { p, want: d, root: None, depth: 0, slices: 0, mine: true });
    }
    let oob_at = if c.chance(1, 5) { c.pick(20) } else { u32::MAX };
    let done_new = Rc::new(RefCell::new(0));
    for t in 0..nt {
        let n = ch().range(1, 20);
        let (pool, ea, dn) = (pool.clone(), expect_abort.clone(), done_new.clone());
        spawn(1 << 19, move || unsafe {
            for i in 0..n {
                let c = ch();
                let len = pool.borrow().len() as u32;
                let (ai, bi) = (c.pick(len) as usize, c.pick(len) as usize);
                let (a, b) = (pool.borrow()[ai].clone(), pool.borrow()[bi].clone());
                if t == 0 && i == oob_at {
                    let l = a.want.len() as u32;
                    let (s, e) = match c.pick(4) {
                        0 => (0, l + 1),
                        1 => (l + 1, l + 1),
                        2 => (1, 0),
                        _ => (u32::MAX, u32::MAX),
                    };
                    stat("probe.oob_slice");
                    ev("slice-out-of-range", s as u64, e as u64);
                    *ea.borrow_mut() = true;
                    let p = __tribute_bytes_slice_or_panic(a.p, s, e);
                    violation("oob-slice-returned", &format!("slice {s}..{e} of {l} bytes returned {p:p}"));
                }
                match c.weighted(&[4, 4, 3, 1, 1]) {
                    0 => {
                        if a.want.len() + b.want.len() > 4000 {
                            continue;
                        }
                        let l0 = heap().blocks.len();
                        let p = __tribute_bytes_concat(a.p, b.p);
                        after_op("concat");
                        let mut w = a.want.clone();
                        w.extend_from_slice(&b.want);
                        ev("concat", ai as u64, bi as u64);
                        check_new(p, &w, l0, pure_single, false);
                        pool.borrow_mut().push(Val { p, want: w, root: None, depth: a.depth.max(b.depth), slices: 0, mine: false });
                        *dn.borrow_mut() += 1;
                    }
                    1 => {
                        let l = a.want.len() as u32;
                        let s = c.pick(l + 1);
                        let e = s + c.pick(l - s + 1);
                        let l0 = heap().blocks.len();
                        let p = __tribute_bytes_slice_or_panic(a.p, s, e);
                        after_op("slice");
                        let w = a.want[s as usize..e as usize].to_vec();
                        ev("slice", s as u64, e as u64);
                        check_new(p, &w, l0, pure_single, true);
                        if a.root.is_some() {
                            stat("probe.slice_of_slice");
                        }
                        let mut pl = pool.borrow_mut();
                        pl[ai].slices += 1;
                        pl.push(Val { p, want: w, root: Some(ai), depth: a.depth + 1, slices: 0, mine: false });
                        *dn.borrow_mut() += 1;
                    }
                    2 => {
                        let (al, bl) = (a.want.len() as u32, b.want.len() as u32);
                        let (s1, s2, n) = match c.pick(4) {
                            0 => (c.pick(al + 2), c.pick(bl + 2), c.pick(al.max(bl) + 2)),
                            1 => (0, 0, al.min(bl)),
                            2 => (u32::MAX, 0, *c.of(&[1, u32::MAX])),
                            _ => (c.pick(al + 1), c.pick(bl + 1), c.pick(4)),
                        };
                        let r = __tribute_bytes_range_equal(a.p, s1, b.p, s2, n);
                        let inr = |s: u32, l: u32| s as u64 + n as u64 <= l as u64;
                        let w = inr(s1, al) && inr(s2, bl) && a.want[s1 as usize..(s1 + n) as usize] == b.want[s2 as usize..(s2 + n) as usize];
                        ev("range-equal", r as u64, n as u64);
                        if r != w as u32 {
                            violation("wrong-comparison", &format!("range_equal({s1},{s2},{n}) on {} and {} bytes returned {r}", al, bl));
                        }
                    }
                    3 => {
                        let l = __tribute_bytes_len(a.p);
                        if l as usize != a.want.len() {
                            violation("wrong-length", &format!("{l} instead of {}", a.want.len()));
                        }
                    }
                    _ => {
                        let got = bytes_of(a.p);
                        ev_bytes("read", &got);
                        if got != a.want {
                            violation("contents-changed", "a value changed");
                        }
                    }
                }
            }
        });
    }
    let end = run_all();
    match end {
        RunEnd::AllDone => {
            if os().oom_hit {
                violation("continued-after-oom", "an allocation failed and the program went on");
            }
        }
        RunEnd::Abort if *expect_abort.borrow() || os().oom_hit => {}
        e => violation("ended", &format!("{e:?} without cause")),
    }
    // every value intact, reference counts: one owner plus one per slice taken
    let pool = pool.borrow();
    for (i, v) in pool.iter().enumerate() {
        unsafe {
            if bytes_of(v.p) != v.want {
                violation("contents-changed", &format!("value {i} changed: {:?} -> {:?}", v.want, bytes_of(v.p)));
            }
            if end == RunEnd::AllDone {
                let rc = *((v.p as usize - HDR) as *const u32);
                if rc != 1 + v.slices {
                    violation("reference-count", &format!("value {i} has {} slices and one owner but count {rc}", v.slices));
                }
            }
        }
    }
    // ownership: release owners whose count would drop to zero; slices must stay readable
    if end == RunEnd::AllDone {
        let p2 = pool.clone();
        sched().grain = 0;
        os().oom_at = u64::MAX;
        spawn(1 << 19, move || unsafe {
            let mut rc: Vec<u32> = p2.iter().map(|v| *((v.p as usize - HDR) as *const u32)).collect();
            let mut dead = vec![false; p2.len()];
            let mut order: Vec<usize> = (0..p2.len()).collect();
            for i in 0..order.len() {
                let j = i + ch().pick((order.len() - i) as u32) as usize;
                order.swap(i, j);
            }
            for &i in &order {
                rc[i] -= 1;
                if rc[i] == 0 {
                    // the last owner is gone: storage may be reclaimed
                    dead[i] = true;
                    let v = &p2[i];
                    if v.mine {
                        free_bytes(v.p);
                    } else {
                        drop_bytes(v.p, v.root.is_none());
                    }
                }
                for (k, v) in p2.iter().enumerate() {
                    // whatever still has an owner must be intact
                    if !dead[k] && rc[k] > 0 && bytes_of(v.p) != v.want {
                        violation("contents-changed", "a live value changed when another was released");
                    }
                }
            }
        });
        run_all();
    }
    heap().check_all();
    if *done_new.borrow() > 0 {
        set_nontrivial();
    }
}
/// A fresh result: right contents, count one, and every block allocated on the way belongs to it.
unsafe fn check_new(p: *mut TBytes, w: &[u8], blocks0: usize, single: bool, slice: bool) {
    if p.is_null() {
        violation("null-result", "an operation returned null");
    }
    let got = bytes_of(p);
    if got != *w {
        violation("wrong-contents", &format!("expected {:?}, got {:?}", w, got));
    }
    if *((p as usize - HDR) as *const u32) != 1 {
        violation("reference-count", "a fresh value must have exactly one owner");
    }
    if single {
        for b in &heap().blocks[blocks0..] {
            let owns = |a: usize| a >= b.addr && a < b.addr + b.size.max(1);
            if b.live && !owns(p as usize) && !((*p).len > 0 && owns((*p).ptr as usize)) {
                violation("leak", &format!("a block of {} bytes allocated by the operation is not part of its result", b.size));
            }
        }
        let _ = slice;
    }
}
