use crate::gen::*;
use crate::rt::{self, *};
use simcore::ch;
use simcore::heap::heap;
use simcore::os::{os, thread_exit, Rd};
use simcore::runner::{ev, set_nontrivial, stat, violation};
use simcore::sched::{current, run_all, sched, spawn, RunEnd};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum TOp {
    Init,
    Tag,
    Read,
}
#[derive(Default)]
struct TLog {
    tags: Vec<i32>,
    lines: Vec<(Line, usize)>, // result and number of reads so far by this thread
    inited: bool,
}
pub fn r04() {
    let c = ch();
    sched().grain = 1 + c.pick(3);
    sched().limit = 4_000_000;
    let nt = 2 + c.pick(4) as usize;
    // input: short lines, delivered in chunks, so that buffered leftovers matter
    let mut s = vec![];
    for i in 0..c.pick(12) {
        s.extend_from_slice(format!("l{i}").as_bytes());
        for _ in 0..c.pick(6) {
            s.push(b'a' + c.pick(26) as u8);
        }
        s.push(b'\n');
    }
    os().stdin = s.clone();
    os().r_chunk = c.weighted(&[1, 4, 0, 2, 2]) as u32;
    os().r_eintr = *c.of(&[0, 0, 20]);
    match c.weighted(&[10, 1, 1]) {
        0 => {}
        1 => os().key_fail = true,
        _ => os().set_fail_at = 1 + c.pick(nt as u32),
    }
    let main_inits_first = c.chance(1, 4);
    let logs: Rc<RefCell<Vec<TLog>>> = Rc::new(RefCell::new((0..nt).map(|_| TLog::default()).collect()));
    let in_init = Rc::new(RefCell::new(0u32));
    for t in 0..nt {
        let c = ch();
        let mut ops = vec![TOp::Init];
        for _ in 0..c.pick(7) {
            ops.push(match c.weighted(&[5, 3, 1]) {
                0 => TOp::Tag,
                1 => TOp::Read,
                _ => TOp::Init,
            });
        }
        let lg = logs.clone();
        let ii = in_init.clone();
        let late = main_inits_first && t > 0;
        spawn(1 << 18, move || unsafe {
            if late {
                // threads started after the main thread initialised: no init of their own needed
                while !lg.borrow()[0].inited {
                    simcore::sched::pass();
                }
            }
            for (i, op) in ops.iter().enumerate() {
                if late && i == 0 {
                    continue;
                }
                match op {
                    TOp::Init => {
                        ev("init-call", t as u64, 0);
                        *ii.borrow_mut() += 1;
                        if *ii.borrow() > 1 {
                            stat("probe.init_race");
                        }
                        __tribute_init();
                        *ii.borrow_mut() -= 1;
                        ev("init-return", t as u64, 0);
                        lg.borrow_mut()[t].inited = true;
                        if os().keys.is_empty() {
                            violation("not-initialised", &format!("thread {t}: initialisation returned before the runtime was usable"));
                        }
                    }
                    TOp::Tag => {
                        let g = __tribute_next_tag();
                        ev("tag", t as u64, g as u64);
                        lg.borrow_mut()[t].tags.push(g);
                    }
                    TOp::Read => {
                        let l = rt::read_line();
                        let n = os().reads.iter().filter(|r| r.thread == current()).count();
                        ev("line", t as u64, matches!(l, Line::Line(_)) as u64);
                        lg.borrow_mut()[t].lines.push((l, n));
                    }
                }
            }
            thread_exit();
        });
    }
    let end = run_all();
    let o = os();
    let logs = logs.borrow();
    match end {
        RunEnd::AllDone => {
            if o.tls_fault_hit {
                violation("continued-after-tls-failure", "a thread-local storage call failed but the program went on");
            }
        }
        RunEnd::Abort if o.tls_fault_hit => {}
        e => violation("ended", &format!("{e:?} without an injected failure")),
    }
    if o.used_unset_key {
        violation("invalid-key", "thread-local storage was used through a key that was never created");
    }
    if !o.tls_fault_hit && o.key_create_calls != 1 {
        violation("initialised-again", &format!("initialisation ran {} times", o.key_create_calls));
    }
    // per-thread tags: what a lone thread gets
    for (t, l) in logs.iter().enumerate() {
        let mut seen = std::collections::BTreeSet::new();
        for g in &l.tags {
            if !seen.insert(g) {
                violation("duplicate-tag", &format!("thread {t} got tag {g} twice: {:?}", l.tags));
            }
        }
        let longest = logs.iter().max_by_key(|l| l.tags.len()).unwrap();
        if l.tags[..] != longest.tags[..l.tags.len()] {
            violation("tags-affected", &format!("thread {t} got tags {:?} but another thread doing the same got {:?}", l.tags, longest.tags));
        }
        // lines: framing of exactly the chunks this thread read
        let reads: Vec<_> = o.reads.iter().filter(|r| r.thread == t).collect();
        let mut pend: Vec<u8> = vec![];
        let mut ri = 0;
        for (l, upto) in &l.lines {
            let mut eof = false;
            for r in &reads[ri..*upto] {
                match r.res {
                    Rd::Data(a, b) => pend.extend_from_slice(&s[a..b]),
                    Rd::Eof => eof = true,
                    _ => {}
                }
            }
            ri = *upto;
            let want = match pend.iter().position(|&b| b == b'\n') {
                Some(k) => {
                    let w = pend[..k].to_vec();
                    pend.drain(..k + 1);
                    Some(w)
                }
                None if eof && !pend.is_empty() => Some(std::mem::take(&mut pend)),
                None => None,
            };
            let ok = match (&want, l) {
                (Some(w), Line::Line(g)) => w == g,
                (None, Line::Eof) => eof,
                _ => false,
            };
            if !ok {
                violation("input-mixed", &format!("thread {t}: expected {want:?} from the bytes it read, got {l:?}"));
            }
        }
    }
    if end == RunEnd::AllDone {
        if heap().live != 0 {
            violation("state-leaked", &format!("{} blocks still allocated after every thread ended", heap().live));
        }
    }
    if sched().switches >= 3 {
        set_nontrivial();
    }
}

#[derive(Clone)]
struct H {
    ptr: *mut Ev,
    model: Rc<BTreeMap<i32, (i32, usize, usize)>>,
}
pub fn r05() {
    let c = ch();
    let nt = 1 + c.weighted(&[3, 2, 2, 1]);
    sched().grain = if nt > 1 { 1 + c.pick(3) } else { 0 };
    let mut ids: Vec<i32> = vec![0, 1, -1, i32::MIN, i32::MAX, 7, 100, -100, 2, 3, 4, 5, 1 << 20, -(1 << 20)];
    let k = 1 + c.pick(ids.len() as u32) as usize;
    for i in 0..k {
        let j = i + c.pick((ids.len() - i) as u32) as usize;
        ids.swap(i, j);
    }
    ids.truncate(k);
    let pool: Rc<RefCell<Vec<H>>> = Rc::new(RefCell::new(vec![]));
    let serial = Rc::new(RefCell::new(1i32));
    let installs = Rc::new(RefCell::new(0u32));
    let deep = c.chance(1, 2);
    for t in 0..nt {
        let n = ch().range(1, 30);
        let (pool, serial, installs, ids) = (pool.clone(), serial.clone(), installs.clone(), ids.clone());
        spawn(1 << 18, move || unsafe {
            if pool.borrow().is_empty() {
                let e = __tribute_evidence_empty();
                pool.borrow_mut().push(H { ptr: e, model: Rc::new(BTreeMap::new()) });
            }
            for _ in 0..n {
                let c = ch();
                let len = pool.borrow().len();
                let pick = if deep && c.chance(3, 4) { len - 1 } else { c.pick(len as u32) as usize };
                let h = pool.borrow()[pick].clone();
                match c.weighted(&[5, 4, 1]) {
                    0 => {
                        let id = *c.of(&ids);
                        let x = {
                            let mut s = serial.borrow_mut();
                            *s += 1;
                            *s
                        };
                        let tag = match c.pick(4) {
                            0 => x,
                            1 => -x,
                            2 => i32::MAX - x,
                            _ => x << 8,
                        };
                        let tr = if c.chance(1, 4) { 0 } else { 0x1000_0000usize + x as usize * 16 };
                        let hd = if c.chance(1, 4) { 0 } else { 0x7000_0000_0000usize + x as usize * 16 };
                        let p = __tribute_evidence_extend(h.ptr, id, tag, tr as *const u8, hd as *const u8);
                        ev("extend", pick as u64, id as u64);
                        let mut m = (*h.model).clone();
                        if m.insert(id, (tag, tr, hd)).is_some() {
                            stat("probe.shadowed");
                        }
                        if m.len() > 4 {
                            stat("probe.spilled");
                        }
                        *installs.borrow_mut() += 1;
                        pool.borrow_mut().push(H { ptr: p, model: Rc::new(m) });
                    }
                    1 => {
                        if h.model.is_empty() {
                            continue;
                        }
                        let keys: Vec<i32> = h.model.keys().copied().collect();
                        let id = *c.of(&keys);
                        query(t, pick, &h, id);
                        if pick + 1 < len {
                            stat("probe.old_requery");
                        }
                    }
                    _ => {
                        for id in h.model.keys() {
                            query(t, pick, &h, *id);
                        }
                    }
                }
            }
        });
    }
    match run_all() {
        RunEnd::AllDone => {}
        e => violation("ended", &format!("evidence operations ended the process: {e:?}")),
    }
    // every evidence value ever obtained still answers as when it was made
    let p2 = pool.clone();
    sched().grain = 0;
    spawn(1 << 18, move || {
        for (i, h) in p2.borrow().iter().enumerate() {
            for id in h.model.keys() {
                query(99, i, h, *id);
            }
        }
    });
    run_all();
    if *installs.borrow() >= 5 {
        set_nontrivial();
    }
}
fn query(t: usize, hi: usize, h: &H, id: i32) {
    unsafe {
        let w = h.model[&id];
        let tag = __tribute_evidence_lookup(h.ptr, id);
        let tr = __tribute_evidence_lookup_tr(h.ptr, id) as usize;
        let hd = __tribute_evidence_lookup_handler(h.ptr, id) as usize;
        ev("lookup", hi as u64, id as u64);
        if (tag, tr, hd) != w {
            violation("wrong-handler", &format!("thread {t}: evidence #{hi} ability {id}: expected tag/handlers {w:x?}, got {:x?} (installed set: {:?})", (tag, tr, hd), h.model.keys().collect::<Vec<_>>()));
        }
    }
}
#[allow(unused)]
fn _unused() {
    let _ = frame;
}
