use crate::gen::*;
use crate::rt::{self, *};
use simcore::os::{os, Rd, Wr};
use simcore::runner::{ev, ev_bytes, set_nontrivial, stat, violation};
use simcore::sched::{run_all, spawn, RunEnd};
use simcore::{ch, trace_enabled};
use std::cell::RefCell;
use std::rc::Rc;

fn show(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(&b[..b.len().min(60)]).escape_debug().collect();
    format!("\"{s}\"({} bytes)", b.len())
}
fn show_line(l: &Line) -> String {
    match l {
        Line::Line(b) => format!("line {}", show(b)),
        o => format!("{o:?}"),
    }
}
fn log_line(l: &Line) {
    match l {
        Line::Line(b) => ev_bytes("-> line", b),
        Line::Eof => ev("-> eof", 0, 0),
        Line::BadEncoding => ev("-> invalid-encoding", 0, 0),
        Line::System(c, m) => ev("-> system", *c as u64, m.len() as u64),
        Line::Unknown(t) => ev("-> unknown-tag", *t as u64, 0),
    }
}
fn swarm_reads() {
    let c = ch();
    let o = os();
    o.r_chunk = c.weighted(&[2, 5, 2, 3, 3]) as u32;
    o.r_eintr = *c.of(&[0, 0, 5, 20, 50]);
    if o.stdin.len() > 3000 && (o.r_chunk == 2 || o.r_chunk == 3) {
        o.r_chunk = 1;
    }
}
fn stream_probes(b: &[u8]) {
    if b.windows(2).any(|w| w == b"\r\n") {
        let o = os();
        let crs: Vec<usize> = (0..b.len().saturating_sub(1)).filter(|&i| &b[i..i + 2] == b"\r\n").collect();
        if o.reads.iter().any(|r| matches!(r.res, Rd::Data(_, e) if crs.iter().any(|&i| i + 1 == e))) {
            stat("probe.crlf_split");
        }
    }
    if b.split(|&x| x == b'\n').any(|l| l.len() > 8192) {
        stat("probe.line_over_buffer");
    }
    if !b.is_empty() && b.last() != Some(&b'\n') {
        stat("probe.unterminated");
    }
}
pub fn r01() {
    let s = stream(12).bytes;
    os().stdin = s.clone();
    swarm_reads();
    if trace_enabled() {
        ev_bytes("stdin", &s);
    }
    let got = Rc::new(RefCell::new(vec![]));
    let g = got.clone();
    let expect = frame(&s);
    let n = expect.len();
    spawn(1 << 20, move || unsafe {
        __tribute_init();
        for i in 0..n + 2 {
            os().op = i as u64;
            let l = rt::read_line();
            log_line(&l);
            g.borrow_mut().push(l);
        }
    });
    match run_all() {
        RunEnd::AllDone => {}
        e => violation("ended", &format!("reading lines ended the process: {e:?}")),
    }
    let got = got.borrow();
    for (i, w) in expect.iter().enumerate() {
        let ok = match (w, &got[i]) {
            (Want::Line(a), Line::Line(b)) => a == b,
            (Want::Bad, Line::BadEncoding) => {
                stat("probe.bad_utf8");
                true
            }
            _ => false,
        };
        if !ok {
            let w = match w {
                Want::Line(b) => format!("line {}", show(b)),
                Want::Bad => "invalid encoding".into(),
            };
            violation("wrong-line", &format!("line {i}: expected {w}, got {}", show_line(&got[i])));
        }
    }
    for l in &got[n..] {
        if *l != Line::Eof {
            violation("no-eof", &format!("expected end of input, got {}", show_line(l)));
        }
    }
    stream_probes(&s);
    if n > 0 && os().reads.iter().any(|r| matches!(r.res, Rd::Eintr) || matches!(r.res, Rd::Data(a,b) if b - a < r.count && b < s.len())) {
        set_nontrivial();
    }
}

pub fn r02() {
    let s = stream(10).bytes;
    os().stdin = s.clone();
    swarm_reads();
    {
        let c = ch();
        let o = os();
        o.r_err = *c.of(&[10, 5, 30, 60]);
        o.r_errs_left = 1 + c.pick(6);
    }
    if trace_enabled() {
        ev_bytes("stdin", &s);
    }
    let got: Rc<RefCell<Vec<(Line, usize)>>> = Rc::new(RefCell::new(vec![]));
    let g = got.clone();
    spawn(1 << 20, move || unsafe {
        __tribute_init();
        let mut eofs = 0;
        for i in 0.. {
            os().op = i as u64;
            let l = rt::read_line();
            log_line(&l);
            if l == Line::Eof {
                eofs += 1;
            }
            g.borrow_mut().push((l, os().reads.len()));
            if eofs == 2 || i > 400 {
                break;
            }
        }
    });
    match run_all() {
        RunEnd::AllDone => {}
        e => violation("ended", &format!("reading lines ended the process: {e:?}")),
    }
    // Replay the system-call history through the reference: `pend` is what arrived and was not returned.
    // After an error the unfinished line may be dropped or kept (nothing says which), later ones may not change.
    let reads = os().reads.clone();
    let got = got.borrow();
    let mut ri = 0;
    let mut pend: Vec<u8> = vec![]; // received, not yet returned
    let mut alt: Option<Vec<u8>> = None; // dropped unfinished part, if an implementation keeps it
    let (mut errors, mut lines_after) = (0, 0);
    for (i, (l, upto)) in got.iter().enumerate() {
        let calls = &reads[ri..*upto];
        ri = *upto;
        let mut err = None;
        let mut eof = false;
        for (j, r) in calls.iter().enumerate() {
            match r.res {
                Rd::Data(a, b) => pend.extend_from_slice(&s[a..b]),
                Rd::Eof => eof = true,
                Rd::Eintr => {}
                Rd::Err(e) => {
                    err = Some(e);
                    if j + 1 != calls.len() {
                        violation("read-after-error", &format!("call {i}: read again after error {e} within the same line read"));
                    }
                }
            }
        }
        if let Some(e) = err {
            errors += 1;
            match l {
                Line::System(c, m) => {
                    if *c != e {
                        violation("wrong-code", &format!("call {i}: OS error {e} reported as {c}"));
                    }
                    if m.is_empty() {
                        violation("no-message", &format!("call {i}: system failure without message"));
                    }
                }
                o => violation("error-hidden", &format!("call {i}: read failed with {e} but the call returned {}", show_line(o))),
            }
            stat(if pend.is_empty() { "probe.error_at_boundary" } else { "probe.error_mid_line" });
            if pend.contains(&b'\n') {
                violation("line-withheld", &format!("call {i}: a complete line was available but another read was made and failed"));
            }
            if !pend.is_empty() {
                let mut k = alt.take().unwrap_or_default();
                k.extend_from_slice(&pend);
                alt = Some(k);
            }
            pend.clear();
            continue;
        }
        if let Line::System(c, _) = l {
            violation("spurious-error", &format!("call {i}: system failure {c} without a failed read"));
        }
        // take one line from pend
        let take = |p: &Vec<u8>| -> Option<(Vec<u8>, usize)> {
            match p.iter().position(|&b| b == b'\n') {
                Some(k) => {
                    let mut l = p[..k].to_vec();
                    if l.last() == Some(&b'\r') {
                        l.pop();
                    }
                    Some((l, k + 1))
                }
                None if eof && !p.is_empty() => Some((p.clone(), p.len())),
                None => None,
            }
        };
        let kept = alt.as_ref().map(|a| {
            let mut k = a.clone();
            k.extend_from_slice(&pend);
            k
        });
        let m = |lw: &[u8]| match (want(lw), l) {
            (Want::Line(a), Line::Line(b)) => a == *b,
            (Want::Bad, Line::BadEncoding) => true,
            _ => false,
        };
        let a = take(&pend);
        let b = kept.as_ref().and_then(take);
        if let Some((lw, n)) = &a {
            if m(lw) {
                pend.drain(..*n);
                alt = None;
                lines_after += (errors > 0) as u32;
                continue;
            }
        }
        if let Some((lw, n)) = &b {
            if m(lw) {
                let d = alt.take().unwrap().len();
                pend.drain(..(*n).saturating_sub(d).min(pend.len()));
                lines_after += (errors > 0) as u32;
                continue;
            }
        }
        if a.is_none() && *l == Line::Eof && eof && pend.is_empty() {
            continue;
        }
        violation("wrong-after-error", &format!("call {i}: expected {} (or the same with the interrupted part kept), got {}", a.map(|x| show(&x.0)).unwrap_or("end of input".into()), show_line(l)));
    }
    if !matches!(got.last(), Some((Line::Eof, _))) {
        violation("no-eof", "the input never ended");
    }
    if errors > 0 && lines_after > 0 {
        set_nontrivial();
    }
}

#[derive(Clone)]
struct Op {
    payload: Vec<u8>,
    newline: bool,
    name: &'static str,
    float: Option<f64>,
}
pub fn r03() {
    let c = ch();
    {
        let o = os();
        o.w_eintr = *c.of(&[0, 10, 40, 0]);
        o.w_short = *c.of(&[0, 30, 70, 100]);
        match c.weighted(&[4, 2, 2, 1]) {
            0 => {}
            1 => {
                o.w_err = 30;
                o.w_hard_left = 1 + c.pick(3);
            }
            2 => {
                o.w_zero = 30;
                o.w_hard_left = 1 + c.pick(3);
            }
            _ => {
                o.w_err = 20;
                o.w_zero = 20;
                o.w_hard_left = 1 + c.pick(5);
            }
        }
    }
    let n = 1 + c.pick(10);
    let mut ops: Vec<Op> = vec![];
    let mut acts: Vec<Box<dyn Fn()>> = vec![];
    let dead_from = if c.chance(1, 6) { c.pick(n) } else { u32::MAX };
    let dead_zero = c.chance(1, 2);
    for _ in 0..n {
        let data = {
            let mut d = line_content();
            if d.len() > 64 && ch().chance(1, 2) {
                d.truncate(64);
            }
            d
        };
        let c = ch();
        let kind = c.pick(7);
        // byte-string values live in memory the simulated heap owns
        let mk = |d: &[u8]| -> *const TBytes {
            let h = simcore::heap::heap();
            let p = if d.is_empty() { 0 } else { h.alloc(d.len(), 8) };
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p as *mut u8, d.len()) };
            let b = h.alloc(16, 8) as *mut TBytes;
            unsafe { b.write(TBytes { ptr: p as *const u8, len: d.len() as u64 }) };
            b
        };
        match kind {
            0 => {
                let v = *c.of(&[0i32, 1, -1, i32::MIN, i32::MAX, 42, -1000, 1234567]);
                ops.push(Op { payload: v.to_string().into_bytes(), newline: true, name: "print_int", float: None });
                acts.push(Box::new(move || unsafe { __tribute_print_int(v) }));
            }
            1 => {
                let v = *c.of(&[0u32, 1, u32::MAX, 1 << 31, 42, 1234567]);
                ops.push(Op { payload: v.to_string().into_bytes(), newline: true, name: "print_nat", float: None });
                acts.push(Box::new(move || unsafe { __tribute_print_nat(v) }));
            }
            2 => {
                let v = match c.pick(3) {
                    0 => *c.of(&[0.0f64, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, f64::MAX, 123456789.125, 1e21, 1e-7]),
                    1 => f64::from_bits(c.u64()),
                    _ => c.pick(1000000) as f64 / 8.0,
                };
                let v = if v.is_finite() { v } else { 1.25 };
                ops.push(Op { payload: vec![], newline: true, name: "print_float", float: Some(v) });
                acts.push(Box::new(move || unsafe { __tribute_print_float(v) }));
            }
            3 => {
                let b = mk(&data);
                ops.push(Op { payload: data, newline: false, name: "print_bytes", float: None });
                acts.push(Box::new(move || unsafe { __tribute_print_bytes((*b).ptr, (*b).len) }));
            }
            4 => {
                ops.push(Op { payload: vec![], newline: true, name: "print_newline", float: None });
                acts.push(Box::new(move || unsafe { __tribute_print_newline() }));
            }
            5 => {
                let b = mk(&data);
                ops.push(Op { payload: data, newline: false, name: "bytes_print", float: None });
                acts.push(Box::new(move || unsafe { __tribute_bytes_print(b) }));
            }
            _ => {
                let b = mk(&data);
                let nl = c.pick(2);
                ops.push(Op { payload: data, newline: nl == 1, name: "io_write", float: None });
                acts.push(Box::new(move || unsafe { __tribute_io_write(b, nl) }));
            }
        }
    }
    let names: Vec<&'static str> = ops.iter().map(|o| o.name).collect();
    let spans: Rc<RefCell<Vec<(usize, usize)>>> = Rc::new(RefCell::new(vec![]));
    let sp = spans.clone();
    spawn(1 << 20, move || unsafe {
        __tribute_init();
        for (i, a) in acts.iter().enumerate() {
            let o = os();
            o.op = i as u64;
            if i as u32 >= dead_from {
                o.w_dead = true;
                o.w_dead_zero = dead_zero;
            }
            ev(names[i], 0, 0);
            let s = o.stdout.len();
            a();
            sp.borrow_mut().push((s, os().stdout.len()));
        }
    });
    match run_all() {
        RunEnd::AllDone => {}
        e => violation("ended", &format!("printing ended the process: {e:?}")),
    }
    let o = os();
    let spans = spans.borrow();
    let mut any_fault = false;
    for (i, op) in ops.iter().enumerate() {
        let out = &o.stdout[spans[i].0..spans[i].1];
        let recs: Vec<_> = o.writes.iter().filter(|w| w.op == i as u64).collect();
        let hard = recs.iter().any(|w| matches!(w.res, Wr::Err(_) | Wr::Zero));
        any_fault |= recs.iter().any(|w| !matches!(w.res, Wr::Data(..))) || recs.len() > 2;
        if recs.len() > 400 + 70 * (op.payload.len() + 2) {
            violation("write-storm", &format!("op {i} {}: {} write calls", op.name, recs.len()));
        }
        if let Some(v) = op.float {
            // formatting is not the property: the text must be complete, parse back to the value, end in one newline
            let txt = String::from_utf8_lossy(out).into_owned();
            let full = txt.strip_suffix('\n').is_some_and(|t| !t.contains('\n') && t.parse::<f64>().is_ok_and(|x| x.to_bits() == v.to_bits()));
            if !hard && !full {
                violation("lost-or-wrong-output", &format!("op {i} {}({v:?}): delivered {}", op.name, show(out)));
            }
            if hard && out.iter().filter(|&&b| b == b'\n').count() > 1 {
                violation("duplicated-output", &format!("op {i} {}: delivered {}", op.name, show(out)));
            }
            continue;
        }
        let mut full = op.payload.clone();
        if op.newline {
            full.push(b'\n');
        }
        if !hard {
            if out != full {
                violation("lost-or-wrong-output", &format!("op {i} {}: expected {}, delivered {} in {} write calls", op.name, show(&full), show(out), recs.len()));
            }
        } else {
            // a prefix of the payload, then possibly the newline
            let k = out.iter().zip(&op.payload).take_while(|(a, b)| a == b).count();
            let rest = &out[k..];
            let ok = rest.is_empty() || (op.newline && rest == b"\n") || (op.newline && k > 0 && out == [&op.payload[..k - 1], b"\n"].concat());
            if !ok {
                violation("corrupt-output-after-failure", &format!("op {i} {}: payload {}, delivered {}", op.name, show(&op.payload), show(out)));
            }
        }
    }
    if any_fault {
        set_nontrivial();
    }
}
