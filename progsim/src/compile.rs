//! Compiler-side properties: what the compiler produces is a function of the source and the options alone.
use crate::genp::{self, Cfg};
use crate::{ast, host, native, pipeline, world};
use pipeline::OptimizationOptions;
use salsa::Setter;
use simcore::runner::{self, catch, ev, ev_bytes, stat, stat_add, violation};
use simcore::tape::ch;
use std::sync::atomic::{AtomicI64, Ordering};
use tribute_front::SourceCst;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Native,
    NativeAsan,
    NativeBaseline,
    Wasm,
    Diags,
}
/// The outcome of one compilation, as bytes: the artefact, or the sorted diagnostics, or the panic.
fn outcome(db: &host::Db, s: SourceCst, w: Want) -> Vec<u8> {
    let r = catch(|| match w {
        Want::Native => host::native_full(db, s, false, OptimizationOptions::production()),
        Want::NativeAsan => host::native_full(db, s, true, OptimizationOptions::production()),
        Want::NativeBaseline => host::native_full(db, s, false, OptimizationOptions::baseline()),
        Want::Wasm => host::wasm_full(db, s),
        Want::Diags => Err(host::diagnostics(db, s)),
    });
    match r {
        Ok(Ok(b)) => [&b"B"[..], &b].concat(),
        Ok(Err(e)) => [b"D", e.as_bytes()].concat(),
        Err(p) => [b"P", nameless(&p).as_bytes()].concat(),
    }
}
/// A panic text without the internal numbers (node and query ids) it happens to print.
fn nameless(p: &str) -> String {
    let mut r = String::new();
    for c in p.chars() {
        match c.is_ascii_digit() {
            true if r.ends_with('#') => (),
            true => r.push('#'),
            false => r.push(c),
        }
    }
    r
}
/// On a thread of its own: hash keys and stack addresses are drawn anew.
fn on_thread<R: Send>(noise: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size((64 << 20) + noise * 4096).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| runner::harness_error("compiler thread died")))
}
// ---------------------------------------------------------------- programs

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
/// (start, end) of words and literals that an edit may touch, outside strings.
fn tokens(src: &str) -> Vec<(usize, usize)> {
    let b = src.as_bytes();
    let (mut i, mut v) = (0, vec![]);
    while i < b.len() {
        if b[i] == b'"' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
            v.push((s, i));
        } else if is_word(b[i]) {
            let s = i;
            while i < b.len() && is_word(b[i]) {
                i += 1;
            }
            v.push((s, i));
        } else {
            i += 1;
        }
    }
    v
}
/// One small edit of a text, as an editor would make it; the result may be ill-typed.
fn edit(src: &str) -> String {
    let c = ch();
    let t = tokens(src);
    let at = |c: &mut simcore::tape::Chooser| t[c.pick(t.len() as u32) as usize];
    match c.weighted(&[4, 3, 3, 2, 2, 2]) {
        0 => {
            // a comment or an empty line somewhere at a line start
            let starts: Vec<usize> = std::iter::once(0).chain(src.match_indices("\n\nfn ").map(|(i, _)| i + 1)).collect();
            let p = *c.of(&starts);
            let text = *c.of(&["// note\n", "\n", "\n\n\n", "// déjà\n\n"]);
            format!("{}{text}{}", &src[..p], &src[p..])
        }
        1 => {
            // another word in place of a word
            let (a, b) = (at(c), at(c));
            format!("{}{}{}", &src[..a.0], &src[b.0..b.1], &src[a.1..])
        }
        2 => {
            let a = at(c);
            let w = *c.of(&["undefined_name", "0", "\"text\"", "True", "1.5", "Nat", "missing", "v1"]);
            format!("{}{w}{}", &src[..a.0], &src[a.1..])
        }
        3 => {
            // exchange two top-level items
            let mut items: Vec<&str> = src.split("\n\n").collect();
            let n = items.len() as u32;
            let (i, j) = (c.pick(n) as usize, c.pick(n) as usize);
            items.swap(i, j);
            items.join("\n\n")
        }
        4 => {
            // delete or repeat a top-level item
            let mut items: Vec<&str> = src.split("\n\n").collect();
            let i = c.pick(items.len() as u32) as usize;
            if c.chance(1, 2) {
                items.remove(i);
            } else {
                let it = items[i];
                items.push(it);
            }
            items.join("\n\n")
        }
        _ => {
            // change a number
            let n: Vec<(usize, usize)> = t.iter().copied().filter(|&(s, e)| src[s..e].bytes().all(|b| b.is_ascii_digit())).collect();
            if n.is_empty() {
                return format!("{src}\n");
            }
            let a = *c.of(&n);
            let w = *c.of(&["0", "1", "2", "77", "1000000"]);
            format!("{}{w}{}", &src[..a.0], &src[a.1..])
        }
    }
}
fn program(size: i32) -> String {
    program_for(size).0
}
/// A program, and what to ask of it: WebAssembly mostly where that target takes it.
fn program_for(size: i32) -> (String, Want) {
    let c = ch();
    let wasm = c.chance(1, 3);
    let want = *c.of(ALL);
    let want = match want {
        Want::Wasm if !wasm && c.chance(3, 4) => Want::Native,
        w if wasm && c.chance(2, 3) => {
            let _ = w;
            Want::Wasm
        }
        w => w,
    };
    let effects = if wasm && want == Want::Wasm && c.chance(3, 4) { 0 } else { *c.of(&[1, 2, 3, 0]) };
    let cfg = Cfg { size, effects, loops: 4, wasm, input: !wasm || c.chance(1, 4), fns: c.chance(1, 2), ..native::DEFAULT };
    (ast::to_source(&genp::generate(cfg)), want)
}
fn edited(mut s: String, n: u32) -> String {
    for _ in 0..n {
        s = edit(&s);
    }
    s
}
const ALL: &[Want] = &[Want::Native, Want::Diags, Want::Wasm, Want::NativeAsan, Want::NativeBaseline];

// ---------------------------------------------------------------- results across forks

const SHELF: usize = 4 << 20;
/// Memory shared with the forked parts of a run.
struct Shelf(*mut u8);
impl Shelf {
    fn new() -> Shelf {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SHELF, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shelf(p as *mut u8)
    }
    fn put(&self, b: &[u8]) {
        assert!(b.len() + 8 < SHELF);
        unsafe {
            *(self.0 as *mut u64) = b.len() as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), b.len());
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.add(8), *(self.0 as *const u64) as usize) }
    }
}
fn show(b: &[u8]) -> String {
    let (t, r) = (b[0], &b[1..]);
    match t {
        b'B' => format!("an artefact of {} bytes", r.len()),
        b'D' if r.is_empty() => "no diagnostics".into(),
        b'D' => format!("diagnostics \"{}\"", tail(r)),
        _ => format!("a compiler panic \"{}\"", tail(r)),
    }
}
fn tail(r: &[u8]) -> String {
    String::from_utf8_lossy(&r[..r.len().min(600)]).replace('\n', " ")
}
fn compare(kind: &str, what: &str, want: &[u8], got: &[u8]) {
    if want == got {
        return;
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let ctx = |b: &[u8]| {
        let lo = at.saturating_sub(120);
        String::from_utf8_lossy(&b[lo.min(b.len())..b.len().min(at + 160)]).replace('\n', " ")
    };
    let detail = if want[0] == b'B' && got[0] == b'B' { String::new() } else { format!("; around the difference: \"{}\" and \"{}\"", ctx(want), ctx(got)) };
    violation(kind, &format!("{what}: first {}, then {} (first difference at byte {at}){detail}", show(want), show(got)));
}
fn announce(src: &str, want: Want) {
    runner::set_tag(format!("program {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(src);
    ev("want", want as u64, 0);
    stat_add("sum.program_bytes", src.len() as u64);
}
fn note(b: &[u8]) {
    stat(match b[0] {
        b'B' => "probe.artefact",
        b'D' => "probe.diagnostics",
        _ => "probe.compiler_panic",
    });
    if b.len() > 1 {
        runner::set_nontrivial();
    }
    ev_bytes("outcome", b);
}
/// C03: the same source and options give the same artefact or diagnostics in any process.
pub fn c03() {
    let size = *ch().of(&[30, 80, 160]);
    let n = *ch().of(&[0, 0, 1, 3, 6]);
    let (src, want) = program_for(size);
    let src = edited(src, n);
    announce(&src, want);
    let shelf = Shelf::new();
    runner::sub(0, 60, || {
        let b = on_thread(0, || {
            let db = host::Db::default();
            let s = host::source(&db, "main.trb", &src);
            let b = outcome(&db, s, want);
            std::mem::forget(db);
            b
        });
        note(&b);
        shelf.put(&b);
    });
    for k in 1..4u64 {
        runner::sub(k, 60, || {
            let c = ch();
            let seed = c.pick(1 << 30) as u64 + 2;
            crate::HASH_SEED.store(seed, Ordering::Relaxed);
            stat("fault.hash_seed");
            let noise = c.pick(64) as usize;
            // memory layout: blocks of odd sizes, some given back
            let mut junk = vec![];
            for i in 0..c.pick(200) as usize {
                junk.push(vec![0u8; (i * 37) % 3000 + c.pick(900) as usize]);
            }
            if c.chance(1, 2) {
                let mut i = 0;
                junk.retain(|_| {
                    i += 1;
                    i % 2 == 0
                });
            }
            stat("fault.heap_layout");
            for i in 0..c.pick(4) * 50 {
                trunk_ir::Symbol::from_dynamic(&format!("junk{seed}_{i}"));
                stat("fault.foreign_symbols");
            }
            // words of the program itself, interned in another order
            if c.chance(1, 2) {
                let mut t = tokens(&src);
                let n = t.len();
                for i in 0..n {
                    t.swap(i, c.pick(n as u32) as usize);
                }
                for (a, b) in t {
                    trunk_ir::Symbol::from_dynamic(&src[a..b]);
                }
                stat("fault.interning_order");
            }
            let before: Vec<(String, Want)> = (0..*c.of(&[0, 0, 1, 2]))
                .map(|_| {
                    let p = if ch().chance(1, 2) { edited(src.clone(), 2) } else { edited(program(30), *ch().of(&[0, 2])) };
                    (p, *ch().of(ALL))
                })
                .collect();
            let same_db = ch().chance(1, 2);
            let b = on_thread(noise, || {
                let mut db = host::Db::default();
                for (p, w) in &before {
                    let s = host::source(&db, *ch().of(&["main.trb", "other.trb"]), p);
                    outcome(&db, s, *w);
                    stat("fault.compiled_before");
                    if !same_db {
                        std::mem::forget(std::mem::take(&mut db));
                    }
                }
                let s = host::source(&db, "main.trb", &src);
                let b = outcome(&db, s, want);
                std::mem::forget(db);
                b
            });
            note(&b);
            compare("not-reproducible", &format!("the same source compiled twice ({want:?}) gave different results"), shelf.get(), &b);
        });
    }
}

// ---------------------------------------------------------------- incremental compilation

/// Counts down with every event of the query system; at zero the running query is torn down.
static FUSE: AtomicI64 = AtomicI64::new(-1);
struct Torn;
fn fused_db() -> host::Db {
    host::Db::with_events(Box::new(|e: salsa::Event| {
        if matches!(e.kind, salsa::EventKind::WillExecute { .. } | salsa::EventKind::DidValidateMemoizedValue { .. } | salsa::EventKind::WillCheckCancellation) && FUSE.load(Ordering::Relaxed) > 0 && FUSE.fetch_sub(1, Ordering::Relaxed) == 1 {
            stat("fault.query_torn_down");
            std::panic::resume_unwind(Box::new(Torn));
        }
    }))
}
/// C06: after any history of edits, requests and torn-down requests, the answer is that of a fresh start.
pub fn c06() {
    let size = *ch().of(&[30, 80, 120]);
    let first = program(size);
    let mut texts = vec![first.clone()];
    let steps = ch().range(1, 6);
    let other = program(30);
    for _ in 0..steps {
        let last = texts.last().unwrap().clone();
        let t = match ch().weighted(&[6, 2, 1]) {
            0 => {
                let n = ch().range(1, 2);
                edited(last, n)
            }
            1 => texts[ch().pick(texts.len() as u32) as usize].clone(), // undo
            _ => other.clone(),
        };
        texts.push(t);
    }
    if ch().chance(1, 3) {
        texts.push(first.clone());
    }
    let want = *ch().of(ALL);
    let src = texts.last().unwrap().clone();
    announce(&src, want);
    let shelf = Shelf::new();
    runner::sub(0, 60, || {
        let b = on_thread(0, || {
            let db = host::Db::default();
            let s = host::source(&db, "main.trb", &src);
            let b = outcome(&db, s, want);
            std::mem::forget(db);
            b
        });
        note(&b);
        shelf.put(&b);
    });
    runner::sub(1, 120, || {
        let texts = &texts;
        let b = on_thread(0, move || {
            let mut db = fused_db();
            let s = host::source(&db, "main.trb", &texts[0]);
            for (i, t) in texts.iter().enumerate() {
                if i > 0 {
                    let (text, tree) = host::parse(t);
                    s.set_text(&mut db).to(text);
                    s.set_tree(&mut db).to(tree);
                    stat("probe.edits");
                }
                if i + 1 == texts.len() {
                    break;
                }
                for _ in 0..ch().pick(3) {
                    let w = *ch().of(ALL);
                    if ch().chance(1, 3) {
                        let m = *ch().of(&[20, 200, 2000]);
                        FUSE.store(ch().pick(m) as i64 + 1, Ordering::Relaxed);
                    }
                    outcome(&db, s, w);
                    FUSE.store(-1, Ordering::Relaxed);
                    ev("asked", w as u64, i as u64);
                }
            }
            let b = outcome(&db, s, want);
            std::mem::forget(db);
            b
        });
        note(&b);
        compare("stale-result", &format!("after {} edits the compiler's answer ({want:?}) is not that for the current text", texts.len() - 1), shelf.get(), &b);
    });
}
