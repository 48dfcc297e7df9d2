//! C01: names and identities shared by threads.
use simcore::runner::{self, ev, stat, violation};
use simcore::sched::{self, quiet, RunEnd};
use simcore::tape::ch;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use trunk_ir::{BlockId, Symbol};

/// What all threads together have seen. Only touched between yield points.
#[derive(Default)]
struct Seen {
    by_text: BTreeMap<String, Symbol>,
    /// texts whose interning has begun
    begun: HashSet<String>,
    blocks: HashMap<u64, usize>,
    active: HashMap<String, usize>,
    ops: u64,
}
static mut SEEN: *mut Seen = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn seen() -> &'static mut Seen {
    unsafe { &mut *SEEN }
}
const STATICS: &[&str] = &["alpha", "beta", "gamma", "Alpha", "alph", "", "日本", "a::b", "_0", "zz"];

fn learn(text: &str, s: Symbol) {
    quiet(|| learn1(text, s))
}
fn learn1(text: &str, s: Symbol) {
    match seen().by_text.get(text) {
        Some(&o) if o != s => violation("two-symbols", &format!("interning {text:?} gave two different symbols")),
        Some(_) => {}
        None => {
            for (t, &o) in &seen().by_text {
                if o == s {
                    violation("shared-symbol", &format!("{t:?} and {text:?} were given the same symbol"));
                }
            }
            seen().by_text.insert(text.into(), s);
        }
    }
}
fn intern(text: &'static str, dynamic: bool) -> Symbol {
    quiet(|| {
        let known = seen().by_text.contains_key(text);
        seen().begun.insert(text.into());
        let n = seen().active.entry(text.into()).or_insert(0);
        *n += 1;
        if *n > 1 && !known {
            stat("probe.same_text_race");
        }
    });
    let s = if dynamic { Symbol::from_dynamic(&text.to_string()) } else { Symbol::new(text) };
    quiet(|| *seen().active.get_mut(text).unwrap() -= 1);
    learn(text, s);
    s
}
fn hash(s: Symbol) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn word() -> &'static str {
    let n = ch().pick(60) as usize;
    if n < STATICS.len() {
        return STATICS[n];
    }
    // longer names make the interner grow
    let s = if n % 7 == 0 { format!("{}{n}", "long_name_".repeat(40)) } else { format!("w{n}") };
    Box::leak(s.into_boxed_str())
}
fn check_text(s: Symbol, text: &str) {
    let got = s.with_str(|t| t.to_string());
    if got != text {
        violation("wrong-text", &format!("the symbol of {text:?} resolves to {got:?}"));
    }
}
fn client(n: u32) {
    let mut mine: Vec<(Symbol, &'static str)> = vec![];
    for _ in 0..n {
        seen().ops += 1;
        let w = quiet(word);
        match ch().weighted(&[6, 4, 3, 3, 3, 3, 2]) {
            0 => mine.push((intern(w, true), w)),
            1 => mine.push((intern(w, false), w)),
            2 => {
                let was = quiet(|| seen().by_text.get(w).copied());
                let r = Symbol::lookup(w);
                match (was, r) {
                    (Some(s), Some(r)) if s != r => violation("two-symbols", &format!("looking up {w:?} gave a symbol other than the interned one")),
                    (Some(_), None) => violation("lost-symbol", &format!("{w:?} was interned, but looking it up finds nothing")),
                    (_, Some(r)) => {
                        if quiet(|| !seen().begun.contains(w)) {
                            violation("invented-symbol", &format!("{w:?} was never interned, but looking it up finds a symbol"));
                        }
                        learn(w, r);
                    }
                    _ => {}
                }
            }
            3 => {
                // nested use while a name is being read
                if let Some(&(a, ta)) = mine.last() {
                    let (b, tb) = mine[ch().pick(mine.len() as u32) as usize];
                    stat("probe.nested_resolve");
                    let (eq, shown, same) = a.with_str(|s| (b == *s, format!("{b}|{b:?}"), b.with_str(|t| s == t)));
                    let (c, tc) = mine[ch().pick(mine.len() as u32) as usize];
                    let (order, h, found) = a.with_str(|_| (b.cmp(&c), hash(b), Symbol::lookup(tc)));
                    if order != tb.cmp(tc) || found != Some(c) || h != hash(b) {
                        violation("wrong-order", &format!("while a name is read, {tb:?} and {tc:?} compare as {order:?}, and {tc:?} is found as {found:?}"));
                    }
                    if eq != (ta == tb) || same != (ta == tb) || shown != format!("{tb}|Symbol({tb:?})") {
                        violation("wrong-text", &format!("comparing {ta:?} with {tb:?} gave {eq}, {same}, {shown:?}"));
                    }
                }
            }
            4 => {
                if mine.len() > 1 {
                    let (a, ta) = mine[ch().pick(mine.len() as u32) as usize];
                    let (b, tb) = mine[ch().pick(mine.len() as u32) as usize];
                    if a.cmp(&b) != ta.cmp(tb) || a.partial_cmp(&b) != ta.partial_cmp(tb) || (a == b) != (ta == tb) {
                        violation("wrong-order", &format!("{ta:?} and {tb:?} compare as {:?}", a.cmp(&b)));
                    }
                    if (hash(a) == hash(b)) != (ta == tb) {
                        violation("wrong-hash", &format!("hashes of {ta:?} and {tb:?} do not follow their texts"));
                    }
                }
            }
            5 => {
                for &(s, t) in mine.iter().rev().take(3) {
                    check_text(s, t);
                }
            }
            _ => {
                for _ in 0..ch().range(1, 3) {
                    let b = BlockId::fresh();
                    if let Some(o) = quiet(|| seen().blocks.insert(b.0, sched::current())) {
                        violation("same-block-id", &format!("block identity {} was given out twice (threads {o} and {})", b.0, sched::current()));
                    }
                }
            }
        }
    }
    for (s, t) in mine {
        check_text(s, t);
    }
}
// ---------------------------------------------------------------- modules

/// A small module in textual form.
fn module(k: u32) -> String {
    let c = ch();
    let mut s = format!("core.module @m{k} {{\n");
    let funcs = c.range(1, 3);
    for f in 0..funcs {
        s += &format!("  func.func @f{f}_{}(%a: core.i32, %b: core.i32, %c: core.i1) -> core.i32 {{\n", c.pick(3) * 10 + f);
        s += "    %z = arith.const {value = 0} : core.i32\n";
        let mut vals = vec!["%a".to_string(), "%b".into(), "%z".into()];
        for i in 0..c.range(1, 5) {
            let x = c.of(&vals).clone();
            let y = c.of(&vals).clone();
            match c.pick(3) {
                0 => s += &format!("    %v{i} = arith.const {{value = {}}} : core.i32\n", c.pick(5)),
                1 => s += &format!("    %v{i} = {} {x}, {y} : core.i32\n", c.of(&["arith.addi", "arith.muli", "arith.subi"])),
                _ => s += &format!("    %v{i} = scf.if %c : core.i32 {{\n      %t{i} = arith.addi {x}, %z : core.i32\n      scf.yield %t{i}\n    }} {{\n      scf.yield {y}\n    }}\n"),
            }
            vals.push(format!("%v{i}"));
        }
        s += &format!("    func.return {}\n  }}\n", vals.last().unwrap());
    }
    s + "}"
}
fn work(text: &str) -> String {
    use trunk_ir::dialect::{core, func};
    use trunk_ir::ops::DialectOp;
    let mut ctx = trunk_ir::IrContext::new();
    let op = match trunk_ir::parser::parse_module(&mut ctx, text) {
        Ok(op) => op,
        Err(e) => runner::harness_error(&format!("module text not accepted: {e:?}\n{text}")),
    };
    let mut out = trunk_ir::printer::print_module(&ctx, op);
    let mut pm = trunk_ir::pass::PassManager::new();
    pm.nest::<func::Func>()
        .add_pass(trunk_ir::transforms::canonicalize_pass())
        .add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::DceConfig::default()))
        .add_pass(trunk_ir::transforms::scf_to_cf_pass());
    let m = core::Module::from_op(&ctx, op).unwrap();
    if let Err(e) = pm.run(&mut ctx, m) {
        out += &format!("failed: {e}");
    }
    out += &trunk_ir::printer::print_module(&ctx, op);
    out
}
pub fn c01() {
    let c = ch();
    unsafe { SEEN = Box::into_raw(Box::default()) };
    let threads = c.range(2, 5);
    sched::sched().grain = c.range(1, 3);
    sched::sched().limit = 30_000_000;
    if c.chance(1, 2) {
        // otherwise the first use of the interner is itself raced
        intern("alpha", false);
    }
    let modules = c.chance(1, 6);
    let mut texts = vec![];
    let shelf = unsafe { libc::mmap(std::ptr::null_mut(), 1 << 20, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8 };
    if modules {
        stat("probe.modules");
        sched::sched().grain = 1;
        for k in 0..2 {
            texts.push(module(k));
        }
        // alone, in a process of its own
        let t = &texts;
        runner::sub(0, 30, || {
            let mut at = 0usize;
            for x in t {
                let r = work(x);
                unsafe {
                    *(shelf.add(at) as *mut u64) = r.len() as u64;
                    std::ptr::copy_nonoverlapping(r.as_ptr(), shelf.add(at + 8), r.len());
                }
                at += (r.len() + 15) & !7;
            }
        });
        let mut at = 0usize;
        for (k, x) in texts.clone().into_iter().enumerate() {
            let want = unsafe {
                let n = *(shelf.add(at) as *const u64) as usize;
                let v = String::from_utf8_lossy(std::slice::from_raw_parts(shelf.add(at + 8), n)).into_owned();
                at += (n + 15) & !7;
                v
            };
            sched::spawn(4 << 20, move || {
                let r = runner::catch(|| work(&x)).unwrap_or_else(|p| format!("panic: {p}"));
                if r != want {
                    violation("changed-result", &format!("module {k} came out differently when other threads worked at the same time"));
                }
            });
        }
    }
    for _ in 0..(if modules { 1 } else { threads }) {
        let n = ch().range(2, 14);
        sched::spawn(1 << 20, move || {
            if let Err(p) = runner::catch(|| client(n)) {
                violation("panic", &format!("an interner operation panicked: {p}"));
            }
        });
    }
    match sched::run_all() {
        RunEnd::AllDone => {}
        RunEnd::Deadlock => violation("deadlock", "every thread waits for a lock held by another"),
        e => violation("ended", &format!("{e:?}")),
    }
    // afterwards everything still resolves
    for (t, &s) in &seen().by_text {
        check_text(s, t);
        if Symbol::lookup(t) != Some(s) {
            violation("lost-symbol", &format!("{t:?} is no longer found"));
        }
    }
    ev("ops", seen().ops, seen().by_text.len() as u64);
    if sched::sched().switches >= 3 {
        runner::set_nontrivial();
    }
}
