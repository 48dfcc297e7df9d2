//! C02: the compiler's middle and native back end as a machine that is driven by a schedule of passes and
//! can be stopped and restarted from the text of the IR between any two of them.
use crate::jit;
use crate::world;
use simcore::os::os;
use simcore::runner::{self, catch, discard, ev, ev_bytes, stat, stat_add, trace, trace_enabled, violation};
use simcore::sched::RunEnd;
use simcore::tape::ch;
use std::fmt::Write;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_d, func as func_d};
use trunk_ir::ops::DialectOp;
use trunk_ir::parser::parse_module;
use trunk_ir::pass::PassManager;
use trunk_ir::printer::print_module;
use trunk_ir::rewrite::Module;

// ---------------------------------------------------------------- programs

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    I1,
    /// only between two conversions
    I8,
    I16,
    I32,
    I64,
    F64,
    F32,
}
impl T {
    fn name(self) -> &'static str {
        match self {
            T::I1 => "core.i1",
            T::I8 => "core.i8",
            T::I16 => "core.i16",
            T::I32 => "core.i32",
            T::I64 => "core.i64",
            T::F64 => "core.f64",
            T::F32 => "core.f32",
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum X {
    I(i64),
    F(f64),
    S(f32),
}
type V = usize;
#[derive(Debug)]
pub enum Op {
    Const(T, X),
    Bin(&'static str, T, V, V),
    Cmp(bool, &'static str, V, V),
    Neg(T, V),
    /// operation, from, to
    Conv(&'static str, T, T, V),
    If(V, Option<T>, Box<Body>, Box<Body>),
    /// counter and state; `more` decides whether to go on
    Loop { init: Vec<V>, args: Vec<(V, T)>, head: Vec<(Option<V>, Op)>, cond: V, done: V, body: Vec<(Option<V>, Op)>, next: Vec<V>, res: Option<T> },
    Switch(V, Vec<(i64, Body)>, Option<Box<Body>>),
    Call(usize, Vec<V>),
    /// through a function value
    CallRef(usize, Vec<V>),
    Trace(T, V),
}
#[derive(Debug)]
pub struct Body {
    ops: Vec<(Option<V>, Op)>,
    val: Option<V>,
}
#[derive(Debug)]
pub enum Term {
    Ret(V),
    Br(usize, Vec<V>),
    Cond(V, usize, usize),
    Tail(usize, Vec<V>),
}
#[derive(Debug)]
pub struct Blk {
    args: Vec<(V, T)>,
    ops: Vec<(Option<V>, Op)>,
    term: Term,
}
#[derive(Debug)]
pub struct Fun {
    params: Vec<(V, T)>,
    ret: T,
    blocks: Vec<Blk>,
    /// first parameter counts down; may call itself
    rec: bool,
}
pub struct Prog {
    funs: Vec<Fun>,
    wasm: bool,
}

struct Gen {
    funs: Vec<Fun>,
    next: V,
    fuel: i32,
    /// functions that may be called, and how deep loops are
    cur: usize,
    loops: u32,
    own: Option<(Vec<T>, T, V)>,
    /// only what the WebAssembly target accepts
    wasm: bool,
}
const INTS: [i64; 16] = [0, 1, -1, 2, 3, 7, 10, 31, 32, 255, 65536, -128, 2147483647, -2147483648, 1000003, -77];
const BIG: [i64; 6] = [4294967296, 4294967295, -4294967297, i64::MAX, i64::MIN, 1 << 40];
const FLTS: [f64; 9] = [0.0, 1.0, -1.5, 0.1, 3.25, -1000000.5, 1e300, 2.5e-300, -0.5];
impl Gen {
    fn v(&mut self) -> V {
        self.next += 1;
        self.next - 1
    }
    fn ty(&mut self) -> T {
        *ch().of(&[T::I32, T::I32, T::I32, T::I64, T::I64, T::F64, T::I1, T::F32])
    }
    fn param_ty(&mut self) -> T {
        *ch().of(&[T::I32, T::I32, T::I64, T::F64, T::I1])
    }
    fn push(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, t: T, op: Op) -> V {
        let v = self.v();
        ops.push((Some(v), op));
        sc.push((v, t));
        v
    }
    fn konst(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, t: T) -> V {
        let x = match t {
            T::I1 => X::I(ch().pick(2) as i64),
            T::I8 | T::I16 => unreachable!(),
            T::I32 => X::I(*ch().of(&INTS)),
            T::I64 => X::I(if ch().chance(1, 3) { *ch().of(&BIG) } else { *ch().of(&INTS) }),
            T::F64 => X::F(*ch().of(&FLTS)),
            T::F32 => {
                let a = self.konst(sc, ops, T::F64);
                return self.push(sc, ops, T::F32, Op::Conv("convert", T::F64, T::F32, a));
            }
        };
        self.push(sc, ops, t, Op::Const(t, x))
    }
    fn int(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, t: T, x: i64) -> V {
        self.push(sc, ops, t, Op::Const(t, X::I(x)))
    }
    /// some value of the type
    fn val(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, t: T) -> V {
        let have: Vec<V> = sc.iter().filter(|x| x.1 == t).map(|x| x.0).collect();
        if have.is_empty() || ch().chance(1, 4) {
            return self.konst(sc, ops, t);
        }
        // recent ones more often
        let k = ch().pick(have.len() as u32).min(ch().pick(have.len() as u32)) as usize;
        have[have.len() - 1 - k]
    }
    fn callee(&mut self, want: Option<T>) -> Option<usize> {
        let c: Vec<usize> = (0..self.cur).filter(|&i| want.is_none_or(|t| self.funs[i].ret == t)).collect();
        (!c.is_empty()).then(|| *ch().of(&c))
    }
    fn args(&mut self, f: usize, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>) -> Vec<V> {
        let ps: Vec<T> = self.funs[f].params.iter().map(|p| p.1).collect();
        let rec = self.funs[f].rec;
        ps.iter()
            .enumerate()
            .map(|(i, &t)| {
                if rec && i == 0 {
                    let n = ch().pick(5) as i64;
                    self.int(sc, ops, T::I32, n)
                } else {
                    self.val(sc, ops, t)
                }
            })
            .collect()
    }
    fn stmts(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, n: u32, d: u32) {
        for _ in 0..n {
            self.fuel -= 1;
            if self.fuel < 0 {
                return;
            }
            let nest = d > 0;
            match ch().weighted(&[10, 3, 2, 3, if nest { 4 } else { 0 }, if nest && !self.wasm && self.loops < 2 { 2 } else { 0 }, if nest && !self.wasm { 2 } else { 0 }, if self.cur > 0 { 4 } else { 0 }, 4, if self.own.is_some() { 1 } else { 0 }]) {
                0 => {
                    let t = *ch().of(&[T::I32, T::I32, T::I64, T::F64, T::F32, T::I1]);
                    self.arith(sc, ops, t);
                }
                1 => {
                    let fl = ch().chance(1, 3);
                    let t = if fl { *ch().of(&[T::F64, T::F32]) } else { *ch().of(&[T::I32, T::I64]) };
                    let p = if fl { *ch().of(&["oeq", "une", "olt", "ole", "ogt", "oge"]) } else { *ch().of(&["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]) };
                    let (a, b) = (self.val(sc, ops, t), self.val(sc, ops, t));
                    self.push(sc, ops, T::I1, Op::Cmp(fl, p, a, b));
                }
                2 => {
                    let t = *ch().of(&[T::I32, T::I64, T::F64, T::F32]);
                    let a = self.val(sc, ops, t);
                    self.push(sc, ops, t, Op::Neg(t, a));
                }
                3 if !self.wasm && ch().chance(1, 5) => {
                    let (w, n) = (*ch().of(&[T::I32, T::I64]), *ch().of(&[T::I8, T::I16]));
                    let a = self.val(sc, ops, w);
                    let m = self.v();
                    ops.push((Some(m), Op::Conv(*ch().of(&["trunc", "cast"]), w, n, a)));
                    let w = *ch().of(&[T::I32, T::I64]);
                    self.push(sc, ops, w, Op::Conv(*ch().of(&["extend", "cast"]), n, w, m));
                }
                3 => {
                    let (o, f, t) = *ch().of(&[("cast", T::I32, T::I64), ("cast", T::I64, T::I32), ("trunc", T::I64, T::I32), ("extend", T::I32, T::I64), ("convert", T::I32, T::F64), ("convert", T::I64, T::F64), ("convert", T::F64, T::F32), ("convert", T::F32, T::F64), ("extend", T::F32, T::F64)]);
                    let a = self.val(sc, ops, f);
                    let r = self.push(sc, ops, t, Op::Conv(o, f, t, a));
                    if o == "convert" && f == T::I32 && ch().chance(1, 3) {
                        // and back: always in range
                        let b = *ch().of(&["convert", "trunc"]);
                        self.push(sc, ops, T::I32, Op::Conv(b, T::F64, T::I32, r));
                    }
                }
                4 => {
                    let c = self.val(sc, ops, T::I1);
                    let t = if ch().chance(2, 3) { Some(self.ty()) } else { None };
                    let (a, b) = (self.body(sc, t, d - 1), self.body(sc, t, d - 1));
                    let op = Op::If(c, t, Box::new(a), Box::new(b));
                    match t {
                        Some(t) => {
                            self.push(sc, ops, t, op);
                        }
                        None => ops.push((None, op)),
                    }
                }
                5 => self.a_loop(sc, ops, d),
                6 => {
                    let t = *ch().of(&[T::I32, T::I32, T::I64]);
                    let mut a = self.val(sc, ops, t);
                    if ch().chance(2, 3) {
                        let k = self.int(sc, ops, t, 3);
                        a = self.push(sc, ops, t, Op::Bin("and", t, a, k));
                    }
                    let mut keys: Vec<i64> = vec![];
                    for _ in 0..ch().pick(4) {
                        let k = *ch().of(&[0, 1, 2, 3, -1, 7]);
                        if !keys.contains(&k) {
                            keys.push(k);
                        }
                    }
                    let cases = keys.into_iter().map(|k| (k, self.body(sc, None, d - 1))).collect();
                    let def = if ch().chance(3, 4) { Some(Box::new(self.body(sc, None, d - 1))) } else { None };
                    ops.push((None, Op::Switch(a, cases, def)));
                }
                7 => {
                    if let Some(f) = self.callee(None) {
                        let a = self.args(f, sc, ops);
                        let t = self.funs[f].ret;
                        let op = if ch().chance(1, 4) { Op::CallRef(f, a) } else { Op::Call(f, a) };
                        self.push(sc, ops, t, op);
                    }
                }
                8 => {
                    let t = *ch().of(&[T::I32, T::I32, T::I64, T::F64]);
                    let a = self.val(sc, ops, t);
                    ops.push((None, Op::Trace(t, a)));
                }
                _ => {
                    // itself, counting down; guarded by the counter being positive
                    let (ps, r, n) = self.own.clone().unwrap();
                    let z = self.int(sc, ops, T::I32, 0);
                    let c = self.push(sc, ops, T::I1, Op::Cmp(false, "sgt", n, z));
                    let mut s2 = sc.clone();
                    let mut o2 = vec![];
                    let one = self.int(&mut s2, &mut o2, T::I32, 1);
                    let m = self.push(&mut s2, &mut o2, T::I32, Op::Bin("subi", T::I32, n, one));
                    let mut args = vec![m];
                    for &t in &ps[1..] {
                        args.push(self.val(&mut s2, &mut o2, t));
                    }
                    let x = self.push(&mut s2, &mut o2, r, Op::Call(self.cur, args));
                    let e = self.body(sc, Some(r), 0);
                    self.push(sc, ops, r, Op::If(c, Some(r), Box::new(Body { ops: o2, val: Some(x) }), Box::new(e)));
                    self.own = None; // once per function: the call tree stays a line
                }
            }
        }
    }
    fn arith(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, t: T) -> V {
        let (a, mut b) = (self.val(sc, ops, t), self.val(sc, ops, t));
        let o = match t {
            T::I1 => *ch().of(&["and", "or", "xor"]),
            T::F64 | T::F32 => *ch().of(&["addf", "subf", "mulf", "divf"]),
            _ => *ch().of(&["addi", "subi", "muli", "addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "and", "or", "xor", "shl", "shr", "shru"]),
        };
        match o {
            "divsi" | "remsi" => {
                let k = self.int(sc, ops, t, 1023);
                b = self.push(sc, ops, t, Op::Bin("and", t, b, k));
                let k = self.int(sc, ops, t, 1);
                b = self.push(sc, ops, t, Op::Bin("or", t, b, k));
                if ch().chance(1, 2) {
                    // constants on both sides meet the folds
                    b = self.int(sc, ops, t, *ch().of(&[1, 2, -3, 7, -2, 65536]));
                }
            }
            "divui" | "remui" => {
                let k = self.int(sc, ops, t, 1);
                b = if ch().chance(1, 2) { self.push(sc, ops, t, Op::Bin("or", t, b, k)) } else { self.int(sc, ops, t, *ch().of(&[1, 3, 10, -1, 2147483647])) };
            }
            _ => {}
        }
        self.push(sc, ops, t, Op::Bin(o, t, a, b))
    }
    fn body(&mut self, sc: &[(V, T)], t: Option<T>, d: u32) -> Body {
        let mut s2 = sc.to_vec();
        let mut ops = vec![];
        let n = ch().pick(4);
        self.stmts(&mut s2, &mut ops, n, d);
        let val = t.map(|t| self.val(&mut s2, &mut ops, t));
        Body { ops, val }
    }
    fn a_loop(&mut self, sc: &mut Vec<(V, T)>, ops: &mut Vec<(Option<V>, Op)>, d: u32) {
        let n = ch().pick(5) as i64;
        let start = self.int(sc, ops, T::I32, n);
        let mut init = vec![start];
        let i = self.v();
        let mut args = vec![(i, T::I32)];
        for _ in 0..ch().pick(3) {
            let t = self.ty();
            init.push(self.val(sc, ops, t));
            args.push((self.v(), t));
        }
        let res = if ch().chance(3, 4) { Some(self.ty()) } else { None };
        self.loops += 1;
        let own = self.own.take();
        let mut s2 = sc.clone();
        s2.extend(args.iter().cloned());
        let mut head = vec![];
        let k = ch().pick(3);
        self.stmts(&mut s2, &mut head, k, d.saturating_sub(1).min(1));
        let z = self.int(&mut s2, &mut head, T::I32, 0);
        let cond = self.push(&mut s2, &mut head, T::I1, Op::Cmp(false, "sle", i, z));
        let done = self.val(&mut s2, &mut head, res.unwrap_or(T::I32));
        let mut body = vec![];
        let k = 1 + ch().pick(4);
        self.stmts(&mut s2, &mut body, k, d - 1);
        let one = self.int(&mut s2, &mut body, T::I32, 1);
        let mut next = vec![self.push(&mut s2, &mut body, T::I32, Op::Bin("subi", T::I32, i, one))];
        for &(_, t) in &args[1..] {
            next.push(self.val(&mut s2, &mut body, t));
        }
        self.loops -= 1;
        self.own = own;
        let op = Op::Loop { init, args, head, cond, done, body, next, res };
        match res {
            Some(t) => {
                self.push(sc, ops, t, op);
            }
            None => ops.push((None, op)),
        }
    }
    fn fun(&mut self, main: bool) {
        self.cur = self.funs.len();
        self.next = 0;
        let rec = !main && ch().chance(1, 3);
        let mut params: Vec<(V, T)> = vec![];
        if rec {
            params.push((self.v(), T::I32));
        }
        if !main {
            for _ in 0..ch().pick(4) {
                let t = self.param_ty();
                params.push((self.v(), t));
            }
        }
        let ret = if main { T::I32 } else { self.param_ty() };
        self.own = rec.then(|| (params.iter().map(|p| p.1).collect(), ret, params[0].0));
        let mut sc = params.clone();
        let n = if main { 6 + ch().pick(10) } else { 2 + ch().pick(8) };
        let mut blocks = vec![];
        let mut ops = vec![];
        self.stmts(&mut sc, &mut ops, n, 2);
        if self.wasm || ch().chance(2, 3) {
            // one block
            let tail = if self.wasm && !main && ch().chance(1, 4) { self.callee(Some(ret)) } else { None };
            let term = match tail {
                Some(f) => Term::Tail(f, self.args(f, &mut sc, &mut ops)),
                None => Term::Ret(self.val(&mut sc, &mut ops, ret)),
            };
            blocks.push(Blk { args: vec![], ops, term });
        } else {
            // entry -> a chain of diamonds and a counted loop between blocks, all using the entry's values
            self.own = None;
            let n = ch().pick(4) as i64;
            let k = self.int(&mut sc, &mut ops, T::I32, n);
            let st = self.ty();
            let s0 = self.val(&mut sc, &mut ops, st);
            let (i, s) = (self.v(), self.v());
            blocks.push(Blk { args: vec![], ops, term: Term::Br(1, vec![k, s0]) });
            // 1: header(i, s): i <= 0 ? 5 : 2
            let mut s1 = sc.clone();
            s1.push((i, T::I32));
            s1.push((s, st));
            let mut o = vec![];
            self.loops = 2;
            let k = ch().pick(3);
            self.stmts(&mut s1, &mut o, k, 1);
            let z = self.int(&mut s1, &mut o, T::I32, 0);
            let c = self.push(&mut s1, &mut o, T::I1, Op::Cmp(false, "sle", i, z));
            blocks.push(Blk { args: vec![(i, T::I32), (s, st)], ops: o, term: Term::Cond(c, 5, 2) });
            // 2: body, to 3 or 4
            let mut s2 = s1.clone();
            let mut o = vec![];
            let k = ch().pick(4);
            self.stmts(&mut s2, &mut o, k, 1);
            let one = self.int(&mut s2, &mut o, T::I32, 1);
            let j = self.push(&mut s2, &mut o, T::I32, Op::Bin("subi", T::I32, i, one));
            let c = self.val(&mut s2, &mut o, T::I1);
            blocks.push(Blk { args: vec![], ops: o, term: Term::Cond(c, 3, 4) });
            for _ in 0..2 {
                let mut s3 = s2.clone();
                let mut o = vec![];
                let k = ch().pick(3);
                self.stmts(&mut s3, &mut o, k, 1);
                let x = self.val(&mut s3, &mut o, st);
                blocks.push(Blk { args: vec![], ops: o, term: Term::Br(1, vec![j, x]) });
            }
            // 5: exit
            let mut o = vec![];
            let k = ch().pick(3);
            self.stmts(&mut s1, &mut o, k, 1);
            let v = self.val(&mut s1, &mut o, ret);
            self.loops = 0;
            if ch().chance(1, 2) {
                blocks.push(Blk { args: vec![], ops: o, term: Term::Ret(v) });
            } else {
                let r = self.v();
                blocks.push(Blk { args: vec![], ops: o, term: Term::Br(6, vec![v]) });
                blocks.push(Blk { args: vec![(r, ret)], ops: vec![], term: Term::Ret(r) });
            }
        }
        self.own = None;
        self.funs.push(Fun { params, ret, blocks, rec });
    }
}
fn generate(wasm: bool) -> Prog {
    let mut g = Gen { funs: vec![], next: 0, fuel: *ch().of(&[30, 80, 160]), cur: 0, loops: 0, own: None, wasm };
    for _ in 0..ch().pick(6) {
        g.fun(false);
    }
    g.fuel = g.fuel.max(20);
    g.fun(true);
    Prog { funs: g.funs, wasm }
}

// ---------------------------------------------------------------- text

fn fname(p: &Prog, f: usize) -> String {
    if f + 1 == p.funs.len() { if p.wasm { "entry".into() } else { "main".into() } } else { format!("f{f}") }
}
fn list(v: &[V]) -> String {
    v.iter().map(|x| format!("%v{x}")).collect::<Vec<_>>().join(", ")
}
fn args_text(a: &[(V, T)]) -> String {
    a.iter().map(|(v, t)| format!("%v{v}: {}", t.name())).collect::<Vec<_>>().join(", ")
}
fn ops_text(p: &Prog, ops: &[(Option<V>, Op)], ind: usize, o: &mut String, tmp: &mut usize) {
    let pad = " ".repeat(ind);
    for (r, op) in ops {
        let lhs = r.map_or(String::new(), |v| format!("%v{v} = "));
        match op {
            Op::Const(t, x) => {
                let x = match x {
                    X::I(i) => i.to_string(),
                    X::F(f) => format!("{f:?}"),
                    X::S(_) => unreachable!(),
                };
                writeln!(o, "{pad}{lhs}arith.const {{value = {}}} : {}", if x.contains('e') && !x.contains('.') { x.replace('e', ".0e") } else { x }, t.name())
            }
            Op::Bin(n, t, a, b) => writeln!(o, "{pad}{lhs}arith.{n} %v{a}, %v{b} : {}", t.name()),
            Op::Cmp(fl, pr, a, b) => writeln!(o, "{pad}{lhs}arith.{} %v{a}, %v{b} {{predicate = @{pr}}} : core.i1", if *fl { "cmpf" } else { "cmpi" }),
            Op::Neg(t, a) => writeln!(o, "{pad}{lhs}arith.{} %v{a} : {}", if matches!(t, T::F64 | T::F32) { "negf" } else { "negi" }, t.name()),
            Op::Conv(n, _, t, a) => writeln!(o, "{pad}{lhs}arith.{n} %v{a} : {}", t.name()),
            Op::If(c, t, a, b) => {
                write!(o, "{pad}{lhs}scf.if %v{c}{} {{\n", t.map_or(String::new(), |t| format!(" : {}", t.name()))).unwrap();
                body_text(p, a, ind + 2, o, tmp);
                write!(o, "{pad}}} {{\n").unwrap();
                body_text(p, b, ind + 2, o, tmp);
                writeln!(o, "{pad}}}")
            }
            Op::Loop { init, args, head, cond, done, body, next, res } => {
                writeln!(o, "{pad}{lhs}scf.loop {}{} {{", list(init), res.map_or(String::new(), |t| format!(" : {}", t.name()))).unwrap();
                writeln!(o, "{pad}^bb0({}):", args_text(args)).unwrap();
                ops_text(p, head, ind + 2, o, tmp);
                writeln!(o, "{pad}  scf.if %v{cond} {{\n{pad}    scf.break %v{done}\n{pad}  }} {{\n{pad}    scf.yield\n{pad}  }}").unwrap();
                ops_text(p, body, ind + 2, o, tmp);
                writeln!(o, "{pad}  scf.continue {}", list(next)).unwrap();
                writeln!(o, "{pad}}}")
            }
            Op::Switch(d, cases, def) => {
                writeln!(o, "{pad}scf.switch %v{d} {{").unwrap();
                for (k, b) in cases {
                    writeln!(o, "{pad}  scf.case {{value = {k}}} {{").unwrap();
                    body_text(p, b, ind + 4, o, tmp);
                    writeln!(o, "{pad}  }}").unwrap();
                }
                if let Some(b) = def {
                    writeln!(o, "{pad}  scf.default {{").unwrap();
                    body_text(p, b, ind + 4, o, tmp);
                    writeln!(o, "{pad}  }}").unwrap();
                }
                writeln!(o, "{pad}  scf.yield\n{pad}}}")
            }
            Op::Call(f, a) => writeln!(o, "{pad}{lhs}func.call {}{}{{callee = @{}}} : {}", list(a), if a.is_empty() { "" } else { " " }, fname(p, *f), p.funs[*f].ret.name()),
            Op::CallRef(f, a) => {
                let k = *tmp;
                *tmp += 1;
                let g = &p.funs[*f];
                let tys: Vec<&str> = std::iter::once(g.ret.name()).chain(g.params.iter().map(|x| x.1.name())).collect();
                writeln!(o, "{pad}%c{k} = func.constant {{func_ref = @{}}} : core.func({})", fname(p, *f), tys.join(", ")).unwrap();
                let sep = if a.is_empty() { "" } else { ", " };
                writeln!(o, "{pad}{lhs}func.call_indirect %c{k}{sep}{} : {}", list(a), g.ret.name())
            }
            Op::Trace(t, a) => {
                let k = *tmp;
                *tmp += 1;
                writeln!(o, "{pad}%t{k} = func.call %v{a} {{callee = @verif_trace_{}}} : core.i32", &t.name()[5..])
            }
        }
        .unwrap();
    }
}
fn body_text(p: &Prog, b: &Body, ind: usize, o: &mut String, tmp: &mut usize) {
    ops_text(p, &b.ops, ind, o, tmp);
    writeln!(o, "{}scf.yield{}", " ".repeat(ind), b.val.map_or(String::new(), |v| format!(" %v{v}"))).unwrap();
}
fn to_text(p: &Prog) -> String {
    nested_text(p, &[])
}
/// The functions whose place is set in `nest` each lie in modules of their own, one or two levels deep.
fn nested_text(p: &Prog, nest: &[u32]) -> String {
    let mut o = String::from("core.module @test {\n");
    for t in [T::I32, T::I64, T::F64] {
        if p.wasm {
            writeln!(o, "  wasm.import_func {{module = @env, name = @trace_{0}, sym_name = @verif_trace_{0}, type = core.func(core.i32, {1})}}", &t.name()[5..], t.name()).unwrap();
            continue;
        }
        writeln!(o, "  func.func @verif_trace_{}(%x: {}) -> core.i32 attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}", &t.name()[5..], t.name()).unwrap();
    }
    for (i, f) in p.funs.iter().enumerate() {
        let deep = nest.get(i).copied().unwrap_or(0);
        for d in 0..deep {
            writeln!(o, "  core.module @n{i}_{d} {{").unwrap();
        }
        writeln!(o, "  func.func @{}({}) -> {} {{", fname(p, i), args_text(&f.params), f.ret.name()).unwrap();
        let mut tmp = 0;
        for (k, b) in f.blocks.iter().enumerate() {
            if k > 0 || f.blocks.len() > 1 {
                writeln!(o, "  ^bb{k}{}:", if b.args.is_empty() { String::new() } else { format!("({})", args_text(&b.args)) }).unwrap();
            }
            ops_text(p, &b.ops, 4, &mut o, &mut tmp);
            match &b.term {
                Term::Ret(v) => writeln!(o, "    func.return %v{v}"),
                Term::Br(k, a) => writeln!(o, "    cf.br {} [^bb{k}]", list(a)),
                Term::Tail(f, a) => writeln!(o, "    func.tail_call {}{}{{callee = @{}}}", list(a), if a.is_empty() { "" } else { " " }, fname(p, *f)),
                Term::Cond(c, a, b) => writeln!(o, "    cf.cond_br %v{c} [^bb{a}, ^bb{b}]"),
            }
            .unwrap();
        }
        o.push_str("  }\n");
        for _ in 0..deep {
            o.push_str("  }\n");
        }
    }
    if p.wasm {
        o.push_str("  wasm.export_func {name = \"entry\", func = @entry}\n");
    }
    o.push_str("}\n");
    o
}

// ---------------------------------------------------------------- meaning

struct Ev<'p> {
    p: &'p Prog,
    out: Vec<u8>,
    steps: u64,
}
struct Over;
type Env = Vec<Option<X>>;
fn wrap(t: T, i: i64) -> X {
    X::I(match t {
        T::I1 => i & 1,
        T::I8 => i as i8 as i64,
        T::I16 => i as i16 as i64,
        T::I32 => i as i32 as i64,
        _ => i,
    })
}
fn i(x: X) -> i64 {
    match x {
        X::I(i) => i,
        _ => panic!("reference: integer expected"),
    }
}
fn trace_text(o: &mut Vec<u8>, x: X) {
    let s = match x {
        X::I(i) => format!("{i}\n"),
        X::F(f) if f.is_nan() => "nan\n".into(),
        X::F(f) => format!("{:016x}\n", f.to_bits()),
        X::S(_) => unreachable!(),
    };
    o.extend_from_slice(s.as_bytes());
}
impl<'p> Ev<'p> {
    fn call(&mut self, f: usize, a: Vec<X>) -> Result<X, Over> {
        let fun = &self.p.funs[f];
        let mut env: Env = vec![];
        for (x, (v, _)) in a.into_iter().zip(&fun.params) {
            set(&mut env, *v, x);
        }
        let mut b = 0;
        loop {
            self.tick()?;
            self.ops(&fun.blocks[b].ops, &mut env)?;
            match &fun.blocks[b].term {
                Term::Ret(v) => return Ok(env[*v].unwrap()),
                Term::Br(k, a) => {
                    let x: Vec<X> = a.iter().map(|v| env[*v].unwrap()).collect();
                    for (x, (v, _)) in x.into_iter().zip(&fun.blocks[*k].args) {
                        set(&mut env, *v, x);
                    }
                    b = *k;
                }
                Term::Tail(f, a) => {
                    let a = a.iter().map(|v| env[*v].unwrap()).collect();
                    return self.call(*f, a);
                }
                Term::Cond(c, t, e) => b = if i(env[*c].unwrap()) != 0 { *t } else { *e },
            }
        }
    }
    fn tick(&mut self) -> Result<(), Over> {
        self.steps += 1;
        if self.steps > 30_000 { Err(Over) } else { Ok(()) }
    }
    fn body(&mut self, b: &'p Body, env: &mut Env) -> Result<Option<X>, Over> {
        self.ops(&b.ops, env)?;
        Ok(b.val.map(|v| env[v].unwrap()))
    }
    fn ops(&mut self, ops: &'p [(Option<V>, Op)], env: &mut Env) -> Result<(), Over> {
        for (r, op) in ops {
            self.tick()?;
            let g = |v: &V| env[*v].unwrap();
            let x = match op {
                Op::Const(_, x) => Some(*x),
                Op::Bin(n, t, a, b) => Some(bin(n, *t, g(a), g(b))),
                Op::Cmp(_, p, a, b) => Some(X::I(cmp(p, g(a), g(b)) as i64)),
                Op::Neg(t, a) => Some(match g(a) {
                    X::I(i) => wrap(*t, i.wrapping_neg()),
                    X::F(f) => X::F(-f),
                    X::S(f) => X::S(-f),
                }),
                Op::Conv(_, f, t, a) => Some(match (f, t, g(a)) {
                    (_, T::F64, X::I(i)) => X::F(i as f64),
                    (_, T::F64, X::S(s)) => X::F(s as f64),
                    (_, T::F32, X::F(f)) => X::S(f as f32),
                    (_, T::I32, X::F(f)) => X::I(f as i32 as i64),
                    (_, t, x) => wrap(*t, i(x)),
                }),
                Op::If(c, _, a, b) => {
                    let b = if i(g(c)) != 0 { a } else { b };
                    self.body(b, env)?
                }
                Op::Loop { init, args, head, cond, done, body, next, .. } => {
                    let x: Vec<X> = init.iter().map(g).collect();
                    for (x, (v, _)) in x.into_iter().zip(args) {
                        set(env, *v, x);
                    }
                    loop {
                        self.tick()?;
                        self.ops(head, env)?;
                        if i(env[*cond].unwrap()) != 0 {
                            break Some(env[*done].unwrap());
                        }
                        self.ops(body, env)?;
                        let x: Vec<X> = next.iter().map(|v| env[*v].unwrap()).collect();
                        for (x, (v, _)) in x.into_iter().zip(args) {
                            set(env, *v, x);
                        }
                    }
                }
                Op::Switch(d, cases, def) => {
                    let k = i(g(d));
                    let b = cases.iter().find(|c| c.0 == k).map(|c| &c.1).or(def.as_deref());
                    if let Some(b) = b {
                        self.body(b, env)?;
                    }
                    None
                }
                Op::Call(f, a) | Op::CallRef(f, a) => {
                    let a = a.iter().map(g).collect();
                    Some(self.call(*f, a)?)
                }
                Op::Trace(_, a) => {
                    trace_text(&mut self.out, g(a));
                    None
                }
            };
            if let (Some(v), Some(x)) = (r, x) {
                set(env, *v, x);
            }
        }
        Ok(())
    }
}
fn set(env: &mut Env, v: V, x: X) {
    if env.len() <= v {
        env.resize(v + 1, None);
    }
    env[v] = Some(x);
}
fn cmp(p: &str, a: X, b: X) -> bool {
    match (a, b) {
        (X::I(a), X::I(b)) => {
            // i32 values are kept sign-extended, which preserves the unsigned order
            let (ua, ub) = (a as u64, b as u64);
            match p {
                "eq" => a == b,
                "ne" => a != b,
                "slt" => a < b,
                "sle" => a <= b,
                "sgt" => a > b,
                "sge" => a >= b,
                "ult" => ua < ub,
                "ule" => ua <= ub,
                "ugt" => ua > ub,
                _ => ua >= ub,
            }
        }
        (a, b) => {
            let f = |x| match x {
                X::F(f) => f,
                X::S(s) => s as f64,
                X::I(_) => panic!("reference: float expected"),
            };
            let (a, b) = (f(a), f(b));
            match p {
                "oeq" => a == b,
                "une" => a != b,
                "olt" => a < b,
                "ole" => a <= b,
                "ogt" => a > b,
                _ => a >= b,
            }
        }
    }
}
fn bin(n: &str, t: T, a: X, b: X) -> X {
    match (a, b) {
        (X::F(a), X::F(b)) => X::F(match n {
            "addf" => a + b,
            "subf" => a - b,
            "mulf" => a * b,
            _ => a / b,
        }),
        (X::S(a), X::S(b)) => X::S(match n {
            "addf" => a + b,
            "subf" => a - b,
            "mulf" => a * b,
            _ => a / b,
        }),
        (X::I(a), X::I(b)) => {
            let w = if t == T::I64 { 64 } else { 32 };
            let u = |x: i64| if w == 64 { x as u64 } else { x as u32 as u64 };
            let s = (b & (w - 1)) as u32;
            wrap(
                t,
                match n {
                    "addi" => a.wrapping_add(b),
                    "subi" => a.wrapping_sub(b),
                    "muli" => a.wrapping_mul(b),
                    "divsi" => a.wrapping_div(b),
                    "remsi" => a.wrapping_rem(b),
                    "divui" => (u(a) / u(b)) as i64,
                    "remui" => (u(a) % u(b)) as i64,
                    "and" => a & b,
                    "or" => a | b,
                    "xor" => a ^ b,
                    "shl" => a.wrapping_shl(s),
                    "shr" => a >> s,
                    _ => (u(a) >> s) as i64,
                },
            )
        }
        _ => panic!("reference: operand types"),
    }
}

// ---------------------------------------------------------------- the machine

static mut TRACE_LIMIT: u64 = u64::MAX;
fn traced(x: X) -> i32 {
    trace_text(&mut os().stdout, x);
    unsafe {
        TRACE_LIMIT -= 1;
        if TRACE_LIMIT == 0 {
            simcore::sched::end_process(RunEnd::Abort);
        }
    }
    0
}
pub extern "C" fn trace_i32(x: i32) -> i32 {
    traced(X::I(x as i64))
}
pub extern "C" fn trace_i64(x: i64) -> i32 {
    traced(X::I(x))
}
pub extern "C" fn trace_f64(x: f64) -> i32 {
    traced(X::F(x))
}
fn parse(src: &str, what: &str) -> (IrContext, Module) {
    let mut ctx = IrContext::new();
    match catch(|| parse_module(&mut ctx, src)) {
        Ok(Ok(op)) => {
            let Some(m) = Module::new(&ctx, op) else { violation("parse", &format!("{what} does not parse as a module")) };
            (ctx, m)
        }
        Ok(Err(e)) => violation("parse", &format!("{what} does not parse: {} at {}", e.message, e.offset)),
        Err(p) => violation("compiler-panic", &format!("parsing {what} panicked: {p}")),
    }
}
fn step<R>(what: &str, f: impl FnOnce() -> R) -> R {
    if trace_enabled() {
        trace(&format!("  pass {what}"));
    }
    catch(f).unwrap_or_else(|p| violation("compiler-panic", &format!("{what} panicked: {p}")))
}
fn pm_run(ctx: &mut IrContext, m: Module, what: &str, fill: impl FnOnce(&mut PassManager<func_d::Func>)) {
    let Ok(root) = core_d::Module::from_op(ctx, m.op()) else { violation("lost-module", "the root is no longer a module") };
    let mut pm = PassManager::new();
    fill(pm.nest::<func_d::Func>());
    if let Err(e) = pm.run(ctx, root) {
        violation("pass-failed", &format!("{what}: {e}"));
    }
}
fn validate(ctx: &IrContext, m: Module, after: &str) {
    let r = trunk_ir::validation::validate_use_chains(ctx, m);
    if !r.is_ok() {
        violation("invalid-ir", &format!("after {after}: use chains are inconsistent"));
    }
    let r = trunk_ir::validation::validate_value_integrity(ctx, m);
    if !r.is_ok() {
        violation("invalid-ir", &format!("after {after}: a value is used that is not there"));
    }
}
type Funs = std::collections::BTreeMap<String, trunk_ir::OpRef>;
fn symbol(ctx: &IrContext, o: trunk_ir::OpRef, key: &'static str) -> Option<String> {
    match ctx.op(o).attributes.get(key) {
        Some(trunk_ir::Attribute::Symbol(s)) => Some(s.to_string()),
        _ => None,
    }
}
fn ops_in(ctx: &IrContext, o: trunk_ir::OpRef, f: &mut dyn FnMut(trunk_ir::OpRef)) {
    for &r in &ctx.op(o).regions {
        for &b in &ctx.region(r).blocks {
            for &x in &ctx.block(b).ops {
                f(x);
                ops_in(ctx, x, f);
            }
        }
    }
}
fn functions(ctx: &IrContext, m: Module) -> Funs {
    let mut all = Funs::new();
    ops_in(ctx, m.op(), &mut |o| {
        if ctx.op(o).dialect == "func" && ctx.op(o).name == "func" {
            all.insert(symbol(ctx, o, "sym_name").unwrap_or_default(), o);
        }
    });
    all
}
/// Functions that main, a function called from outside or one of `extra` can reach.
fn reachable(ctx: &IrContext, m: Module, extra: &[String]) -> std::collections::BTreeSet<String> {
    let all = functions(ctx, m);
    let mut todo: Vec<String> = all.iter().filter(|(n, o)| *n == "main" || ctx.op(**o).attributes.get("abi").is_some()).map(|x| x.0.clone()).chain(extra.iter().cloned()).collect();
    let mut seen = std::collections::BTreeSet::new();
    while let Some(f) = todo.pop() {
        let Some(&o) = all.get(&f) else { continue };
        if seen.insert(f) {
            ops_in(ctx, o, &mut |x| todo.extend(["callee", "func_ref"].iter().filter_map(|k| symbol(ctx, x, k))));
        }
    }
    seen
}
/// The text does not tell an empty module from one without a body.
fn drop_empty(ctx: &mut IrContext, m: trunk_ir::OpRef) {
    for r in ctx.op(m).regions.to_vec() {
        for b in ctx.region(r).blocks.to_vec() {
            for o in ctx.block(b).ops.to_vec() {
                if ctx.op(o).dialect == "core" && ctx.op(o).name == "module" {
                    drop_empty(ctx, o);
                    if ctx.op(o).regions.iter().all(|&r| ctx.region(r).blocks.iter().all(|&b| ctx.block(b).ops.is_empty())) {
                        ctx.remove_op_from_block(b, o);
                        ctx.remove_op(o);
                    }
                }
            }
        }
    }
}
/// Nested modules are dissolved into the root.
fn flatten(ctx: &mut IrContext, m: Module) {
    let top = ctx.region(ctx.op(m.op()).regions[0]).blocks[0];
    loop {
        let Some(n) = ctx.block(top).ops.iter().copied().find(|&o| ctx.op(o).dialect == "core" && ctx.op(o).name == "module") else { return };
        for r in ctx.op(n).regions.to_vec() {
            for b in ctx.region(r).blocks.to_vec() {
                for o in ctx.block(b).ops.to_vec() {
                    ctx.remove_op_from_block(b, o);
                    ctx.push_op(top, o);
                }
            }
        }
        ctx.remove_op_from_block(top, n);
        ctx.remove_op(n);
    }
}
/// One pass of the middle end, chosen by the schedule.
fn pass(k: u32, ctx: &mut IrContext, m: Module, structured: bool) {
    use trunk_ir::transforms as tr;
    let name = ["canonicalize", "dce", "global-dce", "inline", "canonicalize+dce (one manager)", "inline (aggressive)", "dce (module)", "canonicalize (module)"][k as usize];
    ev(name, k as u64, structured as u64);
    step(name, || match k {
        0 => pm_run(ctx, m, name, |p| {
            p.add_pass(tr::canonicalize_pass());
        }),
        1 => pm_run(ctx, m, name, |p| {
            p.add_pass(tr::dce_pass(tr::DceConfig { max_iterations: 0, recursive: ch().chance(3, 4) }));
        }),
        2 => {
            let all: Vec<String> = functions(ctx, m).into_keys().collect();
            let extra: Vec<String> = if ch().chance(1, 2) { vec![] } else { all.iter().filter(|_| ch().chance(1, 4)).cloned().collect() };
            let need = reachable(ctx, m, &extra);
            if extra.is_empty() {
                tr::eliminate_dead_functions(ctx, m);
            } else {
                tr::eliminate_dead_functions_with_config(ctx, m, tr::GlobalDceConfig { extra_entry_points: extra, recursive: true });
            }
            let left = functions(ctx, m);
            if let Some(f) = need.iter().find(|f| !left.contains_key(*f)) {
                violation("lost-function", &format!("{f} can be reached and was removed as dead"));
            }
            if left.len() < all.len() {
                stat("probe.dead_functions");
            }
        }
        3 => trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, a| {
            tr::inline_functions(ctx, m, a);
        }),
        4 => pm_run(ctx, m, name, |p| {
            p.add_pass(tr::canonicalize_pass()).add_pass(tr::dce_pass(tr::DceConfig::default()));
        }),
        5 => {
            let c = tr::InlineConfig { size_threshold: *ch().of(&[0, 5, 60]), always_inline_single_call_site: ch().chance(1, 2), inline_across_func_constant: ch().chance(1, 2) };
            trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, a| {
                tr::inline_functions_with_config(ctx, m, c, a);
            })
        }
        6 => {
            tr::eliminate_dead_code(ctx, m, tr::DceConfig::default());
        }
        _ => {
            tr::canonicalize(ctx, m);
        }
    });
    stat(["probe.canonicalize", "probe.dce", "probe.global_dce", "probe.inline", "probe.canonicalize", "probe.inline", "probe.dce", "probe.canonicalize"][k as usize]);
    validate(ctx, m, name);
}
fn dump(ctx: &IrContext, m: Module) {
    if trace_enabled() {
        for l in print_module(ctx, m.op()).lines() {
            trace(&format!("  > {l}"));
        }
    }
}
fn native(ctx: &mut IrContext, m: Module) -> Vec<u8> {
    use tribute_passes::native::type_converter::native_type_converter as conv;
    use trunk_ir_cranelift_backend::passes::{arith_to_clif, cf_to_clif, func_to_clif, mem_to_clif};
    let e = |what: &str, r: Result<(), trunk_ir::rewrite::ConversionError>| {
        if let Err(e) = r {
            violation("pass-failed", &format!("{what}: {e}"));
        }
    };
    let tc = conv(ctx).0;
    e("func-to-clif", step("func-to-clif", || func_to_clif::lower(ctx, m, tc)));
    let tc = conv(ctx).0;
    e("cf-to-clif", step("cf-to-clif", || cf_to_clif::lower(ctx, m, tc)));
    let tc = conv(ctx).0;
    e("arith-to-clif", step("arith-to-clif", || arith_to_clif::lower(ctx, m, tc)));
    let tc = conv(ctx).0;
    e("mem-to-clif", step("mem-to-clif", || mem_to_clif::lower(ctx, m, tc)));
    let tc = conv(ctx).0;
    let r = step("resolve-casts", || trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc));
    if !r.unresolved.is_empty() {
        violation("pass-failed", &format!("{} casts remain", r.unresolved.len()));
    }
    match step("emit", || trunk_ir_cranelift_backend::emit_module_to_native(ctx, m, &[])) {
        Ok(b) => b,
        Err(e) => violation("pass-failed", &format!("emit: {e}")),
    }
}
pub fn c02() {
    let p = generate(false);
    let src = to_text(&p);
    runner::set_tag(format!("ir {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(&src);
    stat_add("sum.ir_bytes", src.len() as u64);
    let mut e = Ev { p: &p, out: vec![], steps: 0 };
    let Ok(want) = e.call(p.funs.len() - 1, vec![]) else { discard("probe.over_budget") };
    trace_text(&mut e.out, want);
    let out = e.out;
    for k in 0..2u64 {
        let (p, src, out) = (&p, &src, &out);
        runner::sub(k, 20, || {
            let nest: Vec<u32> = if k > 0 && ch().chance(1, 5) { p.funs[1..].iter().map(|_| *ch().of(&[0, 1, 1, 2])).collect() } else { vec![] };
            let mut nested = !nest.is_empty();
            if nested {
                stat("probe.nested_modules");
            }
            let (mut ctx, mut m) = if nested { parse(&nested_text(p, &nest), "the program") } else { parse(src, "the program") };
            validate(&ctx, m, "parsing");
            // the first schedule does nothing but lower; the others are drawn
            let n = if k == 0 { 0 } else { 1 + ch().pick(7) };
            let mut structured = true;
            let cut = if n > 0 { ch().pick(n + 2) } else { 0 };
            for j in 0..n {
                if j >= cut && structured {
                    structured = false;
                    if std::mem::take(&mut nested) {
                        flatten(&mut ctx, m);
                    }
                    scf(&mut ctx, m);
                }
                pass(ch().pick(8), &mut ctx, m, structured);
                if ch().chance(1, 3) {
                    if nested {
                        drop_empty(&mut ctx, m.op());
                    }
                    restart(&mut ctx, &mut m, !nested);
                }
            }
            if structured {
                if nested {
                    flatten(&mut ctx, m);
                }
                scf(&mut ctx, m);
                if k > 0 && ch().chance(1, 3) {
                    restart(&mut ctx, &mut m, !nested);
                }
            }
            dump(&ctx, m);
            let obj = native(&mut ctx, m);
            let lines = out.iter().filter(|&&b| b == b'\n').count() as u64;
            let stop = if k > 0 && ch().chance(1, 4) && lines > 1 { 1 + ch().pick(lines as u32 - 1) as u64 } else { 0 };
            unsafe { TRACE_LIMIT = if stop > 0 { stop } else { u64::MAX } };
            let g = run(&obj);
            ev_bytes("trace", &g.1);
            let want: Vec<u8> = if stop > 0 {
                stat("fault.killed_at_call");
                out.split_inclusive(|&b| b == b'\n').take(stop as usize).flatten().copied().collect()
            } else {
                out.clone()
            };
            if g.1 != want {
                violation("wrong-output", &world::diff(&want, &g.1));
            }
            let end = if stop > 0 { RunEnd::Abort } else { RunEnd::AllDone };
            if g.0 != end {
                violation("wrong-end", &format!("the program ended with {:?}, expected {end:?}", g.0));
            }
            if lines > 1 {
                runner::set_nontrivial();
            }
        });
    }
}
fn scf(ctx: &mut IrContext, m: Module) {
    if ch().chance(1, 2) {
        step("scf-to-cf", || pm_run(ctx, m, "scf-to-cf", |p| {
            p.add_pass(trunk_ir::transforms::scf_to_cf_pass());
        }));
    } else {
        step("scf-to-cf (module)", || trunk_ir::transforms::lower_scf_to_cf(ctx, m));
    }
    stat("probe.scf_to_cf");
    validate(ctx, m, "scf-to-cf");
}
/// The compiler stops; what survives is the text of the IR.
fn restart(ctx: &mut IrContext, m: &mut Module, strict: bool) {
    stat("fault.restart_from_text");
    let text = step("print", || print_module(ctx, m.op()));
    ev_bytes("ir", text.as_bytes());
    let (c, n) = parse(&text, "the printed IR");
    let again = step("print", || print_module(&c, n.op()));
    // aliases of types spread through nested modules over a few readings
    if strict && again != text {
        let k = again.lines().zip(text.lines()).position(|(a, b)| a != b).unwrap_or(0);
        violation("text-not-stable", &format!("printing the reparsed text gives something else: line {k}: {:?} became {:?}", text.lines().nth(k).unwrap_or(""), again.lines().nth(k).unwrap_or("")));
    }
    validate(&c, n, "restarting from text");
    *ctx = c;
    *m = n;
}
fn run(obj: &[u8]) -> (RunEnd, Vec<u8>) {
    let img = match jit::load(obj) {
        Ok(i) => i,
        Err(e) => violation("link", &format!("the object file cannot be linked: {e}")),
    };
    let Some(&main) = img.syms.get("main") else { violation("link", "the object file has no main") };
    simcore::heap::heap();
    simcore::sched::sched().limit = 60_000_000;
    simcore::sched::spawn(64 << 20, move || unsafe {
        let f: extern "C" fn() -> i32 = std::mem::transmute(main);
        let r = f();
        TRACE_LIMIT = u64::MAX;
        traced(X::I(r as i64));
    });
    let end = simcore::sched::run_all();
    (end, os().stdout.clone())
}

// ---------------------------------------------------------------- the WebAssembly target

fn to_wasm(ctx: &mut IrContext, m: Module) -> Vec<u8> {
    use tribute_passes::wasm::{lower, type_converter::wasm_type_converter};
    if let Err(e) = step("lower-to-wasm", || lower::lower_to_wasm(ctx, m)) {
        violation("pass-failed", &format!("lower-to-wasm: {e}"));
    }
    let tc = wasm_type_converter(ctx);
    let r = step("resolve-casts", || trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc));
    if !r.unresolved.is_empty() {
        violation("pass-failed", &format!("{} casts remain", r.unresolved.len()));
    }
    if let Err(e) = step("finalize-gc-types", || lower::finalize_wasm_gc_types(ctx, m)) {
        violation("pass-failed", &format!("finalize-gc-types: {e}"));
    }
    match step("emit", || trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m)) {
        Ok(b) => b.bytes,
        Err(e) => violation("pass-failed", &format!("emit: {e}")),
    }
}
pub fn w02() {
    let p = generate(true);
    let src = to_text(&p);
    runner::set_tag(format!("ir {:016x}", simcore::rng::hash_bytes(src.as_bytes())));
    world::log_source(&src);
    stat_add("sum.ir_bytes", src.len() as u64);
    let mut e = Ev { p: &p, out: vec![], steps: 0 };
    let Ok(want) = e.call(p.funs.len() - 1, vec![]) else { discard("probe.over_budget") };
    trace_text(&mut e.out, want);
    let out = e.out;
    let lines = out.iter().filter(|&&b| b == b'\n').count() as u64;
    let mods: Vec<Vec<u8>> = (0..3)
        .map(|k| {
            let (mut ctx, mut m) = parse(&src, "the program");
            let n = if k == 0 { 0 } else { 1 + ch().pick(7) };
            for _ in 0..n {
                pass(ch().pick(8), &mut ctx, m, true);
                if ch().chance(1, 3) {
                    restart(&mut ctx, &mut m, true);
                }
            }
            dump(&ctx, m);
            to_wasm(&mut ctx, m)
        })
        .collect();
    let mut plans: Vec<(usize, u64)> = (0..mods.len()).map(|k| (k, 0)).collect();
    if lines > 1 {
        for _ in 0..2 {
            plans.push((ch().pick(3) as usize, 1 + ch().pick(lines as u32 - 1) as u64));
        }
    }
    let refs: Vec<&[u8]> = mods.iter().map(|m| &m[..]).collect();
    for (o, (_, stop)) in crate::wasm::run_ir(&refs, &plans).into_iter().zip(plans) {
        ev("wasm", stop, o.bytes.len() as u64);
        ev_bytes("trace", &o.bytes);
        if o.end == "invalid" {
            violation("invalid-module", &format!("the engine refused the module: {}", o.msg));
        }
        let want: Vec<u8> = if stop > 0 {
            stat("fault.killed_at_call");
            out.split_inclusive(|&b| b == b'\n').take(stop as usize).flatten().copied().collect()
        } else {
            out.clone()
        };
        if o.bytes != want {
            violation("wrong-output", &format!("{} ({} {})", world::diff(&want, &o.bytes), o.end, o.msg));
        }
        let end = if stop > 0 { "stop" } else { "done" };
        if o.end != end {
            violation("wrong-end", &format!("the program ended with {} ({}), expected {end}", o.end, o.msg));
        }
        if lines > 1 {
            runner::set_nontrivial();
        }
    }
}
