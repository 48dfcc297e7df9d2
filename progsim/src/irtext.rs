//! C07: the text of the IR as the durable state of the compiler. A module is written out, the compiler is
//! restarted (in a context that has seen other things), and the text is read back, whole or damaged.
use simcore::runner::{self, catch, ev, ev_bytes, stat, steps_add, trace, trace_enabled, violation};
use simcore::tape::ch;
use std::collections::HashMap;
use trunk_ir::context::{IrContext, OperationDataBuilder};
use trunk_ir::parser::parse_module;
use trunk_ir::printer::{print_module, print_op, print_type};
use trunk_ir::refs::*;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::{BlockArgData, BlockData, RegionData, Span, Symbol};

// ---------------------------------------------------------------- the model of a module

#[derive(Clone, PartialEq, Debug)]
enum A {
    Unit,
    Bool(bool),
    Int(i128),
    Float(u64),
    Str(String),
    Bytes(Vec<u8>),
    Sym(String),
    Type(Ty),
    List(Vec<A>),
    Loc(String, usize, usize),
}
#[derive(Clone, PartialEq, Debug)]
struct Ty {
    dialect: String,
    name: String,
    params: Vec<Ty>,
    attrs: Vec<(String, A)>,
}
#[derive(Clone, PartialEq, Debug)]
struct Op {
    dialect: String,
    name: String,
    attrs: Vec<(String, A)>,
    operands: Vec<usize>,
    /// identities of the results, in order of definition
    results: Vec<(usize, Ty)>,
    succ: Vec<usize>,
    regions: Vec<Vec<Blk>>,
}
#[derive(Clone, PartialEq, Debug)]
struct Blk {
    args: Vec<(usize, Ty)>,
    ops: Vec<Op>,
}

fn sorted(mut a: Vec<(String, A)>) -> Vec<(String, A)> {
    a.sort_by(|x, y| x.0.cmp(&y.0));
    a.dedup_by(|x, y| x.0 == y.0);
    a
}
fn ty(dialect: &str, name: &str, params: Vec<Ty>, attrs: Vec<(String, A)>) -> Ty {
    Ty { dialect: dialect.into(), name: name.into(), params, attrs: sorted(attrs) }
}

// ---------------------------------------------------------------- building and reading it

struct Build<'c> {
    ctx: &'c mut IrContext,
    loc: Location,
    vals: HashMap<usize, ValueRef>,
}
impl Build<'_> {
    fn ty(&mut self, t: &Ty) -> TypeRef {
        let mut b = TypeDataBuilder::new(Symbol::from_dynamic(&t.dialect), Symbol::from_dynamic(&t.name));
        for p in &t.params {
            let p = self.ty(p);
            b = b.param(p);
        }
        for (k, v) in &t.attrs {
            let v = self.attr(v);
            b = b.attr(Symbol::from_dynamic(k), v);
        }
        self.ctx.types.intern(b.build())
    }
    fn attr(&mut self, a: &A) -> Attribute {
        match a {
            A::Unit => Attribute::Unit,
            A::Bool(b) => Attribute::Bool(*b),
            A::Int(i) => Attribute::Int(*i),
            A::Float(b) => Attribute::FloatBits(*b),
            A::Str(s) => Attribute::String(s.clone()),
            A::Bytes(b) => Attribute::Bytes(b.iter().copied().collect()),
            A::Sym(s) => Attribute::Symbol(Symbol::from_dynamic(s)),
            A::Type(t) => Attribute::Type(self.ty(t)),
            A::List(l) => Attribute::List(l.iter().map(|a| self.attr(a)).collect()),
            A::Loc(p, s, e) => {
                let p = self.ctx.paths.intern(p.clone());
                Attribute::Location(Location::new(p, Span::new(*s, *e)))
            }
        }
    }
    fn op(&mut self, o: &Op, blocks: &[BlockRef]) -> OpRef {
        let regions: Vec<RegionRef> = o.regions.iter().map(|r| self.region(r)).collect();
        let mut b = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(&o.dialect), Symbol::from_dynamic(&o.name));
        for v in &o.operands {
            b = b.operand(self.vals[v]);
        }
        for (_, t) in &o.results {
            let t = self.ty(t);
            b = b.result(t);
        }
        for (k, v) in &o.attrs {
            let v = self.attr(v);
            b = b.attr(Symbol::from_dynamic(k), v);
        }
        for r in regions {
            b = b.region(r);
        }
        for s in &o.succ {
            b = b.successor(blocks[*s]);
        }
        let d = b.build(self.ctx);
        let op = self.ctx.create_op(d);
        for (i, (v, _)) in o.results.iter().enumerate() {
            let r = self.ctx.op_result(op, i as u32);
            self.vals.insert(*v, r);
        }
        op
    }
    fn region(&mut self, r: &[Blk]) -> RegionRef {
        let mut blocks = vec![];
        for b in r {
            let args = b.args.iter().map(|(_, t)| BlockArgData { ty: self.ty(t), attrs: Default::default() }).collect();
            let br = self.ctx.create_block(BlockData { location: self.loc, args, ops: Default::default(), parent_region: None });
            for (i, (v, _)) in b.args.iter().enumerate() {
                let x = self.ctx.block_arg(br, i as u32);
                self.vals.insert(*v, x);
            }
            blocks.push(br);
        }
        for (b, &br) in r.iter().zip(&blocks) {
            for o in &b.ops {
                let op = self.op(o, &blocks);
                self.ctx.push_op(br, op);
            }
        }
        self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.into_iter().collect(), parent_op: None })
    }
}
fn build(ctx: &mut IrContext, o: &Op, aliases: &[(String, Ty)]) -> OpRef {
    let p = ctx.paths.intern("sim.trb".to_owned());
    let loc = Location::new(p, Span::new(0, 0));
    let mut b = Build { ctx, loc, vals: HashMap::new() };
    for (n, t) in aliases {
        let t = b.ty(t);
        b.ctx.register_type_alias(Symbol::from_dynamic(n), t);
    }
    b.op(o, &[])
}

struct Read<'c> {
    ctx: &'c IrContext,
    vals: HashMap<ValueRef, usize>,
    next: usize,
}
impl Read<'_> {
    fn ty(&self, t: TypeRef) -> Ty {
        let d = self.ctx.types.get(t);
        Ty { dialect: d.dialect.to_string(), name: d.name.to_string(), params: d.params.iter().map(|&p| self.ty(p)).collect(), attrs: sorted(d.attrs.iter().map(|(k, v)| (k.to_string(), self.attr(v))).collect()) }
    }
    fn attr(&self, a: &Attribute) -> A {
        match a {
            Attribute::Unit => A::Unit,
            Attribute::Bool(b) => A::Bool(*b),
            Attribute::Int(i) => A::Int(*i),
            Attribute::FloatBits(b) => A::Float(*b),
            Attribute::String(s) => A::Str(s.clone()),
            Attribute::Bytes(b) => A::Bytes(b.to_vec()),
            Attribute::Symbol(s) => A::Sym(s.to_string()),
            Attribute::Type(t) => A::Type(self.ty(*t)),
            Attribute::List(l) => A::List(l.iter().map(|a| self.attr(a)).collect()),
            Attribute::Location(l) => A::Loc(self.ctx.paths.get(l.path).to_string(), l.span.start, l.span.end),
        }
    }
    fn def(&mut self, v: ValueRef) -> usize {
        self.next += 1;
        self.vals.insert(v, self.next);
        self.next
    }
    fn op(&mut self, o: OpRef, blocks: &[BlockRef]) -> Op {
        let d = self.ctx.op(o);
        let operands = self.ctx.op_operands(o).iter().map(|v| self.vals.get(v).copied().unwrap_or(0)).collect();
        let regions = d.regions.iter().map(|&r| self.region(r)).collect();
        let rs: Vec<ValueRef> = self.ctx.op_results(o).to_vec();
        let results = rs.iter().map(|&v| (self.def(v), self.ty(self.ctx.value_ty(v)))).collect();
        Op {
            dialect: d.dialect.to_string(),
            name: d.name.to_string(),
            attrs: sorted(d.attributes.iter().map(|(k, v)| (k.to_string(), self.attr(v))).collect()),
            operands,
            results,
            succ: d.successors.iter().map(|b| blocks.iter().position(|x| x == b).unwrap_or(usize::MAX)).collect(),
            regions,
        }
    }
    fn region(&mut self, r: RegionRef) -> Vec<Blk> {
        let blocks: Vec<BlockRef> = self.ctx.region(r).blocks.iter().copied().collect();
        let args: Vec<Vec<(usize, Ty)>> = blocks
            .iter()
            .map(|&b| {
                let a: Vec<ValueRef> = self.ctx.block_args(b).to_vec();
                a.iter().map(|&v| (self.def(v), self.ty(self.ctx.value_ty(v)))).collect()
            })
            .collect();
        blocks
            .iter()
            .zip(args)
            .map(|(&b, args)| {
                let ops: Vec<OpRef> = self.ctx.block(b).ops.iter().copied().collect();
                Blk { args, ops: ops.iter().map(|&o| self.op(o, &blocks)).collect() }
            })
            .collect()
    }
}
fn read(ctx: &IrContext, o: OpRef) -> Op {
    normal(Read { ctx, vals: HashMap::new(), next: 0 }.op(o, &[]))
}

/// A module without operations is the same module whether its body is there or not.
fn normal(mut o: Op) -> Op {
    for r in &mut o.regions {
        for b in r {
            b.ops = std::mem::take(&mut b.ops).into_iter().map(normal).collect();
        }
    }
    if o.dialect == "core" && o.name == "module" && o.regions.iter().flatten().all(|b| b.ops.is_empty() && b.args.is_empty()) {
        o.regions.clear();
    }
    o
}
/// Where two readings of a module first differ.
fn diff(a: &Op, b: &Op, path: &str) -> Option<String> {
    let p = format!("{path}/{}.{}", a.dialect, a.name);
    if (&a.dialect, &a.name) != (&b.dialect, &b.name) {
        return Some(format!("{p}: became {}.{}", b.dialect, b.name));
    }
    if a.attrs != b.attrs {
        let x = a.attrs.iter().find(|x| !b.attrs.contains(x));
        let y = b.attrs.iter().find(|y| !a.attrs.contains(y));
        return Some(format!("{p}: attributes: {x:?} against {y:?}"));
    }
    if a.operands != b.operands {
        return Some(format!("{p}: operands {:?} against {:?}", a.operands, b.operands));
    }
    if a.results != b.results {
        return Some(format!("{p}: results {:?} against {:?}", a.results, b.results));
    }
    if a.succ != b.succ {
        return Some(format!("{p}: successors {:?} against {:?}", a.succ, b.succ));
    }
    if a.regions.len() != b.regions.len() {
        return Some(format!("{p}: {} regions against {}", a.regions.len(), b.regions.len()));
    }
    for (i, (r, s)) in a.regions.iter().zip(&b.regions).enumerate() {
        if r.len() != s.len() {
            return Some(format!("{p}: region {i} has {} blocks against {}", r.len(), s.len()));
        }
        for (j, (x, y)) in r.iter().zip(s).enumerate() {
            if x.args != y.args {
                return Some(format!("{p}: region {i} block {j}: arguments {:?} against {:?}", x.args, y.args));
            }
            if x.ops.len() != y.ops.len() {
                return Some(format!("{p}: region {i} block {j}: {} operations against {}", x.ops.len(), y.ops.len()));
            }
            for (o, q) in x.ops.iter().zip(&y.ops) {
                if let Some(d) = diff(o, q, &p) {
                    return Some(d);
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- generating one

struct Gen {
    tys: Vec<Ty>,
    next: usize,
    fuel: i32,
}
const SYMS: [&str; 16] = ["f", "main", "_x", "x1", "std::list::map", "a.b", "has space", "q\"uote", "back\\slash", "", "\u{e9}t\u{e9}", "9lives", "tab\there", "nul\0", "core.module", "\u{85}ctl"];
/// Text of any characters: every ASCII one, C1 controls, separators, wide ones; hexadecimal digits are frequent.
fn odd() -> String {
    (0..1 + ch().pick(6))
        .map(|_| match ch().weighted(&[4, 2, 3, 1, 1, 2]) {
            0 => char::from(ch().pick(128) as u8),
            1 => char::from(ch().pick(32) as u8),
            2 => *ch().of(&['0', '1', 'a', 'F', 'x', 'n', '_']),
            3 => char::from_u32(0x80 + ch().pick(0x80)).unwrap(),
            4 => *ch().of(&['\u{2028}', '\u{feff}', '\u{1f600}', '\u{10ffff}', '\u{200b}', '\u{fffd}', '\u{3000}']),
            _ => *ch().of(&['"', '\\', '{', '}', '@', '%', '!', ':', '.', ' ', '\n', '/']),
        })
        .collect()
}
fn sym() -> String {
    if ch().chance(1, 6) { odd() } else { ch().of(&SYMS).to_string() }
}
const STRS: [&str; 12] = ["", "plain", "q\"uote", "back\\slash", "line\nfeed", "\\x41", "{brace}", "\u{1f600}", "%0 = x.y", "\u{7f}\u{80}\u{ff}", "a\\", "\\\""];
const KEYS: [&str; 10] = ["value", "k", "_k", "a.b", "tribute.calling_convention", "name", "unit", "true_", "loc", "b"];
impl Gen {
    fn v(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn a_ty(&mut self) -> Ty {
        ch().of(&self.tys).clone()
    }
    fn attrs(&mut self, d: u32) -> Vec<(String, A)> {
        let n = *ch().of(&[0, 0, 1, 1, 2, 3]);
        sorted((0..n).map(|_| (ch().of(&KEYS).to_string(), self.attr(d))).collect())
    }
    fn attr(&mut self, d: u32) -> A {
        match ch().weighted(&[1, 1, 4, 4, 4, 3, 4, 4, if d > 0 { 3 } else { 0 }, 2]) {
            0 => A::Unit,
            1 => A::Bool(ch().chance(1, 2)),
            2 => A::Int(*ch().of(&[0, 1, -1, 42, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, -128])),
            3 => A::Float(ch().of(&[0.0f64, -0.0, 1.0, 0.1, -2.5, 1e300, -1e-300, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 123456789.0, 1e15, 1e16]).to_bits()),
            4 => A::Str(self.text()),
            5 => A::Bytes((0..ch().pick(5)).map(|_| if ch().chance(1, 3) { ch().pick(256) as u8 } else { *ch().of(&[0u8, b'a', b'"', b'\\', b'\n', 255, 128, 127, b'x', b'{', b'0']) }).collect()),
            6 => A::Sym(sym()),
            7 => A::Type(self.a_ty()),
            8 => A::List((0..ch().pick(4)).map(|_| self.attr(d - 1)).collect()),
            _ => A::Loc(self.text(), ch().pick(100) as usize, ch().pick(1000) as usize),
        }
    }
    fn text(&mut self) -> String {
        if ch().chance(1, 3) {
            return odd();
        }
        let mut s = ch().of(&STRS).to_string();
        if ch().chance(1, 4) {
            s.push_str(ch().of(&STRS));
        }
        s
    }
    fn types(&mut self) {
        for n in ["i1", "i32", "i64", "nil", "ptr"] {
            self.tys.push(ty("core", n, vec![], vec![]));
        }
        for _ in 0..ch().pick(8) {
            let t = match ch().pick(5) {
                0 => {
                    let n = ch().pick(4);
                    ty("core", "func", (0..n + 1).map(|_| self.a_ty()).collect(), vec![])
                }
                1 => {
                    let f = (0..ch().pick(4)).map(|_| A::List(vec![A::Sym(sym()), A::Type(self.a_ty())])).collect();
                    let n = A::Sym(sym());
                    ty("adt", "struct", vec![], vec![("name".into(), n), ("fields".into(), A::List(f))])
                }
                2 => ty("closure", "closure", vec![self.a_ty()], vec![]),
                3 => {
                    let p = (0..ch().pick(3)).map(|_| self.a_ty()).collect();
                    let a = self.attrs(1);
                    ty("test", "pair", p, a)
                }
                _ => ty("core", "tuple", (0..1 + ch().pick(4)).map(|_| self.a_ty()).collect(), vec![]),
            };
            if !self.tys.contains(&t) && size(&t) < 200 {
                self.tys.push(t);
            }
        }
    }
    /// operations of one block; `sc`: what may be used
    fn ops(&mut self, sc: &mut Vec<usize>, n: u32, depth: u32) -> Vec<Op> {
        let mut out = vec![];
        for _ in 0..n {
            self.fuel -= 1;
            if self.fuel < 0 {
                break;
            }
            let operands: Vec<usize> = if sc.is_empty() { vec![] } else { (0..ch().pick(4)).map(|_| *ch().of(sc)).collect() };
            let k = if depth > 0 { ch().pick(12) } else { ch().pick(8) };
            let o = match k {
                0..=7 => {
                    let (d, m) = *ch().of(&[("arith", "const"), ("test", "op"), ("func", "call"), ("adt", "struct_new"), ("wasm", "i32_add"), ("test", "true_"), ("clif", "load"), ("func", "return")]);
                    let nr = *ch().of(&[0, 1, 1, 1, 2, 3]);
                    let attrs = self.attrs(2);
                    let results = (0..nr).map(|_| (self.v(), self.a_ty())).collect();
                    Op { dialect: d.into(), name: m.into(), attrs, operands, results, succ: vec![], regions: vec![] }
                }
                8 | 9 => {
                    // operation with regions
                    let nr = 1 + ch().pick(3);
                    let attrs = if ch().chance(1, 2) { self.attrs(2) } else { vec![] };
                    let regions = (0..nr).map(|_| self.region(sc, vec![], depth - 1, false)).collect();
                    let results = (0..ch().pick(3)).map(|_| (self.v(), self.a_ty())).collect();
                    let (d, m) = *ch().of(&[("scf", "if"), ("scf", "loop"), ("test", "wrap"), ("tribute_control", "handle")]);
                    Op { dialect: d.into(), name: m.into(), attrs, operands, results, succ: vec![], regions }
                }
                10 => {
                    let (ret, ps) = (self.a_ty(), (0..ch().pick(3)).map(|_| self.a_ty()).collect::<Vec<_>>());
                    let mut fp = vec![ret];
                    fp.extend(ps.iter().cloned());
                    let t = ty("closure", "closure", vec![ty("core", "func", fp, vec![])], vec![]);
                    let attrs = if ch().chance(1, 2) { self.attrs(1) } else { vec![] };
                    let r = self.region(sc, ps, depth - 1, true);
                    Op { dialect: "closure".into(), name: "lambda".into(), attrs, operands, results: vec![(self.v(), t)], succ: vec![], regions: vec![r] }
                }
                _ => {
                    let (ret, ps) = (self.a_ty(), (0..ch().pick(3)).map(|_| self.a_ty()).collect::<Vec<_>>());
                    let mut fp = vec![ret];
                    fp.extend(ps.iter().cloned());
                    let t = ty("tribute_control", "callable", fp, vec![("tribute.calling_convention".into(), A::Int(ch().pick(3) as i128))]);
                    let attrs: Vec<_> = self.attrs(1).into_iter().filter(|a| a.0 != "tribute.calling_convention").collect();
                    let r = self.region(sc, ps, depth - 1, true);
                    Op { dialect: "tribute_control".into(), name: "lambda".into(), attrs, operands, results: vec![(self.v(), t)], succ: vec![], regions: vec![r] }
                }
            };
            sc.extend(o.results.iter().map(|r| r.0));
            out.push(o);
        }
        out
    }
    fn region(&mut self, sc: &[usize], entry: Vec<Ty>, depth: u32, sig: bool) -> Vec<Blk> {
        let nb = *ch().of(&[1, 1, 1, 2, 3]);
        let mut sc = sc.to_vec();
        let mut out: Vec<Blk> = vec![];
        for i in 0..nb {
            let args: Vec<(usize, Ty)> = if i == 0 && sig {
                entry.iter().map(|t| (self.v(), t.clone())).collect()
            } else {
                (0..*ch().of(&[0, 0, 1, 2])).map(|_| (self.v(), self.a_ty())).collect()
            };
            out.push(Blk { args, ops: vec![] });
        }
        for i in 0..nb {
            sc.extend(out[i].args.iter().map(|a| a.0));
            let n = 1 + ch().pick(4);
            let mut ops = self.ops(&mut sc, n, depth);
            if nb > 1 || ops.is_empty() {
                let succ = if nb > 1 { (0..ch().pick(3)).map(|_| ch().pick(nb as u32) as usize).collect() } else { vec![] };
                let operands = if sc.is_empty() { vec![] } else { (0..ch().pick(3)).map(|_| *ch().of(&sc)).collect() };
                let attrs = if ch().chance(1, 4) { self.attrs(1) } else { vec![] };
                ops.push(Op { dialect: "cf".into(), name: "br".into(), attrs, operands, results: vec![], succ, regions: vec![] });
            }
            out[i].ops = ops;
        }
        out
    }
    fn func(&mut self, control: bool) -> Op {
        let (ret, ps) = (self.a_ty(), (0..ch().pick(4)).map(|_| self.a_ty()).collect::<Vec<_>>());
        let mut fp = vec![ret];
        fp.extend(ps.iter().cloned());
        let t = if control { ty("tribute_control", "callable", fp, vec![("tribute.calling_convention".into(), A::Int(ch().pick(3) as i128))]) } else { ty("core", "func", fp, vec![]) };
        let mut attrs: Vec<(String, A)> = self.attrs(1).into_iter().filter(|a| !control || a.0 != "tribute.calling_convention").collect();
        attrs.push(("sym_name".into(), A::Sym(sym())));
        attrs.push(("type".into(), A::Type(t)));
        let regions = if ch().chance(1, 5) { vec![] } else { vec![self.region(&[], ps, 2, true)] };
        Op { dialect: if control { "tribute_control" } else { "func" }.into(), name: "func".into(), attrs: sorted(attrs), operands: vec![], results: vec![], succ: vec![], regions }
    }
    fn module(&mut self, depth: u32) -> Op {
        let mut ops = vec![];
        for _ in 0..ch().pick(5) {
            ops.push(match ch().pick(8) {
                0 if depth > 0 => self.module(depth - 1),
                1 => Op { dialect: "wasm".into(), name: "export_func".into(), attrs: self.attrs(2), operands: vec![], results: vec![], succ: vec![], regions: vec![] },
                2 => self.func(true),
                _ => self.func(false),
            });
        }
        Op { dialect: "core".into(), name: "module".into(), attrs: vec![("sym_name".into(), A::Sym(sym()))], operands: vec![], results: vec![], succ: vec![], regions: vec![vec![Blk { args: vec![], ops }]] }
    }
}
fn size(t: &Ty) -> usize {
    fn a(x: &A) -> usize {
        match x {
            A::Type(t) => size(t),
            A::List(l) => l.iter().map(a).sum(),
            _ => 1,
        }
    }
    1 + t.params.iter().map(size).sum::<usize>() + t.attrs.iter().map(|x| a(&x.1)).sum::<usize>()
}
/// identities in the order in which `read` meets the definitions
fn renumber(o: &mut Op) {
    fn op(o: &mut Op, m: &mut HashMap<usize, usize>) {
        for v in &mut o.operands {
            *v = m[v];
        }
        for r in &mut o.regions {
            for b in r.iter_mut() {
                for a in &mut b.args {
                    let n = m.len() + 1;
                    m.insert(a.0, n);
                    a.0 = n;
                }
            }
            for b in r.iter_mut() {
                for o in &mut b.ops {
                    op(o, m);
                }
            }
        }
        for r in &mut o.results {
            let n = m.len() + 1;
            m.insert(r.0, n);
            r.0 = n;
        }
    }
    op(o, &mut HashMap::new());
}

// ---------------------------------------------------------------- the run

/// A context that another part of the compiler has used before.
fn used_context(n: u32) -> IrContext {
    let mut ctx = IrContext::new();
    let mut g = Gen { tys: vec![], next: 0, fuel: 0 };
    for _ in 0..n {
        g.tys.clear();
        g.types();
        let ts = g.tys.clone();
        let p = ctx.paths.intern("other.trb".to_owned());
        let mut b = Build { loc: Location::new(p, Span::new(0, 0)), ctx: &mut ctx, vals: HashMap::new() };
        for t in ts.iter().rev() {
            b.ty(t);
        }
    }
    ctx
}
fn parse(ctx: &mut IrContext, text: &str, what: &str) -> Result<OpRef, String> {
    steps_add(1);
    match catch(|| parse_module(ctx, text)) {
        Err(e) => {
            if trace_enabled() {
                trace(&format!("text read ({what}):\n{text}"));
            }
            violation("parser-panics", &format!("reading {what} text panicked: {e}"))
        }
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => {
            if e.offset > text.len() {
                violation("error-offset", &format!("reading {what} text reports offset {} of {}", e.offset, text.len()));
            }
            let mut k = e.offset;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            let near: String = text[k..].chars().take(60).collect();
            Err(format!("{} before {near:?}", e.message))
        }
    }
}

pub fn c07() {
    let mut g = Gen { tys: vec![], next: 0, fuel: 60 };
    g.types();
    let mut m = g.module(2);
    renumber(&mut m);
    let full = m;
    let m = normal(full.clone());
    let mut aliases: Vec<(String, Ty)> = vec![];
    for _ in 0..*ch().of(&[0, 0, 0, 1, 2]) {
        let t = g.a_ty();
        let n = sym();
        if aliases.iter().all(|a| a.0 != n && a.1 != t) {
            aliases.push((n, t));
            stat("probe.named_type");
        }
    }
    let n = ch().pick(3);
    let mut ctx = used_context(n);
    let op = build(&mut ctx, &full, &aliases);
    if let Some(d) = diff(&m, &read(&ctx, op), "") {
        runner::harness_error(&format!("the module read back from the context differs from the one built: {d}"));
    }
    let text = print_module(&ctx, op);
    ev_bytes("text", text.as_bytes());
    if trace_enabled() {
        trace(&format!("written:\n{text}"));
    }
    runner::set_nontrivial();
    if print_module(&ctx, op) != text || print_op(&ctx, op) != text {
        violation("unstable-text", "writing the same module twice gave different text");
    }
    {
        // a restart may meet types in another order
        let n = ch().pick(4);
        let mut c = used_context(n);
        let o = build(&mut c, &full, &aliases);
        if print_module(&c, o) != text {
            if trace_enabled() {
                trace(&format!("written by another process:\n{}", print_module(&c, o)));
            }
            violation("text-depends-on-history", "the same module is written differently in a context that had interned other types before");
        }
        stat("fault.interning_order");
    }
    // restart: only the text survives
    let mut cur = text.clone();
    // (names for types defined in a nested module spread to its neighbours over a few readings; they settle)
    let names = |t: &str| t.lines().filter(|l| l.trim_start().starts_with('!')).count();
    let turns = 1 + ch().pick(3);
    for turn in 0..32 {
        if turn == 31 {
            violation("text-keeps-changing", "the text still changes after 30 readings");
        }
        let n = ch().pick(3);
        let mut c = used_context(n);
        let o = match parse(&mut c, &cur, "intact") {
            Ok(o) => o,
            Err(e) => violation("own-text-refused", &format!("text written by the compiler is refused when read (restart {turn}): {e}")),
        };
        stat("fault.restart_from_text");
        let r = read(&c, o);
        if let Some(d) = diff(&m, &r, "") {
            violation("read-back-differs", &format!("the module read back from its text differs (restart {turn}): {d}"));
        }
        let t = print_module(&c, o);
        let settled = t == cur;
        if turn > 0 && !settled && names(&t) == names(&cur) {
            if trace_enabled() {
                trace(&format!("read:\n{cur}\nwritten again:\n{t}"));
            }
            violation("text-keeps-changing", &format!("writing what was read back gives other text again (restart {turn})"));
        }
        cur = t;
        if turn + 1 >= turns && (settled || turn == 0) {
            break;
        }
    }
    // types on their own
    let t = g.a_ty();
    let p = ctx.paths.intern("sim.trb".to_owned());
    let tr = Build { loc: Location::new(p, Span::new(0, 0)), ctx: &mut ctx, vals: HashMap::new() }.ty(&t);
    let s = print_type(&ctx, tr);
    let wrapped = format!("core.module @m {{\n  test.op {{t = {s}}}\n}}\n");
    let mut c = used_context(0);
    match parse(&mut c, &wrapped, "type") {
        Ok(o) => {
            let r = read(&c, o);
            let got = r.regions.first().and_then(|r| r.first()).and_then(|b| b.ops.first()).map(|o| o.attrs.clone());
            if got != Some(vec![("t".to_string(), A::Type(t))]) {
                violation("read-back-differs", &format!("the type written as {s} is read back as another"));
            }
        }
        Err(e) => violation("own-text-refused", &format!("a type written as {s} is refused when read: {e}")),
    }
    // torn and damaged text
    let b = text.as_bytes();
    let end = text.trim_end().len();
    // before its body is opened, the head of a module is an operation of its own
    let head = text.find("{\n").map_or(end, |i| i + 1);
    for _ in 0..24 {
        if head >= end {
            break;
        }
        let mut k = head + ch().pick((end - head) as u32) as usize;
        while !text.is_char_boundary(k) {
            k += 1;
        }
        let mut c = IrContext::new();
        ev("cut", k as u64, 0);
        if parse(&mut c, &text[..k], "torn").is_ok() {
            violation("torn-text-accepted", &format!("the first {k} of {end} bytes of a module were accepted as a whole module"));
        }
        stat("fault.torn_text");
    }
    for _ in 0..12 {
        let (d, what) = damage(b);
        let Ok(d) = String::from_utf8(d) else { continue };
        ev_bytes(what, d.as_bytes());
        let mut c = IrContext::new();
        match parse(&mut c, &d, what) {
            Ok(o) => {
                stat("probe.damaged_accepted");
                // whatever was accepted is a module that can be walked
                if let Err(e) = catch(|| read(&c, o)) {
                    violation("broken-module", &format!("what was read from {what} text cannot be walked: {e}"));
                }
            }
            Err(_) => stat("probe.damaged_refused"),
        }
        stat("fault.damaged_text");
    }
}

fn damage(b: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let lines: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
    let n = lines.len() as u32;
    match ch().pick(5) {
        0 => {
            for _ in 0..1 + ch().pick(3) {
                let k = ch().pick(v.len() as u32) as usize;
                v[k] = *ch().of(b"{}()[]\"\\%@^!=:,.-> \nx0\x7f");
            }
            (v, "damaged")
        }
        1 => {
            let k = ch().pick(n) as usize;
            (lines.iter().enumerate().filter(|x| x.0 != k).flat_map(|x| x.1.to_vec()).collect(), "text with a line lost in")
        }
        2 => {
            let k = ch().pick(n) as usize;
            (lines.iter().enumerate().flat_map(|x| if x.0 == k { [x.1.to_vec(), x.1.to_vec()].concat() } else { x.1.to_vec() }).collect(), "text with a line doubled in")
        }
        3 => {
            let (i, j) = (ch().pick(n) as usize, ch().pick(n) as usize);
            let mut l = lines;
            l.swap(i, j);
            (l.concat(), "text with lines swapped in")
        }
        _ => {
            let i = ch().pick(v.len() as u32) as usize;
            let k = (1 + ch().pick(16) as usize).min(v.len() - i);
            v.drain(i..i + k);
            (v, "text with a gap in")
        }
    }
}
