//! C09: rewriting up to a conversion boundary changes what the patterns and the target say, and nothing unlowered passes.
use simcore::runner::{catch, ev, set_nontrivial, stat, trace, trace_enabled, violation};
use simcore::tape::ch;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use trunk_ir::dialect::{func, wasm};
use trunk_ir::ops::DialectOp;
use trunk_ir::rewrite::{ApplyResult, ConversionError, ConversionMode, ConversionTarget, LegalityCheck, LegalityDecision, Module, FuncSignatureConversionPattern, WasmFuncSignatureConversionPattern, PatternApplicator, PatternRewriter, RewritePattern, RewriteScope, TypeConverter};
use trunk_ir::{Attribute, BlockArgData, BlockData, IrContext, Location, OpRef, OperationDataBuilder, RegionData, Span, Symbol, TypeDataBuilder, TypeRef, ValueDef, ValueRef};

const D: &[&str] = &["da", "db", "dc"];
const N: &[&str] = &["x", "y", "z"];
/// dialect, name
type Key = (usize, usize);

// ---- what is rewritten, and by what ----
#[derive(Clone, Copy, Debug)]
enum Act {
    /// replaced by an operation of another kind
    To(Key),
    /// the same, behind n new operations of a kind whose results become its last operands
    Prefix(Key, u32, Key),
    /// replaced by its first operands, if it has enough of them
    Forward,
    /// replaced, and a new operation added to the module
    Outline(Key, Key),
    /// replaced, and the operation behind it erased if nothing uses it
    EatNext(Key),
    /// says it matched and records nothing
    Idle,
    /// builds something, then decides it does not apply
    Retreat(Key),
    /// kept, with a new operation put before it
    Before(Key),
    /// the signatures of functions (of WebAssembly functions) and their parameters are converted
    Sig(bool),
}
#[derive(Clone, Copy, Debug)]
struct Pat {
    on: Key,
    /// only operations whose number has this remainder by two
    par: Option<u32>,
    act: Act,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dec {
    Legal,
    Illegal,
    Defer,
    /// by the operation's number: even legal, odd illegal / even legal, odd deferred
    Parity,
    HalfDefer,
}
#[derive(Clone, Default, Debug)]
struct Rules {
    dyn_op: BTreeMap<Key, Dec>,
    op: BTreeMap<Key, bool>,
    rec_op: Vec<Key>,
    rec_dyn: Vec<Key>,
    dyn_dialect: BTreeMap<usize, Dec>,
    dialect: BTreeMap<usize, bool>,
    unknown: Option<Dec>,
    /// the container operations and casts are legal
    core: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Op(Key),
    Cast,
    Module,
    Func,
    Wasm,
}
/// A value of the model: result of a node or argument of a block.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Val {
    Res(usize, usize),
    Arg(usize, usize),
}
#[derive(Clone, Debug)]
struct Node {
    kind: Kind,
    label: String,
    num: u32,
    operands: Vec<Val>,
    /// types of the results (index into the types)
    results: Vec<usize>,
    blocks: Vec<usize>,
    parent: Option<usize>,
    /// of functions: types of the result and the parameters
    sig: Vec<usize>,
    /// has a body without a single block
    hollow: bool,
}
#[derive(Clone, Debug)]
struct Block {
    args: Vec<usize>,
    ops: Vec<usize>,
}
#[derive(Clone)]
struct Model {
    n: Vec<Node>,
    b: Vec<Block>,
    /// type -> type it is converted to
    conv: Vec<Option<usize>>,
}
fn num(label: &str) -> u32 {
    label.bytes().map(|b| b as u32).sum()
}
impl Rules {
    fn empty(&self) -> bool {
        self.dyn_op.is_empty() && self.op.is_empty() && self.dyn_dialect.is_empty() && self.dialect.is_empty() && self.unknown.is_none() && !self.core
    }
    fn dec(d: Dec, n: u32) -> Option<bool> {
        match d {
            Dec::Legal => Some(true),
            Dec::Illegal => Some(false),
            Dec::Defer => None,
            Dec::Parity => Some(n % 2 == 0),
            Dec::HalfDefer => (n % 2 == 0).then_some(true),
        }
    }
    fn legal(&self, x: &Node) -> Option<bool> {
        let Kind::Op(k) = x.kind else {
            let by_unknown = self.unknown.and_then(|d| Self::dec(d, x.num));
            return if self.core { Some(true) } else { by_unknown };
        };
        if let Some(r) = self.dyn_op.get(&k).and_then(|&d| Self::dec(d, x.num)) {
            return Some(r);
        }
        if let Some(&r) = self.op.get(&k) {
            return Some(r);
        }
        if let Some(r) = self.dyn_dialect.get(&k.0).and_then(|&d| Self::dec(d, x.num)) {
            return Some(r);
        }
        if let Some(&r) = self.dialect.get(&k.0) {
            return Some(r);
        }
        self.unknown.and_then(|d| Self::dec(d, x.num))
    }
    fn recursive(&self, x: &Node) -> bool {
        let Kind::Op(k) = x.kind else { return false };
        self.rec_dyn.contains(&k) && self.dyn_op.get(&k).and_then(|&d| Self::dec(d, x.num)) == Some(true) || self.rec_op.contains(&k) && self.legal(x) == Some(true)
    }
    fn build(&self) -> ConversionTarget {
        let mut t = ConversionTarget::new();
        let f = |d: Dec| {
            move |c: &IrContext, o: OpRef| match Rules::dec(d, number(c, o)) {
                Some(true) => LegalityDecision::Legal,
                Some(false) => LegalityDecision::Illegal,
                None => LegalityDecision::Defer,
            }
        };
        for (&(d, n), &l) in &self.op {
            if l { t.add_legal_op(D[d], N[n]) } else { t.add_illegal_op(D[d], N[n]) }
        }
        for (&(d, n), &x) in &self.dyn_op {
            t.add_dynamic_op(D[d], N[n], f(x));
        }
        for &(d, n) in &self.rec_op {
            t.add_recursive_legal_op(D[d], N[n]);
        }
        for &(d, n) in &self.rec_dyn {
            t.add_recursive_dynamic_op(D[d], N[n]);
        }
        for (&d, &l) in &self.dialect {
            if l { t.add_legal_dialect(D[d]) } else { t.add_illegal_dialect(D[d]) }
        }
        for (&d, &x) in &self.dyn_dialect {
            t.add_dynamic_dialect(D[d], f(x));
        }
        if let Some(x) = self.unknown {
            t.add_dynamic_unknown(f(x));
        }
        if self.core {
            for d in ["core", "func", "wasm"] {
                t.add_legal_dialect(d);
            }
        }
        t
    }
}
fn gen_rules() -> Rules {
    let mut r = Rules { core: ch().chance(2, 3), ..Default::default() };
    let key = || (ch().pick(3) as usize, ch().pick(3) as usize);
    let dec = || *ch().of(&[Dec::Legal, Dec::Illegal, Dec::Defer, Dec::Parity, Dec::HalfDefer]);
    for _ in 0..ch().pick(3) {
        r.dyn_op.insert(key(), dec());
    }
    for _ in 0..ch().pick(4) {
        r.op.insert(key(), ch().chance(1, 2));
    }
    for _ in 0..ch().pick(2) {
        r.dyn_dialect.insert(ch().pick(3) as usize, dec());
    }
    for d in 0..3 {
        if ch().chance(1, 2) {
            r.dialect.insert(d, ch().chance(1, 2));
        }
    }
    if ch().chance(1, 4) {
        r.unknown = Some(dec());
    }
    r.rec_op = r.op.iter().filter(|(_, l)| **l).map(|(k, _)| *k).filter(|_| ch().chance(1, 2)).collect();
    r.rec_dyn = r.dyn_op.keys().copied().filter(|_| ch().chance(1, 2)).collect();
    r
}

// ---- the model of the rewriter ----
impl Model {
    fn conv(&self, t: usize) -> usize {
        self.conv[t].unwrap_or(t)
    }
    fn ty(&self, v: Val) -> usize {
        match v {
            Val::Res(n, i) => self.n[n].results[i],
            Val::Arg(b, i) => self.b[b].args[i],
        }
    }
    fn used(&self, x: usize, from: &[usize]) -> bool {
        from.iter().any(|&b| self.b[b].ops.iter().any(|&o| self.n[o].operands.iter().any(|v| matches!(v, Val::Res(n, _) if *n == x)) || self.used(x, &self.n[o].blocks)))
    }
    fn replace(&mut self, old: Val, new: Val) {
        for x in &mut self.n {
            if x.parent.is_some() {
                for v in &mut x.operands {
                    if *v == old {
                        *v = new;
                    }
                }
            }
        }
    }
    fn add(&mut self, kind: Kind, label: String, operands: Vec<Val>, results: Vec<usize>) -> usize {
        let num = num(&label);
        self.n.push(Node { kind, label, num, operands, results, blocks: vec![], parent: None, sig: vec![], hollow: false });
        self.n.len() - 1
    }
    fn place(&mut self, b: usize, at: usize, x: usize) {
        self.b[b].ops.insert(at, x);
        self.n[x].parent = Some(b);
    }
    fn at(&self, b: usize, x: usize) -> usize {
        self.b[b].ops.iter().position(|&o| o == x).unwrap()
    }
    fn visit(&mut self, blocks: &[usize], p: &Setup, module: Option<usize>) -> usize {
        let mut changes = 0;
        for &b in blocks {
            if p.auto {
                for i in 0..self.b[b].args.len() {
                    let t = self.b[b].args[i];
                    if self.conv(t) != t {
                        self.b[b].args[i] = self.conv(t);
                        changes += 1;
                    }
                }
            }
            for op in self.b[b].ops.clone() {
                if self.n[op].parent != Some(b) {
                    stat("probe.gone_sibling");
                    continue;
                }
                let ruled = !p.rules.empty();
                if ruled && p.rules.recursive(&self.n[op]) {
                    stat("probe.recursively_legal");
                    continue;
                }
                let inner = self.n[op].blocks.clone();
                changes += self.visit(&inner, p, module);
                if ruled && p.rules.legal(&self.n[op]) == Some(true) {
                    continue;
                }
                if p.auto && self.n[op].kind != Kind::Cast {
                    for i in 0..self.n[op].operands.len() {
                        let v = self.n[op].operands[i];
                        let t = self.ty(v);
                        if self.conv(t) != t {
                            let c = self.add(Kind::Cast, String::new(), vec![v], vec![self.conv(t)]);
                            let at = self.at(b, op);
                            self.place(b, at, c);
                            self.n[op].operands[i] = Val::Res(c, 0);
                            changes += 1;
                            stat("probe.cast");
                        }
                    }
                }
                for pat in &p.pats {
                    if self.rewrite(b, op, *pat, module) {
                        changes += 1;
                        break;
                    }
                }
            }
        }
        changes
    }
    fn rewrite(&mut self, b: usize, op: usize, p: Pat, module: Option<usize>) -> bool {
        let x = self.n[op].clone();
        if let Act::Sig(w) = p.act {
            if x.kind != (if w { Kind::Wasm } else { Kind::Func }) {
                return false;
            }
            let new: Vec<usize> = x.sig.iter().map(|&t| self.conv(t)).collect();
            if new == x.sig {
                return false;
            }
            if x.hollow && new[1..] != x.sig[1..] {
                return false;
            }
            if new[1..] != x.sig[1..]
                && let Some(&b) = x.blocks.first()
            {
                if self.b[b].args.len() != new.len() - 1 {
                    stat("probe.arity_mismatch");
                    return false;
                }
                self.b[b].args = new[1..].to_vec();
            }
            self.n[op].sig = new;
            stat("probe.signature");
            return true;
        }
        if x.kind != Kind::Op(p.on) || p.par.is_some_and(|r| x.num % 2 != r) {
            return false;
        }
        let mut extra = vec![];
        let to = match p.act {
            Act::Idle | Act::Retreat(_) => return false,
            Act::Forward => {
                if x.operands.len() < x.results.len() || !x.blocks.is_empty() || x.operands.iter().any(|v| matches!(v, Val::Res(n, _) if *n == op)) {
                    return false;
                }
                for (i, &v) in x.operands.iter().take(x.results.len()).enumerate() {
                    self.replace(Val::Res(op, i), v);
                }
                self.b[b].ops.retain(|&o| o != op);
                self.n[op].parent = None;
                return true;
            }
            Act::Sig(_) => unreachable!(),
            Act::Before(k) => {
                let t = x.operands.first().map(|&v| self.conv(self.ty(v)));
                let c = self.add(Kind::Op(k), format!("{}b", x.label), vec![], t.into_iter().collect());
                let at = self.at(b, op);
                self.place(b, at, c);
                return true;
            }
            Act::To(k) => k,
            Act::Prefix(k, n, pk) => {
                let t = x.results.first().map(|&t| self.conv(t)).unwrap_or(0);
                for i in 0..n {
                    let c = self.add(Kind::Op(pk), format!("{}p{i}", x.label), x.operands.first().copied().into_iter().collect(), vec![t]);
                    let at = self.at(b, op);
                    self.place(b, at, c);
                    extra.push(Val::Res(c, 0));
                }
                k
            }
            Act::Outline(k, mk) => {
                if let Some(m) = module {
                    let c = self.add(Kind::Op(mk), format!("{}m", x.label), vec![], vec![]);
                    let at = self.b[m].ops.len();
                    self.place(m, at, c);
                }
                k
            }
            Act::EatNext(k) => {
                let at = self.at(b, op);
                if let Some(&nx) = self.b[b].ops.get(at + 1)
                    && matches!(self.n[nx].kind, Kind::Op(_))
                    && !self.used(nx, &[0])
                {
                    self.b[b].ops.retain(|&o| o != nx);
                    self.n[nx].parent = None;
                    stat("probe.eaten");
                }
                k
            }
        };
        let results = x.results.iter().map(|&t| self.conv(t)).collect();
        let new = self.add(Kind::Op(to), format!("{}r", x.label), x.operands.iter().copied().chain(extra).collect(), results);
        self.n[new].blocks = x.blocks.clone();
        self.n[op].blocks.clear();
        let at = self.at(b, op);
        self.b[b].ops.remove(at);
        self.n[op].parent = None;
        self.place(b, at, new);
        for i in 0..x.results.len() {
            self.replace(Val::Res(op, i), Val::Res(new, i));
        }
        true
    }
    fn illegal(&self, blocks: &[usize], p: &Setup, out: &mut Vec<String>) {
        for &b in blocks {
            for &o in &self.b[b].ops {
                let l = p.rules.legal(&self.n[o]);
                if l == Some(false) || l.is_none() && p.mode == ConversionMode::Full {
                    out.push(format!("{} {}", self.name(o), if l.is_none() { "unknown" } else { "illegal" }));
                }
                if !p.rules.recursive(&self.n[o]) {
                    self.illegal(&self.n[o].blocks, p, out);
                }
            }
        }
    }
    fn name(&self, o: usize) -> String {
        let x = &self.n[o];
        match x.kind {
            Kind::Op((d, n)) => format!("{}.{} {}", D[d], N[n], x.label),
            Kind::Cast => "core.unrealized_conversion_cast ".into(),
            Kind::Module => format!("core.module {}", x.label),
            Kind::Func => format!("func.func {}", x.label),
            Kind::Wasm => format!("wasm.func {}", x.label),
        }
    }
    fn val(&self, v: Val) -> String {
        match v {
            Val::Res(n, _) if self.n[n].kind == Kind::Cast => format!("({} as t{})", self.val(self.n[n].operands[0]), self.n[n].results[0]),
            Val::Res(n, i) => format!("{}#{i}", self.n[n].label),
            Val::Arg(b, i) => format!("%{b}#{i}"),
        }
    }
    fn show(&self, o: usize) -> String {
        let x = &self.n[o];
        let mut s = format!("{}({}):{:?}", self.name(o), x.operands.iter().map(|&v| self.val(v)).collect::<Vec<_>>().join(","), x.results);
        if !x.sig.is_empty() {
            s += &format!(" sig {:?}", x.sig);
        }
        for &b in &x.blocks {
            s += &format!("{{{:?} {}}}", self.b[b].args, self.b[b].ops.iter().map(|&o| self.show(o)).collect::<Vec<_>>().join("; "));
        }
        s
    }
}
struct Setup {
    pats: Vec<Pat>,
    rules: Rules,
    auto: bool,
    mode: ConversionMode,
    max: usize,
}

// ---- the real thing ----
fn label(c: &IrContext, o: OpRef) -> String {
    match c.op(o).attributes.get("label") {
        Some(Attribute::Symbol(s)) => s.to_string(),
        _ => String::new(),
    }
}
fn number(c: &IrContext, o: OpRef) -> u32 {
    num(&label(c, o))
}
struct Shared {
    types: Vec<TypeRef>,
    /// model number of each block
    blocks: HashMap<trunk_ir::BlockRef, usize>,
    calls: u32,
}
struct RealPat {
    p: Pat,
    sh: Rc<RefCell<Shared>>,
}
fn build(c: &mut IrContext, loc: Location, k: (&str, &str), label: &str, operands: &[ValueRef], results: &[TypeRef]) -> OperationDataBuilder {
    let _ = c;
    OperationDataBuilder::new(loc, Symbol::from_dynamic(k.0), Symbol::from_dynamic(k.1)).attr("label", Attribute::Symbol(Symbol::from_dynamic(label))).operands(operands.iter().copied()).results(results.iter().copied())
}
impl RewritePattern for RealPat {
    fn match_and_rewrite(&self, c: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
        let (sh, p) = (&self.sh, self.p);
        sh.borrow_mut().calls += 1;
        if sh.borrow().calls > 100_000 {
            violation("never-ends", "the rewriter keeps applying patterns");
        }
        let d = c.op(op);
        if d.dialect != D[p.on.0] || d.name != N[p.on.1] || p.par.is_some_and(|r| number(c, op) % 2 != r) {
            return false;
        }
        ev("match", p.on.0 as u64 * 3 + p.on.1 as u64, number(c, op) as u64);
        let (loc, l) = (d.location, label(c, op));
        let regions = d.regions.to_vec();
        let operands = c.op_operands(op).to_vec();
        let results = c.op_results(op).to_vec();
        let mut all = operands.clone();
        let mut before = vec![];
        let to = match p.act {
            Act::Idle => return true,
            Act::Retreat(k) => {
                let data = build(c, loc, (D[k.0], N[k.1]), &format!("{l}u"), &[], &[]).build(c);
                let x = c.create_op(data);
                rw.insert_op(x);
                return false;
            }
            Act::Forward => {
                if operands.len() < results.len() || !regions.is_empty() || operands.iter().any(|v| results.contains(v)) {
                    return false;
                }
                rw.erase_op(operands[..results.len()].to_vec());
                return true;
            }
            Act::Sig(_) => unreachable!(),
            Act::Before(k) => {
                let t: Vec<TypeRef> = operands.first().map(|&v| rw.get_value_type(c, v)).into_iter().collect();
                let data = build(c, loc, (D[k.0], N[k.1]), &format!("{l}b"), &[], &t).build(c);
                let x = c.create_op(data);
                rw.insert_op(x);
                return true;
            }
            Act::To(k) => k,
            Act::Prefix(k, n, pk) => {
                let t = if results.is_empty() { sh.borrow().types[0] } else { rw.result_type(c, op, 0).unwrap_or_else(|| violation("wrong-type", "an operation with results has no first result type")) };
                for i in 0..n {
                    let data = build(c, loc, (D[pk.0], N[pk.1]), &format!("{l}p{i}"), &operands[..operands.len().min(1)], &[t]).build(c);
                    let x = c.create_op(data);
                    if number(c, op) % 3 == 0 || number(c, op) % 3 == 1 && i > 0 { before.push(x) } else { rw.insert_op(x) }
                    all.push(c.op_result(x, 0));
                }
                k
            }
            Act::Outline(k, mk) => {
                let data = build(c, loc, (D[mk.0], N[mk.1]), &format!("{l}m"), &[], &[]).build(c);
                let x = c.create_op(data);
                rw.add_module_op(x);
                k
            }
            Act::EatNext(k) => {
                let b = c.op(op).parent_block.unwrap_or_else(|| violation("wrong-target", "a pattern was given an operation that sits in no block"));
                let ops = c.block(b).ops.to_vec();
                let at = ops.iter().position(|&o| o == op).unwrap_or_else(|| violation("wrong-target", "a pattern was given an operation that is not in its block"));
                if let Some(&nx) = ops.get(at + 1)
                    && D.iter().any(|d| c.op(nx).dialect == **d)
                    && c.op_results(nx).iter().all(|&v| !c.has_uses(v))
                {
                    trunk_ir::rewrite::erase_op(c, nx);
                }
                k
            }
        };
        let tys = rw.result_types(c, op);
        for &r in &regions {
            c.detach_region(r);
        }
        let b = build(c, loc, (D[to.0], N[to.1]), &format!("{l}r"), &all, &tys);
        let data = regions.iter().fold(b, |b, &r| b.region(r)).build(c);
        let new = c.create_op(data);
        if before.is_empty() { rw.replace_op(new) } else { rw.replace_with_prefix(before, new) }
        true
    }
}
fn show(c: &IrContext, sh: &Shared, o: OpRef) -> String {
    let d = c.op(o);
    let val = |v: ValueRef| real_val(c, sh, v);
    let mut s = format!("{}.{} {}({}):{:?}", d.dialect, d.name, label(c, o), c.op_operands(o).iter().map(|&v| val(v)).collect::<Vec<_>>().join(","), c.op_result_types(o).iter().map(|t| sh.types.iter().position(|x| x == t).unwrap_or(99)).collect::<Vec<_>>());
    if matches!(d.name.to_string().as_str(), "func") {
        match d.attributes.get("type") {
            Some(Attribute::Type(t)) => s += &format!(" sig {:?}", c.types.get(*t).params.iter().map(|t| sh.types.iter().position(|x| x == t).unwrap_or(99)).collect::<Vec<_>>()),
            _ => s += " no sig",
        }
        if !matches!(d.attributes.get("sym_name"), Some(Attribute::Symbol(n)) if *n == format!("s{}", label(c, o)).as_str()) {
            s += " another name";
        }
    }
    for &r in &d.regions {
        for &b in &c.region(r).blocks {
            let args: Vec<usize> = c.block(b).args.iter().map(|a| sh.types.iter().position(|x| *x == a.ty).unwrap_or(99)).collect();
            s += &format!("{{{args:?} {}}}", c.block(b).ops.iter().map(|&o| show(c, sh, o)).collect::<Vec<_>>().join("; "));
        }
    }
    s
}
fn real_val(c: &IrContext, sh: &Shared, v: ValueRef) -> String {
    match c.value_def(v) {
        ValueDef::OpResult(o, i) => {
            if c.op(o).name == "unrealized_conversion_cast" {
                let t = c.op_result_types(o)[0];
                format!("({} as t{})", real_val(c, sh, c.op_operands(o)[0]), sh.types.iter().position(|x| *x == t).unwrap_or(99))
            } else {
                format!("{}#{i}", label(c, o))
            }
        }
        ValueDef::BlockArg(b, i) => format!("%{}#{i}", sh.blocks.get(&b).copied().unwrap_or(999)),
    }
}
/// Every use list says exactly which attached operations use the value.
fn check_uses(c: &IrContext, root: OpRef) {
    let mut uses: HashMap<ValueRef, HashSet<(OpRef, u32)>> = HashMap::new();
    let mut vals = vec![];
    let _ = trunk_ir::walk::walk_op::<()>(c, root, &mut |o| {
        for (i, &v) in c.op_operands(o).iter().enumerate() {
            uses.entry(v).or_default().insert((o, i as u32));
        }
        vals.extend_from_slice(c.op_results(o));
        for &r in &c.op(o).regions {
            for &b in &c.region(r).blocks {
                vals.extend_from_slice(c.block_args(b));
            }
        }
        std::ops::ControlFlow::Continue(trunk_ir::WalkAction::Advance)
    });
    let attached = |mut o: OpRef| loop {
        if o == root {
            return true;
        }
        let Some(p) = c.op(o).parent_block.and_then(|b| c.block(b).parent_region).and_then(|r| c.region(r).parent_op) else { return false };
        o = p;
    };
    for v in vals {
        let want = uses.remove(&v).unwrap_or_default();
        let got: HashSet<(OpRef, u32)> = c.uses(v).iter().map(|u| (u.user, u.operand_index)).filter(|u| attached(u.0)).collect();
        if got != want {
            violation("inconsistent", &format!("after rewriting, {v} is used by {want:?}, its use list says {got:?}"));
        }
    }
    if let Some(v) = uses.keys().next() {
        violation("inconsistent", &format!("after rewriting, {v} is used but defined nowhere in the module"));
    }
}
struct Maker<'a> {
    c: &'a mut IrContext,
    m: Model,
    sh: &'a mut Shared,
    loc: Location,
    refs: HashMap<usize, OpRef>,
    left: u32,
}
impl Maker<'_> {
    fn tys(&mut self, n: u32) -> Vec<usize> {
        (0..n).map(|_| ch().pick(self.m.conv.len() as u32) as usize).collect()
    }
    fn block(&mut self, args: Vec<usize>) -> (usize, trunk_ir::BlockRef) {
        let b = self.c.create_block(BlockData { location: self.loc, args: args.iter().map(|&t| BlockArgData { ty: self.sh.types[t], attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None });
        self.m.b.push(Block { args, ops: vec![] });
        self.sh.blocks.insert(b, self.m.b.len() - 1);
        (self.m.b.len() - 1, b)
    }
    fn node(&mut self, kind: Kind, into: Option<(usize, trunk_ir::BlockRef)>, operands: Vec<(Val, ValueRef)>, results: Vec<usize>, blocks: Vec<(usize, trunk_ir::BlockRef)>) -> (usize, OpRef) {
        let label = format!("{}", self.m.n.len());
        let x = self.m.add(kind, label.clone(), operands.iter().map(|o| o.0).collect(), results.clone());
        let k = match kind {
            Kind::Op((d, n)) => (D[d], N[n]),
            Kind::Module => ("core", "module"),
            Kind::Func => ("func", "func"),
            Kind::Wasm => ("wasm", "func"),
            Kind::Cast => unreachable!(),
        };
        let vals: Vec<ValueRef> = operands.iter().map(|o| o.1).collect();
        let tys: Vec<TypeRef> = results.iter().map(|&t| self.sh.types[t]).collect();
        let mut b = build(self.c, self.loc, k, &label, &vals, &tys).attr("sym_name", Attribute::Symbol(Symbol::from_dynamic(&format!("s{label}"))));
        if matches!(kind, Kind::Func | Kind::Wasm) {
            let mut sig = self.tys(1);
            if let Some(x) = blocks.first() {
                sig.extend(self.m.b[x.0].args.clone());
            } else {
                let n = ch().pick(3);
                sig.extend(self.tys(n));
            }
            if ch().chance(1, 6) {
                if sig.len() > 1 && ch().chance(1, 2) { drop(sig.pop()) } else { sig.push(ch().pick(4) as usize) }
            }
            let ps: Vec<TypeRef> = sig[1..].iter().map(|&t| self.sh.types[t]).collect();
            let ret = self.sh.types[sig[0]];
            let t = trunk_ir::dialect::core::func(self.c, ret, ps).as_type_ref();
            b = b.attr("type", Attribute::Type(t));
            self.m.n[x].sig = sig;
            if blocks.is_empty() && ch().chance(1, 3) {
                let r = self.c.create_region(RegionData { location: self.loc, blocks: Default::default(), parent_op: None });
                b = b.region(r);
                self.m.n[x].hollow = true;
            }
        }
        if !blocks.is_empty() {
            let r = self.c.create_region(RegionData { location: self.loc, blocks: blocks.iter().map(|b| b.1).collect(), parent_op: None });
            b = b.region(r);
            self.m.n[x].blocks = blocks.iter().map(|b| b.0).collect();
        }
        let data = b.build(self.c);
        let o = self.c.create_op(data);
        if let Some((mb, rb)) = into {
            self.c.push_op(rb, o);
            let at = self.m.b[mb].ops.len();
            self.m.place(mb, at, x);
        }
        self.refs.insert(x, o);
        (x, o)
    }
    fn fill(&mut self, into: (usize, trunk_ir::BlockRef), depth: u32, scope: &[(Val, ValueRef)]) {
        let mut sc = scope.to_vec();
        sc.extend((0..self.m.b[into.0].args.len()).map(|i| (Val::Arg(into.0, i), self.c.block_arg(into.1, i as u32))));
        for _ in 0..ch().range(1, 5) {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            let mut operands = vec![];
            if !sc.is_empty() {
                for _ in 0..ch().pick(3) {
                    operands.push(*ch().of(&sc));
                }
            }
            let n = ch().weighted(&[2, 4, 1]) as u32;
            let results = self.tys(n);
            let kind = Kind::Op((ch().pick(3) as usize, ch().pick(3) as usize));
            let mut blocks = vec![];
            if depth < 3 && ch().chance(1, 3) {
                for _ in 0..ch().range(1, 2) {
                    let n = ch().pick(3);
                    let a = self.tys(n);
                    let b = self.block(a);
                    self.fill(b, depth + 1, &sc);
                    blocks.push(b);
                }
            }
            let (x, o) = self.node(kind, Some(into), operands, results, blocks);
            sc.extend((0..self.m.n[x].results.len()).map(|i| (Val::Res(x, i), self.c.op_result(o, i as u32))));
        }
    }
}
fn boundary<S: RewriteScope>(a: &PatternApplicator, c: &mut IrContext, s: S, p: &Setup) -> (Option<ApplyResult>, Result<(), ConversionError>) {
    let r = if p.mode == ConversionMode::Full { a.apply_full_conversion(c, s, "the-boundary") } else { a.apply_partial_conversion(c, s, "the-boundary") };
    match r {
        Ok(r) => (Some(r), Ok(())),
        Err(e) => (None, Err(e)),
    }
}
pub fn c09() {
    let mut ctx = IrContext::new();
    let path = ctx.paths.intern("file:///sim.trb".to_owned());
    let loc = Location::new(path, Span::new(0, 0));
    let types: Vec<TypeRef> = (0..4).map(|i| ctx.types.intern(TypeDataBuilder::new(Symbol::new("sim"), Symbol::from_dynamic(&format!("t{i}"))).build())).collect();
    // types are converted at most once: t0 -> t2, t1 -> t3 (each may be left alone)
    let conv: Vec<Option<usize>> = vec![ch().chance(1, 2).then_some(2), ch().chance(1, 3).then_some(3), None, ch().chance(1, 6).then_some(3)];
    let mut sh = Shared { types, blocks: HashMap::new(), calls: 0 };
    let mut mk = Maker { c: &mut ctx, m: Model { n: vec![], b: vec![], conv: conv.clone() }, sh: &mut sh, loc, refs: HashMap::new(), left: *ch().of(&[4, 10, 20]) };
    let top = mk.block(vec![]);
    // the root comes last; its number is patched below
    let mut funs = vec![];
    for _ in 0..ch().range(1, 3) {
        match ch().weighted(&[3, 2, 2, 1, 1]) {
            0 => {
                let k = ch().pick(3);
                let a = mk.tys(k);
                let b = mk.block(a);
                mk.fill(b, 1, &[]);
                let f = mk.node(Kind::Func, Some(top), vec![], vec![], vec![b]);
                funs.push(f);
            }
            1 => {
                let k = ch().pick(3);
                let a = mk.tys(k);
                let b = mk.block(a);
                mk.fill(b, 1, &[]);
                let f = mk.node(Kind::Wasm, Some(top), vec![], vec![], vec![b]);
                funs.push(f);
            }
            4 => {
                mk.node(if ch().chance(1, 2) { Kind::Func } else { Kind::Wasm }, Some(top), vec![], vec![], vec![]);
            }
            2 => mk.fill(top, 0, &[]),
            _ => {
                let b = mk.block(vec![]);
                mk.fill(b, 1, &[]);
                if ch().chance(1, 2) {
                    let k = ch().pick(3);
                    let a = mk.tys(k);
                    let f = mk.block(a);
                    mk.fill(f, 2, &[]);
                    mk.node(if ch().chance(1, 2) { Kind::Func } else { Kind::Wasm }, Some(b), vec![], vec![], vec![f]);
                }
                mk.node(Kind::Module, Some(top), vec![], vec![], vec![b]);
            }
        }
    }
    let (root, root_op) = mk.node(Kind::Module, None, vec![], vec![], vec![top]);
    let mut model = mk.m;
    debug_assert_eq!(top.0, 0);
    let sh = Rc::new(RefCell::new(sh));
    for stage in 0..ch().range(1, 2) {
        let mut pats = vec![];
        let key = || (ch().pick(3) as usize, ch().pick(3) as usize);
        for _ in 0..ch().range(0, 5) {
            let act = match ch().weighted(&[5, 3, 3, 2, 2, 1, 1, 1, 3]) {
                0 => Act::To(key()),
                1 => Act::Prefix(key(), ch().range(1, 2), key()),
                2 => Act::Forward,
                3 => Act::Outline(key(), key()),
                4 => Act::EatNext(key()),
                5 => Act::Idle,
                7 => Act::Before(key()),
                8 => Act::Sig(ch().chance(1, 2)),
                _ => Act::Retreat(key()),
            };
            pats.push(Pat { on: key(), par: if ch().chance(1, 3) { Some(ch().pick(2)) } else { None }, act });
        }
        let p = Setup { pats, rules: if ch().chance(1, 8) { Rules::default() } else { gen_rules() }, auto: ch().chance(1, 2), mode: if ch().chance(1, 2) { ConversionMode::Full } else { ConversionMode::Partial }, max: *ch().of(&[10, 10, 1, 2, 3, 5]) };
        // a function may have been replaced in an earlier stage; it keeps its label
        let find = |c: &IrContext, l: &str| {
            let mut f = None;
            let _ = trunk_ir::walk::walk_op::<()>(c, root_op, &mut |o| {
                if label(c, o) == l && c.op(o).name == "func" {
                    f = Some(o);
                }
                std::ops::ControlFlow::Continue(trunk_ir::WalkAction::Advance)
            });
            f.unwrap_or_else(|| violation("wrong-rewrite", "a function is gone"))
        };
        let scope = if !funs.is_empty() && ch().chance(1, 3) {
            let f = ch().of(&funs).0;
            Some((f, find(&ctx, &model.n[f].label)))
        } else {
            None
        };
        if trace_enabled() {
            trace(&format!("stage {stage}: {}\n  patterns {:?}\n  rules {:?}\n  auto {} max {} mode {:?} scope {:?}", model.show(root), p.pats, p.rules, p.auto, p.max, p.mode, scope));
        }
        // the model
        let blocks = match scope {
            Some((f, _)) => model.n[f].blocks.clone(),
            None => vec![0],
        };
        let module = scope.is_none().then_some(0);
        let (mut iters, mut total, mut fix) = (0, 0, false);
        for _ in 0..p.max {
            iters += 1;
            let n = model.visit(&blocks, &p, module);
            total += n;
            if n == 0 {
                fix = true;
                break;
            }
            if model.n.len() > 3000 {
                simcore::runner::discard("too big");
            }
        }
        if !fix {
            stat("probe.out_of_rounds");
        }
        let mut bad = vec![];
        model.illegal(&blocks, &p, &mut bad);
        // the real thing
        let mut tc = TypeConverter::new();
        let has_conv = ch().chance(4, 5) || p.auto || conv.iter().any(|c| c.is_some());
        if has_conv {
            let map: Vec<(TypeRef, TypeRef)> = conv.iter().enumerate().filter_map(|(i, t)| t.map(|t| (sh.borrow().types[i], sh.borrow().types[t]))).collect();
            for (a, b) in map {
                tc.add_conversion(move |_, t| (t == a).then_some(b));
            }
        }
        let mut ap = PatternApplicator::new(tc).with_target(p.rules.build()).with_auto_type_conversion(p.auto).with_max_iterations(p.max);
        for &pat in &p.pats {
            if let Act::Sig(w) = pat.act {
                ap = if w { ap.add_pattern(WasmFuncSignatureConversionPattern) } else { ap.add_pattern(FuncSignatureConversionPattern) };
                continue;
            }
            let r = RealPat { p: pat, sh: sh.clone() };
            ap = if ch().chance(1, 2) { ap.add_pattern(r) } else { ap.add_pattern_box(Box::new(r)) };
        }
        let plain = ch().chance(1, 4);
        let got = catch(|| {
            let go = |ctx: &mut IrContext| match scope {
                None => {
                    let m = Module::new(ctx, root_op).unwrap_or_else(|| violation("inconsistent", "the root is no module any more"));
                    if plain { (Some(ap.apply_partial(ctx, m)), Ok(())) } else { boundary(&ap, ctx, m, &p) }
                }
                Some((_, o)) => {
                    if let Ok(f) = func::Func::from_op(ctx, o) {
                        if plain { (Some(ap.apply_partial(ctx, f)), Ok(())) } else { boundary(&ap, ctx, f, &p) }
                    } else {
                        let f = wasm::Func::from_op(ctx, o).unwrap_or_else(|_| violation("inconsistent", "a function is none any more"));
                        if plain { (Some(ap.apply_partial(ctx, f)), Ok(())) } else { boundary(&ap, ctx, f, &p) }
                    }
                }
            };
            go(&mut ctx)
        });
        let (res, verdict) = match got {
            Ok(x) => x,
            Err(e) => violation("panic", &format!("rewriting panicked: {e}")),
        };
        let (want, have) = (model.show(root), show(&ctx, &sh.borrow(), root_op));
        if want != have {
            violation("wrong-rewrite", &format!("stage {stage} left\n  {have}\nexpected\n  {want}"));
        }
        check_uses(&ctx, root_op);
        ev("stage", simcore::rng::hash_bytes(have.as_bytes()), total as u64);
        if let Some(r) = &res
            && (r.iterations, r.total_changes, r.reached_fixpoint) != (iters, total, fix)
        {
            violation("wrong-report", &format!("stage {stage}: {} rounds, {} changes, settled {}; expected {iters}, {total}, {fix}", r.iterations, r.total_changes, r.reached_fixpoint));
        }
        if !plain {
            match verdict {
                Ok(()) if bad.is_empty() => stat("probe.boundary_passed"),
                Ok(()) => violation("let-through", &format!("stage {stage}: the boundary was passed with {bad:?} left ({:?})", p.mode)),
                Err(e) => {
                    let mut names: Vec<String> = e.operations().iter().map(|o| format!("{}.{} {} {}", o.dialect, o.name, label(&ctx, o.op), match o.legality { LegalityCheck::Illegal => "illegal", LegalityCheck::Unknown => "unknown", LegalityCheck::Legal => "legal" })).collect();
                    names.sort();
                    bad.sort();
                    if names != bad || e.boundary() != "the-boundary" {
                        violation("wrong-report", &format!("stage {stage}: the boundary {} refused {names:?}, expected {bad:?}", e.boundary()));
                    }
                    stat("probe.boundary_refused");
                }
            }
        } else if let Some(r) = &res {
            let m = Module::new(&ctx, root_op).unwrap();
            let t = p.rules.build();
            let ok = match scope {
                None => r.verify_mode(&ctx, m, &t, p.mode).is_ok(),
                Some((_, o)) => match func::Func::from_op(&ctx, o) {
                    Ok(f) => r.verify_mode(&ctx, f, &t, p.mode).is_ok(),
                    Err(_) => true,
                },
            };
            if ok && !bad.is_empty() && scope.is_none() || !ok && bad.is_empty() {
                violation("let-through", &format!("stage {stage}: verification says {ok}, left over are {bad:?}"));
            }
        }
        if total >= 2 {
            set_nontrivial();
        }
        stat(if total > 0 { "probe.rewritten" } else { "probe.untouched" });
    }
}
