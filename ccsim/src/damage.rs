//! C08: the verifier reports damaged IR, wherever the damage sits, and never sound IR.
use simcore::runner::{catch, ev, set_nontrivial, stat, stat_add, trace, trace_enabled, violation};
use simcore::tape::ch;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use trunk_ir::rewrite::Module;
use trunk_ir::validation::{self, ValidationError};
use trunk_ir::{Attribute, BlockArgData, BlockData, BlockRef, IrContext, Location, OpRef, OperationDataBuilder, RegionData, RegionRef, Span, Symbol, TypeDataBuilder, TypeRef, ValueRef};

const GOOD: &[&str] = &["oeq", "une", "olt", "ole", "ogt", "oge"];
const WRONG: &[&str] = &["one", "ueq", "OEQ", "", "eq", "ord", "olt "];
struct W {
    c: IrContext,
    loc: Location,
    i32: TypeRef,
    f64: TypeRef,
    never: TypeRef,
    /// functions that can be called: name, parameters
    sigs: Vec<(String, usize)>,
    left: u32,
    /// everything attached to the module
    ops: Vec<OpRef>,
    /// results beyond what an operation may have
    odd: bool,
}
impl W {
    fn ty(&mut self, d: &'static str, n: &'static str, ps: &[TypeRef]) -> TypeRef {
        let b = ps.iter().fold(TypeDataBuilder::new(Symbol::new(d), Symbol::new(n)), |b, &p| b.param(p));
        self.c.types.intern(b.build())
    }
    fn block(&mut self, args: &[TypeRef]) -> BlockRef {
        self.c.create_block(BlockData { location: self.loc, args: args.iter().map(|&ty| BlockArgData { ty, attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None })
    }
    fn region(&mut self, bs: &[BlockRef]) -> RegionRef {
        self.c.create_region(RegionData { location: self.loc, blocks: bs.iter().copied().collect(), parent_op: None })
    }
    fn op(&mut self, into: Option<BlockRef>, d: &str, n: &str, ops: &[ValueRef], res: &[TypeRef], attrs: &[(&'static str, Attribute)], regions: &[RegionRef]) -> OpRef {
        let mut b = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(d), Symbol::from_dynamic(n)).operands(ops.iter().copied()).results(res.iter().copied());
        for (k, v) in attrs {
            b = b.attr(*k, v.clone());
        }
        for &r in regions {
            b = b.region(r);
        }
        let data = b.build(&mut self.c);
        let o = self.c.create_op(data);
        if let Some(b) = into {
            self.c.push_op(b, o);
            self.ops.push(o);
        }
        o
    }
    fn val(&mut self, into: BlockRef, sc: &mut Vec<ValueRef>) -> ValueRef {
        if sc.is_empty() || ch().chance(1, 6) {
            let t = self.i32;
            let o = self.op(Some(into), "t", "make", &[], &[t], &[], &[]);
            sc.push(self.c.op_result(o, 0));
        }
        *ch().of(sc)
    }
    fn arm(&mut self, depth: u32, sc: &[ValueRef], res: usize, never: bool) -> RegionRef {
        let b = self.block(&[]);
        let mut sc = sc.to_vec();
        self.fill(b, depth + 1, &mut sc);
        if never && ch().chance(2, 3) {
            let k = ch().pick(3);
            self.op(Some(b), "func", "unreachable", &[], &[], &[], &[]);
            let _ = k;
        } else {
            let vs: Vec<ValueRef> = (0..res).map(|_| self.val(b, &mut sc)).collect();
            self.op(Some(b), "scf", "yield", &vs, &[], &[], &[]);
        }
        self.region(&[b])
    }
    fn fill(&mut self, b: BlockRef, depth: u32, sc: &mut Vec<ValueRef>) {
        for _ in 0..ch().range(1, 4) {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            let i32 = self.i32;
            let nest = depth < 3;
            let o = match ch().weighted(&[5, 3, if nest { 4 } else { 0 }, if nest { 2 } else { 0 }, if nest { 2 } else { 0 }, 3, 3, if nest { 2 } else { 0 }]) {
                0 => {
                    let vs: Vec<ValueRef> = (0..ch().pick(4)).map(|_| self.val(b, sc)).collect();
                    let res = vec![i32; ch().pick(3) as usize];
                    self.op(Some(b), "t", "use", &vs, &res, &[], &[])
                }
                1 => {
                    let (x, y) = (self.val(b, sc), self.val(b, sc));
                    let p = *ch().of(GOOD);
                    self.op(Some(b), "arith", "cmpf", &[x, y], &[i32], &[("predicate", Attribute::Symbol(Symbol::new(p)))], &[])
                }
                2 => {
                    let cond = self.val(b, sc);
                    let never = ch().chance(1, 4);
                    let res = if never { vec![self.never] } else { vec![i32; ch().pick(3) as usize] };
                    let (t, e) = (self.arm(depth, sc, res.len(), never), self.arm(depth, sc, res.len(), never));
                    self.op(Some(b), "scf", "if", &[cond], &res, &[], &[t, e])
                }
                3 => {
                    let vs: Vec<ValueRef> = (0..ch().pick(3)).map(|_| self.val(b, sc)).collect();
                    let n = if self.odd && ch().chance(1, 3) { ch().range(2, 3) } else { ch().pick(2) };
                    let body = self.block(&vec![i32; vs.len()]);
                    let mut inner = sc.clone();
                    inner.extend_from_slice(self.c.block_args(body));
                    self.fill(body, depth + 1, &mut inner);
                    let r = self.region(&[body]);
                    self.op(Some(b), "scf", "loop", &vs, &vec![i32; n as usize], &[], &[r])
                }
                4 => {
                    let v = self.val(b, sc);
                    let n = if self.odd && ch().chance(1, 3) { 1 } else { 0 };
                    let r = self.arm(depth, sc, 0, false);
                    self.op(Some(b), "scf", "switch", &[v], &vec![i32; n], &[], &[r])
                }
                5 => {
                    // an indirect tail call
                    let k = ch().pick(3) as usize;
                    let mut ps = vec![self.never];
                    let args: Vec<ValueRef> = (0..k).map(|_| self.val(b, sc)).collect();
                    for &a in &args {
                        ps.push(self.c.value_ty(a));
                    }
                    let mut t = self.ty("core", "func", &ps);
                    if ch().chance(1, 2) {
                        t = self.ty("closure", "closure", &[t]);
                    }
                    let f = self.op(Some(b), "t", "fn", &[], &[t], &[], &[]);
                    let mut all = vec![self.c.op_result(f, 0)];
                    all.extend(args);
                    let n = if self.odd && ch().chance(1, 4) { 1 } else { 0 };
                    self.op(Some(b), "func", "tail_call_indirect", &all, &vec![i32; n], &[], &[])
                }
                6 => {
                    let (name, n) = if self.sigs.is_empty() || ch().chance(1, 5) { ("elsewhere".to_owned(), ch().pick(3) as usize) } else { ch().of(&self.sigs).clone() };
                    // what another dialect calls a call may pass what it likes
                    let other = ch().chance(1, 8);
                    let n = if other { ch().pick(4) as usize } else { n };
                    let vs: Vec<ValueRef> = (0..n).map(|_| self.val(b, sc)).collect();
                    let tail = ch().chance(1, 4);
                    let res = if tail { vec![] } else { vec![i32] };
                    self.op(Some(b), if other { "t" } else { "func" }, if tail { "tail_call" } else { "call" }, &vs, &res, &[("callee", Attribute::Symbol(Symbol::from_dynamic(&name)))], &[])
                }
                _ => {
                    // anything with regions of several blocks
                    let mut regions = vec![];
                    for _ in 0..ch().range(1, 2) {
                        let mut bs = vec![];
                        let mut inner = sc.clone();
                        for _ in 0..ch().range(1, 3) {
                            let x = self.block(&vec![i32; ch().pick(3) as usize]);
                            inner.extend_from_slice(self.c.block_args(x));
                            bs.push(x);
                        }
                        for &x in &bs {
                            // values of a block are visible in all blocks of its region
                            self.fill(x, depth + 1, &mut inner);
                        }
                        regions.push(self.region(&bs));
                    }
                    self.op(Some(b), "t", "box", &[], &[i32], &[], &regions)
                }
            };
            sc.extend_from_slice(self.c.op_results(o));
        }
    }
    fn scope(&mut self, b: BlockRef, depth: u32) {
        for k in 0..ch().range(1, 3) {
            if depth < 2 && ch().chance(1, 5) {
                let inner = self.block(&[]);
                self.scope(inner, depth + 1);
                let r = self.region(&[inner]);
                self.op(Some(b), "core", "module", &[], &[], &[("sym_name", Attribute::Symbol(Symbol::from_dynamic(&format!("m{depth}{k}"))))], &[r]);
                continue;
            }
            let n = ch().pick(3) as usize;
            let ps = vec![self.i32; n];
            let entry = self.block(&ps);
            let mut bs = vec![entry];
            let mut sc = self.c.block_args(entry).to_vec();
            if ch().chance(1, 3) {
                let x = self.block(&[self.f64]);
                sc.extend_from_slice(self.c.block_args(x));
                bs.push(x);
            }
            for &x in &bs {
                self.fill(x, 0, &mut sc);
            }
            let r = self.region(&bs);
            let mut t = vec![self.i32];
            t.extend(ps);
            let t = self.ty("core", "func", &t);
            let name = format!("f{}", self.ops.len());
            let d = *ch().of(&["func", "func", "wasm"]);
            self.op(Some(b), d, "func", &[], &[], &[("sym_name", Attribute::Symbol(Symbol::from_dynamic(&name))), ("type", Attribute::Type(t))], &[r]);
            if depth == 0 {
                self.sigs.push((name, n));
            }
        }
    }
}

// ---- what the verifier promises, said once more ----
fn walk(c: &IrContext, r: RegionRef, f: &mut dyn FnMut(OpRef)) {
    for &b in &c.region(r).blocks {
        for &o in &c.block(b).ops {
            f(o);
            for &x in &c.op(o).regions {
                walk(c, x, f);
            }
        }
    }
}
fn name(c: &IrContext, o: OpRef) -> String {
    format!("{}.{}", c.op(o).dialect, c.op(o).name)
}
fn stale(c: &IrContext, r: RegionRef, outer: &HashSet<ValueRef>, fun: &str, out: &mut Vec<(String, String, usize)>) {
    let mut seen = outer.clone();
    for &b in &c.region(r).blocks {
        seen.extend(c.block_args(b));
        for &o in &c.block(b).ops {
            seen.extend(c.op_results(o));
        }
    }
    for &b in &c.region(r).blocks {
        for &o in &c.block(b).ops {
            for (i, v) in c.op_operands(o).iter().enumerate() {
                if !seen.contains(v) {
                    out.push((fun.into(), name(c, o), i));
                }
            }
            for &x in &c.op(o).regions {
                stale(c, x, &seen, fun, out);
            }
        }
    }
}
fn uses_bad(c: &IrContext, body: RegionRef) -> usize {
    let mut real: BTreeMap<ValueRef, BTreeSet<(OpRef, u32)>> = BTreeMap::new();
    let mut vals = BTreeSet::new();
    let blocks = |r: RegionRef, vals: &mut BTreeSet<ValueRef>| {
        for &b in &c.region(r).blocks {
            vals.extend(c.block_args(b));
        }
    };
    blocks(body, &mut vals);
    walk(c, body, &mut |o| {
        for (i, &v) in c.op_operands(o).iter().enumerate() {
            real.entry(v).or_default().insert((o, i as u32));
            vals.insert(v);
        }
        vals.extend(c.op_results(o));
        for &r in &c.op(o).regions {
            blocks(r, &mut vals);
        }
    });
    let mut n = 0;
    for v in vals {
        let want = real.remove(&v).unwrap_or_default();
        let got: BTreeSet<(OpRef, u32)> = c.uses(v).iter().map(|u| (u.user, u.operand_index)).collect();
        n += want.symmetric_difference(&got).count();
    }
    n
}
fn op_bad(c: &IrContext, w: &W, o: OpRef) -> bool {
    let d = c.op(o);
    let (args, res) = (c.op_operands(o), c.op_results(o));
    match name(c, o).as_str() {
        "arith.cmpf" => !matches!(d.attributes.get("predicate"), Some(Attribute::Symbol(s)) if GOOD.iter().any(|g| *s == **g)),
        "scf.loop" => res.len() > 1,
        "scf.switch" => !res.is_empty(),
        "scf.if" => {
            if args.len() != 1 || d.regions.len() != 2 {
                return true;
            }
            d.regions.iter().any(|&r| {
                let [b] = c.region(r).blocks[..] else { return true };
                let Some(&last) = c.block(b).ops.last() else { return true };
                let n = name(c, last);
                if n == "scf.yield" {
                    return c.op_operands(last).len() != res.len();
                }
                let tail = ["func.tail_call", "func.tail_call_indirect", "func.unreachable", "ability.perform", "ability.handle_dispatch", "scf.if", "scf.switch"].contains(&n.as_str());
                !(tail && c.op_result_types(o) == [w.never])
            })
        }
        "func.tail_call_indirect" => {
            if !res.is_empty() || args.is_empty() {
                return true;
            }
            let t = c.types.get(c.value_ty(args[0]));
            let t = if t.dialect == "closure" && t.name == "closure" {
                if t.params.len() != 1 {
                    return true;
                }
                c.types.get(t.params[0])
            } else {
                t
            };
            if t.dialect != "core" || t.name != "func" || t.params.is_empty() {
                return true;
            }
            t.params[0] != w.never || t.params.len() != args.len() || args[1..].iter().zip(&t.params[1..]).any(|(&a, &p)| c.value_ty(a) != p)
        }
        _ => false,
    }
}
/// The verifier's verdicts against those above.
fn check(w: &mut W, root: OpRef, after: &str) -> bool {
    let m = Module::new(&w.c, root).unwrap_or_else(|| violation("harness", "no module"));
    let body = m.body(&w.c).unwrap();
    let c = &w.c;
    let mut want_stale = vec![];
    walk(c, body, &mut |o| {
        if c.op(o).name == "func" && (c.op(o).dialect == "func" || c.op(o).dialect == "wasm") {
            let f = c.op(o).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or("<unnamed>".into());
            for &r in &c.op(o).regions {
                stale(c, r, &HashSet::new(), &f, &mut want_stale);
            }
        }
    });
    let want_uses = uses_bad(c, body);
    let mut want_ops = vec![];
    walk(c, body, &mut |o| {
        if op_bad(c, w, o) {
            want_ops.push(o);
        }
    });
    let run = |what: &str, f: &dyn Fn() -> Vec<ValidationError>| match catch(f) {
        Ok(e) => e,
        Err(p) => violation("panic", &format!("{after}: {what} panicked: {p}")),
    };
    let (s, u, o, all) = (run("value integrity", &|| validation::validate_value_integrity(c, m).errors), run("use chains", &|| validation::validate_use_chains(c, m).errors), run("operation verifiers", &|| validation::validate_operation_verifiers(c, m).errors), run("all", &|| validation::validate_all(c, m).errors));
    let mut got_stale: Vec<(String, String, usize)> = s
        .iter()
        .map(|e| match e {
            ValidationError::StaleValue { function_name, consumer_op, operand_index, .. } => (function_name.clone(), consumer_op.clone(), *operand_index),
            _ => violation("wrong-report", &format!("{after}: a check of values reported {e}")),
        })
        .collect();
    got_stale.sort();
    want_stale.sort();
    if got_stale != want_stale {
        let kind = if got_stale.len() > want_stale.len() { "false-alarm" } else { "missed-damage" };
        violation(kind, &format!("{after}: references to values that are not visible: reported {got_stale:?}, there are {want_stale:?}"));
    }
    if (u.len() != 0) != (want_uses != 0) {
        violation(if u.is_empty() { "missed-damage" } else { "false-alarm" }, &format!("{after}: {want_uses} entries of use lists are wrong, reported: {u:?}"));
    }
    if o.len() < want_ops.len() || want_ops.is_empty() && !o.is_empty() {
        violation(if want_ops.is_empty() { "false-alarm" } else { "missed-damage" }, &format!("{after}: malformed operations are {:?}, reported: {o:?}", want_ops.iter().map(|&o| (name(c, o), o)).collect::<Vec<_>>()));
    }
    for &x in &want_ops {
        if !o.iter().any(|e| e.to_string().contains(&name(c, x))) {
            violation("missed-damage", &format!("{after}: {} is malformed, reported: {o:?}", name(c, x)));
        }
    }
    if (all.is_empty()) != (s.is_empty() && u.is_empty() && o.is_empty()) || all.len() < s.len().max(u.len()).max(o.len()) {
        violation("missed-damage", &format!("{after}: the parts report {}, {} and {} problems, all together {}", s.len(), u.len(), o.len(), all.len()));
    }
    // calls with the wrong number of arguments are warned about
    let mut sigs: HashMap<Symbol, usize> = HashMap::new();
    let mut calls = 0;
    for &b in &c.region(body).blocks {
        for &f in &c.block(b).ops {
            if c.op(f).name == "func" {
                let t = c.types.get(c.op(f).attributes.get_type("type").unwrap());
                sigs.insert(c.op(f).attributes.get_symbol("sym_name").unwrap(), t.params.len() - 1);
            }
        }
    }
    for &b in &c.region(body).blocks {
        for &f in &c.block(b).ops {
            if c.op(f).name == "func" {
                for &r in &c.op(f).regions {
                    walk(c, r, &mut |x| {
                        if ["func.call", "func.tail_call"].contains(&name(c, x).as_str())
                            && let Some(s) = c.op(x).attributes.get_symbol("callee")
                            && sigs.get(&s).is_some_and(|&n| n != c.op_operands(x).len())
                        {
                            calls += 1;
                        }
                    });
                }
            }
        }
    }
    validation::validate_call_arity(c, m);
    let n = w.c.take_diagnostics().len();
    if n != calls {
        violation(if n < calls { "missed-damage" } else { "false-alarm" }, &format!("{after}: {calls} calls have the wrong number of arguments, warned about {n}"));
    }
    ev("verdict", (want_stale.len() + want_uses) as u64, (want_ops.len() + calls) as u64);
    !want_stale.is_empty() || want_uses > 0 || !want_ops.is_empty() || calls > 0
}
pub fn c08() {
    let mut c = IrContext::new();
    let path = c.paths.intern("file:///sim.trb".to_owned());
    let loc = Location::new(path, Span::new(0, 0));
    let t = |c: &mut IrContext, n: &'static str| c.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new(n)).build());
    let (i32, f64, never) = (t(&mut c, "i32"), t(&mut c, "f64"), t(&mut c, "never"));
    let mut w = W { c, loc, i32, f64, never, sigs: vec![], left: *ch().of(&[5, 15, 30]), ops: vec![], odd: ch().chance(1, 4) };
    let top = w.block(&[]);
    w.scope(top, 0);
    let r = w.region(&[top]);
    let root = w.op(None, "core", "module", &[], &[], &[("sym_name", Attribute::Symbol(Symbol::new("main")))], &[r]);
    if trace_enabled() {
        trace(&format!("{} operations", w.ops.len()));
    }
    let odd = check(&mut w, root, "new module");
    if odd && !w.odd {
        violation("harness", "the new module is not sound");
    }
    let mut hurt = odd;
    for step in 0..ch().range(1, 4) {
        let live: Vec<OpRef> = {
            let mut v = vec![];
            walk(&w.c, r, &mut |o| v.push(o));
            v
        };
        let inner: Vec<OpRef> = live.iter().copied().filter(|&o| !["core.module", "func.func", "wasm.func"].contains(&name(&w.c, o).as_str())).collect();
        if inner.is_empty() {
            break;
        }
        let o = *ch().of(&inner);
        let vals: Vec<ValueRef> = live.iter().flat_map(|&o| w.c.op_results(o).to_vec().into_iter().chain(w.c.op(o).regions.iter().flat_map(|&r| w.c.region(r).blocks.to_vec()).flat_map(|b| w.c.block_args(b).to_vec()).collect::<Vec<_>>())).collect();
        if vals.is_empty() {
            continue;
        }
        let k = w.c.op_operands(o).len() as u32;
        let of = |n: &[&str]| -> Vec<OpRef> { inner.iter().copied().filter(|&o| n.contains(&name(&w.c, o).as_str())).collect() };
        let what: String = match ch().weighted(&[5, 2, 2, 2, 2, 3, 3, 3, 4, 2, 2]) {
            0 if k > 0 && !vals.is_empty() => {
                let (i, v) = (ch().pick(k), *ch().of(&vals));
                w.c.set_op_operand(o, i, v);
                stat("fault.foreign_value");
                format!("operand {i} of {} {o} set to {v}", name(&w.c, o))
            }
            1 if ch().chance(1, 2) => {
                // the operand list is exchanged behind the IR's back for one that differs in one place
                let mut l = w.c.op_operands(o).to_vec();
                let v = if l.is_empty() || ch().chance(1, 2) { *ch().of(&vals) } else { *ch().of(&l) };
                match ch().pick(3) {
                    0 => l.push(v),
                    1 if !l.is_empty() => drop(l.remove(ch().pick(l.len() as u32) as usize)),
                    _ if !l.is_empty() => {
                        let i = ch().pick(l.len() as u32) as usize;
                        l[i] = v;
                    }
                    _ => l = vec![v, v],
                }
                let t = w.op(None, "test", "list", &l, &[], &[], &[]);
                w.c.remove_op(t);
                let list = std::mem::take(&mut w.c.op_mut(t).operands);
                w.c.op_mut(o).operands = list;
                stat("fault.exchanged_operands");
                format!("operand list of {} {o} exchanged for {l:?}", name(&w.c, o))
            }
            1 => {
                // the operand lists of two operations change places behind the IR's back
                let p = *ch().of(&inner);
                let a = std::mem::take(&mut w.c.op_mut(o).operands);
                let b = std::mem::replace(&mut w.c.op_mut(p).operands, a);
                if o != p {
                    w.c.op_mut(o).operands = b;
                } else {
                    let _ = b;
                }
                stat("fault.swapped_operands");
                format!("operand lists of {o} and {p} swapped")
            }
            2 => {
                let b = w.c.op(o).parent_block.unwrap();
                w.c.block_mut(b).ops.retain(|x| *x != o);
                stat("fault.lost_operation");
                format!("{} {o} lost from its block", name(&w.c, o))
            }
            3 => {
                let b = w.c.op(o).parent_block.unwrap();
                let r = w.c.block(b).parent_region.unwrap();
                w.c.region_mut(r).blocks.retain(|x| *x != b);
                stat("fault.lost_block");
                format!("{b} lost from its region")
            }
            4 => {
                let b = w.c.op(o).parent_block.unwrap();
                let blocks: Vec<BlockRef> = live.iter().filter(|&&x| x != o).filter_map(|&x| w.c.op(x).parent_block).collect();
                if blocks.is_empty() || !w.c.op(o).regions.is_empty() {
                    continue;
                }
                let to = *ch().of(&blocks);
                w.c.remove_op_from_block(b, o);
                w.c.push_op(to, o);
                stat("fault.moved_operation");
                format!("{} {o} moved to the end of {to}", name(&w.c, o))
            }
            5 => {
                let v = of(&["arith.cmpf"]);
                if v.is_empty() {
                    continue;
                }
                let o = *ch().of(&v);
                let a = match ch().pick(5) {
                    0 => None,
                    1 => Some(Attribute::Int(1)),
                    2 => Some(Attribute::String("oeq".to_owned())),
                    _ => Some(Attribute::Symbol(Symbol::new(*ch().of(WRONG)))),
                };
                let at = &mut w.c.op_mut(o).attributes;
                match a.clone() {
                    Some(a) => {
                        at.insert(Symbol::new("predicate"), a);
                    }
                    None => {
                        at.remove("predicate");
                    }
                }
                stat("fault.attribute");
                format!("predicate of {o} becomes {a:?}")
            }
            6 => {
                let v = of(&["scf.if"]);
                if v.is_empty() {
                    continue;
                }
                let o = *ch().of(&v);
                let rs = w.c.op(o).regions.to_vec();
                let r = if rs.is_empty() { None } else { Some(*ch().of(&rs)) };
                let last = r.and_then(|r| w.c.region(r).blocks.last().copied()).map(|b| (b, w.c.block(b).ops.last().copied()));
                stat("fault.structure");
                match (ch().pick(6), r, last) {
                    (0, Some(r), _) => {
                        w.c.detach_region(r);
                        format!("scf.if {o} loses a region")
                    }
                    (1, Some(r), _) => {
                        let b = w.block(&[]);
                        w.c.region_mut(r).blocks.push(b);
                        w.c.block_mut(b).parent_region = Some(r);
                        format!("scf.if {o} gets another block")
                    }
                    (2, _, Some((b, Some(x)))) => {
                        let mut y = w.op(None, "t", "use", &[], &[], &[], &[]);
                        if ch().chance(1, 3) {
                            y = w.op(None, "func", *ch().of(&["unreachable", "call", "return"]), &[], &[], &[], &[]);
                        }
                        w.c.push_op(b, y);
                        let _ = x;
                        format!("scf.if {o} ends with {}", name(&w.c, y))
                    }
                    (3, _, Some((b, Some(x)))) if w.c.op_results(x).is_empty() => {
                        w.c.remove_op_from_block(b, x);
                        w.c.remove_op(x);
                        format!("the end of {b} in scf.if {o} is gone")
                    }
                    (4, _, Some((_, Some(x)))) if name(&w.c, x) == "scf.yield" => {
                        if w.c.op_operands(x).is_empty() || ch().chance(1, 2) {
                            w.c.push_op_operand(x, *ch().of(&vals));
                        } else {
                            w.c.remove_op_operand(x, 0);
                        }
                        format!("the end of an arm of scf.if {o} yields another number of values")
                    }
                    _ => {
                        if w.c.op_operands(o).is_empty() || ch().chance(1, 2) {
                            w.c.push_op_operand(o, *ch().of(&vals));
                        } else {
                            w.c.remove_op_operand(o, 0);
                        }
                        format!("scf.if {o} gets another number of conditions")
                    }
                }
            }
            7 => {
                let v = of(&["func.tail_call_indirect"]);
                if v.is_empty() {
                    continue;
                }
                let o = *ch().of(&v);
                stat("fault.call");
                let n = w.c.op_operands(o).len() as u32;
                match ch().pick(4) {
                    0 if n > 0 => {
                        w.c.remove_op_operand(o, ch().pick(n));
                        format!("tail_call_indirect {o} loses an operand")
                    }
                    1 => {
                        w.c.push_op_operand(o, *ch().of(&vals));
                        format!("tail_call_indirect {o} gets another argument")
                    }
                    _ if n > 0 => {
                        // the callee is of another type
                        let i = ch().pick(n);
                        let x = w.c.op_operands(o)[i as usize];
                        let trunk_ir::ValueDef::OpResult(d, j) = w.c.value_def(x) else { continue };
                        let (i, f, nv) = (w.i32, w.f64, w.never);
                        let g = w.ty("core", "func", &[i]);
                        let h = w.ty("core", "func", &[nv, f]);
                        let e = w.ty("core", "func", &[]);
                        let cl = w.ty("closure", "closure", &[g]);
                        let cl0 = w.ty("closure", "closure", &[]);
                        let cl2 = w.ty("closure", "closure", &[h, h]);
                        let clc = w.ty("closure", "closure", &[cl]);
                        let hc = w.ty("closure", "closure", &[h]);
                        let t = *ch().of(&[i, f, g, h, e, cl, cl0, cl2, clc, hc]);
                        w.c.set_op_result_type(d, j, t);
                        format!("the type of {x}, used by tail_call_indirect {o}, changes")
                    }
                    _ => continue,
                }
            }
            8 => {
                let v = of(&["func.call", "func.tail_call"]);
                if v.is_empty() {
                    continue;
                }
                let o = *ch().of(&v);
                stat("fault.call");
                if w.c.op_operands(o).is_empty() || ch().chance(1, 2) {
                    w.c.push_op_operand(o, *ch().of(&vals));
                } else {
                    w.c.remove_op_operand(o, 0);
                }
                format!("{} {o} passes another number of arguments", name(&w.c, o))
            }
            9 => {
                // a sound edit: replace all uses of a value by one visible wherever it is
                let Some(&v) = w.c.op_operands(o).first() else { continue };
                let b = w.c.op(o).parent_block.unwrap();
                let ty = w.c.value_ty(v);
                let x = w.op(None, "t", "make", &[], &[ty], &[], &[]);
                w.c.insert_op_before(b, o, x);
                let y = w.c.op_result(x, 0);
                w.c.set_op_operand(o, 0, y);
                stat("probe.sound_edit");
                format!("operand 0 of {o} replaced by a new value")
            }
            _ => {
                // a sound edit: an unused operation is erased
                let Some(&o) = inner.iter().find(|&&o| name(&w.c, o).starts_with("t.") && w.c.op(o).regions.is_empty() && w.c.op_results(o).iter().all(|&v| !w.c.has_uses(v))) else { continue };
                if catch(|| trunk_ir::rewrite::erase_op(&mut w.c, o)).is_err() {
                    continue;
                }
                stat("probe.sound_edit");
                format!("{o} erased")
            }
        };
        trace(&format!("step {step}: {what}"));
        ev("damage", step as u64, simcore::rng::hash_bytes(what.as_bytes()));
        let bad = check(&mut w, root, &what);
        hurt |= bad;
        set_nontrivial();
    }
    stat_add("probe.damaged", hurt as u64);
    stat_add("probe.sound", !hurt as u64);
}
