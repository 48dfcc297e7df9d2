//! C05: a pass manager runs every pass on every target there is, in order, and stops at the first failure.
use simcore::runner::{catch, ev, set_nontrivial, stat, trace, violation};
use simcore::tape::ch;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use trunk_ir::dialect::{arith, core, func, wasm};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::{Pass, PassErrorKind, PassManager, PassRunResult, VerifyError};
use trunk_ir::{Attribute, BlockData, IrContext, Location, OpRef, OperationDataBuilder, RegionData, Span, Symbol};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Module,
    Func,
    Wasm,
    Leaf,
}
const PASS_NAMES: &[&str] = &["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu"];

/// What a pass does at one of its calls.
#[derive(Clone, Copy, Debug)]
enum Act {
    Nothing,
    Fail,
    /// erase the n-th attached operation that does not enclose the target
    Erase(u32),
    EraseSelf,
    /// append an operation of a kind to the n-th container
    Append(u32, Kind),
    /// turn the n-th attached function (not enclosing the target) into the other kind of function
    Retag(u32),
    RetagSelf,
}
#[derive(Clone)]
struct PassSpec {
    id: usize,
    acts: Vec<Act>,
}
#[derive(Clone)]
struct MgrSpec {
    kind: Kind,
    passes: Vec<PassSpec>,
    nested: Vec<MgrSpec>,
    /// (identity, calls after which it starts failing)
    verifier: Option<(usize, u32)>,
    inst: Option<usize>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    Pass(usize, usize, usize),
    Inst(usize, usize, usize),
    Ver(usize, usize),
}
/// Node of the mirrored tree. Index = label.
#[derive(Clone)]
struct Node {
    kind: Kind,
    parent: Option<usize>,
    kids: Vec<usize>,
}
#[derive(Clone)]
struct Tree {
    n: Vec<Node>,
}
impl Tree {
    fn walk(&self, at: usize, out: &mut Vec<usize>) {
        out.push(at);
        for &k in &self.n[at].kids {
            self.walk(k, out);
        }
    }
    fn below(&self, at: usize) -> Vec<usize> {
        let mut v = vec![];
        self.walk(at, &mut v);
        v
    }
    fn encloses(&self, a: usize, mut b: usize) -> bool {
        loop {
            if a == b {
                return true;
            }
            match self.n[b].parent {
                Some(p) => b = p,
                None => return false,
            }
        }
    }
    fn erase(&mut self, x: usize) {
        if let Some(p) = self.n[x].parent.take() {
            self.n[p].kids.retain(|&k| k != x);
        }
    }
    /// The operation an act works on, if any.
    fn subject(&self, act: Act, target: usize) -> Option<usize> {
        let all = self.below(0);
        let nth = |v: Vec<usize>, n: u32| if v.is_empty() { None } else { Some(v[n as usize % v.len()]) };
        match act {
            Act::Erase(n) => nth(all.into_iter().filter(|&x| x == target && target != 0 || !self.encloses(x, target)).collect(), n),
            Act::EraseSelf | Act::RetagSelf if target == 0 => None,
            Act::EraseSelf => Some(target),
            Act::RetagSelf => matches!(self.n[target].kind, Kind::Func | Kind::Wasm).then_some(target),
            Act::Append(n, _) => nth(all.into_iter().filter(|&x| self.n[x].kind != Kind::Leaf).collect(), n),
            Act::Retag(n) => nth(all.into_iter().filter(|&x| matches!(self.n[x].kind, Kind::Func | Kind::Wasm) && (x == target || !self.encloses(x, target))).collect(), n),
            _ => None,
        }
    }
    fn apply(&mut self, act: Act, target: usize) {
        let Some(x) = self.subject(act, target) else { return };
        match act {
            Act::Erase(_) | Act::EraseSelf => self.erase(x),
            Act::Append(_, kind) => {
                let l = self.n.len();
                self.n.push(Node { kind, parent: Some(x), kids: vec![] });
                self.n[x].kids.push(l);
            }
            Act::Retag(_) | Act::RetagSelf => self.n[x].kind = if self.n[x].kind == Kind::Func { Kind::Wasm } else { Kind::Func },
            _ => {}
        }
    }
    fn show(&self, at: usize) -> String {
        format!("{:?}{}[{}]", self.n[at].kind, at, self.n[at].kids.iter().map(|&k| self.show(k)).collect::<Vec<_>>().join(" "))
    }
}

// ---- the model ----
struct Model {
    tree: Tree,
    calls: HashMap<usize, u32>,
    ver_calls: HashMap<usize, u32>,
    log: Vec<Ev>,
}
#[derive(PartialEq, Eq, Debug)]
enum Fail {
    Pass(usize),
    Verifier(usize),
    Anchor,
}
impl Model {
    fn run(&mut self, m: &MgrSpec, target: usize, ver: Option<(usize, u32)>, inst: Option<usize>) -> Result<(), Fail> {
        let (ver, inst) = (m.verifier.or(ver), m.inst.or(inst));
        for p in &m.passes {
            let k = self.calls.entry(p.id).or_insert(0);
            let act = p.acts.get(*k as usize).copied().unwrap_or(Act::Nothing);
            *k += 1;
            self.log.push(Ev::Pass(p.id, target, *k as usize));
            if matches!(act, Act::Fail) {
                return Err(Fail::Pass(p.id));
            }
            self.tree.apply(act, target);
            let n = &self.tree.n[target];
            if n.kind != m.kind || target != 0 && n.parent.is_none() {
                stat("probe.erased_target");
                return Ok(());
            }
            if let Some(i) = inst {
                self.log.push(Ev::Inst(i, p.id, target));
            }
            if let Some((v, after)) = ver {
                self.log.push(Ev::Ver(v, target));
                let k = self.ver_calls.entry(v).or_insert(0);
                *k += 1;
                if *k == after {
                    return Err(Fail::Verifier(p.id));
                }
            }
        }
        for n in &m.nested {
            for t in self.tree.below(target).into_iter().filter(|&x| self.tree.n[x].kind == n.kind).collect::<Vec<_>>() {
                if self.tree.n[t].kind != n.kind || !self.tree.encloses(target, t) {
                    stat("probe.target_gone");
                    continue;
                }
                if n.kind == Kind::Leaf {
                    return Err(Fail::Anchor);
                }
                stat("probe.nested");
                self.run(n, t, ver, inst)?;
            }
        }
        Ok(())
    }
}

// ---- the real thing ----
struct Shared {
    log: Vec<Ev>,
    /// The tree as the passes changed it (only to know what each act works on).
    tree: Tree,
    refs: Vec<OpRef>,
    loc: Location,
}
type Sh = Rc<RefCell<Shared>>;
fn make_op(ctx: &mut IrContext, loc: Location, kind: Kind, label: usize) -> OpRef {
    let (d, n) = match kind {
        Kind::Module => ("core", "module"),
        Kind::Func => ("func", "func"),
        Kind::Wasm => ("wasm", "func"),
        Kind::Leaf => ("arith", "const"),
    };
    let mut b = OperationDataBuilder::new(loc, Symbol::new(d), Symbol::new(n)).attr("sym_name", Attribute::Symbol(Symbol::from_dynamic(&format!("n{label}")))).attr("label", Attribute::Int(label as i128));
    if kind != Kind::Leaf {
        let bl = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
        let r = ctx.create_region(RegionData { location: loc, blocks: [bl].into_iter().collect(), parent_op: None });
        b = b.region(r);
    }
    let data = b.build(ctx);
    ctx.create_op(data)
}
fn body(ctx: &IrContext, op: OpRef) -> trunk_ir::BlockRef {
    ctx.region(ctx.op(op).regions[0]).blocks[0]
}
struct SimPass<T> {
    spec: PassSpec,
    calls: usize,
    sh: Sh,
    t: std::marker::PhantomData<fn(T)>,
}
#[derive(Debug)]
struct Boom(usize);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom {}", self.0)
    }
}
impl std::error::Error for Boom {}
impl<T: DialectOp + 'static> Pass for SimPass<T> {
    type Target = T;
    fn name(&self) -> &'static str {
        PASS_NAMES[self.spec.id % PASS_NAMES.len()]
    }
    fn run(&mut self, ctx: &mut IrContext, target: T) -> PassRunResult {
        let act = self.spec.acts.get(self.calls).copied().unwrap_or(Act::Nothing);
        self.calls += 1;
        let mut s = self.sh.borrow_mut();
        let Some(t) = s.refs.iter().position(|&r| r == target.op_ref()) else { violation("wrong-target", "a pass was given an operation that is not in the module") };
        s.log.push(Ev::Pass(self.spec.id, t, self.calls));
        ev("pass", self.spec.id as u64, t as u64);
        trace(&format!("pass {} on n{t}: {act:?}", self.spec.id));
        if matches!(act, Act::Fail) {
            stat("fault.pass_failure");
            return Err(Box::new(Boom(self.spec.id)));
        }
        if s.log.len() > 20_000 {
            violation("never-ends", "the pass manager keeps running passes");
        }
        let x = s.tree.subject(act, t);
        if let Some(x) = x {
            let o = s.refs[x];
            match act {
                Act::Erase(_) | Act::EraseSelf => {
                    ctx.detach_op(o);
                    ctx.remove_op(o);
                }
                Act::Append(_, kind) => {
                    let n = make_op(ctx, s.loc, kind, s.tree.n.len());
                    let b = body(ctx, o);
                    ctx.push_op(b, n);
                    s.refs.push(n);
                }
                Act::Retag(_) | Act::RetagSelf => {
                    let d = if s.tree.n[x].kind == Kind::Func { "wasm" } else { "func" };
                    ctx.op_mut(o).dialect = Symbol::new(d);
                }
                _ => {}
            }
            s.tree.apply(act, t);
        }
        Ok(())
    }
}
fn install<T: DialectOp + 'static>(pm: &mut PassManager<T>, m: &MgrSpec, sh: &Sh) {
    for p in &m.passes {
        pm.add_pass(SimPass { spec: p.clone(), calls: 0, sh: sh.clone(), t: std::marker::PhantomData });
    }
    if let Some((id, after)) = m.verifier {
        let (s, k) = (sh.clone(), Cell::new(0));
        pm.with_verifier(move |_, op| {
            let mut s = s.borrow_mut();
            let l = s.refs.iter().position(|&r| r == op).unwrap_or(usize::MAX);
            s.log.push(Ev::Ver(id, l));
            k.set(k.get() + 1);
            if k.get() == after {
                stat("fault.verifier_failure");
                return Err(VerifyError { message: format!("v{id} says no") });
            }
            Ok(())
        });
    }
    if let Some(id) = m.inst {
        let s = sh.clone();
        pm.with_instrumentation(move |_, name, op| {
            let mut s = s.borrow_mut();
            let l = s.refs.iter().position(|&r| r == op).unwrap_or(usize::MAX);
            // pass names repeat every twelve; recover the identity from the last pass that ran
            let pid = s.log.iter().rev().find_map(|e| if let Ev::Pass(p, ..) = e { Some(*p) } else { None }).unwrap_or(usize::MAX);
            let pid = if pid != usize::MAX && PASS_NAMES[pid % PASS_NAMES.len()] == name { pid } else { usize::MAX };
            s.log.push(Ev::Inst(id, pid, l));
        });
    }
    for n in &m.nested {
        match n.kind {
            Kind::Module => install(pm.nest::<core::Module>(), n, sh),
            Kind::Func => install(pm.nest::<func::Func>(), n, sh),
            Kind::Wasm => install(pm.nest::<wasm::Func>(), n, sh),
            Kind::Leaf => install(pm.nest::<arith::Const>(), n, sh),
        }
    }
}
/// Hook and verifier of one pass may come in either order.
fn settle(log: &[Ev]) -> Vec<Ev> {
    let mut v = log.to_vec();
    for i in 1..v.len() {
        if matches!((&v[i - 1], &v[i]), (Ev::Ver(..), Ev::Inst(..))) {
            v.swap(i - 1, i);
        }
    }
    v
}
fn gen_mgr(kind: Kind, depth: u32, next: &mut usize, ids: &mut usize) -> MgrSpec {
    let mut passes = vec![];
    for _ in 0..ch().weighted(&[1, 4, 3, 1]) {
        let mut acts = vec![];
        for _ in 0..ch().pick(6) {
            acts.push(match ch().weighted(&[6, 3, 2, 2, 1, 1, 1]) {
                0 => Act::Nothing,
                1 => Act::Erase(ch().pick(16)),
                2 => Act::EraseSelf,
                3 => Act::Append(ch().pick(8), *ch().of(&[Kind::Func, Kind::Wasm, Kind::Module])),
                4 => Act::Retag(ch().pick(8)),
                5 => Act::RetagSelf,
                _ => Act::Fail,
            });
        }
        passes.push(PassSpec { id: *next, acts });
        *next += 1;
    }
    let mut id = || {
        *ids += 1;
        *ids
    };
    let verifier = ch().chance(1, 3).then(|| (id(), if ch().chance(1, 2) { ch().range(1, 12) } else { u32::MAX }));
    let inst = ch().chance(1, 3).then(&mut id);
    let mut nested = vec![];
    if depth < 3 && kind != Kind::Leaf {
        for _ in 0..ch().weighted(if depth == 0 { &[1, 5, 3] } else { &[4, 3, 1] }) {
            let kinds: Vec<Kind> = [Kind::Func, Kind::Wasm, Kind::Module].into_iter().filter(|&k| k != kind).collect();
            let k = if ch().chance(1, 25) { Kind::Leaf } else { *ch().of(&kinds) };
            nested.push(gen_mgr(k, depth + 1, next, ids));
        }
    }
    MgrSpec { kind, passes, nested, verifier, inst }
}
pub fn c05() {
    let mut ctx = IrContext::new();
    let path = ctx.paths.intern("file:///sim.trb".to_owned());
    let loc = Location::new(path, Span::new(0, 0));
    let mut tree = Tree { n: vec![Node { kind: Kind::Module, parent: None, kids: vec![] }] };
    let mut refs = vec![make_op(&mut ctx, loc, Kind::Module, 0)];
    for _ in 0..ch().range(0, 9) {
        let boxes: Vec<usize> = (0..tree.n.len()).filter(|&i| tree.n[i].kind != Kind::Leaf).collect();
        let p = if ch().chance(1, 2) { 0 } else { *ch().of(&boxes) };
        let kind = [Kind::Func, Kind::Module, Kind::Wasm, Kind::Leaf][ch().weighted(&[5, 2, 2, 1])];
        let l = tree.n.len();
        let op = make_op(&mut ctx, loc, kind, l);
        let b = body(&ctx, refs[p]);
        ctx.push_op(b, op);
        refs.push(op);
        tree.n.push(Node { kind, parent: Some(p), kids: vec![] });
        tree.n[p].kids.push(l);
    }
    let spec = gen_mgr(Kind::Module, 0, &mut 0, &mut 0);
    let mut model = Model { tree: tree.clone(), calls: HashMap::new(), ver_calls: HashMap::new(), log: vec![] };
    let sh: Sh = Rc::new(RefCell::new(Shared { log: vec![], tree, refs: refs.clone(), loc }));
    let mut pm = PassManager::<core::Module>::new();
    install(&mut pm, &spec, &sh);
    for round in 0..ch().range(1, 3) {
        trace(&format!("run {round} on {}", model.tree.show(0)));
        model.log.clear();
        sh.borrow_mut().log.clear();
        let want = model.run(&spec, 0, None, None);
        let root = core::Module::from_op(&ctx, refs[0]).unwrap_or_else(|_| violation("inconsistent", "the root is no module any more"));
        let got = match catch(|| pm.run(&mut ctx, root)) {
            Ok(r) => r,
            Err(p) => violation("panic", &format!("running the passes panicked: {p}")),
        };
        let s = sh.borrow();
        let (mut w, mut g) = (settle(&model.log), settle(&s.log));
        if got.is_err() && matches!(want, Err(Fail::Verifier(_))) {
            // whether the hook saw the pass whose result was refused is left open
            for l in [&mut w, &mut g] {
                if let Some(Ev::Inst(..)) = l.iter().rev().nth(1) {
                    let n = l.len() - 2;
                    l.remove(n);
                }
            }
        }
        if w != g {
            let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
            violation("wrong-order", &format!("run {round}: event {i} is {:?}, expected {:?} (pass, target, call / hook / verifier)", g.get(i), w.get(i)));
        }
        match (&want, &got) {
            (Ok(()), Ok(())) => {}
            (Err(Fail::Anchor), Err(e)) if matches!(e.kind(), PassErrorKind::Verification(_)) => stat("probe.anchor_refused"),
            (Err(Fail::Pass(p)), Err(e)) if e.pass_name() == PASS_NAMES[p % PASS_NAMES.len()] => {
                let PassErrorKind::Execution(src) = e.kind() else { violation("wrong-error", "a failing pass was reported as a failed verification") };
                if src.downcast_ref::<Boom>().map(|b| b.0) != Some(*p) || !e.to_string().contains(e.pass_name()) || !e.to_string().contains(&format!("boom {p}")) {
                    violation("wrong-error", &format!("the error of pass {p} arrived as {e}"));
                }
            }
            (Err(Fail::Verifier(p)), Err(e)) if e.pass_name() == PASS_NAMES[p % PASS_NAMES.len()] => {
                if !matches!(e.kind(), PassErrorKind::Verification(v) if v.message.ends_with("says no")) {
                    violation("wrong-error", &format!("the verifier's refusal arrived as {e}"));
                }
            }
            (w, g) => violation("wrong-result", &format!("run {round} ended with {:?}, expected {w:?}", g.as_ref().map_err(|e| e.to_string()))),
        }
        // what the passes left is what the module holds
        let real = real_show(&ctx, refs[0]);
        if real != model.tree.show(0) {
            violation("inconsistent", &format!("the module is {real}, expected {}", model.tree.show(0)));
        }
        if s.log.iter().filter(|e| matches!(e, Ev::Pass(..))).count() >= 3 {
            set_nontrivial();
        }
    }
}
fn real_show(ctx: &IrContext, op: OpRef) -> String {
    let d = ctx.op(op);
    let Some(Attribute::Int(l)) = d.attributes.get("label") else { return "?".into() };
    let kind = match (d.dialect.to_string().as_str(), d.regions.len()) {
        ("core", _) => Kind::Module,
        ("func", _) => Kind::Func,
        ("wasm", _) => Kind::Wasm,
        _ => Kind::Leaf,
    };
    let kids: Vec<String> = d.regions.iter().flat_map(|&r| ctx.region(r).blocks.to_vec()).flat_map(|b| ctx.block(b).ops.to_vec()).map(|o| real_show(ctx, o)).collect();
    format!("{kind:?}{l}[{}]", kids.join(" "))
}
