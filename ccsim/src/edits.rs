//! C04: whatever the history of edits, every list in the IR agrees with every other.
use simcore::runner::{self, catch, ev, stat, violation};
use simcore::tape::ch;
use trunk_ir::rewrite::{erase_op, inline_region_blocks, split_block};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use trunk_ir::{Attribute, BlockArgData, BlockData, BlockRef, IrContext, IrMapping, Location, OpRef, OperationDataBuilder, RegionData, RegionRef, Span, Symbol, TypeDataBuilder, TypeRef, ValueDef, ValueRef};

struct MOp {
    operands: Vec<ValueRef>,
    results: Vec<(ValueRef, TypeRef)>,
    regions: Vec<RegionRef>,
    succ: Vec<BlockRef>,
    attr: i128,
    name: &'static str,
    block: Option<BlockRef>,
    dead: bool,
}
struct MBlock {
    args: Vec<(ValueRef, TypeRef)>,
    ops: Vec<OpRef>,
    region: Option<RegionRef>,
    dead: bool,
}
struct MRegion {
    blocks: Vec<BlockRef>,
    owner: Option<OpRef>,
    dead: bool,
}
struct World {
    ctx: IrContext,
    loc: Location,
    types: Vec<TypeRef>,
    ops: BTreeMap<OpRef, MOp>,
    blocks: BTreeMap<BlockRef, MBlock>,
    regions: BTreeMap<RegionRef, MRegion>,
    /// structure of a type (name, parameters) -> its reference
    interned: HashMap<(u32, Vec<TypeRef>), TypeRef>,
}
const NAMES: &[&str] = &["one", "two", "three"];

impl World {
    fn new() -> World {
        let mut ctx = IrContext::new();
        let path = ctx.paths.intern("file:///sim.trb".to_owned());
        let loc = Location::new(path, Span::new(0, 0));
        World { ctx, loc, types: vec![], ops: BTreeMap::new(), blocks: BTreeMap::new(), regions: BTreeMap::new(), interned: HashMap::new() }
    }
    fn live_ops(&self) -> Vec<OpRef> {
        self.ops.iter().filter(|(_, o)| !o.dead).map(|(&k, _)| k).collect()
    }
    fn live_blocks(&self) -> Vec<BlockRef> {
        self.blocks.iter().filter(|(_, b)| !b.dead).map(|(&k, _)| k).collect()
    }
    fn values(&self) -> Vec<ValueRef> {
        let mut v: Vec<ValueRef> = self.ops.values().filter(|o| !o.dead).flat_map(|o| o.results.iter().map(|r| r.0)).collect();
        v.extend(self.blocks.values().filter(|b| !b.dead).flat_map(|b| b.args.iter().map(|a| a.0)));
        v
    }
    /// Uses of every value by operations that exist.
    fn uses(&self) -> BTreeMap<ValueRef, BTreeSet<(OpRef, u32)>> {
        let mut m: BTreeMap<ValueRef, BTreeSet<(OpRef, u32)>> = BTreeMap::new();
        for (&o, d) in &self.ops {
            if !d.dead {
                for (i, &v) in d.operands.iter().enumerate() {
                    m.entry(v).or_default().insert((o, i as u32));
                }
            }
        }
        m
    }
    /// op and everything below it, in walk order.
    fn subtree(&self, op: OpRef) -> (Vec<OpRef>, Vec<BlockRef>, Vec<RegionRef>) {
        let (mut o, mut b, mut r) = (vec![op], vec![], vec![]);
        for &reg in &self.ops[&op].regions {
            r.push(reg);
            for &bl in &self.regions[&reg].blocks {
                b.push(bl);
                for &x in &self.blocks[&bl].ops {
                    let (o2, b2, r2) = self.subtree(x);
                    o.extend(o2);
                    b.extend(b2);
                    r.extend(r2);
                }
            }
        }
        (o, b, r)
    }
    fn check(&self, after: &str) {
        let c = &self.ctx;
        let uses = self.uses();
        let bad = |what: String| -> ! { violation("inconsistent", &format!("after {after}: {what}")) };
        for v in self.values() {
            let want = uses.get(&v).cloned().unwrap_or_default();
            let got: Vec<(OpRef, u32)> = c.uses(v).iter().map(|u| (u.user, u.operand_index)).collect();
            let set: BTreeSet<_> = got.iter().copied().collect();
            if set != want || set.len() != got.len() {
                bad(format!("{v} is used by {want:?}, its use list says {got:?}"));
            }
            if c.has_uses(v) == want.is_empty() {
                bad(format!("has_uses({v}) is {}", c.has_uses(v)));
            }
        }
        for (&o, d) in self.ops.iter().filter(|(_, d)| !d.dead) {
            if c.op_operands(o) != &d.operands[..] {
                bad(format!("operands of {o} are {:?}, expected {:?}", c.op_operands(o), d.operands));
            }
            let vals: Vec<ValueRef> = d.results.iter().map(|r| r.0).collect();
            let tys: Vec<TypeRef> = d.results.iter().map(|r| r.1).collect();
            if c.op_results(o) != &vals[..] || c.op_result_types(o) != &tys[..] {
                bad(format!("results of {o} are {:?}: {:?}, expected {:?}: {:?}", c.op_results(o), c.op_result_types(o), vals, tys));
            }
            for (i, &(v, t)) in d.results.iter().enumerate() {
                if !matches!(c.value_def(v), ValueDef::OpResult(p, k) if p == o && k == i as u32) || c.value_ty(v) != t {
                    bad(format!("{v} is result {i} of {o}, but the IR says {:?}: {:?}", c.value_def(v), c.value_ty(v)));
                }
            }
            let data = c.op(o);
            if data.parent_block != d.block || data.regions[..] != d.regions[..] || data.successors[..] != d.succ[..] {
                bad(format!("{o} sits in {:?} with regions {:?} and successors {:?}, expected {:?}, {:?}, {:?}", data.parent_block, data.regions, data.successors, d.block, d.regions, d.succ));
            }
            if data.name != d.name || data.attributes.get("k") != Some(&Attribute::Int(d.attr)) {
                bad(format!("{o} has name {} and attributes {:?}", data.name, data.attributes));
            }
        }
        for (&b, d) in self.blocks.iter().filter(|(_, d)| !d.dead) {
            let data = c.block(b);
            if data.ops[..] != d.ops[..] || data.parent_region != d.region {
                bad(format!("{b} holds {:?} in {:?}, expected {:?} in {:?}", data.ops, data.parent_region, d.ops, d.region));
            }
            let vals: Vec<ValueRef> = d.args.iter().map(|r| r.0).collect();
            if c.block_args(b) != &vals[..] || data.args.len() != vals.len() {
                bad(format!("arguments of {b} are {:?}, expected {vals:?}", c.block_args(b)));
            }
            for (i, &(v, t)) in d.args.iter().enumerate() {
                if !matches!(c.value_def(v), ValueDef::BlockArg(p, k) if p == b && k == i as u32) || c.value_ty(v) != t || data.args[i].ty != t {
                    bad(format!("{v} is argument {i} of {b}, but the IR says {:?}: {:?}", c.value_def(v), c.value_ty(v)));
                }
            }
        }
        for (&r, d) in self.regions.iter().filter(|(_, d)| !d.dead) {
            let data = c.region(r);
            if data.parent_op != d.owner || data.blocks[..] != d.blocks[..] {
                bad(format!("{r} belongs to {:?} with {:?}, expected {:?} with {:?}", data.parent_op, data.blocks, d.owner, d.blocks));
            }
        }
    }
    /// The walk of an operation visits it and everything inside, in order, and leaves out what it is told to.
    fn check_walk(&self, op: OpRef, skip: Option<OpRef>) {
        let mut got = vec![];
        let _ = trunk_ir::walk::walk_op::<()>(&self.ctx, op, &mut |o| {
            got.push(o);
            std::ops::ControlFlow::Continue(if Some(o) == skip { trunk_ir::WalkAction::Skip } else { trunk_ir::WalkAction::Advance })
        });
        let mut want = self.subtree(op).0;
        if let Some(s) = skip.filter(|s| want.contains(s)) {
            let gone = self.subtree(s).0;
            want.retain(|o| *o == s || !gone.contains(o));
        }
        if got != want {
            violation("bad-walk", &format!("walking {op} visits {got:?}, expected {want:?}"));
        }
    }
    fn ty(&mut self) -> TypeRef {
        // build a type; equal structure must give the same reference, different structure another one
        let n = ch().pick(3);
        let mut params = vec![];
        if !self.types.is_empty() {
            for _ in 0..ch().pick(3) {
                params.push(*ch().of(&self.types));
            }
        }
        let mut b = TypeDataBuilder::new(Symbol::new("sim"), Symbol::new(NAMES[n as usize]));
        for &p in &params {
            b = b.param(p);
        }
        let t = self.ctx.types.intern(b.build());
        match self.interned.get(&(n, params.clone())) {
            Some(&o) if o != t => violation("type-identity", "the same type was given two references"),
            Some(_) => {}
            None => {
                if self.interned.values().any(|&o| o == t) {
                    violation("type-identity", "two different types were given the same reference");
                }
                self.interned.insert((n, params), t);
                self.types.push(t);
            }
        }
        t
    }
    fn new_block(&mut self) -> BlockRef {
        let mut args = vec![];
        for _ in 0..ch().pick(3) {
            args.push(self.ty());
        }
        let b = self.ctx.create_block(BlockData { location: self.loc, args: args.iter().map(|&ty| BlockArgData { ty, attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None });
        let vals = self.ctx.block_args(b).to_vec();
        if vals.len() != args.len() {
            violation("inconsistent", "a block was created with the wrong number of arguments");
        }
        self.blocks.insert(b, MBlock { args: vals.into_iter().zip(args).collect(), ops: vec![], region: None, dead: false });
        b
    }
    fn new_region(&mut self, blocks: Vec<BlockRef>) -> RegionRef {
        let r = self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.iter().copied().collect(), parent_op: None });
        for b in &blocks {
            self.blocks.get_mut(b).unwrap().region = Some(r);
        }
        self.regions.insert(r, MRegion { blocks, owner: None, dead: false });
        r
    }
    fn create(&mut self) -> OpRef {
        let vals = self.values();
        let mut operands = vec![];
        if !vals.is_empty() {
            for _ in 0..ch().pick(4) {
                operands.push(*ch().of(&vals));
            }
        }
        let mut results = vec![];
        for _ in 0..ch().pick(3) {
            results.push(self.ty());
        }
        let mut regions = vec![];
        for _ in 0..ch().weighted(&[4, 2, 1]) {
            // a region made of free blocks, or an existing free region
            let free: Vec<RegionRef> = self.regions.iter().filter(|(r, d)| d.owner.is_none() && !d.dead && !regions.contains(*r)).map(|(&r, _)| r).collect();
            let r = if !free.is_empty() && ch().chance(1, 3) {
                *ch().of(&free)
            } else {
                let bs = (0..ch().range(1, 2)).map(|_| self.new_block()).collect();
                self.new_region(bs)
            };
            regions.push(r);
        }
        let mut succ = vec![];
        let bl = self.live_blocks();
        if !bl.is_empty() && ch().chance(1, 5) {
            succ.push(*ch().of(&bl));
        }
        let (name, attr) = (*ch().of(NAMES), ch().pick(100) as i128);
        let data = OperationDataBuilder::new(self.loc, Symbol::new("sim"), Symbol::new(name))
            .operands(operands.iter().copied())
            .results(results.iter().copied())
            .attr("k", Attribute::Int(attr));
        let data = regions.iter().fold(data, |d, &r| d.region(r));
        let data = succ.iter().fold(data, |d, &b| d.successor(b));
        let data = data.build(&mut self.ctx);
        let op = self.ctx.create_op(data);
        if self.ops.contains_key(&op) {
            violation("inconsistent", "a new operation has the identity of an existing one");
        }
        for r in &regions {
            self.regions.get_mut(r).unwrap().owner = Some(op);
        }
        let vals = self.ctx.op_results(op).to_vec();
        if vals.len() != results.len() {
            violation("inconsistent", "an operation was created with the wrong number of results");
        }
        self.ops.insert(op, MOp { operands, results: vals.into_iter().zip(results).collect(), regions, succ, attr, name, block: None, dead: false });
        op
    }
    /// Is block b inside op's subtree?
    fn inside(&self, op: OpRef, b: BlockRef) -> bool {
        self.subtree(op).1.contains(&b)
    }
    /// Mirror a clone of src (already made by the IR as `new`), following the mapping.
    fn adopt(&mut self, src: OpRef, new: OpRef, map: &mut BTreeMap<ValueRef, ValueRef>, bmap: &mut BTreeMap<BlockRef, BlockRef>, block: Option<BlockRef>) {
        let c = &self.ctx;
        let s = &self.ops[&src];
        let operands: Vec<ValueRef> = s.operands.iter().map(|v| *map.get(v).unwrap_or(v)).collect();
        let (name, attr) = (s.name, s.attr);
        let new_res = c.op_results(new).to_vec();
        let results: Vec<(ValueRef, TypeRef)> = new_res.iter().copied().zip(s.results.iter().map(|r| r.1)).collect();
        if new_res.len() != s.results.len() {
            violation("bad-clone", "a cloned operation has another number of results");
        }
        if self.ops.contains_key(&new) || new_res.iter().any(|v| self.values().contains(v)) {
            violation("bad-clone", "a clone shares identities with the original");
        }
        let src_regions = s.regions.clone();
        let old_res: Vec<ValueRef> = s.results.iter().map(|r| r.0).collect();
        let src_succ = s.succ.clone();
        let new_regions = c.op(new).regions.to_vec();
        if new_regions.len() != src_regions.len() {
            violation("bad-clone", "a cloned operation has another number of regions");
        }
        for (&a, &b) in src_regions.iter().zip(&new_regions) {
            self.adopt_region(a, b, map, bmap);
            self.regions.get_mut(&b).unwrap().owner = Some(new);
        }
        let succ = src_succ.iter().map(|b| *bmap.get(b).unwrap_or(b)).collect();
        for (o, n) in old_res.into_iter().zip(&new_res) {
            map.insert(o, *n);
        }
        self.ops.insert(new, MOp { operands, results, regions: new_regions, succ, attr, name, block, dead: false });
    }
    fn adopt_region(&mut self, src: RegionRef, new: RegionRef, map: &mut BTreeMap<ValueRef, ValueRef>, bmap: &mut BTreeMap<BlockRef, BlockRef>) {
        let sb = self.regions[&src].blocks.clone();
        let nb = self.ctx.region(new).blocks.to_vec();
        if sb.len() != nb.len() || self.regions.contains_key(&new) || nb.iter().any(|b| self.blocks.contains_key(b)) {
            violation("bad-clone", "a cloned region does not have fresh blocks of its own");
        }
        for (a, b) in sb.iter().zip(&nb) {
            let args: Vec<(ValueRef, TypeRef)> = self.ctx.block_args(*b).iter().copied().zip(self.blocks[a].args.iter().map(|x| x.1)).collect();
            if args.len() != self.blocks[a].args.len() {
                violation("bad-clone", "a cloned block has another number of arguments");
            }
            for (o, n) in self.blocks[a].args.iter().zip(&args) {
                map.insert(o.0, n.0);
            }
            bmap.insert(*a, *b);
            self.blocks.insert(*b, MBlock { args, ops: self.ctx.block(*b).ops.to_vec(), region: Some(new), dead: false });
        }
        self.regions.insert(new, MRegion { blocks: nb.clone(), owner: None, dead: false });
        for (a, b) in sb.iter().zip(&nb) {
            let (so, no) = (self.blocks[a].ops.clone(), self.blocks[b].ops.clone());
            if so.len() != no.len() {
                violation("bad-clone", "a cloned block has another number of operations");
            }
            for (x, y) in so.into_iter().zip(no) {
                self.adopt(x, y, map, bmap, Some(*b));
            }
        }
    }
    /// Every use inside the subtree of a value defined inside comes after its definition.
    fn ordered(&self, op: OpRef) -> bool {
        let (ops, blocks, _) = self.subtree(op);
        let mut later: BTreeSet<ValueRef> = ops.iter().flat_map(|o| self.ops[o].results.iter().map(|r| r.0)).collect();
        let _ = blocks;
        // operands are read before the regions, results are defined after them
        fn go(w: &World, op: OpRef, later: &mut BTreeSet<ValueRef>, args: &mut BTreeSet<ValueRef>) -> bool {
            if w.ops[&op].operands.iter().any(|v| later.contains(v) || args.contains(v)) {
                return false;
            }
            for r in &w.ops[&op].regions {
                for b in &w.regions[r].blocks {
                    for a in &w.blocks[b].args {
                        args.remove(&a.0);
                    }
                }
                for b in &w.regions[r].blocks {
                    for &x in &w.blocks[b].ops {
                        if !go(w, x, later, args) {
                            return false;
                        }
                    }
                }
            }
            for r in &w.ops[&op].results {
                later.remove(&r.0);
            }
            true
        }
        let mut args: BTreeSet<ValueRef> = blocks.iter().flat_map(|b| self.blocks[b].args.iter().map(|a| a.0)).collect();
        // successors into the subtree only from inside regions already seen
        go(self, op, &mut later, &mut args)
    }
}
fn refused(what: &str, f: impl FnOnce()) {
    stat("probe.refused_call");
    if catch(f).is_ok() {
        violation("not-refused", &format!("{what} was accepted"));
    }
}
pub fn c04() {
    let mut w = World::new();
    let top = w.new_block();
    let n = ch().range(3, 40);
    for step in 0..n {
        let ops = w.live_ops();
        let vals = w.values();
        let kind = ch().weighted(&[8, 5, 3, 3, 4, 3, 4, 5, 4, 2, 2, 1, 3, 2]);
        ev("edit", kind as u64, step as u64);
        let pick_op = |w: &World| -> Option<OpRef> {
            let v = w.live_ops();
            if v.is_empty() { None } else { Some(*ch().of(&v)) }
        };
        let what = match kind {
            0 => {
                let op = w.create();
                // mostly attached at once
                let b = w.live_blocks();
                let b = *ch().of(&b);
                if !w.inside(op, b) && !ch().chance(1, 5) {
                    w.ctx.push_op(b, op);
                    w.blocks.get_mut(&b).unwrap().ops.push(op);
                    w.ops.get_mut(&op).unwrap().block = Some(b);
                }
                "creating an operation"
            }
            1 => {
                // move or attach
                let Some(op) = pick_op(&w) else { continue };
                let bl = w.live_blocks();
                let b = *ch().of(&bl);
                if w.inside(op, b) {
                    continue;
                }
                if w.ops[&op].block.is_some() {
                    if ch().chance(1, 4) {
                        refused("attaching an operation that sits in a block", || w.ctx.push_op(b, op));
                        w.check("a refused attach");
                        continue;
                    }
                    let old = w.ops[&op].block.unwrap();
                    if ch().chance(1, 2) {
                        w.ctx.detach_op(op);
                    } else {
                        w.ctx.remove_op_from_block(old, op);
                    }
                    w.blocks.get_mut(&old).unwrap().ops.retain(|&o| o != op);
                    w.ops.get_mut(&op).unwrap().block = None;
                }
                let here = w.blocks[&b].ops.clone();
                if here.is_empty() || ch().chance(1, 2) {
                    w.ctx.push_op(b, op);
                    w.blocks.get_mut(&b).unwrap().ops.push(op);
                } else {
                    let i = ch().pick(here.len() as u32) as usize;
                    w.ctx.insert_op_before(b, here[i], op);
                    w.blocks.get_mut(&b).unwrap().ops.insert(i, op);
                }
                w.ops.get_mut(&op).unwrap().block = Some(b);
                "moving an operation"
            }
            2 => {
                let Some(op) = pick_op(&w) else { continue };
                w.ctx.detach_op(op);
                if let Some(b) = w.ops[&op].block {
                    w.blocks.get_mut(&b).unwrap().ops.retain(|&o| o != op);
                }
                w.ops.get_mut(&op).unwrap().block = None;
                "detaching an operation"
            }
            3 => {
                // erase (with everything inside)
                let Some(op) = pick_op(&w) else { continue };
                let (so, sb, sr) = w.subtree(op);
                let uses = w.uses();
                let used = |w: &World, v: ValueRef| uses.get(&v).is_some_and(|u| u.iter().any(|(x, _)| !so.contains(x) && !w.ops[x].dead));
                let own_used = w.ops[&op].results.iter().any(|r| uses.get(&r.0).is_some_and(|u| !u.is_empty()));
                let whole = !own_used && w.ops[&op].block.is_some() && ch().chance(1, 2);
                if (own_used || w.ops[&op].block.is_some()) && !whole {
                    refused("erasing an operation that is attached or used", || w.ctx.remove_op(op));
                    w.check("a refused erase");
                    continue;
                }
                let inner: Vec<ValueRef> = so.iter().flat_map(|o| w.ops[o].results.iter().map(|r| r.0)).chain(sb.iter().flat_map(|b| w.blocks[b].args.iter().map(|a| a.0))).collect();
                if inner.iter().any(|&v| used(&w, v)) || sb.contains(&top) {
                    continue;
                }
                // a successor from outside would dangle
                if w.ops.iter().any(|(o, d)| !d.dead && !so.contains(o) && d.succ.iter().any(|s| sb.contains(s))) {
                    continue;
                }
                if so.len() > 1 {
                    stat("probe.erase_subtree");
                }
                if whole {
                    erase_op(&mut w.ctx, op);
                    let b = w.ops[&op].block.unwrap();
                    w.blocks.get_mut(&b).unwrap().ops.retain(|&o| o != op);
                    w.ops.get_mut(&op).unwrap().block = None;
                } else {
                    w.ctx.remove_op(op);
                }
                for o in so {
                    w.ops.get_mut(&o).unwrap().dead = true;
                }
                for b in sb {
                    w.blocks.get_mut(&b).unwrap().dead = true;
                }
                for r in sr {
                    w.regions.get_mut(&r).unwrap().dead = true;
                }
                "erasing an operation"
            }
            4 => {
                let Some(op) = pick_op(&w) else { continue };
                let k = w.ops[&op].operands.len() as u32;
                if k == 0 || vals.is_empty() {
                    continue;
                }
                let (i, v) = (ch().pick(k), *ch().of(&vals));
                w.ctx.set_op_operand(op, i, v);
                w.ops.get_mut(&op).unwrap().operands[i as usize] = v;
                "setting an operand"
            }
            5 => {
                let Some(op) = pick_op(&w) else { continue };
                if vals.is_empty() {
                    continue;
                }
                let v = *ch().of(&vals);
                w.ctx.push_op_operand(op, v);
                w.ops.get_mut(&op).unwrap().operands.push(v);
                "adding an operand"
            }
            6 => {
                let Some(op) = pick_op(&w) else { continue };
                let k = w.ops[&op].operands.len() as u32;
                if k == 0 {
                    refused("removing an operand that is not there", || w.ctx.remove_op_operand(op, 0));
                } else {
                    let i = ch().pick(k);
                    w.ctx.remove_op_operand(op, i);
                    w.ops.get_mut(&op).unwrap().operands.remove(i as usize);
                    stat("probe.remove_operand");
                }
                "removing an operand"
            }
            7 => {
                if vals.is_empty() {
                    continue;
                }
                let (a, b) = (*ch().of(&vals), *ch().of(&vals));
                w.ctx.replace_all_uses(a, b);
                for d in w.ops.values_mut().filter(|d| !d.dead) {
                    for v in &mut d.operands {
                        if *v == a {
                            *v = b;
                        }
                    }
                }
                stat("probe.replace_all");
                "replacing all uses of a value"
            }
            8 => {
                let Some(op) = pick_op(&w) else { continue };
                if w.subtree(op).0.len() > 12 || !w.ordered(op) {
                    continue;
                }
                // some values mapped beforehand
                let (mut map, mut bmap) = (BTreeMap::new(), BTreeMap::new());
                let mut m = IrMapping::new();
                for _ in 0..if vals.is_empty() { 0 } else { ch().pick(3) } {
                    let (a, b) = (*ch().of(&vals), *ch().of(&vals));
                    m.map_value(a, b);
                    map.insert(a, b);
                }
                let into = if ch().chance(1, 2) {
                    let bl = w.live_blocks();
                    let b = *ch().of(&bl);
                    if w.inside(op, b) { None } else { Some(b) }
                } else {
                    None
                };
                if !w.ops[&op].regions.is_empty() {
                    stat("probe.clone_region");
                }
                let new = match into {
                    Some(b) => {
                        let new = w.ctx.clone_op_into_block(b, op, &mut m);
                        w.blocks.get_mut(&b).unwrap().ops.push(new);
                        new
                    }
                    None => w.ctx.clone_op(op, &mut m),
                };
                w.adopt(op, new, &mut map, &mut bmap, into);
                for (a, b) in &map {
                    if m.lookup_value(*a) != Some(*b) {
                        violation("bad-clone", "the mapping does not lead from the original's values to the clone's");
                    }
                }
                "cloning an operation"
            }
            9 => {
                let bl = w.live_blocks();
                let b = *ch().of(&bl);
                let ty = w.ty();
                let arg = BlockArgData { ty, attrs: Default::default() };
                if ch().chance(1, 2) {
                    let v = w.ctx.add_block_arg(b, arg);
                    w.blocks.get_mut(&b).unwrap().args.push((v, ty));
                } else {
                    let v = w.ctx.prepend_block_arg(b, arg);
                    w.blocks.get_mut(&b).unwrap().args.insert(0, (v, ty));
                }
                "adding a block argument"
            }
            10 => {
                let ty = w.ty();
                if ch().chance(1, 2) {
                    let bl = w.live_blocks();
                    let b = *ch().of(&bl);
                    let k = w.blocks[&b].args.len() as u32;
                    if k == 0 {
                        continue;
                    }
                    let i = ch().pick(k);
                    w.ctx.set_block_arg_type(b, i, ty);
                    w.blocks.get_mut(&b).unwrap().args[i as usize].1 = ty;
                } else {
                    let Some(op) = pick_op(&w) else { continue };
                    let k = w.ops[&op].results.len() as u32;
                    if k == 0 {
                        continue;
                    }
                    let i = ch().pick(k);
                    w.ctx.set_op_result_type(op, i, ty);
                    w.ops.get_mut(&op).unwrap().results[i as usize].1 = ty;
                }
                "changing a type"
            }
            12 => {
                // cut a block in two
                let cand: Vec<(BlockRef, OpRef)> = w.blocks.iter().filter(|(_, d)| !d.dead && d.region.is_some()).flat_map(|(&b, d)| d.ops.iter().map(move |&o| (b, o))).collect();
                if cand.is_empty() {
                    continue;
                }
                let (b, o) = *ch().of(&cand);
                if ch().chance(1, 6) {
                    if let Some(&(_, other)) = cand.iter().find(|c| c.0 != b) {
                        refused("cutting a block before an operation of another one", || {
                            split_block(&mut w.ctx, b, other);
                        });
                        w.check("a refused cut");
                        continue;
                    }
                }
                let i = w.blocks[&b].ops.iter().position(|&x| x == o).unwrap();
                let new = split_block(&mut w.ctx, b, o);
                if w.blocks.contains_key(&new) {
                    violation("inconsistent", "a new block has the identity of an existing one");
                }
                let tail = w.blocks.get_mut(&b).unwrap().ops.split_off(i);
                for x in &tail {
                    w.ops.get_mut(x).unwrap().block = Some(new);
                }
                let r = w.blocks[&b].region.unwrap();
                let bs = &mut w.regions.get_mut(&r).unwrap().blocks;
                let at = bs.iter().position(|&x| x == b).unwrap();
                bs.insert(at + 1, new);
                w.blocks.insert(new, MBlock { args: vec![], ops: tail, region: Some(r), dead: false });
                stat("probe.split_block");
                "cutting a block in two"
            }
            13 => {
                // move the blocks of one region into another that does not lie inside it
                let live: Vec<RegionRef> = w.regions.iter().filter(|(_, d)| !d.dead).map(|(&r, _)| r).collect();
                if live.is_empty() {
                    continue;
                }
                let (src, dst) = (*ch().of(&live), *ch().of(&live));
                let within = w.regions[&src].blocks.iter().flat_map(|b| w.blocks[b].ops.clone()).any(|o| w.subtree(o).2.contains(&dst));
                if within {
                    continue;
                }
                let here = w.regions[&dst].blocks.clone();
                let at = if here.is_empty() || ch().chance(1, 3) { here.len() } else { ch().pick(here.len() as u32) as usize };
                let moved = inline_region_blocks(&mut w.ctx, src, dst, here.get(at).copied());
                let want = if src == dst { vec![] } else { std::mem::take(&mut w.regions.get_mut(&src).unwrap().blocks) };
                if moved != want {
                    violation("inconsistent", &format!("moving the blocks {want:?} reported {moved:?}"));
                }
                for (i, b) in want.into_iter().enumerate() {
                    w.blocks.get_mut(&b).unwrap().region = Some(dst);
                    w.regions.get_mut(&dst).unwrap().blocks.insert(at + i, b);
                }
                stat("probe.move_blocks");
                "moving blocks between regions"
            }
            _ => {
                // move a region to a new owner
                let owned: Vec<RegionRef> = w.regions.iter().filter(|(_, d)| !d.dead && d.owner.is_some()).map(|(&r, _)| r).collect();
                if owned.is_empty() {
                    continue;
                }
                let r = *ch().of(&owned);
                let o = w.regions[&r].owner.unwrap();
                w.ctx.detach_region(r);
                w.regions.get_mut(&r).unwrap().owner = None;
                w.ops.get_mut(&o).unwrap().regions.retain(|x| *x != r);
                "detaching a region"
            }
        };
        let _ = ops;
        w.check(what);
        if ch().chance(1, 3)
            && let Some(op) = pick_op(&w)
        {
            w.check_walk(op, if ch().chance(1, 2) { pick_op(&w) } else { None });
        }
        if step >= 5 {
            runner::set_nontrivial();
        }
    }
}
