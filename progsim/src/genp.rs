//! Generates well-typed, terminating Tribute programs from the choice tape.
use crate::ast::*;
use simcore::tape::ch;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// weight of abilities and handlers
    pub effects: u32,
    pub io: bool,
    pub input: bool,
    /// upper bound for generated expression nodes
    pub size: i32,
    /// loop bound
    pub loops: u32,
    /// Wasm subset: no lists, no input
    pub wasm: bool,
    /// functions handing their arguments around; with `wasm`: function values all the same
    pub fns: bool,
    pub panics: bool,
    /// also language features the compiler is known to reject or mistranslate
    pub wide: bool,
    pub small: bool,
}
#[derive(Clone)]
struct Cx {
    vars: Vec<(V, Ty)>,
    abs: Vec<usize>,
    io: bool,
    /// inside a handler arm: (what resume takes, what it gives)
    resume: Option<(Ty, Ty)>,
}
pub struct Gen {
    pub p: Prog,
    nv: V,
    fuel: i32,
    cfg: Cfg,
    /// per function: type parameters and how to call it
    sigs: Vec<Sig>,
    reads: u32,
    /// variables whose types the compiler does not know while it resolves methods
    soft: std::collections::HashSet<V>,
}
#[derive(Clone)]
struct Sig {
    params: Vec<Ty>,
    ret: Ty,
    eff: Eff,
    tvars: u8,
    /// parameters that must be small Nat literals (recursion counters)
    counter: Vec<usize>,
    hidden: bool,
}
const WORDS: [&str; 14] = ["", "a", "bc", "x y", "é", "日本", "q\"q", "tab\t", "back\\", "0", "-7", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "line", "🎈"];
const NUMS: [&str; 16] = ["0", "-0", "+7", "2147483647", "2147483648", "-2147483648", "-2147483649", "00012", "12a", "", "-", "+", "99999999999999", "-1", "4 2", "-21474836480"];

pub fn generate(cfg: Cfg) -> Prog {
    let cfg_wide = cfg.wide;
    let mut g = Gen { p: Prog::default(), nv: 0, fuel: cfg.size, cfg, sigs: vec![], reads: 0, soft: Default::default() };
    g.types();
    g.abilities();
    let nf = 1 + ch().pick(5);
    for _ in 0..nf {
        g.function();
    }
    g.main();
    if !cfg_wide {
        crate::lift::lift(&mut g.p);
    }
    g.p
}
impl Gen {
    fn v(&mut self) -> V {
        self.nv += 1;
        self.nv
    }
    // ---------------------------------------------------------------- declarations
    fn types(&mut self) {
        let n = ch().pick(4);
        for i in 0..n as usize {
            let c = ch();
            let nparams = if self.cfg.wide { c.weighted(&[4, 2, 1]) as u8 } else { 0 };
            let kind = if !self.cfg.wasm && c.chance(1, 2) {
                let nf = 1 + ch().pick(3);
                let names = ["fa", "fb", "fc", "fd"];
                Kind::Struct((0..nf).map(|j| (names[j as usize].to_string(), if self.cfg.wide { self.field_ty(nparams) } else { ch().of(&[Ty::Nat, Ty::Int, Ty::Bool, Ty::Float, Ty::Bytes]).clone() })).collect())
            } else {
                let nv = 1 + ch().pick(4);
                let rec = ch().chance(1, 2);
                let me = Ty::User(i, (0..nparams).map(Ty::Var).collect());
                Kind::Enum(
                    (0..nv)
                        .map(|k| {
                            let na = if k == 0 && rec { ch().pick(2) } else { ch().pick(4) };
                            let a = (0..na).map(|_| if k > 0 && rec && ch().chance(1, 2) { me.clone() } else { self.field_ty(nparams) }).collect();
                            (format!("C{i}{}", ['A', 'B', 'C', 'D'][k as usize]), a)
                        })
                        .collect(),
                )
            };
            // fields of a struct inside a module cannot be read from outside it
            let module = (!self.cfg.wasm && matches!(kind, Kind::Enum(_)) && ch().chance(1, 5)).then(|| format!("m{i}"));
            self.p.tys.push(UserTy { name: format!("T{i}"), nparams, kind, module });
        }
    }
    fn field_ty(&mut self, nparams: u8) -> Ty {
        if nparams > 0 && ch().chance(1, 2) {
            return Ty::Var(ch().pick(nparams as u32) as u8);
        }
        self.ty(1)
    }
    /// A first-order type.
    fn ty(&mut self, d: u32) -> Ty {
        let c = ch();
        let nl = if self.cfg.wasm { 0 } else { 3 };
        let wasm = self.cfg.wasm;
        let base = |g: &mut Gen| match ch().weighted(&if wasm { [6, 4, 4, 3, 0, 0] } else { [6, 4, 4, 3, 1, 1] }) {
            0 => Ty::Nat,
            1 => Ty::Str,
            2 => Ty::Int,
            3 => Ty::Bool,
            4 => {
                let _ = g;
                Ty::Bytes
            }
            _ => Ty::Float,
        };
        if d == 0 {
            return base(self);
        }
        let nu = if self.p.tys.is_empty() { 0 } else { 5 };
        let nw = if self.cfg.wasm { 0 } else { 2 };
        match c.weighted(&[8, nl, nw, nw, nw, nu]) {
            0 => base(self),
            1 => Ty::List(Rc::new(self.ty(d - 1))),
            2 => Ty::Opt(Rc::new(self.ty(d - 1))),
            3 => Ty::Res(Rc::new(self.ty(d - 1)), Rc::new(self.ty(0))),
            4 => {
                let n = 2 + ch().pick(2);
                Ty::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            _ => {
                let i = ch().pick(self.p.tys.len() as u32) as usize;
                let n = self.p.tys[i].nparams;
                Ty::User(i, (0..n).map(|_| self.ty(d - 1)).collect())
            }
        }
    }
    /// The argument of a parametrised ability.
    fn state_ty(&mut self) -> Ty {
        for _ in 0..8 {
            let t = self.ty(0);
            if self.cfg.wide || t != Ty::Nil {
                return t;
            }
        }
        Ty::Str
    }
    fn abilities(&mut self) {
        // the built-in ones first
        self.p.abs.push(Ability { name: "Abort".into(), ops: vec![OpDecl { name: "abort".into(), is_fn: false, params: vec![], ret: Ty::Never }], builtin: true, targ: None });
        let t = self.state_ty();
        self.p.abs.push(Ability { name: "Throw".into(), ops: vec![OpDecl { name: "throw".into(), is_fn: false, params: vec![t.clone()], ret: Ty::Never }], builtin: true, targ: Some(t) });
        let n = ch().pick(if self.cfg.effects > 0 { 4 } else { 1 });
        for i in 0..n {
            // a parametrised ability declares its state type once
            let targ = ch().chance(1, 3).then(|| self.state_ty());
            let no = 1 + ch().pick(3);
            let mut ops = vec![];
            for j in 0..no {
                let is_fn = ch().chance(1, 3);
                let np = ch().weighted(&[4, 4, 1]);
                let tt = |g: &mut Gen| match &targ {
                    Some(t) if ch().chance(1, 2) => t.clone(),
                    _ => g.ty(if ch().chance(1, 3) { 1 } else { 0 }),
                };
                let params = (0..np).map(|_| tt(self)).collect();
                let ret = match ch().weighted(&[6, 2, 1]) {
                    0 => tt(self),
                    1 => Ty::Nil,
                    _ if !is_fn => Ty::Never,
                    _ => tt(self),
                };
                ops.push(OpDecl { name: format!("o{j}"), is_fn, params, ret });
            }
            self.p.abs.push(Ability { name: format!("A{i}"), ops, builtin: false, targ });
        }
    }
    fn some_abs(&mut self, max: u32) -> Vec<usize> {
        let mut v = vec![];
        if self.cfg.effects == 0 {
            return v;
        }
        for _ in 0..ch().pick(max + 1) {
            let a = ch().pick(self.p.abs.len() as u32) as usize;
            if !v.contains(&a) {
                v.push(a);
            }
        }
        v
    }
    fn add_fun(&mut self, params: Vec<(V, Ty)>, ret: Ty, eff: Eff, body: E, sig: Sig) -> usize {
        let i = self.p.funs.len();
        self.p.funs.push(Fun { name: format!("g{i}"), params, ret, eff, body, bare: false });
        self.sigs.push(sig);
        i
    }
    fn eff_of(&mut self) -> Eff {
        Eff { abs: self.some_abs(2), io: self.cfg.io && ch().chance(1, 3), poly: false }
    }
    fn function(&mut self) {
        let lists = if self.cfg.wasm { 0 } else { 3 };
        let hnd = if self.cfg.effects > 0 && self.p.abs.len() > 2 { 3 * self.cfg.effects } else { 0 };
        let nw = if self.cfg.wasm { 0 } else { 2 };
        let mk = if self.cfg.wasm && !self.cfg.fns { 0 } else { 2 };
        let sh = if self.cfg.fns { 3 } else { 0 };
        match ch().weighted(&[6, 3, 2, lists, lists, lists, nw, hnd, mk, 2, sh]) {
            0 => self.f_plain(),
            1 => self.f_count(true),
            2 => self.f_count(false),
            3 => self.f_fold(),
            4 => self.f_map(),
            5 => self.f_range(),
            6 => self.f_generic(),
            7 => self.f_handler(),
            8 => self.f_closure_maker(),
            9 => self.f_tree(),
            _ => self.f_shuffle(),
        }
    }
    fn cx(&self, params: &[(V, Ty)], eff: &Eff) -> Cx {
        Cx { vars: params.to_vec(), abs: eff.abs.clone(), io: eff.io, resume: None }
    }
    fn f_plain(&mut self) {
        let n = ch().pick(4);
        let params: Vec<(V, Ty)> = (0..n).map(|_| (self.v(), self.ty(2))).collect();
        let ret = self.ty(2);
        let eff = self.eff_of();
        let cx = self.cx(&params, &eff);
        let body = self.body(&ret, &cx, 4);
        let sig = Sig { params: params.iter().map(|p| p.1.clone()).collect(), ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    /// Counting recursion, with the recursive call in tail position or under an operator.
    fn f_count(&mut self, tail: bool) {
        let me = self.p.funs.len();
        let n = self.v();
        let acc = self.v();
        let ret = self.ty(if ch().chance(1, 3) { 2 } else { 1 });
        let eff = self.eff_of();
        let params = vec![(n, Ty::Nat), (acc, ret.clone())];
        let cx = self.cx(&params, &eff);
        let dec = E::Bin(Op::Sub, Box::new(E::Var(n)), Box::new(E::Nat(1)));
        let step = if tail {
            let e = self.body(&ret, &cx, 3);
            match e {
                E::Block(st, t) => E::Block(st, Box::new(E::Call(me, vec![dec, *t]))),
                e => E::Call(me, vec![dec, e]),
            }
        } else {
            let r = self.v();
            let first = self.expr(&ret, &cx, 2);
            let mut cx2 = cx.clone();
            cx2.vars.push((r, ret.clone()));
            let rest = self.expr(&ret, &cx2, 3);
            E::Block(Rc::new(vec![Stmt::Let(Pat::Var(r), E::Call(me, vec![dec, first]))]), Box::new(rest))
        };
        let arms = vec![Arm { pat: Pat::Nat(0), branches: vec![(None, E::Var(acc))] }, Arm { pat: Pat::Wild, branches: vec![(None, step)] }];
        let body = E::Case(Box::new(E::Var(n)), Rc::new(arms));
        let sig = Sig { params: vec![Ty::Nat, ret.clone()], ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![0], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    /// A loop that hands its arguments around, dropping some and repeating others.
    fn f_shuffle(&mut self) {
        let me = self.p.funs.len();
        let n = self.v();
        let ts = [self.ty(2), self.ty(1)];
        let ret = ts[0].clone();
        let eff = self.eff_of();
        let mut params = vec![(n, Ty::Nat), (self.v(), ret.clone())];
        for _ in 0..1 + ch().pick(4) {
            params.push((self.v(), ch().of(&ts).clone()));
        }
        let cx = self.cx(&params, &eff);
        let mut args = vec![E::Bin(Op::Sub, Box::new(E::Var(n)), Box::new(E::Nat(1)))];
        for (_, t) in &params[1..] {
            let same: Vec<V> = params[1..].iter().filter(|p| p.1 == *t).map(|p| p.0).collect();
            args.push(if ch().chance(1, 8) { self.expr(t, &cx, 2) } else { E::Var(*ch().of(&same)) });
        }
        let mut step = E::Call(me, args);
        if ch().chance(1, 3) {
            let c = self.expr(&Ty::Bool, &cx, 2);
            let other = self.leaf(&ret, &cx);
            step = E::Case(Box::new(c), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, step)] }, Arm { pat: Pat::Wild, branches: vec![(None, other)] }]));
        }
        let last = self.body(&ret, &cx, 2);
        let arms = vec![Arm { pat: Pat::Nat(0), branches: vec![(None, last)] }, Arm { pat: Pat::Wild, branches: vec![(None, step)] }];
        let body = E::Case(Box::new(E::Var(n)), Rc::new(arms));
        let sig = Sig { params: params.iter().map(|p| p.1.clone()).collect(), ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![0], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    fn f_fold(&mut self) {
        let me = self.p.funs.len();
        let el = self.ty(1);
        let ret = self.ty(1);
        let eff = self.eff_of();
        let (xs, acc, h, t) = (self.v(), self.v(), self.v(), self.v());
        let params = vec![(xs, Ty::List(Rc::new(el.clone()))), (acc, ret.clone())];
        let mut cx = self.cx(&params, &eff);
        cx.vars.push((h, el.clone()));
        cx.vars.push((t, params[0].1.clone()));
        let fwd = ch().chance(2, 3);
        let step = if fwd {
            let e = self.expr(&ret, &cx, 3);
            E::Call(me, vec![E::Var(t), e])
        } else {
            let r = self.v();
            cx.vars.push((r, ret.clone()));
            let e = self.expr(&ret, &cx, 3);
            E::Block(Rc::new(vec![Stmt::Let(Pat::Var(r), E::Call(me, vec![E::Var(t), E::Var(acc)]))]), Box::new(e))
        };
        let mut arms = vec![Arm { pat: Pat::List(vec![], None), branches: vec![(None, E::Var(acc))] }, Arm { pat: Pat::List(vec![Pat::Var(h)], Some(Some(t))), branches: vec![(None, step)] }];
        if ch().chance(1, 3) {
            arms.swap(0, 1);
        }
        let body = E::Case(Box::new(E::Var(xs)), Rc::new(arms));
        let sig = Sig { params: params.iter().map(|p| p.1.clone()).collect(), ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    /// fn map(xs: List(a), f: fn(a) ->{e} b) ->{e} List(b)
    fn f_map(&mut self) {
        let me = self.p.funs.len();
        let eff = Eff { abs: vec![], io: false, poly: true };
        let (xs, f, h, t, y) = (self.v(), self.v(), self.v(), self.v(), self.v());
        let (la, lb) = (Ty::List(Rc::new(Ty::Var(0))), Ty::List(Rc::new(Ty::Var(1))));
        let fty = Ty::Fn(vec![Ty::Var(0)], eff.clone(), Rc::new(Ty::Var(1)));
        let params = vec![(xs, la.clone()), (f, fty.clone())];
        let order = ch().chance(1, 2);
        let rec = E::Call(me, vec![E::Var(t), E::Var(f)]);
        let call = E::CallV(f, vec![E::Var(h)]);
        let step = if order {
            E::Block(Rc::new(vec![Stmt::Let(Pat::Var(y), call)]), Box::new(E::Prim(B::Prepend, vec![E::Var(y), rec])))
        } else {
            E::Prim(B::Prepend, vec![call, rec])
        };
        let arms = vec![Arm { pat: Pat::List(vec![], None), branches: vec![(None, E::List(vec![]))] }, Arm { pat: Pat::List(vec![Pat::Var(h)], Some(Some(t))), branches: vec![(None, step)] }];
        let body = E::Case(Box::new(E::Var(xs)), Rc::new(arms));
        let sig = Sig { params: vec![la, fty], ret: lb.clone(), eff: eff.clone(), tvars: 2, counter: vec![], hidden: false };
        self.add_fun(params, lb, eff, body, sig);
    }
    fn f_range(&mut self) {
        let me = self.p.funs.len();
        let el = self.ty(1);
        let eff = self.eff_of();
        let n = self.v();
        let params = vec![(n, Ty::Nat)];
        let cx = self.cx(&params, &eff);
        let e = self.expr(&el, &cx, 3);
        let ret = Ty::List(Rc::new(el));
        let dec = E::Bin(Op::Sub, Box::new(E::Var(n)), Box::new(E::Nat(1)));
        let arms = vec![
            Arm { pat: Pat::Nat(0), branches: vec![(None, E::List(vec![]))] },
            Arm { pat: Pat::Wild, branches: vec![(None, E::Prim(B::Prepend, vec![e, E::Call(me, vec![dec])]))] },
        ];
        let body = E::Case(Box::new(E::Var(n)), Rc::new(arms));
        let sig = Sig { params: vec![Ty::Nat], ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![0], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    /// Small generic and higher-order functions.
    fn f_generic(&mut self) {
        let a = Ty::Var(0);
        let b = Ty::Var(1);
        let pol = Eff { abs: vec![], io: false, poly: true };
        let (x, y, f) = (self.v(), self.v(), self.v());
        let (params, ret, eff, body, tv): (Vec<(V, Ty)>, Ty, Eff, E, u8) = match ch().pick(6) {
            0 => (vec![(x, a.clone())], a.clone(), Eff::default(), E::Var(x), 1),
            1 => (vec![(x, a.clone()), (y, b.clone())], Ty::Tup(vec![b.clone(), a.clone()]), Eff::default(), E::Tup(vec![E::Var(y), E::Var(x)]), 2),
            2 => (vec![(f, Ty::Fn(vec![a.clone()], pol.clone(), Rc::new(a.clone()))), (x, a.clone())], a.clone(), pol.clone(), E::Block(Rc::new(vec![Stmt::Let(Pat::Var(y), E::CallV(f, vec![E::Var(x)]))]), Box::new(E::CallV(f, vec![E::Var(y)]))), 1),
            3 => (vec![(f, Ty::Fn(vec![], pol.clone(), Rc::new(a.clone())))], Ty::Tup(vec![a.clone(), a.clone()]), pol.clone(), E::Tup(vec![E::CallV(f, vec![]), E::CallV(f, vec![])]), 1),
            4 => (vec![(x, Ty::Bool), (f, a.clone()), (y, a.clone())], a.clone(), Eff::default(), E::Case(Box::new(E::Var(x)), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, E::Var(f))] }, Arm { pat: Pat::Bool(false), branches: vec![(None, E::Var(y))] }])), 1),
            _ => {
                let z = self.v();
                (
                    vec![(x, Ty::Opt(Rc::new(a.clone()))), (f, Ty::Fn(vec![a.clone()], pol.clone(), Rc::new(b.clone())))],
                    Ty::Opt(Rc::new(b.clone())),
                    pol.clone(),
                    E::Case(
                        Box::new(E::Var(x)),
                        Rc::new(vec![
                            Arm { pat: Pat::Ctor(CtorOf::Opt, 1, vec![Pat::Var(z)]), branches: vec![(None, E::Ctor(CtorOf::Opt, 1, vec![E::CallV(f, vec![E::Var(z)])]))] },
                            Arm { pat: Pat::Ctor(CtorOf::Opt, 0, vec![]), branches: vec![(None, E::Ctor(CtorOf::Opt, 0, vec![]))] },
                        ]),
                    ),
                    2,
                )
            }
        };
        let sig = Sig { params: params.iter().map(|p| p.1.clone()).collect(), ret: ret.clone(), eff: eff.clone(), tvars: tv, counter: vec![], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    /// fn run(f: fn() ->{e, A} T, s: S) ->{e} R with state threaded by re-handling, or a plain handler.
    fn f_handler(&mut self) {
        let me = self.p.funs.len();
        let ab = 2 + ch().pick(self.p.abs.len() as u32 - 2) as usize;
        let t = self.ty(1);
        let rehandle = ch().chance(1, 2);
        let io = self.cfg.wide && self.cfg.io && ch().chance(1, 3);
        let (f, s) = (self.v(), self.v());
        let outer = Eff { abs: vec![], io, poly: true };
        let inner = Eff { abs: vec![ab], io, poly: true };
        let fty = Ty::Fn(vec![], inner, Rc::new(t.clone()));
        let sty = self.p.abs[ab].targ.clone().unwrap_or_else(|| self.ty(1));
        let params = vec![(f, fty.clone()), (s, sty.clone())];
        let ret = if rehandle || ch().chance(1, 2) { t.clone() } else { self.ty(1) };
        let cx = Cx { vars: vec![(s, sty.clone())], abs: vec![], io, resume: None };
        let with_done = !(ret == t && ch().chance(1, 2) && !rehandle);
        let never = self.p.abs[ab].ops.iter().any(|o| o.ret == Ty::Never);
        let nontail = self.arm_shapes(with_done, never, &ret);
        let mut arms = vec![];
        for (oi, o) in self.p.abs[ab].ops.clone().iter().enumerate() {
            let ps: Vec<V> = o.params.iter().map(|_| self.v()).collect();
            let mut c2 = cx.clone();
            for (v, t) in ps.iter().zip(&o.params) {
                c2.vars.push((*v, t.clone()));
            }
            let body = if o.is_fn {
                self.expr(&o.ret, &c2, 2)
            } else if o.ret == Ty::Never {
                self.expr(&ret, &c2, 2)
            } else if rehandle {
                // run(fn() { resume X }, new state)
                let val = self.expr(&o.ret, &c2, 2);
                let st = self.expr(&sty, &c2, 2);
                let again = E::Call(me, vec![E::Lam(Rc::new(Lam { params: vec![], annotate: false, body: E::Resume(Box::new(val)) })), st]);
                match ch().weighted(&[5, if self.cfg.wide { 1 } else { 0 }]) {
                    0 => again,
                    _ => {
                        let r = self.v();
                        let mut c3 = c2.clone();
                        c3.vars.push((r, ret.clone()));
                        let tail = self.expr(&ret, &c3, 2);
                        E::Block(Rc::new(vec![Stmt::Let(Pat::Var(r), again)]), Box::new(tail))
                    }
                }
            } else {
                self.arm_body(&o.ret, &ret, &c2, nontail)
            };
            arms.push(HArm { ab, op: oi, as_fn: o.is_fn, params: ps, body });
        }
        let done = if !with_done {
            None
        } else {
            let v = self.v();
            if rehandle && (!self.cfg.wide || ch().chance(2, 3)) {
                Some((v, E::Var(v)))
            } else {
                let mut c2 = cx.clone();
                c2.vars.push((v, t.clone()));
                Some((v, self.expr(&ret, &c2, 2)))
            }
        };
        let body = E::Handle(Rc::new(Handle { body: E::CallV(f, vec![]), done, arms, at: None }));
        let sig = Sig { params: vec![fty, sty], ret: ret.clone(), eff: outer.clone(), tvars: 0, counter: vec![], hidden: false };
        self.add_fun(params, ret, outer, body, sig);
    }
    /// fn make(x: T) -> fn(U) -> R
    fn f_closure_maker(&mut self) {
        let (x, y) = (self.v(), self.v());
        let (t, u, r) = (self.ty(1), self.ty(1), self.ty(1));
        let eff = Eff::default();
        let cx = Cx { vars: vec![(x, t.clone()), (y, u.clone())], abs: vec![], io: false, resume: None };
        let body = self.expr(&r, &cx, 3);
        let ret = Ty::Fn(vec![u.clone()], eff.clone(), Rc::new(r));
        let lam = E::Lam(Rc::new(Lam { params: vec![(y, u)], annotate: ch().chance(1, 2), body }));
        let sig = Sig { params: vec![t.clone()], ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![], hidden: false };
        self.add_fun(vec![(x, t)], ret, eff, lam, sig);
    }
    /// Structural recursion over a user enum.
    fn f_tree(&mut self) {
        let me = self.p.funs.len();
        let enums: Vec<usize> = (0..self.p.tys.len()).filter(|&i| matches!(self.p.tys[i].kind, Kind::Enum(_))).collect();
        if enums.is_empty() {
            return self.f_plain();
        }
        let i = *ch().of(&enums);
        let args: Vec<Ty> = (0..self.p.tys[i].nparams).map(|_| self.ty(0)).collect();
        let ty = Ty::User(i, args.clone());
        let x = self.v();
        let ret = self.ty(1);
        let eff = self.eff_of();
        let params = vec![(x, ty.clone())];
        let cx = self.cx(&params, &eff);
        let Kind::Enum(vs) = self.p.tys[i].kind.clone() else { unreachable!() };
        let mut arms = vec![];
        for (k, (_, fs)) in vs.iter().enumerate() {
            let mut c2 = cx.clone();
            let mut pats = vec![];
            let mut lets = vec![];
            for f in fs {
                let v = self.v();
                let t = subst(f, &args);
                pats.push(Pat::Var(v));
                if t == ty {
                    let r = self.v();
                    lets.push(Stmt::Let(Pat::Var(r), E::Call(me, vec![E::Var(v)])));
                    c2.vars.push((r, ret.clone()));
                } else {
                    c2.vars.push((v, t));
                }
            }
            let e = self.expr(&ret, &c2, 2);
            let b = if lets.is_empty() { e } else { E::Block(Rc::new(lets), Box::new(e)) };
            arms.push(Arm { pat: Pat::Ctor(CtorOf::User(i), k, pats), branches: vec![(None, b)] });
        }
        if vs.len() == 1 {
            let e = self.leaf(&ret, &cx);
            arms.push(Arm { pat: Pat::Wild, branches: vec![(None, e)] });
        }
        let body = E::Case(Box::new(E::Var(x)), Rc::new(arms));
        let sig = Sig { params: vec![ty], ret: ret.clone(), eff: eff.clone(), tvars: 0, counter: vec![], hidden: false };
        self.add_fun(params, ret, eff, body, sig);
    }
    fn main(&mut self) {
        let n = 2 + ch().pick(5);
        let mut cx = Cx { vars: vec![], abs: vec![], io: true, resume: None };
        let mut st = vec![];
        for i in 0..n {
            if self.fuel < self.cfg.size / 4 {
                self.fuel = self.cfg.size / 4;
            }
            let s = self.stmt(&mut cx, if i == 0 { 4 } else { 5 });
            st.extend(s);
        }
        self.p.main = st;
    }
    /// One or two statements for a Nil-returning Io context that end up observable.
    fn stmt(&mut self, cx: &mut Cx, d: u32) -> Vec<Stmt> {
        let t = self.ty(2);
        match ch().weighted(&[5, 3, if self.cfg.wasm { 0 } else { 2 }, 2, if self.cfg.wasm { 0 } else { 3 }]) {
            4 => {
                let from = cx.vars.len();
                let mut r = self.reuse(cx, d);
                let new: Vec<(V, Ty)> = cx.vars[from..].iter().filter(|(_, t)| !matches!(t, Ty::Fn(..))).cloned().collect();
                for (v, t) in new {
                    if ch().chance(1, 2) {
                        r.push(Stmt::Do(self.print(E::Show(t, Box::new(E::Var(v))))));
                    }
                }
                r
            }
            0 => {
                let e = self.expr(&t, cx, d);
                vec![Stmt::Do(self.print(E::Show(t, Box::new(e))))]
            }
            1 => {
                let e = self.expr(&t, cx, d);
                let e = self.scrut(&t, e);
                let v = self.v();
                cx.vars.push((v, t.clone()));
                let mut r = vec![Stmt::Let(Pat::Var(v), e)];
                if ch().chance(2, 3) {
                    r.push(Stmt::Do(self.print(E::Show(t, Box::new(E::Var(v))))));
                }
                r
            }
            2 => {
                let ts = vec![self.ty(1), self.ty(1)];
                let tt = Ty::Tup(ts.clone());
                let e = self.expr(&tt, cx, d);
                let e = self.scrut(&tt, e);
                let ps: Vec<Pat> = ts
                    .iter()
                    .map(|t| {
                        if ch().chance(1, 5) {
                            Pat::Wild
                        } else {
                            let v = self.v();
                            cx.vars.push((v, t.clone()));
                            Pat::Var(v)
                        }
                    })
                    .collect();
                vec![Stmt::Let(Pat::Tup(ps), e)]
            }
            _ => {
                let e = self.expr(&Ty::Nil, cx, d);
                vec![Stmt::Do(e)]
            }
        }
    }
    fn print(&mut self, e: E) -> E {
        let b = match ch().weighted(&[6, 2, if self.cfg.wasm { 0 } else { 1 }, if self.cfg.wasm { 0 } else { 1 }]) {
            0 => B::PrintLine,
            1 => B::Print,
            2 => B::LegacyPrintLine,
            _ => B::LegacyPrint,
        };
        E::Prim(b, vec![e])
    }
    // ---------------------------------------------------------------- expressions
    fn body(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        let n = ch().weighted(&[4, 2, 1]);
        if n == 0 {
            return self.expr(t, cx, d);
        }
        self.block(t, cx, d, n)
    }
    fn block(&mut self, t: &Ty, cx: &Cx, d: u32, n: usize) -> E {
        let mut cx = cx.clone();
        let mut st = vec![];
        for _ in 0..n {
            match ch().weighted(&[6, if cx.io { 2 } else { 0 }, if self.cfg.wasm { 0 } else { 1 }, if self.cfg.wasm { 0 } else { 1 }, if self.cfg.wasm { 0 } else { 3 }]) {
                4 => st.extend(self.reuse(&mut cx, d.saturating_sub(1))),
                0 => {
                    let ty = self.ty(1);
                    let e = self.expr(&ty, &cx, d.saturating_sub(1));
                    let e = self.scrut(&ty, e);
                    let v = self.v();
                    cx.vars.push((v, ty));
                    st.push(Stmt::Let(Pat::Var(v), e));
                }
                1 => {
                    let e = self.expr(&Ty::Nil, &cx, d.saturating_sub(1));
                    st.push(Stmt::Do(e));
                }
                2 => {
                    // an irrefutable struct or tuple pattern
                    let ts = vec![self.ty(0), self.ty(1)];
                    let tt = Ty::Tup(ts.clone());
                    let e = self.expr(&tt, &cx, d.saturating_sub(1));
                    let e = self.scrut(&tt, e);
                    let ps = ts
                        .into_iter()
                        .map(|t| {
                            let v = self.v();
                            cx.vars.push((v, t));
                            Pat::Var(v)
                        })
                        .collect();
                    st.push(Stmt::Let(Pat::Tup(ps), e));
                }
                _ => {
                    let (f, fty) = self.lambda_value(&cx, d.saturating_sub(1));
                    let v = self.v();
                    cx.vars.push((v, fty));
                    st.push(Stmt::Let(Pat::Var(v), f));
                }
            }
        }
        let e = self.expr(t, &cx, d.saturating_sub(1));
        E::Block(Rc::new(st), Box::new(e))
    }
    /// One value used several times in a row: passed, stored, captured, taken apart.
    fn reuse(&mut self, cx: &mut Cx, d: u32) -> Vec<Stmt> {
        let mut st = vec![];
        let old: Vec<(V, Ty)> = cx.vars.iter().filter(|(_, t)| !matches!(t, Ty::Nat | Ty::Int | Ty::Bool | Ty::Float | Ty::Nil | Ty::Fn(..) | Ty::Var(_) | Ty::Never)).cloned().collect();
        let (a, t) = if !old.is_empty() && ch().chance(1, 3) {
            old[ch().pick(old.len() as u32) as usize].clone()
        } else {
            let t = match ch().weighted(&[3, 2, 2]) {
                0 => Ty::Tup(vec![self.ty(0), self.ty(1)]),
                1 => Ty::Str,
                _ => self.ty(2),
            };
            let e = self.specific(&t, cx, d.max(1));
            let e = self.scrut(&t, e);
            let a = self.v();
            st.push(Stmt::Let(Pat::Var(a), e));
            cx.vars.push((a, t.clone()));
            (a, t)
        };
        for _ in 0..2 + ch().pick(3) {
            let fs: Vec<(usize, usize)> = self
                .sigs
                .iter()
                .enumerate()
                .filter(|(_, s)| !s.hidden && s.tvars == 0 && s.ret != Ty::Nil && s.eff == Eff::default())
                .flat_map(|(i, s)| s.params.iter().enumerate().filter(|(j, p)| **p == t && !s.counter.contains(j)).map(move |(j, _)| (i, j)))
                .collect();
            let tup = if let Ty::Tup(ts) = &t { Some(ts.clone()) } else { None };
            let w = [if fs.is_empty() { 0 } else { 4 }, 2, if tup.is_some() { 3 } else { 0 }, 1, 1, 1, 3, 2];
            let (ty, e) = match ch().weighted(&w) {
                6 => {
                    // one of two live values, by a condition
                    let c = self.expr(&Ty::Bool, cx, 1);
                    let c = self.cond(c);
                    let o = self.leaf(&t, cx);
                    let (x, y) = if ch().chance(1, 2) { (E::Var(a), o) } else { (o, E::Var(a)) };
                    (t.clone(), E::Case(Box::new(c), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, x)] }, Arm { pat: Pat::Bool(false), branches: vec![(None, y)] }])))
                }
                7 => {
                    // the payload of a live value, or another live value
                    let ot = Ty::Opt(Rc::new(t.clone()));
                    let have: Vec<V> = cx.vars.iter().filter(|(_, u)| *u == ot).map(|x| x.0).collect();
                    let o = if !have.is_empty() && ch().chance(1, 2) {
                        have[ch().pick(have.len() as u32) as usize]
                    } else {
                        let o = self.v();
                        let e = E::Ctor(CtorOf::Opt, 1, vec![E::Var(a)]);
                        let e = if ch().chance(1, 3) { self.expr(&ot, cx, 2) } else { e };
                        let e = self.scrut(&ot, e);
                        st.push(Stmt::Let(Pat::Var(o), e));
                        cx.vars.push((o, ot.clone()));
                        o
                    };
                    let x = self.v();
                    let other = self.leaf(&t, cx);
                    (t.clone(), E::Case(Box::new(E::Var(o)), Rc::new(vec![Arm { pat: Pat::Ctor(CtorOf::Opt, 1, vec![Pat::Var(x)]), branches: vec![(None, E::Var(x))] }, Arm { pat: Pat::Ctor(CtorOf::Opt, 0, vec![]), branches: vec![(None, other)] }])))
                }
                0 => {
                    let (f, k) = fs[ch().pick(fs.len() as u32) as usize];
                    let s = self.sigs[f].clone();
                    let mut args = vec![];
                    for (j, p) in s.params.iter().enumerate() {
                        args.push(if j == k {
                            E::Var(a)
                        } else if s.counter.contains(&j) {
                            E::Nat(ch().pick(self.cfg.loops))
                        } else {
                            self.leaf(p, cx)
                        });
                    }
                    (s.ret.clone(), E::Call(f, args))
                }
                1 => match ch().pick(3) {
                    0 => (Ty::Tup(vec![Ty::Nat, t.clone()]), E::Tup(vec![E::Nat(ch().pick(9)), E::Var(a)])),
                    1 => (Ty::List(Rc::new(t.clone())), E::List(vec![E::Var(a), E::Var(a)])),
                    _ => (Ty::Tup(vec![t.clone(), t.clone()]), E::Tup(vec![E::Var(a), E::Var(a)])),
                },
                2 => {
                    let ps = tup
                        .unwrap()
                        .into_iter()
                        .map(|t| {
                            if ch().chance(1, 4) {
                                return Pat::Wild;
                            }
                            let v = self.v();
                            cx.vars.push((v, t));
                            Pat::Var(v)
                        })
                        .collect();
                    st.push(Stmt::Let(Pat::Tup(ps), E::Var(a)));
                    continue;
                }
                3 => (Ty::Str, E::Show(t.clone(), Box::new(E::Var(a)))),
                4 => {
                    let y = self.v();
                    let body = E::Tup(vec![E::Var(y), E::Var(a)]);
                    let r = Ty::Tup(vec![Ty::Nat, t.clone()]);
                    (Ty::Fn(vec![Ty::Nat], Eff::default(), Rc::new(r)), E::Lam(Rc::new(Lam { params: vec![(y, Ty::Nat)], annotate: true, body })))
                }
                _ => {
                    let u = self.ty(0);
                    let e = self.expr(&u, cx, 1);
                    let e = self.scrut(&u, e);
                    (u, e)
                }
            };
            let e = if matches!(ty, Ty::Fn(..)) { e } else { self.scrut(&ty, e) };
            let v = self.v();
            st.push(Stmt::Let(Pat::Var(v), e));
            cx.vars.push((v, ty));
        }
        st
    }
    /// A pure closure over the current scope.
    fn lambda_value(&mut self, cx: &Cx, d: u32) -> (E, Ty) {
        let n = ch().pick(3);
        let ps: Vec<(V, Ty)> = (0..n).map(|_| (self.v(), self.ty(1))).collect();
        let r = self.ty(1);
        let mut c2 = Cx { vars: cx.vars.clone(), abs: vec![], io: false, resume: None };
        c2.vars.extend(ps.iter().cloned());
        let body = self.expr(&r, &c2, d);
        let t = Ty::Fn(ps.iter().map(|p| p.1.clone()).collect(), Eff::default(), Rc::new(r));
        (E::Lam(Rc::new(Lam { params: ps, annotate: true, body })), t)
    }
    pub fn leaf(&mut self, t: &Ty, cx: &Cx) -> E {
        let have: Vec<V> = cx.vars.iter().filter(|(_, ty)| ty == t).map(|x| x.0).collect();
        if !have.is_empty() && ch().chance(3, 4) {
            let k = ch().pick(have.len() as u32) as usize;
            return E::Var(have[have.len() - 1 - k]);
        }
        match t {
            Ty::Nat => E::Nat(match ch().weighted(&[20, 8, 4, 3]) {
                0 => ch().pick(10),
                1 => ch().pick(1000),
                2 => *ch().of(&[255, 256, 127, 128, 999]),
                _ if self.cfg.wasm => *ch().of(&[65535, 65536, 1000000, 1000000000]),
                _ => *ch().of(&[65535, 65536, 1000000, 1073741822, 1073741823]),
            }),
            Ty::Int => E::Int(match ch().weighted(&[9, 1]) {
                0 => ch().pick(41) as i32 - 20,
                _ if self.cfg.wasm => *ch().of(&[128, -129, 65536, -1000000, 1000000000]),
                _ => *ch().of(&[128, -129, 65536, -1000000, 1073741823, -1073741824]),
            }),
            Ty::Bool => E::Bool(ch().chance(1, 2)),
            Ty::Float => E::Float(*ch().of(&[0.0, 1.5, -2.25, 100.0, 0.1, 0.3, -1000000.0])),
            Ty::Str => E::Str(ch().of(&WORDS).to_string()),
            Ty::Bytes => E::Bytes(ch().of(&["", "a", "xyz", "hello world"]).to_string()),
            Ty::Nil => E::Nil,
            Ty::List(e) => {
                let n = ch().pick(3);
                E::List((0..n).map(|_| self.leaf(e, cx)).collect())
            }
            Ty::Tup(v) => E::Tup(v.iter().map(|t| self.leaf(t, cx)).collect()),
            Ty::Opt(e) => {
                if ch().chance(1, 2) {
                    let x = self.leaf(e, cx);
                    E::Ctor(CtorOf::Opt, 1, vec![x])
                } else {
                    E::Ctor(CtorOf::Opt, 0, vec![])
                }
            }
            Ty::Res(a, b) => {
                if ch().chance(1, 2) {
                    let x = self.leaf(b, cx);
                    E::Ctor(CtorOf::Res, 1, vec![x])
                } else {
                    let x = self.leaf(a, cx);
                    E::Ctor(CtorOf::Res, 0, vec![x])
                }
            }
            Ty::User(i, args) => match self.p.tys[*i].kind.clone() {
                Kind::Struct(f) => {
                    let v = f.iter().map(|(_, t)| self.leaf(&subst(t, args), cx)).collect();
                    E::Struct(*i, v)
                }
                Kind::Enum(vs) => {
                    let ok: Vec<usize> = (0..vs.len()).filter(|&k| !vs[k].1.iter().any(|t| matches!(t, Ty::User(j, _) if j == i))).collect();
                    let k = ok[ch().pick(ok.len() as u32) as usize];
                    let a = vs[k].1.iter().map(|t| self.leaf(&subst(t, args), cx)).collect();
                    E::Ctor(CtorOf::User(*i), k, a)
                }
            },
            Ty::Fn(ps, eff, r) => {
                let params: Vec<(V, Ty)> = ps.iter().map(|t| (self.v(), t.clone())).collect();
                let mut c2 = Cx { vars: cx.vars.clone(), abs: eff.abs.clone(), io: eff.io, resume: None };
                c2.vars.extend(params.iter().cloned());
                let body = self.leaf(r, &c2);
                E::Lam(Rc::new(Lam { params, annotate: ch().chance(1, 2), body }))
            }
            Ty::Var(_) | Ty::Never => panic!("generator: no leaf for {t:?}"),
        }
    }
    fn re(&mut self, t: &Ty, cx: &Cx, d: u32) -> Box<E> {
        let e = self.expr(t, cx, d);
        self.recv(t, e)
    }
    fn small(e: E, k: u32) -> E {
        let e = match e {
            e @ (E::Nat(_) | E::Var(_) | E::Bin(..) | E::As(..)) => e,
            E::Prim(b, v) if b != B::OptUnwrapOr && b != B::ResUnwrapOr => E::Prim(b, v),
            e => E::As(Ty::Nat, Box::new(e)),
        };
        E::Bin(Op::Rem, Box::new(e), Box::new(E::Nat(k)))
    }
    pub fn expr(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        self.fuel -= 1;
        if d == 0 || self.fuel <= 0 {
            return self.leaf(t, cx);
        }
        if let Ty::Fn(ps, eff, r) = t {
            return self.lam(ps, eff, r, cx, d);
        }
        let ops: Vec<(usize, usize)> = cx.abs.iter().flat_map(|&a| (0..self.p.abs[a].ops.len()).map(move |o| (a, o))).filter(|&(a, o)| &self.p.abs[a].ops[o].ret == t).collect();
        let never: Vec<(usize, usize)> = cx.abs.iter().flat_map(|&a| (0..self.p.abs[a].ops.len()).map(move |o| (a, o))).filter(|&(a, o)| self.p.abs[a].ops[o].ret == Ty::Never).collect();
        let calls = self.callable(t, cx);
        let fvars: Vec<(V, Vec<Ty>)> = cx.vars.iter().filter_map(|(v, ty)| if let Ty::Fn(ps, e, r) = ty { (**r == *t && e.abs.iter().all(|a| cx.abs.contains(a)) && (!e.io || cx.io) && !e.poly).then(|| (*v, ps.clone())) } else { None }).collect();
        let fields = self.fields_of(t);
        let ef = self.cfg.effects;
        let w = [
            4,
            if ops.is_empty() { 0 } else { 8 * ef },
            if never.is_empty() { 0 } else { 2 * ef },
            if calls.is_empty() { 0 } else { 7 },
            if fvars.is_empty() { 0 } else { 6 },
            if fields.is_empty() { 0 } else { 2 },
            12,                                 // type specific
            3,                                  // case Bool
            3,                                  // case on data
            3,                                  // block
            if self.p.abs.len() > 2 || ef > 1 { 3 * ef } else { 0 }, // handle
            if self.cfg.wasm && !self.cfg.fns { 0 } else { 2 },  // lambda, bound and called
            // unwrap_or (of an unboxed value: a recorded finding)
            if self.cfg.wasm || !self.cfg.wide && matches!(t, Ty::Nat | Ty::Int | Ty::Bool | Ty::Float | Ty::Nil) { 0 } else { 1 },
            1,                                  // case Nat
        ];
        match ch().weighted(&w) {
            0 => self.leaf(t, cx),
            1 => {
                let (a, o) = *ch().of(&ops);
                self.perform(a, o, cx, d)
            }
            2 => {
                let (a, o) = *ch().of(&never);
                let c = self.expr(&Ty::Bool, cx, d - 1);
                let e = self.expr(t, cx, d - 1);
                let x = self.perform(a, o, cx, d - 1);
                E::Case(Box::new(self.cond(c)), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, e)] }, Arm { pat: Pat::Bool(false), branches: vec![(None, x)] }]))
            }
            3 => {
                let (f, targs) = ch().of(&calls).clone();
                self.call(f, &targs, cx, d)
            }
            4 => {
                let (f, ps) = ch().of(&fvars).clone();
                let a = ps.iter().map(|t| self.expr(t, cx, d - 1)).collect();
                E::CallV(f, a)
            }
            5 => {
                let (ty, i, f) = ch().of(&fields).clone();
                let e = self.re(&ty, cx, d - 1);
                E::Field(e, i, f)
            }
            6 => self.specific(t, cx, d),
            7 => {
                let c = self.expr(&Ty::Bool, cx, d - 1);
                let (a, b) = (self.expr(t, cx, d - 1), self.expr(t, cx, d - 1));
                let (a, b) = (self.nil_end(t, a), self.nil_end(t, b));
                E::Case(Box::new(self.cond(c)), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, a)] }, Arm { pat: if ch().chance(1, 3) { Pat::Wild } else { Pat::Bool(false) }, branches: vec![(None, b)] }]))
            }
            8 => self.case_data(t, cx, d),
            9 => {
                let n = 1 + ch().pick(2) as usize;
                self.block(t, cx, d, n)
            }
            10 => self.handle(t, cx, d),
            11 => {
                let n = ch().pick(3);
                let ps: Vec<(V, Ty)> = (0..n).map(|_| (self.v(), self.ty(1))).collect();
                let mut c2 = cx.clone();
                c2.resume = None;
                c2.vars.extend(ps.iter().cloned());
                let body = self.expr(t, &c2, d - 1);
                let f = self.v();
                let a = ps.iter().map(|p| self.expr(&p.1, cx, d - 1)).collect();
                let l = E::Lam(Rc::new(Lam { params: ps, annotate: true, body }));
                E::Block(Rc::new(vec![Stmt::Let(Pat::Var(f), l)]), Box::new(E::CallV(f, a)))
            }
            12 => {
                let (ot, b) = if ch().chance(1, 2) { (Ty::Opt(Rc::new(t.clone())), B::OptUnwrapOr) } else { (Ty::Res(Rc::new(t.clone()), Rc::new(Ty::Str)), B::ResUnwrapOr) };
                let e = self.expr(&ot, cx, d - 1);
                let e = self.scrut(&ot, e);
                let x = self.expr(t, cx, d - 1);
                E::Prim(b, vec![e, x])
            }
            _ => self.case_nat(t, cx, d),
        }
    }
    fn lam(&mut self, ps: &[Ty], eff: &Eff, r: &Ty, cx: &Cx, d: u32) -> E {
        let params: Vec<(V, Ty)> = ps.iter().map(|t| (self.v(), t.clone())).collect();
        // a callback for an open row may use what surrounds the call
        let (abs, io) = if eff.poly {
            let mut a = cx.abs.clone();
            for x in &eff.abs {
                if !a.contains(x) {
                    a.push(*x);
                }
            }
            (a, cx.io || eff.io)
        } else {
            (eff.abs.clone(), eff.io)
        };
        let mut c2 = Cx { vars: cx.vars.clone(), abs, io, resume: None };
        c2.vars.extend(params.iter().cloned());
        let body = self.body(r, &c2, d);
        E::Lam(Rc::new(Lam { params, annotate: ch().chance(1, 2), body }))
    }
    fn perform(&mut self, a: usize, o: usize, cx: &Cx, d: u32) -> E {
        let ps = self.p.abs[a].ops[o].params.clone();
        let v = ps.iter().map(|t| self.expr(t, cx, d.saturating_sub(1))).collect();
        let (e, ab) = (E::Perform(a, o, v), &self.p.abs[a]);
        // where nothing else determines the instance of a parametrised ability: a recorded finding
        if !self.cfg.wide && ab.targ.as_ref() == Some(&ab.ops[o].ret) {
            return E::As(ab.ops[o].ret.clone(), Box::new(e));
        }
        e
    }
    fn fits(eff: &Eff, cx: &Cx) -> bool {
        eff.abs.iter().all(|a| cx.abs.contains(a)) && (!eff.io || cx.io)
    }
    fn callable(&mut self, t: &Ty, cx: &Cx) -> Vec<(usize, Vec<Ty>)> {
        let mut v = vec![];
        for (i, s) in self.sigs.iter().enumerate() {
            if s.hidden || !Self::fits(&s.eff, cx) {
                continue;
            }
            let mut m = vec![None; s.tvars as usize];
            if unify(&s.ret, t, &mut m) {
                // generics at Nil, and Option and Result of unboxed values in generics: recorded findings
                let strict = s.tvars > 0 && !self.cfg.wide && (s.params.iter().any(wraps_var) || wraps_var(&s.ret));
                let m: Vec<Ty> = m.into_iter().map(|x| x.unwrap_or(if strict { Ty::Str } else { Ty::Nat })).collect();
                if m.contains(&Ty::Nil) && !self.cfg.wide || strict && m.iter().any(|t| matches!(t, Ty::Nat | Ty::Int | Ty::Bool | Ty::Float)) {
                    continue;
                }
                v.push((i, m));
            }
        }
        v
    }
    fn call(&mut self, f: usize, targs: &[Ty], cx: &Cx, d: u32) -> E {
        let s = self.sigs[f].clone();
        let mut a = vec![];
        for (i, p) in s.params.iter().enumerate() {
            if s.counter.contains(&i) {
                a.push(E::Nat(ch().pick(self.cfg.loops)));
            } else {
                let t = subst(p, targs);
                let e = self.expr(&t, cx, d - 1);
                a.push(match (&t, e) {
                    (Ty::Fn(_, _, r), E::Lam(l)) if s.tvars > 0 => {
                        let body = self.scrut(r, l.body.clone());
                        E::Lam(Rc::new(Lam { params: l.params.clone(), annotate: l.annotate, body }))
                    }
                    (Ty::Fn(..), e) => e,
                    (_, e) if s.tvars > 0 => self.scrut(&t, e),
                    (_, e) => e,
                });
            }
        }
        if !a.is_empty() && s.tvars == 0 && (self.cfg.wide || s.eff == Eff::default()) && !matches!(s.params[0], Ty::Fn(..) | Ty::Tup(_)) && ch().chance(1, 4) {
            let r = std::mem::replace(&mut a[0], E::Nil);
            a[0] = *self.recv(&s.params[0], r);
            E::Ufcs(f, a)
        } else {
            E::Call(f, a)
        }
    }
    fn fields_of(&mut self, t: &Ty) -> Vec<(Ty, usize, usize)> {
        let mut v = vec![];
        for (i, u) in self.p.tys.iter().enumerate() {
            if u.module.is_some() {
                continue; // accessors are not visible as methods outside the module
            }
            if let Kind::Struct(fs) = &u.kind {
                for (k, (_, ft)) in fs.iter().enumerate() {
                    let mut m = vec![None; u.nparams as usize];
                    if unify(ft, t, &mut m) {
                        v.push((Ty::User(i, m.into_iter().map(|x| x.unwrap_or(Ty::Nat)).collect()), i, k));
                    }
                }
            }
        }
        v
    }
    fn specific(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        let bx = Box::new;
        match t {
            Ty::Nat => match ch().weighted(&[4, 3, 2, 1, 2, if self.cfg.wasm { 0 } else { 1 }, if self.cfg.panics && !self.cfg.wasm { 1 } else { 0 }]) {
                0 => Self::small(E::Bin(Op::Add, self.re(t, cx, d - 1), self.re(t, cx, d - 1)), 997),
                1 => Self::small(E::Bin(Op::Mul, self.re(t, cx, d - 1), self.re(t, cx, d - 1)), 997),
                2 => E::Bin(Op::Sub, bx(E::Bin(Op::Add, self.re(t, cx, d - 1), bx(E::Nat(1000)))), bx(Self::small(self.expr(t, cx, d - 1), 997))),
                3 if !self.cfg.wasm && ch().chance(1, 3) => {
                    // above the signed range, below the unsigned one
                    let e = self.expr(t, cx, d - 1);
                    let big = E::Bin(Op::Add, bx(E::Bin(Op::Add, bx(Self::small(e, 997)), bx(E::Nat(1073741823)))), bx(E::Nat(1073741823)));
                    let k = *ch().of(&[1, 2, 3, 10, 65536, 1073741823]);
                    E::Bin(if ch().chance(1, 2) { Op::Div } else { Op::Rem }, bx(big), bx(E::Nat(k)))
                }
                3 => E::Bin(Op::Div, self.re(t, cx, d - 1), bx(E::Nat(1 + ch().pick(9)))),
                4 => Self::small(E::Prim(B::StrLen, vec![self.expr(&Ty::Str, cx, d - 1)]), 997),
                5 => Self::small(E::Prim(B::BytesLen, vec![self.expr(&Ty::Bytes, cx, d - 1)]), 997),
                _ => {
                    let b = self.expr(&Ty::Bytes, cx, d - 1);
                    E::Prim(B::BytesGetOrPanic, vec![E::Bin(Op::Cat, self.recv(&Ty::Bytes, b), bx(E::Bytes("pad".into()))), E::Nat(ch().pick(3))])
                }
            },
            Ty::Int => {
                let (a, b) = (self.re(t, cx, d - 1), self.re(t, cx, d - 1));
                let k = E::Int(991);
                match ch().weighted(&[4, 3, 3, 1]) {
                    0 => E::Bin(Op::Rem, bx(E::Bin(Op::Add, a, b)), bx(k)),
                    1 => E::Bin(Op::Rem, bx(E::Bin(Op::Sub, a, b)), bx(k)),
                    2 => E::Bin(Op::Rem, bx(E::Bin(Op::Mul, a, b)), bx(k)),
                    _ => E::Bin(Op::Div, a, bx(E::Int(*ch().of(&[2, -3, 7])))),
                }
            }
            Ty::Float => {
                let op = *ch().of(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
                E::Bin(op, self.re(t, cx, d - 1), self.re(t, cx, d - 1))
            }
            Ty::Bool => match ch().weighted(&if self.cfg.wasm { [6, 3, 3, 0, 0] } else { [6, 3, 3, 2, 1] }) {
                0 => {
                    let op = *ch().of(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                    let t = ch().of(&[Ty::Nat, Ty::Nat, Ty::Int, if self.cfg.wasm { Ty::Int } else { Ty::Float }]).clone();
                    let (mut a, mut b) = (self.re(&t, cx, d - 1), self.re(&t, cx, d - 1));
                    if t == Ty::Nat && !self.cfg.wasm && ch().chance(1, 6) {
                        // one side above the signed range
                        let e = E::Bin(Op::Add, bx(E::Bin(Op::Add, bx(Self::small(*a, 997)), bx(E::Nat(1073741823)))), bx(E::Nat(1073741823)));
                        a = bx(e);
                        if ch().chance(1, 2) {
                            std::mem::swap(&mut a, &mut b);
                        }
                    }
                    E::Bin(op, a, b)
                }
                1 => {
                    let op = *ch().of(&[Op::Eq, Op::Ne]);
                    E::Bin(op, self.re(&Ty::Str, cx, d - 1), self.re(&Ty::Str, cx, d - 1))
                }
                2 => {
                    let op = *ch().of(&[Op::And, Op::Or]);
                    E::Bin(op, self.re(t, cx, d - 1), self.re(t, cx, d - 1))
                }
                3 => {
                    let e = self.ty(0);
                    let t = Ty::Opt(Rc::new(e));
                    let x = self.expr(&t, cx, d - 1);
                    E::Prim(B::OptIsSome, vec![self.scrut(&t, x)])
                }
                _ => {
                    let e = self.ty(0);
                    let t = Ty::Res(Rc::new(e), Rc::new(Ty::Nat));
                    let x = self.expr(&t, cx, d - 1);
                    E::Prim(B::ResIsOk, vec![self.scrut(&t, x)])
                }
            },
            Ty::Str => match ch().weighted(&[6, 4, 2, 1, if cx.io && self.cfg.input && self.reads < 8 { 3 } else { 0 }, if self.cfg.wasm { 0 } else { 1 }]) {
                0 => E::Bin(Op::Cat, self.re(t, cx, d - 1), self.re(t, cx, d - 1)),
                1 => {
                    let s = self.ty(1);
                    let e = self.expr(&s, cx, d - 1);
                    E::Show(s, bx(e))
                }
                2 => E::Prim(B::IntToString, vec![if ch().chance(1, 4) { E::Int(*ch().of(&[1073741823, -1073741824, 1000000000, -10, 0])) } else { self.expr(&Ty::Int, cx, d - 1) }]),
                3 => E::Prim(B::StrFromBytes, vec![E::Prim(B::StrToBytes, vec![self.expr(t, cx, d - 1)])]),
                4 => {
                    self.reads += 1;
                    E::ReadLine
                }
                _ => E::Prim(B::IntParse, vec![if ch().chance(2, 3) { E::Str(ch().of(&NUMS).to_string()) } else { self.expr(t, cx, d - 1) }]),
            },
            Ty::Bytes => match ch().weighted(&[3, 2, 3]) {
                0 => E::Bin(Op::Cat, self.re(t, cx, d - 1), self.re(t, cx, d - 1)),
                1 => {
                    // plain ASCII only, so that slices stay printable
                    let s = self.expr(&Ty::Int, cx, d - 1);
                    E::Prim(B::StrToBytes, vec![E::Prim(B::IntToString, vec![s])])
                }
                _ => {
                    let b = self.expr(t, cx, d - 1);
                    let (i, j) = (Self::small(self.expr(&Ty::Nat, cx, d - 1), 12), Self::small(self.expr(&Ty::Nat, cx, d - 1), 20));
                    E::Prim(if self.cfg.panics && ch().chance(1, 6) { B::BytesSliceOrPanic } else { B::BytesSlice }, vec![b, i, j])
                }
            },
            Ty::Nil => {
                if cx.io {
                    let s = self.ty(1);
                    let e = self.expr(&s, cx, d - 1);
                    match ch().weighted(&[5, 1]) {
                        0 => self.print(E::Show(s, bx(e))),
                        _ if !self.cfg.wasm => {
                            let e = self.expr(&Ty::Nat, cx, d - 1);
                            E::Prim(B::PrintNat, vec![e])
                        }
                        _ => self.print(E::Show(s, bx(e))),
                    }
                } else {
                    E::Nil
                }
            }
            Ty::List(e) => match ch().pick(3) {
                0 => {
                    let n = ch().pick(4);
                    E::List((0..n).map(|_| self.part(e, cx, d - 1)).collect())
                }
                _ => {
                    let x = self.part(e, cx, d - 1);
                    let l = self.expr(t, cx, d - 1);
                    E::Prim(B::Prepend, vec![x, l])
                }
            },
            // (an element whose type a method call determines: a recorded finding)
            Ty::Tup(v) => E::Tup(
                v.iter()
                    .map(|t| match self.expr(t, cx, d - 1) {
                        e if self.cfg.wide || settled(&e) => e,
                        e => E::As(t.clone(), Box::new(e)),
                    })
                    .collect(),
            ),
            Ty::Opt(e) => {
                if **e == Ty::Nat && ch().chance(1, 4) {
                    let b = self.expr(&Ty::Bytes, cx, d - 1);
                    let i = Self::small(self.expr(&Ty::Nat, cx, d - 1), 10);
                    return E::Prim(B::BytesGet, vec![b, i]);
                }
                let x = self.part(e, cx, d - 1);
                E::Ctor(CtorOf::Opt, 1, vec![x])
            }
            Ty::Res(a, b) => {
                if ch().chance(1, 3) {
                    let x = self.part(b, cx, d - 1);
                    E::Ctor(CtorOf::Res, 1, vec![x])
                } else {
                    let x = self.part(a, cx, d - 1);
                    E::Ctor(CtorOf::Res, 0, vec![x])
                }
            }
            Ty::User(i, args) => match self.p.tys[*i].kind.clone() {
                Kind::Struct(f) => {
                    if ch().chance(1, 3) {
                        let base = self.expr(t, cx, d - 1);
                        let n = 1 + ch().pick(f.len() as u32) as usize;
                        let mut fs = vec![];
                        for k in 0..n {
                            fs.push((k, self.part(&subst(&f[k].1, args), cx, d - 1)));
                        }
                        return E::Spread(*i, fs, bx(base));
                    }
                    E::Struct(*i, f.iter().map(|(_, t)| self.part(&subst(t, args), cx, d - 1)).collect())
                }
                Kind::Enum(vs) => {
                    let k = ch().pick(vs.len() as u32) as usize;
                    E::Ctor(CtorOf::User(*i), k, vs[k].1.iter().map(|t| self.part(&subst(t, args), cx, d - 1)).collect())
                }
            },
            Ty::Fn(..) | Ty::Var(_) | Ty::Never => self.leaf(t, cx),
        }
    }
    /// A part of a data structure (one whose type a branch's method call determines: a recorded finding).
    fn part(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        match self.expr(t, cx, d) {
            e @ (E::Case(..) | E::Block(..) | E::Handle(..)) if !self.cfg.wide && !settled(&e) => E::As(t.clone(), Box::new(e)),
            e => e,
        }
    }
    fn case_nat(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        let int = ch().chance(1, 3);
        let st = if int { Ty::Int } else { Ty::Nat };
        let s = self.expr(&st, cx, d - 1);
        let s = if int { E::Bin(Op::Rem, self.recv(&Ty::Int, s), Box::new(E::Int(5))) } else { Self::small(s, 5) };
        let mut arms = vec![];
        for _ in 0..1 + ch().pick(3) {
            let n = ch().pick(5);
            let e = self.expr(t, cx, d - 1);
            arms.push(Arm { pat: if int { Pat::Int(n as i32 - 2) } else { Pat::Nat(n) }, branches: vec![(None, e)] });
        }
        let v = self.v();
        let mut c2 = cx.clone();
        c2.vars.push((v, st));
        let last = self.expr(t, &c2, d - 1);
        let mut br = vec![];
        if ch().chance(1, 3) {
            let mut c3 = c2.clone();
            c3.abs.clear();
            c3.io = false;
            let g = self.guard(&c3);
            let e = self.expr(t, &c2, d - 1);
            br.push((Some(g), e));
        }
        br.push((None, last));
        arms.push(Arm { pat: Pat::Var(v), branches: br });
        E::Case(Box::new(s), Rc::new(arms))
    }
    /// A pattern for `t`; true if it always matches.
    fn pat(&mut self, t: &Ty, vars: &mut Vec<(V, Ty)>, d: u32) -> (Pat, bool) {
        if d == 0 || ch().chance(1, 4) {
            if ch().chance(1, 4) {
                return (Pat::Wild, true);
            }
            let v = self.v();
            vars.push((v, t.clone()));
            return (Pat::Var(v), true);
        }
        match t {
            Ty::Tup(ts) => {
                let mut all = true;
                let ps = ts
                    .iter()
                    .map(|t| {
                        let dd = d - 1;
                        let (p, a) = self.pat(t, vars, dd);
                        all &= a;
                        p
                    })
                    .collect();
                (Pat::Tup(ps), all)
            }
            Ty::Opt(e) => {
                if ch().chance(1, 3) {
                    (Pat::Ctor(CtorOf::Opt, 0, vec![]), false)
                } else {
                    let (p, _) = self.pat(e, vars, self.inner(d));
                    (Pat::Ctor(CtorOf::Opt, 1, vec![p]), false)
                }
            }
            Ty::Res(a, b) => {
                let k = ch().pick(2) as usize;
                let (p, _) = self.pat(if k == 0 { a } else { b }, vars, self.inner(d));
                (Pat::Ctor(CtorOf::Res, k, vec![p]), false)
            }
            Ty::User(i, args) => match self.p.tys[*i].kind.clone() {
                Kind::Struct(_) => {
                    let v = self.v();
                    vars.push((v, t.clone()));
                    (Pat::Var(v), true)
                }
                Kind::Enum(vs) => {
                    let k = ch().pick(vs.len() as u32) as usize;
                    let mut all = vs.len() == 1;
                    let ps = vs[k]
                        .1
                        .iter()
                        .map(|t| {
                            let (p, a) = self.pat(&subst(t, args), vars, self.inner(d));
                            all &= a;
                            p
                        })
                        .collect();
                    (Pat::Ctor(CtorOf::User(*i), k, ps), all)
                }
            },
            Ty::List(e) => {
                let n = ch().pick(3);
                let dd = d - 1;
                let ps = (0..n).map(|_| self.pat(e, vars, dd).0).collect();
                let rest = match ch().pick(3) {
                    0 => None,
                    1 => Some(None),
                    _ => {
                        let v = self.v();
                        vars.push((v, t.clone()));
                        Some(Some(v))
                    }
                };
                (Pat::List(ps, rest), n == 0 && rest.is_some())
            }
            Ty::Nat => (Pat::Nat(ch().pick(5)), false),
            Ty::Int => (Pat::Int(ch().pick(5) as i32 - 2), false),
            Ty::Bool => (Pat::Bool(ch().chance(1, 2)), false),
            t => {
                let v = self.v();
                vars.push((v, t.clone()));
                (Pat::Var(v), true)
            }
        }
    }
    /// Depth left for the fields of a constructor pattern: the compiler tests the constructor only
    /// (a recorded finding), so they bind and do not test.
    fn inner(&self, d: u32) -> u32 {
        if self.cfg.wasm {
            return 0;
        }
        d - 1
    }
    fn case_data(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        let mut st = self.ty(2);
        for _ in 0..3 {
            if matches!(st, Ty::Nat | Ty::Int | Ty::Bool | Ty::Float | Ty::Bytes) {
                st = self.ty(2);
            }
        }
        let s = self.expr(&st, cx, d - 1);
        let s = self.scrut(&st, s);
        let mut arms = vec![];
        let mut total = false;
        for _ in 0..1 + ch().pick(3) {
            let mut vars = vec![];
            let (mut p, mut all) = self.pat(&st, &mut vars, 2);
            self.soft.extend(vars.iter().map(|x| x.0));
            if ch().chance(1, 6) && !matches!(p, Pat::Var(_) | Pat::Wild) {
                let v = self.v();
                vars.push((v, st.clone()));
                p = Pat::As(Box::new(p), v);
            }
            let mut c2 = cx.clone();
            c2.vars.extend(vars);
            let mut br = vec![];
            if ch().chance(1, 4) {
                let mut c3 = c2.clone();
                c3.abs.clear();
                c3.io = false;
                c3.resume = None;
                let g = self.guard(&c3);
                br.push((Some(g), self.expr(t, &c2, d - 1)));
                if ch().chance(1, 2) {
                    all = false;
                } else {
                    br.push((None, self.expr(t, &c2, d - 1)));
                }
            } else {
                br.push((None, self.expr(t, &c2, d - 1)));
            }
            let top = match &p {
                Pat::Var(_) | Pat::Wild => true,
                Pat::Ctor(..) | Pat::List(..) => self.cfg.wide,
                _ => false,
            };
            arms.push(Arm { pat: p, branches: br });
            if all && top {
                total = true;
                break;
            }
        }
        if !total {
            let e = self.expr(t, cx, d - 1);
            arms.push(Arm { pat: Pat::Wild, branches: vec![(None, e)] });
        }
        for a in &mut arms {
            for b in &mut a.branches {
                let e = std::mem::replace(&mut b.1, E::Nil);
                b.1 = self.nil_end(t, e);
            }
        }
        E::Case(Box::new(s), Rc::new(arms))
    }
    // ---------------------------------------------------------------- handlers
    fn handle(&mut self, t: &Ty, cx: &Cx, d: u32) -> E {
        // handled abilities: one or two, not necessarily new
        let mut hs = vec![];
        for _ in 0..1 + ch().weighted(&[4, 1]) {
            let a = ch().pick(self.p.abs.len() as u32) as usize;
            if !hs.contains(&a) {
                hs.push(a);
            }
        }
        let has_done = ch().chance(2, 3);
        let bt = if has_done { self.ty(1) } else { t.clone() };
        let mut ci = cx.clone();
        ci.resume = None;
        for h in &hs {
            if !ci.abs.contains(h) {
                ci.abs.push(*h);
            }
        }
        self.fuel += 6;
        let n = 1 + ch().pick(2) as usize;
        let mut body = self.block(&bt, &ci, d, n);
        for &h in &hs {
            if self.p.abs[h].targ.is_some() && !self.performs(&body, h) {
                // the row has to name the instance that is handled
                let v = self.v();
                let o = ch().pick(self.p.abs[h].ops.len() as u32) as usize;
                let x = self.perform(h, o, &ci, 1);
                let x = if self.p.abs[h].ops[o].ret == Ty::Never {
                    let c = self.expr(&Ty::Bool, &ci, 1);
                    E::Case(Box::new(self.cond(c)), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, x)] }, Arm { pat: Pat::Bool(false), branches: vec![(None, E::Nat(0))] }]))
                } else {
                    x
                };
                body = match body {
                    E::Block(st, t) => {
                        let mut st = Rc::try_unwrap(st).expect("fresh block");
                        st.insert(0, Stmt::Let(Pat::Var(v), x));
                        E::Block(Rc::new(st), t)
                    }
                    b => E::Block(Rc::new(vec![Stmt::Let(Pat::Var(v), x)]), Box::new(b)),
                };
            }
        }
        if bt == Ty::Nil && !self.cfg.wide {
            // a body of type Nil does not end in an operation that never returns
            let v = self.v();
            body = E::Block(Rc::new(vec![Stmt::Let(Pat::Var(v), body)]), Box::new(E::Nil));
        }
        let mut ca = cx.clone();
        ca.abs.retain(|a| !hs.contains(a));
        ca.resume = None;
        let done = has_done.then(|| {
            let v = self.v();
            if !self.ground(&body) || matches!(body, E::Case(..)) {
                self.soft.insert(v);
            }
            let mut c2 = ca.clone();
            c2.vars.push((v, bt.clone()));
            (v, self.expr(t, &c2, d.min(2)))
        });
        let never = hs.iter().any(|h| self.p.abs[*h].ops.iter().any(|o| o.ret == Ty::Never));
        let nontail = self.arm_shapes(has_done, never, t);
        let mut arms = vec![];
        for &h in &hs {
            for (oi, o) in self.p.abs[h].ops.clone().iter().enumerate() {
                let ps: Vec<V> = o.params.iter().map(|_| self.v()).collect();
                let mut c2 = ca.clone();
                for (v, t) in ps.iter().zip(&o.params) {
                    if self.p.abs[h].targ.is_some() {
                        self.soft.insert(*v);
                    }
                    c2.vars.push((*v, t.clone()));
                }
                let b = if o.is_fn {
                    c2.abs.retain(|a| self.p.abs[*a].ops.iter().all(|o| o.is_fn));
                    self.expr(&o.ret, &c2, 2.min(d))
                } else if o.ret == Ty::Never {
                    self.expr(t, &c2, 2.min(d))
                } else {
                    self.arm_body(&o.ret, t, &c2, nontail)
                };
                arms.push(HArm { ab: h, op: oi, as_fn: o.is_fn, params: ps, body: b });
            }
        }
        let at = At { vars: cx.vars.clone(), eff: Eff { abs: cx.abs.clone(), io: cx.io, poly: false }, ty: t.clone() };
        E::Handle(Rc::new(Handle { body, done, arms, at: Some(at) }))
    }
    /// May the arms of a handler do something after `resume` (and then none of them leaves its
    /// `resume` out), or may they leave `resume` out?
    fn arm_shapes(&mut self, has_done: bool, never: bool, t: &Ty) -> (bool, bool) {
        if self.cfg.wide {
            return (true, true);
        }
        let nontail = !has_done && !never && *t != Ty::Nil && ch().chance(1, 2);
        (nontail, !nontail)
    }
    fn arm_body(&mut self, ot: &Ty, t: &Ty, cx: &Cx, (nontail, abort): (bool, bool)) -> E {
        let rs = |g: &mut Gen, cx: &Cx| E::Resume(Box::new(g.expr(ot, cx, 2)));
        match ch().weighted(&[6, if nontail { 6 } else { 0 }, if abort { 2 } else { 0 }, if abort { 2 } else { 0 }, if cx.io { 2 } else { 0 }]) {
            0 => rs(self, cx),
            1 => {
                let r = self.v();
                let mut c2 = cx.clone();
                c2.vars.push((r, t.clone()));
                let res = rs(self, cx);
                let e = self.expr(t, &c2, 2);
                E::Block(Rc::new(vec![Stmt::Let(Pat::Var(r), res)]), Box::new(e))
            }
            2 => self.expr(t, cx, 2),
            3 => {
                let c = self.expr(&Ty::Bool, cx, 2);
                let c = self.cond(c);
                let a = rs(self, cx);
                let b = if ch().chance(1, 2) { self.expr(t, cx, 2) } else { rs(self, cx) };
                E::Case(Box::new(c), Rc::new(vec![Arm { pat: Pat::Bool(true), branches: vec![(None, a)] }, Arm { pat: Pat::Bool(false), branches: vec![(None, b)] }]))
            }
            _ => {
                let p = self.expr(&Ty::Nil, cx, 2);
                let res = rs(self, cx);
                E::Block(Rc::new(vec![Stmt::Do(p)]), Box::new(res))
            }
        }
    }
}
impl Gen {
    /// The compiler resolves methods and operators from the receiver's type, which it knows for
    /// these forms only.
    fn typable(&self, e: &E) -> bool {
        match e {
            E::Nat(_) | E::Int(_) | E::Bool(_) | E::Float(_) | E::Str(_) | E::Bytes(_) | E::Nil | E::As(..) | E::Show(..) | E::ReadLine => true,
            E::Var(v) => !self.soft.contains(v),
            E::Bin(op, a, _) => matches!(op, Op::And | Op::Or) || self.typable(a),
            E::Call(f, _) | E::Ufcs(f, _) => self.sigs.get(*f).is_some_and(|s| s.tvars == 0),
            E::Prim(b, _) => !matches!(b, B::Prepend | B::OptUnwrapOr | B::ResUnwrapOr),
            E::Struct(i, _) | E::Ctor(CtorOf::User(i), _, _) => self.p.tys[*i].nparams == 0 && self.p.tys[*i].module.is_none(),
            E::Field(b, i, _) => self.p.tys[*i].nparams == 0 && self.typable(b),
            E::Block(_, t) => self.typable(t),
            _ => false,
        }
    }
    /// Is the type of `e` fully determined by `e` itself?
    fn ground(&self, e: &E) -> bool {
        match e {
            E::Tup(v) => v.iter().all(|e| self.ground(e)),
            E::List(v) => v.first().is_some_and(|e| self.ground(e)),
            E::Case(_, a) => a.iter().any(|a| a.branches.iter().any(|b| self.ground(&b.1))),
            e => self.typable(e),
        }
    }
    fn recv(&self, t: &Ty, e: E) -> Box<E> {
        Box::new(if self.typable(&e) { e } else { E::As(t.clone(), Box::new(e)) })
    }
    /// A branch of type Nil ends in Nil itself.
    fn nil_end(&self, t: &Ty, e: E) -> E {
        match e {
            E::Nil => E::Nil,
            e if *t == Ty::Nil && !self.cfg.wide => E::Block(Rc::new(vec![Stmt::Do(e)]), Box::new(E::Nil)),
            e => e,
        }
    }
    fn cond(&self, e: E) -> E {
        match e {
            e @ (E::Case(..) | E::Handle(..)) => E::As(Ty::Bool, Box::new(e)),
            e => self.scrut(&Ty::Bool, e),
        }
    }
    fn scrut(&self, t: &Ty, e: E) -> E {
        if self.ground(&e) { e } else { E::As(t.clone(), Box::new(e)) }
    }
    /// Does evaluating `e` perform `ab` (so that its row names the ability)?
    /// Does a statement of `e` plainly perform `ab` or call a function that does?
    fn performs(&self, e: &E, ab: usize) -> bool {
        match e {
            E::Perform(a, _, _) => *a == ab,
            E::As(_, e) => self.performs(e, ab),
            E::Call(f, _) => self.sigs.get(*f).is_some_and(|s| s.eff.abs.contains(&ab)),
            E::Block(st, t) => self.performs(t, ab) || st.iter().any(|s| match s { Stmt::Let(_, e) | Stmt::Do(e) => self.performs(e, ab) }),
            _ => false,
        }
    }
    /// A guard: comparisons of things in scope.
    fn guard(&mut self, cx: &Cx) -> E {
        let c = Cx { vars: cx.vars.clone(), abs: vec![], io: false, resume: None };
        let t = ch().of(&[Ty::Nat, Ty::Nat, Ty::Int, Ty::Str, Ty::Bool]).clone();
        match t {
            Ty::Bool => self.leaf(&Ty::Bool, &c),
            t => {
                let op = if t == Ty::Str { *ch().of(&[Op::Eq, Op::Ne]) } else { *ch().of(&[Op::Eq, Op::Ne, Op::Lt, Op::Ge]) };
                let (a, b) = (self.leaf(&t, &c), self.leaf(&t, &c));
                E::Bin(op, self.recv(&t, a), Box::new(b))
            }
        }
    }
}
fn unify(p: &Ty, t: &Ty, m: &mut Vec<Option<Ty>>) -> bool {
    match (p, t) {
        (Ty::Var(i), t) => match &m[*i as usize] {
            Some(x) => x == t,
            None => {
                m[*i as usize] = Some(t.clone());
                true
            }
        },
        (Ty::List(a), Ty::List(b)) | (Ty::Opt(a), Ty::Opt(b)) => unify(a, b, m),
        (Ty::Res(a, c), Ty::Res(b, d)) => unify(a, b, m) && unify(c, d, m),
        (Ty::Tup(a), Ty::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| unify(x, y, m)),
        (Ty::User(i, a), Ty::User(j, b)) => i == j && a.iter().zip(b).all(|(x, y)| unify(x, y, m)),
        (a, b) => a == b,
    }
}

/// Does `t` hold a type variable inside an Option, Result or user type?
/// No method call determines the type of `e`.
fn settled(e: &E) -> bool {
    match e {
        E::Field(..) | E::Ufcs(..) | E::Bin(..) => false,
        E::Case(_, a) => a.iter().all(|a| a.branches.iter().all(|b| settled(&b.1))),
        E::Block(_, t) => settled(t),
        _ => true,
    }
}
#[allow(dead_code)]
fn unboxed(t: &Ty) -> bool {
    matches!(t, Ty::Nat | Ty::Int | Ty::Bool | Ty::Float)
}
fn wraps_var(t: &Ty) -> bool {
    fn has(t: &Ty) -> bool {
        match t {
            Ty::Var(_) => true,
            Ty::List(a) | Ty::Opt(a) => has(a),
            Ty::Res(a, b) => has(a) || has(b),
            Ty::Tup(v) | Ty::User(_, v) => v.iter().any(has),
            Ty::Fn(p, _, r) => p.iter().any(has) || has(r),
            _ => false,
        }
    }
    match t {
        Ty::Opt(_) | Ty::Res(..) | Ty::User(..) => has(t),
        Ty::List(a) => wraps_var(a),
        Ty::Tup(v) => v.iter().any(wraps_var),
        Ty::Fn(p, _, r) => p.iter().any(wraps_var) || wraps_var(r),
        _ => false,
    }
}
