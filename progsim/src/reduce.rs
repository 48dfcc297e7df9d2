//! Development aid: minimises a failing generated program by editing its syntax tree.
use crate::ast::*;
use crate::{native, world};
use simcore::runner::{self, End, Spec};
use std::rc::Rc;
use std::time::Instant;

static mut CUR: *const Prog = std::ptr::null();
pub fn run_cur() {
    let p = unsafe { &*CUR };
    let src = to_source(p);
    world::log_source(&src);
    let pre = match runner::catch(|| crate::interp::run(p, &[], &world::LIM).end) {
        Ok(e) => e,
        Err(_) => runner::discard("bad"),
    };
    if pre == crate::interp::End::Budget || pre == crate::interp::End::Finding {
        runner::discard("over");
    }
    if std::env::var_os("WASM").is_some() {
        return crate::wasm::judge(p);
    }
    let obj = native::compile(&src, false, crate::pipeline::OptimizationOptions::production());
    let g = world::execute(&obj);
    world::judge(p, &g, world::Expect::Full);
}
struct Ed<'a> {
    n: isize,
    f: &'a dyn Fn(&E, Option<Ty>) -> Option<E>,
    hit: bool,
    p: Option<&'a Prog>,
    x: Option<Ty>,
}
fn none<'a>() -> Ed<'a> {
    Ed { n: -1, f: &|_, _| None, hit: false, p: None, x: None }
}
impl Ed<'_> {
    fn b(&mut self, e: &E) -> Box<E> {
        Box::new(self.e(e))
    }
    fn v(&mut self, v: &[E]) -> Vec<E> {
        v.iter().map(|e| self.e(e)).collect()
    }
    fn st(&mut self, s: &[Stmt]) -> Vec<Stmt> {
        s.iter()
            .map(|s| match s {
                Stmt::Let(p, e) => Stmt::Let(p.clone(), self.e(e)),
                Stmt::Do(e) => Stmt::Do(self.e(e)),
            })
            .collect()
    }
    fn arms(&mut self, a: &[Arm], t: Option<Ty>) -> Vec<Arm> {
        a.iter().map(|a| Arm { pat: a.pat.clone(), branches: a.branches.iter().map(|(g, e)| (g.as_ref().map(|g| self.xt(g, Some(Ty::Bool))), self.xt(e, t.clone()))).collect() }).collect()
    }
    fn xt(&mut self, e: &E, t: Option<Ty>) -> E {
        self.x = t;
        self.e(e)
    }
    fn xb(&mut self, e: &E, t: Option<Ty>) -> Box<E> {
        Box::new(self.xt(e, t))
    }
    fn args(&mut self, v: &[E], ts: Option<Vec<Ty>>) -> Vec<E> {
        v.iter().enumerate().map(|(i, e)| self.xt(e, ts.as_ref().and_then(|t| t.get(i).cloned()).filter(|t| !has_var(t)))).collect()
    }
    fn e(&mut self, e: &E) -> E {
        let me = self.n == 0;
        self.n -= 1;
        let exp = self.x.take();
        let p = self.p;
        if me {
            if let Some(x) = (self.f)(e, exp.clone()) {
                self.hit = true;
                return x;
            }
        }
        match e {
            E::Bin(o, a, b) => E::Bin(*o, self.b(a), self.b(b)),
            E::Call(f, v) => E::Call(*f, self.args(v, p.map(|p| p.funs[*f].params.iter().map(|x| x.1.clone()).collect()))),
            E::Ufcs(f, v) => E::Ufcs(*f, self.args(v, p.map(|p| p.funs[*f].params.iter().map(|x| x.1.clone()).collect()))),
            E::CallV(f, v) => E::CallV(*f, self.v(v)),
            E::Lam(l) => {
                let t = match &exp {
                    Some(Ty::Fn(_, _, r)) => Some((**r).clone()),
                    _ => None,
                };
                E::Lam(Rc::new(Lam { params: l.params.clone(), annotate: l.annotate, body: self.xt(&l.body, t) }))
            }
            E::Tup(v) => E::Tup(self.v(v)),
            E::List(v) => E::List(self.v(v)),
            E::Struct(i, v) => E::Struct(*i, self.v(v)),
            E::Spread(i, v, b) => E::Spread(*i, v.iter().map(|(k, e)| (*k, self.e(e))).collect(), self.b(b)),
            E::Field(b, i, k) => E::Field(self.b(b), *i, *k),
            E::Ctor(c, k, v) => E::Ctor(*c, *k, self.v(v)),
            E::Case(s, a) => E::Case(self.b(s), Rc::new(self.arms(a, exp))),
            E::Block(s, t) => E::Block(Rc::new(self.st(s)), self.xb(t, exp)),
            E::Perform(a, o, v) => E::Perform(*a, *o, self.args(v, p.map(|p| p.abs[*a].ops[*o].params.clone()))),
            E::Handle(h) => {
                let t = exp.or_else(|| h.at.as_ref().map(|a| a.ty.clone()));
                let body = self.xt(&h.body, if h.done.is_none() { t.clone() } else { None });
                E::Handle(Rc::new(Handle {
                    body,
                    done: h.done.as_ref().map(|(v, e)| (*v, self.xt(e, t.clone()))),
                    arms: h
                        .arms
                        .iter()
                        .map(|a| {
                            let at = if a.as_fn { p.map(|p| p.abs[a.ab].ops[a.op].ret.clone()) } else { t.clone() };
                            HArm { ab: a.ab, op: a.op, as_fn: a.as_fn, params: a.params.clone(), body: self.xt(&a.body, at) }
                        })
                        .collect(),
                    at: h.at.as_ref().map(|a| At { vars: a.vars.clone(), eff: a.eff.clone(), ty: a.ty.clone() }),
                }))
            }
            E::Resume(b) => E::Resume(self.b(b)),
            E::Prim(p, v) => E::Prim(*p, self.v(v)),
            E::Show(t, b) => E::Show(t.clone(), self.xb(b, Some(t.clone()))),
            E::As(t, b) => E::As(t.clone(), self.xb(b, Some(t.clone()))),
            e => e.clone(),
        }
    }
    fn prog(&mut self, p: &Prog) -> Prog {
        Prog {
            tys: p.tys.clone(),
            abs: p.abs.clone(),
            funs: p.funs.iter().map(|f| Fun { name: f.name.clone(), params: f.params.clone(), ret: f.ret.clone(), eff: f.eff.clone(), body: self.xt(&f.body, Some(f.ret.clone()).filter(|t| !has_var(t))), bare: f.bare }).collect(),
            main: self.st(&p.main),
        }
    }
}
fn copy(e: &E) -> E {
    none().e(e)
}
fn kids(e: &E) -> Vec<E> {
    let mut o = vec![];
    match e {
        E::Bin(_, a, b) => o.extend([copy(a), copy(b)]),
        E::Call(_, v) | E::Ufcs(_, v) | E::CallV(_, v) | E::Tup(v) | E::List(v) | E::Struct(_, v) | E::Ctor(_, _, v) | E::Perform(_, _, v) | E::Prim(_, v) => o.extend(v.iter().map(copy)),
        E::Spread(_, v, b) => {
            o.push(copy(b));
            o.extend(v.iter().map(|x| copy(&x.1)));
        }
        E::Lam(l) => o.push(copy(&l.body)),
        E::Field(b, _, _) | E::Resume(b) | E::Show(_, b) | E::As(_, b) => o.push(copy(b)),
        E::Case(s, a) => {
            o.push(copy(s));
            for a in a.iter() {
                o.extend(a.branches.iter().map(|b| copy(&b.1)));
            }
        }
        E::Block(st, t) => {
            o.push(copy(t));
            for s in st.iter() {
                match s {
                    Stmt::Let(_, e) | Stmt::Do(e) => o.push(copy(e)),
                }
            }
        }
        E::Handle(h) => {
            o.push(copy(&h.body));
            if let Some((_, e)) = &h.done {
                o.push(copy(e));
            }
            o.extend(h.arms.iter().map(|a| copy(&a.body)));
        }
        _ => {}
    }
    o
}
fn size(e: &E) -> usize {
    1 + kids(e).iter().map(size).sum::<usize>()
}
/// The type of `e` where it is plain to see.
fn evident(p: &Prog, e: &E) -> Option<Ty> {
    Some(match e {
        E::Nat(_) => Ty::Nat,
        E::Int(_) => Ty::Int,
        E::Bool(_) => Ty::Bool,
        E::Float(_) => Ty::Float,
        E::Str(_) | E::Show(..) | E::ReadLine => Ty::Str,
        E::Bytes(_) => Ty::Bytes,
        E::Nil => Ty::Nil,
        E::As(t, _) => t.clone(),
        E::Bin(Op::And | Op::Or | Op::Eq | Op::Ne | Op::Lt | Op::Ge | Op::Le | Op::Gt, ..) => Ty::Bool,
        E::Bin(_, a, b) => evident(p, a).or_else(|| evident(p, b))?,
        E::Call(f, _) | E::Ufcs(f, _) if !has_var(&p.funs[*f].ret) => p.funs[*f].ret.clone(),
        E::Struct(i, _) | E::Spread(i, ..) | E::Ctor(CtorOf::User(i), ..) => Ty::User(*i, vec![]),
        E::Case(_, a) => a.iter().find_map(|a| a.branches.iter().find_map(|b| evident(p, &b.1)))?,
        E::Block(_, t) => evident(p, t)?,
        E::Handle(h) => h.at.as_ref()?.ty.clone(),
        E::Prim(b, _) => match b {
            B::PrintLine | B::Print | B::LegacyPrintLine | B::LegacyPrint | B::PrintNat | B::PrintInt => Ty::Nil,
            B::IntToString => Ty::Str,
            B::StrLen | B::BytesLen | B::BytesGetOrPanic => Ty::Nat,
            B::StrToBytes | B::BytesSlice | B::BytesSliceOrPanic => Ty::Bytes,
            B::OptIsSome | B::ResIsOk => Ty::Bool,
            _ => return None,
        },
        _ => return None,
    })
}
fn has_var(t: &Ty) -> bool {
    format!("{t:?}").contains("Var(")
}
fn fits(p: &Prog, t: &Ty, x: &E) -> bool {
    match (t, x) {
        (Ty::List(_), E::List(v)) if v.is_empty() => true,
        (Ty::Opt(_), E::Ctor(CtorOf::Opt, 0, _)) => true,
        _ => evident(p, x).is_some_and(|u| u == *t),
    }
}
fn admits(p: &Prog, e: &E, exp: &Option<Ty>, x: &E) -> bool {
    if std::mem::discriminant(e) == std::mem::discriminant(x) && !matches!(e, E::Handle(_)) && !matches!(x, E::Var(_)) && exp.is_none() && evident(p, e).is_none() {
        // the same form with fewer parts
        return matches!(e, E::Block(..) | E::Case(..) | E::List(_));
    }
    let same = |k: &E| format!("{k:?}") == format!("{x:?}");
    let passes = match e {
        E::Block(_, t) => same(t),
        E::Case(_, a) => a.iter().any(|a| a.branches.iter().any(|b| same(&b.1))),
        E::Handle(h) => h.done.is_none() && same(&h.body),
        _ => false,
    };
    let part = matches!((e, x), (E::Block(..), E::Block(..)) | (E::Case(..), E::Case(..)) | (E::Ufcs(..), E::Call(..)));
    passes || part || exp.clone().or_else(|| evident(p, e)).is_some_and(|t| fits(p, &t, x))
}
/// Candidate replacements for one node, most drastic first.
fn cands(e: &E) -> Vec<E> {
    let mut o = vec![];
    if size(e) > 1 {
        o.extend([E::Nat(1), E::Str(String::new()), E::Bool(true), E::Bool(false), E::Int(1), E::Nil, E::List(vec![]), E::Ctor(CtorOf::Opt, 0, vec![]), E::Bytes("a".into()), E::Float(1.5)]);
    }
    o.extend(kids(e));
    match e {
        E::Block(st, t) => {
            for k in 0..st.len() {
                let mut ed = none();
                let mut s = ed.st(st);
                s.remove(k);
                o.push(if s.is_empty() { copy(t) } else { E::Block(Rc::new(s), Box::new(copy(t))) });
            }
        }
        E::Case(s, a) => {
            for k in 0..a.len() {
                let mut ed = none();
                let mut v = ed.arms(a, None);
                if v[k].branches.len() > 1 {
                    let mut v2 = ed.arms(a, None);
                    v2[k].branches.remove(0);
                    o.push(E::Case(Box::new(copy(s)), Rc::new(v2)));
                }
                v.remove(k);
                if !v.is_empty() {
                    o.push(E::Case(Box::new(copy(s)), Rc::new(v)));
                }
            }
        }
        E::List(v) | E::Ctor(_, _, v) if v.len() > 1 && matches!(e, E::List(_)) => {
            for k in 0..v.len() {
                let mut w: Vec<E> = v.iter().map(copy).collect();
                w.remove(k);
                o.push(E::List(w));
            }
        }
        E::Ufcs(f, v) => o.push(E::Call(*f, v.iter().map(copy).collect())),
        _ => {}
    }
    o
}
pub fn reduce(spec: &Spec, p0: Prog, want: &str, secs: u64) {
    let t0 = Instant::now();
    let test = |p: &Prog| -> bool {
        unsafe { CUR = p };
        let o = runner::run_once(spec, simcore::tape::Src::Replay(vec![], 0), false);
        let (kind, has) = want.split_once('|').unwrap_or((want, ""));
        matches!(&o.end, End::Violation(k, m) if k.contains(kind) && m.contains(has))
    };
    let mut p = p0;
    if !test(&p) {
        println!("not reproduced in the plain environment");
        return;
    }
    'outer: while t0.elapsed().as_secs() < secs {
        // whole functions: drop unused ones by renaming is not possible; empty their effect instead
        for k in (0..p.main.len()).rev() {
            let mut q = none().prog(&p);
            q.main.remove(k);
            if test(&q) {
                p = q;
                continue 'outer;
            }
        }
        let mut i = 0isize;
        let mut any = false;
        loop {
            if t0.elapsed().as_secs() >= secs {
                break;
            }
            // candidates for node i
            let c = std::cell::RefCell::new(vec![]);
            let f = |e: &E, t: Option<Ty>| {
                *c.borrow_mut() = cands(e).into_iter().filter(|x| size(x) < size(e) && admits(&p, e, &t, x)).collect();
                None
            };
            let mut ed = Ed { n: i, f: &f, hit: false, p: Some(&p), x: None };
            ed.prog(&p);
            if ed.n >= 0 {
                break;
            }
            let cs = c.into_inner();
            let mut done = false;
            for x in cs {
                let g = |_: &E, _: Option<Ty>| Some(copy(&x));
                let mut ed = Ed { n: i, f: &g, hit: false, p: Some(&p), x: None };
                let q = ed.prog(&p);
                if ed.hit && test(&q) {
                    p = q;
                    done = true;
                    any = true;
                    break;
                }
            }
            if !done {
                i += 1;
            }
        }
        if !any {
            break;
        }
    }
    unsafe { CUR = &p };
    let o = runner::run_once(spec, simcore::tape::Src::Replay(vec![], 0), true);
    print!("{}", o.trace);
    println!("{:?}", o.end);
}
