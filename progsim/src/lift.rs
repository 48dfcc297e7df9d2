//! Moves every `handle` expression into a function of its own, whose body it is. The core language
//! of the generator uses handlers in this form only; elsewhere the compiler rejects some of them.
use crate::ast::*;
use std::rc::Rc;

pub struct Lift {
    funs: Vec<Fun>,
    base: usize,
}
impl Lift {
    fn b(&mut self, e: Box<E>) -> Box<E> {
        Box::new(self.e(*e))
    }
    fn v(&mut self, v: Vec<E>) -> Vec<E> {
        v.into_iter().map(|e| self.e(e)).collect()
    }
    pub fn st(&mut self, s: Vec<Stmt>) -> Vec<Stmt> {
        s.into_iter()
            .map(|s| match s {
                Stmt::Let(p, e) => Stmt::Let(p, self.e(e)),
                Stmt::Do(e) => Stmt::Do(self.e(e)),
            })
            .collect()
    }
    fn inside(&mut self, h: Rc<Handle>) -> Handle {
        let h = own(h);
        Handle {
            body: self.e(h.body),
            done: h.done.map(|(v, e)| (v, self.e(e))),
            arms: h.arms.into_iter().map(|a| HArm { body: self.e(a.body), ..a }).collect(),
            at: h.at,
        }
    }
    fn e(&mut self, e: E) -> E {
        match e {
            E::Bin(o, a, b) => E::Bin(o, self.b(a), self.b(b)),
            E::Call(f, v) => E::Call(f, self.v(v)),
            E::Ufcs(f, v) => E::Ufcs(f, self.v(v)),
            E::CallV(f, v) => E::CallV(f, self.v(v)),
            E::Lam(l) => {
                let l = own(l);
                E::Lam(Rc::new(Lam { params: l.params, annotate: l.annotate, body: self.e(l.body) }))
            }
            E::Tup(v) => E::Tup(self.v(v)),
            E::List(v) => E::List(self.v(v)),
            E::Struct(i, v) => E::Struct(i, self.v(v)),
            E::Spread(i, v, b) => E::Spread(i, v.into_iter().map(|(k, e)| (k, self.e(e))).collect(), self.b(b)),
            E::Field(b, i, k) => E::Field(self.b(b), i, k),
            E::Ctor(c, k, v) => E::Ctor(c, k, self.v(v)),
            E::Case(s, a) => {
                let s = self.b(s);
                E::Case(s, Rc::new(own(a).into_iter().map(|a| Arm { pat: a.pat, branches: a.branches.into_iter().map(|(g, e)| (g.map(|g| self.e(g)), self.e(e))).collect() }).collect()))
            }
            E::Block(s, t) => E::Block(Rc::new(self.st(own(s))), self.b(t)),
            E::Perform(a, o, v) => E::Perform(a, o, self.v(v)),
            E::Resume(b) => E::Resume(self.b(b)),
            E::Prim(p, v) => E::Prim(p, self.v(v)),
            E::Show(t, b) => E::Show(t, self.b(b)),
            E::As(t, b) => E::As(t, self.b(b)),
            E::Handle(h) => {
                let mut h = self.inside(h);
                let Some(At { vars, eff, ty }) = h.at.take() else { return E::Handle(Rc::new(h)) };
                let body = E::Handle(Rc::new(h));
                let mut used = vec![];
                uses(&body, &mut used);
                let params: Vec<(V, Ty)> = vars.into_iter().filter(|(v, _)| used.contains(v)).collect();
                let f = self.base + self.funs.len();
                let args = params.iter().map(|p| E::Var(p.0)).collect();
                self.funs.push(Fun { name: format!("h{f}"), params, ret: ty, eff, body, bare: false });
                E::Call(f, args)
            }
            e => e,
        }
    }
}
fn own<T>(x: Rc<T>) -> T {
    Rc::try_unwrap(x).ok().expect("unshared tree")
}
fn uses(e: &E, o: &mut Vec<V>) {
    match e {
        E::Var(v) => o.push(*v),
        E::CallV(f, v) => {
            o.push(*f);
            v.iter().for_each(|e| uses(e, o));
        }
        E::Bin(_, a, b) => {
            uses(a, o);
            uses(b, o);
        }
        E::Call(_, v) | E::Ufcs(_, v) | E::Tup(v) | E::List(v) | E::Struct(_, v) | E::Ctor(_, _, v) | E::Perform(_, _, v) | E::Prim(_, v) => v.iter().for_each(|e| uses(e, o)),
        E::Spread(_, v, b) => {
            uses(b, o);
            v.iter().for_each(|x| uses(&x.1, o));
        }
        E::Lam(l) => uses(&l.body, o),
        E::Field(b, _, _) | E::Resume(b) | E::Show(_, b) | E::As(_, b) => uses(b, o),
        E::Case(s, a) => {
            uses(s, o);
            for b in a.iter().flat_map(|a| &a.branches) {
                if let Some(g) = &b.0 {
                    uses(g, o);
                }
                uses(&b.1, o);
            }
        }
        E::Block(st, t) => {
            uses(t, o);
            for s in st.iter() {
                match s {
                    Stmt::Let(_, e) | Stmt::Do(e) => uses(e, o),
                }
            }
        }
        E::Handle(h) => {
            uses(&h.body, o);
            if let Some((_, e)) = &h.done {
                uses(e, o);
            }
            h.arms.iter().for_each(|a| uses(&a.body, o));
        }
        _ => {}
    }
}
pub fn lift(p: &mut Prog) {
    let funs = std::mem::take(&mut p.funs);
    let mut l = Lift { funs: vec![], base: funs.len() };
    let mut done = vec![];
    for mut f in funs {
        f.body = match f.body {
            E::Handle(h) => {
                let mut h = l.inside(h);
                h.at = None;
                E::Handle(Rc::new(h))
            }
            e => l.e(e),
        };
        done.push(f);
    }
    p.main = l.st(std::mem::take(&mut p.main));
    done.extend(l.funs);
    p.funs = done;
}
