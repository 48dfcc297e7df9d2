//! Reference semantics: a small abstract machine with an explicit stack. A perform finds the nearest
//! enclosing handler (by walking the stack), an arm runs outside its handle, `resume` continues the
//! captured part under its handler again unless the arm installed a new handler for that ability around
//! the resume.
//!
//! Alongside, `Ev` tracks the evidence map the generated code passes; where it would pick another handler
//! than the stack does, the program is one of the recorded findings and the run is not judged.
use crate::ast::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val<'p> {
    Nat(u32),
    Int(i32),
    Bool(bool),
    Float(f64),
    Str(Rc<Vec<u8>>),
    Bytes(Rc<Vec<u8>>),
    Nil,
    List(Option<Rc<(Val<'p>, Val<'p>)>>),
    Tup(Rc<Vec<Val<'p>>>),
    Data(usize, Rc<Vec<Val<'p>>>),
    Fun(usize),
    Clo(&'p Lam, Env<'p>),
    Cont(Rc<Cont<'p>>),
}
pub struct Cont<'p> {
    frames: RefCell<Option<Vec<Frame<'p>>>>,
    t0: u64,
}
pub struct EnvNode<'p> {
    v: V,
    val: Val<'p>,
    next: Env<'p>,
}
pub type Env<'p> = Option<Rc<EnvNode<'p>>>;
pub struct EvNode {
    ab: usize,
    id: u64,
    next: Ev,
}
pub type Ev = Option<Rc<EvNode>>;
const RES: V = u32::MAX;
fn bind<'p>(env: &Env<'p>, v: V, val: Val<'p>) -> Env<'p> {
    Some(Rc::new(EnvNode { v, val, next: env.clone() }))
}
fn get<'p>(env: &Env<'p>, v: V) -> Val<'p> {
    let mut e = env;
    while let Some(n) = e {
        if n.v == v {
            return n.val.clone();
        }
        e = &n.next;
    }
    panic!("reference: unbound v{v}")
}
fn ev_get(ev: &Ev, ab: usize) -> Option<u64> {
    let mut e = ev;
    while let Some(n) = e {
        if n.ab == ab {
            return Some(n.id);
        }
        e = &n.next;
    }
    None
}
#[derive(Clone)]
struct Frame<'p> {
    ev: Ev,
    k: K<'p>,
}
#[derive(Clone)]
enum K<'p> {
    Args(&'p E, Vec<Val<'p>>, Env<'p>),
    Short(Op, &'p E, Env<'p>),
    Case(&'p [Arm], Env<'p>),
    Guard(&'p [Arm], usize, usize, Val<'p>, Env<'p>, Env<'p>),
    Block(&'p [Stmt], usize, &'p E, Env<'p>),
    Handle { h: &'p Handle, env: Env<'p>, id: u64, shadow: Vec<usize> },
    AutoResume(Rc<Cont<'p>>),
    Main(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Input {
    Line(Vec<u8>),
    Eof,
    Bad,
    Sys(i32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Panic,
    /// evidence and stack disagree: a recorded finding
    Finding,
    /// too long or too deep to judge
    Budget,
}
#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub performs: u64,
    pub resumes: u64,
    pub drops: u64,
    pub depth: usize,
    pub reads: usize,
    pub closures: u64,
}
pub struct Run {
    pub out: Vec<u8>,
    pub end: End,
    pub st: Stats,
    /// text that would have been printed but is unspecified never occurs: every output is determined
    pub msg: String,
}
pub struct Limits {
    pub steps: u64,
    pub depth: usize,
}

enum C<'p> {
    Ev(&'p E, Env<'p>),
    Ret(Val<'p>),
}
pub fn run<'p>(p: &'p Prog, inputs: &[Input], lim: &Limits) -> Run {
    let mut out = vec![];
    let mut st = Stats::default();
    let mut stack: Vec<Frame<'p>> = vec![];
    let mut ev: Ev = None;
    let mut next_id = 1u64;
    let mut end = End::Done;
    let mut main_env: Env<'p> = None;
    let mut c: C<'p>;
    let done = |out, end, st, msg| Run { out, end, st, msg };
    macro_rules! push {
        ($k:expr) => {
            stack.push(Frame { ev: ev.clone(), k: $k })
        };
    }
    // main's statements
    push!(K::Main(0));
    c = C::Ret(Val::Nil);
    'm: loop {
        st.steps += 1;
        if st.steps > lim.steps || stack.len() > lim.depth {
            end = End::Budget;
            break;
        }
        st.depth = st.depth.max(stack.len());
        c = match c {
            C::Ev(e, env) => match e {
                E::Nat(n) => C::Ret(Val::Nat(*n)),
                E::Int(n) => C::Ret(Val::Int(*n)),
                E::Bool(b) => C::Ret(Val::Bool(*b)),
                E::Float(f) => C::Ret(Val::Float(*f)),
                E::Str(s) => C::Ret(Val::Str(Rc::new(s.as_bytes().to_vec()))),
                E::Bytes(s) => C::Ret(Val::Bytes(Rc::new(s.as_bytes().to_vec()))),
                E::Nil => C::Ret(Val::Nil),
                E::Var(v) => C::Ret(get(&env, *v)),
                E::FnRef(f) => C::Ret(Val::Fun(*f)),
                E::Lam(l) => {
                    st.closures += 1;
                    C::Ret(Val::Clo(l, env))
                }
                E::Bin(op @ (Op::And | Op::Or), a, b) => {
                    push!(K::Short(*op, b, env.clone()));
                    C::Ev(a, env)
                }
                E::Case(s, arms) => {
                    push!(K::Case(arms, env.clone()));
                    C::Ev(s, env)
                }
                E::Block(s, t) => match s.first() {
                    None => C::Ev(t, env),
                    Some(Stmt::Let(_, x) | Stmt::Do(x)) => {
                        push!(K::Block(s, 0, t, env.clone()));
                        C::Ev(x, env)
                    }
                },
                E::Handle(h) => {
                    let id = next_id;
                    next_id += 1;
                    push!(K::Handle { h, env: env.clone(), id, shadow: vec![] });
                    let mut seen = vec![];
                    for a in &h.arms {
                        if !seen.contains(&a.ab) {
                            seen.push(a.ab);
                            ev = Some(Rc::new(EvNode { ab: a.ab, id, next: ev.clone() }));
                        }
                    }
                    C::Ev(&h.body, env)
                }
                e => {
                    let first = kid(e, 0);
                    match first {
                        Some(x) => {
                            push!(K::Args(e, vec![], env.clone()));
                            C::Ev(x, env)
                        }
                        None => {
                            push!(K::Args(e, vec![], env.clone()));
                            // no operands: complete at once
                            let f = stack.pop().unwrap();
                            let K::Args(e, vals, env) = f.k else { unreachable!() };
                            match apply(p, e, vals, &env, &mut out, inputs, &mut st) {
                                A::Val(v) => C::Ret(v),
                                A::Ev(e, env) => C::Ev(e, env),
                                A::Panic => {
                                    end = End::Panic;
                                    break 'm;
                                }
                                A::TooBig => {
                                    end = End::Budget;
                                    break 'm;
                                }
                                A::Perform(ab, op, args) => match perform(p, ab, op, args, &mut stack, &mut ev, next_id, &mut st) {
                                    Ok(c) => c,
                                    Err(x) => {
                                        end = x;
                                        break 'm;
                                    }
                                },
                                A::Resume(v) => match resume(&env, v, &mut stack, &mut ev, &mut st) {
                                    Ok(c) => c,
                                    Err(m) => return done(out, End::Budget, st, m),
                                },
                            }
                        }
                    }
                }
            },
            C::Ret(v) => {
                let Some(f) = stack.pop() else { break };
                ev = f.ev.clone();
                match f.k {
                    K::Args(e, mut vals, env) => {
                        vals.push(v);
                        match kid(e, vals.len()) {
                            Some(x) => {
                                push!(K::Args(e, vals, env.clone()));
                                C::Ev(x, env)
                            }
                            None => match apply(p, e, vals, &env, &mut out, inputs, &mut st) {
                                A::Val(v) => C::Ret(v),
                                A::Ev(e, env) => C::Ev(e, env),
                                A::Panic => {
                                    end = End::Panic;
                                    break 'm;
                                }
                                A::TooBig => {
                                    end = End::Budget;
                                    break 'm;
                                }
                                A::Perform(ab, op, args) => match perform(p, ab, op, args, &mut stack, &mut ev, next_id, &mut st) {
                                    Ok(c) => c,
                                    Err(x) => {
                                        end = x;
                                        break 'm;
                                    }
                                },
                                A::Resume(v) => match resume(&env, v, &mut stack, &mut ev, &mut st) {
                                    Ok(c) => c,
                                    Err(m) => return done(out, End::Budget, st, m),
                                },
                            },
                        }
                    }
                    K::Short(op, b, env) => {
                        let Val::Bool(x) = v else { panic!("reference: && of a non-Bool") };
                        if x == (op == Op::Or) { C::Ret(Val::Bool(x)) } else { C::Ev(b, env) }
                    }
                    K::Case(arms, env) => {
                        let mut next = None;
                        for (i, a) in arms.iter().enumerate() {
                            if let Some(e2) = matches(&a.pat, &v, env.clone()) {
                                next = Some((i, e2));
                                break;
                            }
                        }
                        let Some((i, e2)) = next else { panic!("reference: no case arm matches") };
                        match &arms[i].branches[0] {
                            (None, b) => C::Ev(b, e2),
                            (Some(g), _) => {
                                push!(K::Guard(arms, i, 0, v, env, e2.clone()));
                                C::Ev(g, e2)
                            }
                        }
                    }
                    K::Guard(arms, mut i, mut b, scrut, env, mut e2) => {
                        let Val::Bool(x) = v else { panic!("reference: guard is not a Bool") };
                        if x {
                            C::Ev(&arms[i].branches[b].1, e2)
                        } else {
                            b += 1;
                            while b >= arms[i].branches.len() {
                                i += 1;
                                b = 0;
                                loop {
                                    if i >= arms.len() {
                                        panic!("reference: no case arm matches")
                                    }
                                    if let Some(x) = matches(&arms[i].pat, &scrut, env.clone()) {
                                        e2 = x;
                                        break;
                                    }
                                    i += 1;
                                }
                            }
                            match &arms[i].branches[b] {
                                (None, body) => C::Ev(body, e2),
                                (Some(g), _) => {
                                    push!(K::Guard(arms, i, b, scrut, env, e2.clone()));
                                    C::Ev(g, e2)
                                }
                            }
                        }
                    }
                    K::Block(s, i, t, env) => {
                        let env = match &s[i] {
                            Stmt::Let(p, _) => matches(p, &v, env).expect("reference: let pattern"),
                            Stmt::Do(_) => env,
                        };
                        match s.get(i + 1) {
                            None => C::Ev(t, env),
                            Some(Stmt::Let(_, x) | Stmt::Do(x)) => {
                                push!(K::Block(s, i + 1, t, env.clone()));
                                C::Ev(x, env)
                            }
                        }
                    }
                    K::Handle { h, env, .. } => match &h.done {
                        Some((x, b)) => C::Ev(b, bind(&env, *x, v)),
                        None => C::Ret(v),
                    },
                    K::AutoResume(k) => match resume_k(&k, v, &mut stack, &mut ev, &mut st) {
                        Ok(c) => c,
                        Err(m) => return done(out, End::Budget, st, m),
                    },
                    K::Main(i) => {
                        if i > 0 {
                            if let Stmt::Let(pt, _) = &p.main[i - 1] {
                                main_env = matches(pt, &v, main_env.clone()).expect("reference: let pattern");
                            }
                        }
                        match p.main.get(i) {
                            None => C::Ret(Val::Nil),
                            Some(Stmt::Let(_, x) | Stmt::Do(x)) => {
                                push!(K::Main(i + 1));
                                C::Ev(x, main_env.clone())
                            }
                        }
                    }
                }
            }
        };
    }
    std::mem::drop(stack);
    done(out, end, st, String::new())
}
fn kid(e: &E, i: usize) -> Option<&E> {
    match e {
        E::Bin(_, a, b) => [a, b].get(i).map(|x| &***x),
        E::Call(_, v) | E::Ufcs(_, v) | E::CallV(_, v) | E::Tup(v) | E::List(v) | E::Struct(_, v) | E::Ctor(_, _, v) | E::Perform(_, _, v) | E::Prim(_, v) => v.get(i),
        E::Spread(_, v, base) => {
            if i == 0 {
                Some(base)
            } else {
                v.get(i - 1).map(|x| &x.1)
            }
        }
        E::Field(b, _, _) => (i == 0).then_some(&**b),
        E::Resume(b) | E::Show(_, b) | E::As(_, b) => (i == 0).then_some(&**b),
        _ => None,
    }
}
enum A<'p> {
    Val(Val<'p>),
    Ev(&'p E, Env<'p>),
    Panic,
    TooBig,
    Perform(usize, usize, Vec<Val<'p>>),
    Resume(Val<'p>),
}
fn nat(v: &Val) -> u32 {
    match v {
        Val::Nat(n) => *n,
        _ => panic!("reference: Nat expected"),
    }
}
fn bytes(v: &Val) -> Rc<Vec<u8>> {
    match v {
        Val::Str(b) | Val::Bytes(b) => b.clone(),
        _ => panic!("reference: text expected"),
    }
}
fn s<'p>(b: Vec<u8>) -> Val<'p> {
    Val::Str(Rc::new(b))
}
#[allow(clippy::too_many_arguments)]
fn apply<'p>(p: &'p Prog, e: &'p E, mut a: Vec<Val<'p>>, env: &Env<'p>, out: &mut Vec<u8>, inputs: &[Input], st: &mut Stats) -> A<'p> {
    A::Val(match e {
        E::Bin(op, _, _) => {
            let v = binop(*op, &a[0], &a[1]);
            if let Val::Str(b) | Val::Bytes(b) = &v {
                if b.len() > 1 << 14 {
                    return A::TooBig;
                }
            }
            v
        }
        E::Call(f, _) | E::Ufcs(f, _) => return call_fun(p, *f, a),
        E::CallV(f, _) => match get(env, *f) {
            Val::Fun(f) => return call_fun(p, f, a),
            Val::Clo(l, mut env) => {
                for ((v, _), x) in l.params.iter().zip(a) {
                    env = bind(&env, *v, x);
                }
                return A::Ev(&l.body, env);
            }
            _ => panic!("reference: call of a non-function"),
        },
        E::Tup(_) => Val::Tup(Rc::new(a)),
        E::List(_) => {
            let mut l = Val::List(None);
            while let Some(x) = a.pop() {
                l = Val::List(Some(Rc::new((x, l))));
            }
            l
        }
        E::Struct(..) => Val::Data(0, Rc::new(a)),
        E::Spread(_, fs, _) => {
            let Val::Data(t, base) = &a[0] else { panic!("reference: spread of a non-struct") };
            let mut v = (**base).clone();
            for (i, (f, _)) in fs.iter().enumerate() {
                v[*f] = a[i + 1].clone();
            }
            Val::Data(*t, Rc::new(v))
        }
        E::Field(_, _, i) => match &a[0] {
            Val::Data(_, v) => v[*i].clone(),
            _ => panic!("reference: field of a non-struct"),
        },
        E::Ctor(_, k, _) => Val::Data(*k, Rc::new(a)),
        E::Perform(ab, op, _) => return A::Perform(*ab, *op, a),
        E::Resume(_) => return A::Resume(a.pop().unwrap()),
        E::As(..) => a.pop().unwrap(),
        E::Show(t, _) => {
            let mut o = vec![];
            show(p, t, &a[0], &mut o);
            if o.len() > 1 << 14 {
                return A::TooBig;
            }
            s(o)
        }
        E::ReadLine => {
            let i = st.reads;
            st.reads += 1;
            s(match inputs.get(i).unwrap_or(&Input::Eof) {
                Input::Line(l) => [b"L:".as_slice(), l].concat(),
                Input::Eof => b"E:eof".to_vec(),
                Input::Bad => b"E:enc".to_vec(),
                Input::Sys(_) => b"E:sys".to_vec(),
            })
        }
        E::Prim(b, _) => match b {
            B::PrintLine | B::LegacyPrintLine => {
                out.extend_from_slice(&bytes(&a[0]));
                out.push(b'\n');
                Val::Nil
            }
            B::Print | B::LegacyPrint => {
                out.extend_from_slice(&bytes(&a[0]));
                Val::Nil
            }
            B::PrintNat => {
                out.extend_from_slice(format!("{}\n", nat(&a[0])).as_bytes());
                Val::Nil
            }
            B::PrintInt => {
                let Val::Int(i) = a[0] else { panic!("reference: Int expected") };
                out.extend_from_slice(format!("{i}\n").as_bytes());
                Val::Nil
            }
            B::IntToString => {
                let Val::Int(i) = a[0] else { panic!("reference: Int expected") };
                s(i.to_string().into_bytes())
            }
            // the result is shown through a wrapper: Ok as the number, failures by name
            B::IntParse => {
                let t = bytes(&a[0]);
                s(match parse_int(&t) {
                    Ok(i) => i.to_string().into_bytes(),
                    Err(true) => b"range".to_vec(),
                    Err(false) => b"syntax".to_vec(),
                })
            }
            B::StrLen | B::BytesLen => Val::Nat(bytes(&a[0]).len() as u32),
            B::StrToBytes => Val::Bytes(bytes(&a[0])),
            B::StrFromBytes => Val::Str(bytes(&a[0])),
            B::BytesGet => match bytes(&a[0]).get(nat(&a[1]) as usize) {
                Some(&b) => Val::Data(1, Rc::new(vec![Val::Nat(b as u32)])),
                None => Val::Data(0, Rc::new(vec![])),
            },
            B::BytesGetOrPanic => match bytes(&a[0]).get(nat(&a[1]) as usize) {
                Some(&b) => Val::Nat(b as u32),
                None => return A::Panic,
            },
            B::BytesSlice => {
                let b = bytes(&a[0]);
                let st = (nat(&a[1]) as usize).min(b.len());
                let en = (nat(&a[2]) as usize).max(st).min(b.len());
                Val::Bytes(Rc::new(b[st..en].to_vec()))
            }
            B::BytesSliceOrPanic => {
                let b = bytes(&a[0]);
                let (st, en) = (nat(&a[1]) as usize, nat(&a[2]) as usize);
                if st > en || en > b.len() {
                    return A::Panic;
                }
                Val::Bytes(Rc::new(b[st..en].to_vec()))
            }
            B::Prepend => {
                let l = a.pop().unwrap();
                let x = a.pop().unwrap();
                Val::List(Some(Rc::new((x, l))))
            }
            B::OptUnwrapOr | B::ResUnwrapOr => {
                let good = if *b == B::OptUnwrapOr { 1 } else { 0 };
                match &a[0] {
                    Val::Data(k, v) if *k == good => v[0].clone(),
                    Val::Data(..) => a[1].clone(),
                    _ => panic!("reference: Option expected"),
                }
            }
            B::OptIsSome => match &a[0] {
                Val::Data(k, _) => Val::Bool(*k == 1),
                _ => panic!("reference: Option expected"),
            },
            B::ResIsOk => match &a[0] {
                Val::Data(k, _) => Val::Bool(*k == 0),
                _ => panic!("reference: Result expected"),
            },
        },
        _ => unreachable!(),
    })
}
/// Err(true): a valid numeral out of range.
fn parse_int(t: &[u8]) -> Result<i32, bool> {
    let (neg, d) = match t.first() {
        Some(b'+') => (false, &t[1..]),
        Some(b'-') => (true, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() || d.iter().any(|c| !c.is_ascii_digit()) {
        return Err(false);
    }
    let mut v: i64 = 0;
    for c in d {
        v = (v * 10 + (c - b'0') as i64).min(1 << 40);
    }
    let v = if neg { -v } else { v };
    i32::try_from(v).map_err(|_| true)
}
fn call_fun<'p>(p: &'p Prog, f: usize, a: Vec<Val<'p>>) -> A<'p> {
    let f = &p.funs[f];
    let mut env = None;
    for ((v, _), x) in f.params.iter().zip(a) {
        env = bind(&env, *v, x);
    }
    A::Ev(&f.body, env)
}
fn binop<'p>(op: Op, a: &Val<'p>, b: &Val<'p>) -> Val<'p> {
    use Val::*;
    match (a, b) {
        (Nat(x), Nat(y)) => {
            let (x, y) = (*x, *y);
            match op {
                Op::Add => Nat(x.wrapping_add(y)),
                Op::Sub => Nat(x.wrapping_sub(y)),
                Op::Mul => Nat(x.wrapping_mul(y)),
                Op::Div => Nat(x / y),
                Op::Rem => Nat(x % y),
                o => Bool(cmp(o, x.partial_cmp(&y))),
            }
        }
        (Int(x), Int(y)) => {
            let (x, y) = (*x, *y);
            match op {
                Op::Add => Int(x.wrapping_add(y)),
                Op::Sub => Int(x.wrapping_sub(y)),
                Op::Mul => Int(x.wrapping_mul(y)),
                Op::Div => Int(x.wrapping_div(y)),
                Op::Rem => Int(x.wrapping_rem(y)),
                o => Bool(cmp(o, x.partial_cmp(&y))),
            }
        }
        (Float(x), Float(y)) => match op {
            Op::Add => Float(x + y),
            Op::Sub => Float(x - y),
            Op::Mul => Float(x * y),
            Op::Div => Float(x / y),
            o => Bool(cmp(o, x.partial_cmp(y))),
        },
        (Str(x), Str(y)) => match op {
            Op::Cat => Str(Rc::new([x.as_slice(), y.as_slice()].concat())),
            Op::Eq => Bool(x == y),
            Op::Ne => Bool(x != y),
            _ => panic!("reference: string operator"),
        },
        (Bytes(x), Bytes(y)) if op == Op::Cat => Bytes(Rc::new([x.as_slice(), y.as_slice()].concat())),
        _ => panic!("reference: operand types"),
    }
}
fn cmp(op: Op, o: Option<std::cmp::Ordering>) -> bool {
    use std::cmp::Ordering::*;
    match op {
        Op::Eq => o == Some(Equal),
        Op::Ne => o != Some(Equal),
        Op::Lt => o == Some(Less),
        Op::Le => matches!(o, Some(Less | Equal)),
        Op::Gt => o == Some(Greater),
        Op::Ge => matches!(o, Some(Greater | Equal)),
        _ => panic!("reference: operator"),
    }
}
fn matches<'p>(pt: &Pat, v: &Val<'p>, env: Env<'p>) -> Option<Env<'p>> {
    match (pt, v) {
        (Pat::Wild, _) => Some(env),
        (Pat::Var(x), v) => Some(bind(&env, *x, v.clone())),
        (Pat::As(p, x), v) => matches(p, v, env).map(|e| bind(&e, *x, v.clone())),
        (Pat::Nat(n), Val::Nat(m)) => (n == m).then_some(env),
        (Pat::Int(n), Val::Int(m)) => (n == m).then_some(env),
        (Pat::Bool(n), Val::Bool(m)) => (n == m).then_some(env),
        (Pat::Str(n), Val::Str(m)) => (n.as_bytes() == m.as_slice()).then_some(env),
        (Pat::Tup(ps), Val::Tup(vs)) => {
            let mut e = env;
            for (p, v) in ps.iter().zip(vs.iter()) {
                e = matches(p, v, e)?;
            }
            Some(e)
        }
        (Pat::Ctor(_, k, ps), Val::Data(t, vs)) => {
            if k != t {
                return None;
            }
            let mut e = env;
            for (p, v) in ps.iter().zip(vs.iter()) {
                e = matches(p, v, e)?;
            }
            Some(e)
        }
        (Pat::Struct(_, fs, _), Val::Data(_, vs)) => {
            let mut e = env;
            for (f, p) in fs {
                e = matches(p, &vs[*f], e)?;
            }
            Some(e)
        }
        (Pat::List(ps, rest), v) => {
            let mut e = env;
            let mut cur = v.clone();
            for p in ps {
                let Val::List(Some(c)) = &cur else { return None };
                let c = c.clone();
                e = matches(p, &c.0, e)?;
                cur = c.1.clone();
            }
            match rest {
                None => match cur {
                    Val::List(None) => Some(e),
                    _ => None,
                },
                Some(None) => Some(e),
                Some(Some(x)) => Some(bind(&e, *x, cur)),
            }
        }
        _ => panic!("reference: pattern {pt:?} against another type"),
    }
}
fn show(p: &Prog, t: &Ty, v: &Val, o: &mut Vec<u8>) {
    if o.len() > 1 << 14 {
        return; // too big already
    }
    let w = |o: &mut Vec<u8>, t: &str| o.extend_from_slice(t.as_bytes());
    match (t, v) {
        (Ty::Nat, Val::Nat(n)) => w(o, &n.to_string()),
        (Ty::Int, Val::Int(n)) => w(o, &n.to_string()),
        (Ty::Bool, Val::Bool(b)) => w(o, if *b { "T" } else { "F" }),
        (Ty::Float, Val::Float(x)) => w(o, if *x < 0.0 { "neg" } else if *x == 0.0 { "zero" } else { "pos" }),
        (Ty::Str, Val::Str(b)) => {
            w(o, "'");
            o.extend_from_slice(b);
            w(o, "'");
        }
        (Ty::Bytes, Val::Bytes(b)) => {
            w(o, "b'");
            o.extend_from_slice(b);
            w(o, "'");
        }
        (Ty::Nil, _) => w(o, "nil"),
        (Ty::List(e), v) => {
            let mut cur = v.clone();
            while let Val::List(Some(c)) = &cur {
                show(p, e, &c.0, o);
                w(o, ";");
                let n = c.1.clone();
                cur = n;
            }
            w(o, ".");
        }
        (Ty::Opt(e), Val::Data(k, a)) => {
            if *k == 0 {
                w(o, "none")
            } else {
                w(o, "some(");
                show(p, e, &a[0], o);
                w(o, ")");
            }
        }
        (Ty::Res(x, y), Val::Data(k, a)) => {
            w(o, if *k == 0 { "ok(" } else { "err(" });
            show(p, if *k == 0 { x } else { y }, &a[0], o);
            w(o, ")");
        }
        (Ty::Tup(ts), Val::Tup(vs)) => {
            w(o, "(");
            for (i, (t, v)) in ts.iter().zip(vs.iter()).enumerate() {
                if i > 0 {
                    w(o, ",");
                }
                show(p, t, v, o);
            }
            w(o, ")");
        }
        (Ty::User(i, args), Val::Data(k, a)) => match &p.tys[*i].kind {
            Kind::Struct(f) => {
                w(o, "{");
                for (j, (_, t)) in f.iter().enumerate() {
                    if j > 0 {
                        w(o, ",");
                    }
                    show(p, &subst(t, args), &a[j], o);
                }
                w(o, "}");
            }
            Kind::Enum(vs) => {
                w(o, &format!("c{k}"));
                if !vs[*k].1.is_empty() {
                    w(o, "(");
                    for (j, t) in vs[*k].1.iter().enumerate() {
                        if j > 0 {
                            w(o, ",");
                        }
                        show(p, &subst(t, args), &a[j], o);
                    }
                    w(o, ")");
                }
            }
        },
        _ => panic!("reference: show"),
    }
}
/// Does this frame belong to an arm that has yet to resume?
fn in_arm(k: &K) -> bool {
    let env = match k {
        K::AutoResume(_) => return true,
        K::Args(_, _, e) | K::Short(_, _, e) | K::Case(_, e) | K::Guard(_, _, _, _, e, _) | K::Block(_, _, _, e) => e,
        _ => return false,
    };
    let mut e = env;
    while let Some(n) = e {
        if n.v == RES {
            return matches!(&n.val, Val::Cont(k) if k.frames.borrow().is_some());
        }
        e = &n.next;
    }
    false
}
#[allow(clippy::too_many_arguments)]
fn perform<'p>(p: &'p Prog, ab: usize, op: usize, args: Vec<Val<'p>>, stack: &mut Vec<Frame<'p>>, ev: &mut Ev, t0: u64, st: &mut Stats) -> Result<C<'p>, End> {
    st.performs += 1;
    let at = stack.iter().rposition(|f| matches!(&f.k, K::Handle { h, shadow, .. } if h.arms.iter().any(|a| a.ab == ab) && !shadow.contains(&ab)));
    let Some(at) = at else { panic!("reference: no handler for {}", p.abs[ab].name) };
    let K::Handle { h, env, id, .. } = &stack[at].k else { unreachable!() };
    if ev_get(ev, ab) != Some(*id) {
        return Err(End::Finding);
    }
    let (h, env) = (*h, env.clone());
    let arm = h.arms.iter().find(|a| a.ab == ab && a.op == op).expect("reference: arm");
    let suffix = matches!(&arm.body, E::Block(st, _) if st.iter().any(|s| matches!(s, Stmt::Let(_, E::Resume(_)) | Stmt::Do(E::Resume(_)))));
    let again = matches!(&arm.body, E::Call(_, a) if a.iter().any(|a| matches!(a, E::Lam(l) if matches!(l.body, E::Resume(_)))));
    if (suffix || again) && stack[at + 1..].iter().any(|f| matches!(f.k, K::Handle { .. }) || in_arm(&f.k)) {
        // an arm that goes on after `resume`, or resumes under a new handler, with another handler, or the
        // unfinished arm of one, in between: a recorded finding
        return Err(End::Finding);
    }
    let frames = stack.split_off(at);
    let k = Rc::new(Cont { frames: RefCell::new(Some(frames)), t0 });
    let mut e2 = env;
    for (v, x) in arm.params.iter().zip(args) {
        e2 = bind(&e2, *v, x);
    }
    if arm.as_fn && p.abs[ab].ops[op].ret != Ty::Never {
        stack.push(Frame { ev: ev.clone(), k: K::AutoResume(k) });
    } else {
        e2 = bind(&e2, RES, Val::Cont(k));
    }
    // the arm runs with the performer's evidence (see module comment)
    Ok(C::Ev(&arm.body, e2))
}
fn resume<'p>(env: &Env<'p>, v: Val<'p>, stack: &mut Vec<Frame<'p>>, ev: &mut Ev, st: &mut Stats) -> Result<C<'p>, String> {
    let Val::Cont(k) = get(env, RES) else { panic!("reference: resume") };
    resume_k(&k, v, stack, ev, st)
}
fn resume_k<'p>(k: &Rc<Cont<'p>>, v: Val<'p>, stack: &mut Vec<Frame<'p>>, ev: &mut Ev, st: &mut Stats) -> Result<C<'p>, String> {
    st.resumes += 1;
    let Some(mut frames) = k.frames.borrow_mut().take() else { return Err("resumed twice".into()) };
    // new handlers installed by the arm around this resume
    let mut new: Vec<usize> = vec![];
    for f in stack.iter() {
        if let K::Handle { h, id, shadow, .. } = &f.k {
            if *id >= k.t0 {
                for a in &h.arms {
                    if !shadow.contains(&a.ab) {
                        new.push(a.ab);
                    }
                }
            }
        }
    }
    if let K::Handle { h, shadow, .. } = &mut frames[0].k {
        for a in &h.arms {
            if new.contains(&a.ab) && !shadow.contains(&a.ab) {
                shadow.push(a.ab);
            }
        }
    }
    // evidence: frames above the innermost handle continue with the resumer's evidence
    let n = frames.len();
    let top = frames.iter().rposition(|f| matches!(f.k, K::Handle { .. })).unwrap();
    for f in &mut frames[top + 1..n] {
        f.ev = ev.clone();
    }
    stack.extend(frames);
    Ok(C::Ret(v))
}
