//! Source programs as the generator builds them: types, expressions, and their Tribute source text.
use std::fmt::Write;
use std::rc::Rc;

pub type V = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Nat,
    Int,
    Bool,
    Float,
    Str,
    Bytes,
    Nil,
    List(Rc<Ty>),
    Tup(Vec<Ty>),
    Opt(Rc<Ty>),
    Res(Rc<Ty>, Rc<Ty>),
    User(usize, Vec<Ty>),
    Fn(Vec<Ty>, Eff, Rc<Ty>),
    Var(u8),
    Never,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Eff {
    pub abs: Vec<usize>,
    pub io: bool,
    /// an effect variable `e`
    pub poly: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Cat,
    And,
    Or,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    PrintLine,
    Print,
    LegacyPrintLine,
    LegacyPrint,
    PrintNat,
    PrintInt,
    IntToString,
    IntParse,
    StrLen,
    StrToBytes,
    StrFromBytes,
    BytesLen,
    BytesGet,
    BytesGetOrPanic,
    BytesSlice,
    BytesSliceOrPanic,
    Prepend,
    OptUnwrapOr,
    OptIsSome,
    ResUnwrapOr,
    ResIsOk,
}
#[derive(Clone, Debug)]
pub enum E {
    Nat(u32),
    Int(i32),
    Bool(bool),
    Float(f64),
    Str(String),
    Bytes(String),
    Nil,
    Var(V),
    Bin(Op, Box<E>, Box<E>),
    Call(usize, Vec<E>),
    /// method-call syntax for the same
    Ufcs(usize, Vec<E>),
    CallV(V, Vec<E>),
    FnRef(usize),
    Lam(Rc<Lam>),
    Tup(Vec<E>),
    List(Vec<E>),
    Struct(usize, Vec<E>),
    Spread(usize, Vec<(usize, E)>, Box<E>),
    Field(Box<E>, usize, usize),
    Ctor(CtorOf, usize, Vec<E>),
    Case(Box<E>, Rc<Vec<Arm>>),
    Block(Rc<Vec<Stmt>>, Box<E>),
    Perform(usize, usize, Vec<E>),
    Handle(Rc<Handle>),
    Resume(Box<E>),
    Prim(B, Vec<E>),
    Show(Ty, Box<E>),
    /// the identity at a given type, written as a call of an annotated function
    As(Ty, Box<E>),
    /// read_line under a handler: Ok(line) as "L:"+line, errors as "E:eof" / "E:enc" / "E:sys"
    ReadLine,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CtorOf {
    Opt,
    Res,
    User(usize),
}
#[derive(Debug)]
pub struct Lam {
    pub params: Vec<(V, Ty)>,
    pub annotate: bool,
    pub body: E,
}
#[derive(Debug)]
pub enum Stmt {
    Let(Pat, E),
    Do(E),
}
#[derive(Debug)]
pub struct Arm {
    pub pat: Pat,
    /// guarded branches in order; the last may be unguarded (None)
    pub branches: Vec<(Option<E>, E)>,
}
#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Var(V),
    Nat(u32),
    Int(i32),
    Bool(bool),
    Str(String),
    Tup(Vec<Pat>),
    Ctor(CtorOf, usize, Vec<Pat>),
    Struct(usize, Vec<(usize, Pat)>, bool),
    /// elements, rest: None exact, Some(None) `..`, Some(Some(v)) `..v`
    List(Vec<Pat>, Option<Option<V>>),
    As(Box<Pat>, V),
}
#[derive(Debug)]
pub struct Handle {
    pub body: E,
    pub done: Option<(V, E)>,
    pub arms: Vec<HArm>,
    /// where it stands: what lifting it into a function needs
    pub at: Option<At>,
}
#[derive(Debug)]
pub struct At {
    pub vars: Vec<(V, Ty)>,
    pub eff: Eff,
    pub ty: Ty,
}
#[derive(Debug)]
pub struct HArm {
    pub ab: usize,
    pub op: usize,
    pub as_fn: bool,
    pub params: Vec<V>,
    pub body: E,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Vec<(String, Ty)>),
    Enum(Vec<(String, Vec<Ty>)>),
}
#[derive(Clone, Debug)]
pub struct UserTy {
    pub name: String,
    pub nparams: u8,
    pub kind: Kind,
    pub module: Option<String>,
}
#[derive(Clone, Debug)]
pub struct OpDecl {
    pub name: String,
    pub is_fn: bool,
    pub params: Vec<Ty>,
    pub ret: Ty,
}
#[derive(Clone, Debug)]
pub struct Ability {
    pub name: String,
    pub ops: Vec<OpDecl>,
    pub builtin: bool,
    /// declared with one type parameter; this is its argument everywhere
    pub targ: Option<Ty>,
}
#[derive(Debug)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(V, Ty)>,
    pub ret: Ty,
    pub eff: Eff,
    pub body: E,
    /// no return annotation
    pub bare: bool,
}
#[derive(Default, Debug)]
pub struct Prog {
    pub tys: Vec<UserTy>,
    pub abs: Vec<Ability>,
    pub funs: Vec<Fun>,
    pub main: Vec<Stmt>,
}

// ------------------------------------------------------------------ source text
pub struct Src<'a> {
    p: &'a Prog,
    o: String,
    ind: usize,
    pub shows: Vec<Ty>,
    ascs: Vec<Ty>,
    tmp: u32,
}
const TV: [&str; 6] = ["a", "b", "c", "d", "f", "g"];
pub fn to_source(p: &Prog) -> String {
    let mut s = Src { p, o: String::new(), ind: 0, shows: vec![], ascs: vec![], tmp: 0 };
    s.prog();
    s.o
}
fn esc(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}
impl Src<'_> {
    fn nl(&mut self) {
        self.o.push('\n');
        for _ in 0..self.ind {
            self.o.push_str("    ");
        }
    }
    fn w(&mut self, t: &str) {
        self.o.push_str(t)
    }
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Nat => "Nat".into(),
            Ty::Int => "Int".into(),
            Ty::Bool => "Bool".into(),
            Ty::Float => "Float".into(),
            Ty::Str => "String".into(),
            Ty::Bytes => "Bytes".into(),
            Ty::Nil => "Nil".into(),
            Ty::Never => "Never".into(),
            Ty::Var(i) => TV[*i as usize].into(),
            Ty::List(t) => format!("List({})", self.ty(t)),
            Ty::Opt(t) => format!("Option({})", self.ty(t)),
            Ty::Res(a, b) => format!("Result({}, {})", self.ty(a), self.ty(b)),
            Ty::Tup(v) => format!("#({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::User(i, a) => {
                let n = self.tyname(*i);
                if a.is_empty() {
                    n
                } else {
                    format!("{n}({})", a.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", "))
                }
            }
            Ty::Fn(p, e, r) => format!("fn({}) {} {}", p.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", "), self.arrow(e), self.ty(r)),
        }
    }
    fn tyname(&self, i: usize) -> String {
        let t = &self.p.tys[i];
        match &t.module {
            Some(m) => format!("{m}::{}", t.name),
            None => t.name.clone(),
        }
    }
    fn abname(&self, i: usize) -> String {
        let a = &self.p.abs[i];
        match &a.targ {
            Some(t) => format!("{}({})", a.name, self.ty(t)),
            None => a.name.clone(),
        }
    }
    pub fn arrow(&self, e: &Eff) -> String {
        let mut v = vec![];
        if e.poly {
            v.push("e".to_string());
        }
        for &a in &e.abs {
            v.push(self.abname(a));
        }
        if e.io {
            v.push("Io".into());
        }
        if v.is_empty() { "->".into() } else { format!("->{{{}}}", v.join(", ")) }
    }
    fn ctor(&self, of: CtorOf, k: usize) -> String {
        match of {
            CtorOf::Opt => ["None", "Some"][k].into(),
            CtorOf::Res => ["Ok", "Error"][k].into(),
            CtorOf::User(i) => match &self.p.tys[i].kind {
                Kind::Enum(v) => match &self.p.tys[i].module {
                    Some(_) => format!("{}::{}", self.tyname(i), v[k].0),
                    None => v[k].0.clone(),
                },
                _ => unreachable!(),
            },
        }
    }
    fn field(&self, i: usize, f: usize) -> String {
        match &self.p.tys[i].kind {
            Kind::Struct(v) => v[f].0.clone(),
            _ => unreachable!(),
        }
    }
    fn pat(&self, p: &Pat) -> String {
        let l = |v: &Vec<Pat>| v.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ");
        match p {
            Pat::Wild => "_".into(),
            Pat::Var(v) => format!("v{v}"),
            Pat::Nat(n) => n.to_string(),
            Pat::Int(n) => format!("{n:+}"),
            Pat::Bool(b) => (if *b { "True" } else { "False" }).into(),
            Pat::Str(s) => format!("\"{}\"", esc(s)),
            Pat::Tup(v) => format!("#({})", l(v)),
            Pat::Ctor(of, k, v) => {
                if v.is_empty() {
                    self.ctor(*of, *k)
                } else {
                    format!("{}({})", self.ctor(*of, *k), l(v))
                }
            }
            Pat::Struct(i, v, rest) => {
                let mut s: Vec<String> = v.iter().map(|(f, p)| format!("{}: {}", self.field(*i, *f), self.pat(p))).collect();
                if *rest {
                    s.push("..".into());
                }
                format!("{} {{ {} }}", self.tyname(*i), s.join(", "))
            }
            Pat::List(v, r) => {
                let mut s: Vec<String> = v.iter().map(|p| self.pat(p)).collect();
                match r {
                    None => {}
                    Some(None) => s.push("..".into()),
                    Some(Some(v)) => s.push(format!("..v{v}")),
                }
                format!("[{}]", s.join(", "))
            }
            Pat::As(p, v) => format!("{} as v{v}", self.pat(p)),
        }
    }
    fn show_name(&mut self, t: &Ty) -> String {
        match t {
            Ty::Int => "Int::to_string".into(),
            _ => {
                let k = match self.shows.iter().position(|x| x == t) {
                    Some(k) => k,
                    None => {
                        self.shows.push(t.clone());
                        self.shows.len() - 1
                    }
                };
                format!("show{k}")
            }
        }
    }
    fn args(&mut self, v: &[E]) {
        self.w("(");
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.w(", ");
            }
            self.e(e);
        }
        self.w(")");
    }
    fn call(&mut self, n: &str, v: &[E]) {
        self.w(n);
        self.args(v);
    }
    fn block(&mut self, e: &E) {
        self.w("{");
        self.ind += 1;
        match e {
            E::Block(st, t) => {
                self.stmts(st);
                self.nl();
                self.tail(t);
            }
            e => {
                self.nl();
                self.tail(e);
            }
        }
        self.ind -= 1;
        self.nl();
        self.w("}");
    }
    fn tail(&mut self, e: &E) {
        let at = self.o.len();
        self.e(e);
        let c = self.o.as_bytes()[at];
        if !(c.is_ascii_alphabetic() || c == b'_' || c.is_ascii_digit()) {
            let t = self.o.split_off(at);
            let n = self.tmp;
            self.tmp += 1;
            write!(self.o, "let t{n} = {t}").unwrap();
            self.nl();
            write!(self.o, "t{n}").unwrap();
        }
    }
    fn stmts(&mut self, st: &[Stmt]) {
        for s in st {
            self.nl();
            match s {
                Stmt::Let(p, e) => {
                    let t = self.pat(p);
                    write!(self.o, "let {t} = ").unwrap();
                    self.e(e);
                }
                Stmt::Do(e) => {
                    let at = self.o.len();
                    self.e(e);
                    let c = self.o.as_bytes()[at];
                    if !(c.is_ascii_alphabetic() || c == b'_') {
                        self.o.insert_str(at, "let _ = ");
                    }
                }
            }
        }
    }
    /// operand position
    fn atom(&mut self, e: &E) {
        let simple = !matches!(e, E::Bin(..) | E::Case(..) | E::Block(..) | E::Handle(..) | E::Lam(..) | E::Resume(..) | E::Spread(..) | E::Struct(..));
        if simple {
            self.e(e)
        } else {
            self.w("(");
            self.e(e);
            self.w(")");
        }
    }
    fn e(&mut self, e: &E) {
        match e {
            E::Nat(n) => self.w(&n.to_string()),
            E::Int(n) => self.w(&format!("{n:+}")),
            E::Bool(b) => self.w(if *b { "True" } else { "False" }),
            E::Float(f) => self.w(&format!("{f:?}")),
            E::Str(s) => self.w(&format!("\"{}\"", esc(s))),
            E::Bytes(s) => self.w(&format!("b\"{}\"", esc(s))),
            E::Nil => self.w("Nil"),
            E::Var(v) => self.w(&format!("v{v}")),
            E::Bin(op, a, b) => {
                self.atom(a);
                self.w(match op {
                    Op::Add => " + ",
                    Op::Sub => " - ",
                    Op::Mul => " * ",
                    Op::Div => " / ",
                    Op::Rem => " % ",
                    Op::Eq => " == ",
                    Op::Ne => " != ",
                    Op::Lt => " < ",
                    Op::Le => " <= ",
                    Op::Gt => " > ",
                    Op::Ge => " >= ",
                    Op::Cat => " <> ",
                    Op::And => " && ",
                    Op::Or => " || ",
                });
                self.atom(b);
            }
            E::Call(f, v) => {
                let n = self.p.funs[*f].name.clone();
                self.call(&n, v)
            }
            E::Ufcs(f, v) => {
                let n = self.p.funs[*f].name.clone();
                self.atom(&v[0]);
                self.w(".");
                self.call(&n, &v[1..])
            }
            E::CallV(f, v) => self.call(&format!("v{f}"), v),
            E::FnRef(f) => {
                let n = self.p.funs[*f].name.clone();
                self.w(&n)
            }
            E::Lam(l) => {
                let ps: Vec<String> = l.params.iter().map(|(v, t)| if l.annotate { format!("v{v}: {}", self.ty(t)) } else { format!("v{v}") }).collect();
                self.w(&format!("fn({}) ", ps.join(", ")));
                self.block(&l.body);
            }
            E::Tup(v) => {
                self.w("#");
                self.args(v)
            }
            E::List(v) => {
                self.w("[");
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.w(", ");
                    }
                    self.e(e);
                }
                self.w("]");
            }
            E::Struct(t, v) => {
                let n = self.tyname(*t);
                self.w(&format!("{n} {{ "));
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.w(", ");
                    }
                    let f = self.field(*t, i);
                    self.w(&format!("{f}: "));
                    self.e(e);
                }
                self.w(" }");
            }
            E::Spread(t, v, base) => {
                let n = self.tyname(*t);
                self.w(&format!("{n} {{ .."));
                self.atom(base);
                for (i, e) in v {
                    let f = self.field(*t, *i);
                    self.w(&format!(", {f}: "));
                    self.e(e);
                }
                self.w(" }");
            }
            E::Field(b, t, i) => {
                self.atom(b);
                let f = self.field(*t, *i);
                self.w(&format!(".{f}()"));
            }
            E::Ctor(of, k, v) => {
                let n = self.ctor(*of, *k);
                self.w(&n);
                if !v.is_empty() {
                    self.args(v);
                }
            }
            E::Case(s, arms) => {
                self.w("case ");
                self.atom(s);
                self.w(" {");
                self.ind += 1;
                for a in arms.iter() {
                    self.nl();
                    let p = self.pat(&a.pat);
                    self.w(&p);
                    // the unguarded branch after guarded ones is an arm of its own
                    let n = a.branches.iter().filter(|b| b.0.is_some()).count();
                    for (k, (g, b)) in a.branches.iter().enumerate() {
                        match g {
                            Some(g) => {
                                if n > 1 {
                                    self.nl();
                                    self.w("    if ");
                                } else {
                                    self.w(" if ");
                                }
                                self.e(g);
                            }
                            None if k > 0 => {
                                self.nl();
                                self.w(&p);
                            }
                            None => {}
                        }
                        self.w(" -> ");
                        match b {
                            E::Block(..) => self.block(b),
                            b => self.e(b),
                        }
                    }
                }
                self.ind -= 1;
                self.nl();
                self.w("}");
            }
            E::Block(..) => self.block(e),
            E::Perform(a, o, v) => {
                let n = format!("{}::{}", self.p.abs[*a].name, self.p.abs[*a].ops[*o].name);
                self.call(&n, v)
            }
            E::Handle(h) => {
                self.w("handle ");
                match &h.body {
                    b @ (E::Call(..) | E::CallV(..) | E::Perform(..)) => self.e(b),
                    b => self.block(b),
                }
                self.w(" {");
                self.ind += 1;
                if let Some((v, b)) = &h.done {
                    self.nl();
                    self.w(&format!("do v{v} "));
                    self.block(b);
                }
                for a in &h.arms {
                    self.nl();
                    let ab = &self.p.abs[a.ab];
                    let ps: Vec<String> = a.params.iter().map(|v| format!("v{v}")).collect();
                    let t = format!("{} {}::{}({}) ", if a.as_fn { "fn" } else { "op" }, ab.name, ab.ops[a.op].name, ps.join(", "));
                    self.w(&t);
                    self.block(&a.body);
                }
                self.ind -= 1;
                self.nl();
                self.w("}");
            }
            E::Resume(e) => {
                self.w("resume ");
                self.atom(e);
            }
            E::Prim(b, v) => {
                let n = match b {
                    B::PrintLine => "std::io::print_line",
                    B::Print => "std::io::print",
                    B::LegacyPrintLine => "print_line",
                    B::LegacyPrint => "print",
                    B::PrintNat => "__tribute_print_nat",
                    B::PrintInt => "__tribute_print_int",
                    B::IntToString => "Int::to_string",
                    B::IntParse => "int_parse_show",
                    B::StrLen => "String::len",
                    B::StrToBytes => "String::to_bytes",
                    B::StrFromBytes => "String::from_bytes",
                    B::BytesLen => "Bytes::len",
                    B::BytesGet => "Bytes::get",
                    B::BytesGetOrPanic => "Bytes::get_or_panic",
                    B::BytesSlice => "Bytes::slice",
                    B::BytesSliceOrPanic => "Bytes::slice_or_panic",
                    B::Prepend => "List::prepend",
                    B::OptUnwrapOr => "Option::unwrap_or",
                    B::OptIsSome => "Option::is_some",
                    B::ResUnwrapOr => "Result::unwrap_or",
                    B::ResIsOk => "Result::is_ok",
                };
                self.call(n, v)
            }
            E::Show(t, e) => {
                let n = self.show_name(t);
                self.w(&n);
                self.w("(");
                self.e(e);
                self.w(")");
            }
            E::As(t, e) => {
                let k = match self.ascs.iter().position(|x| x == t) {
                    Some(k) => k,
                    None => {
                        self.ascs.push(t.clone());
                        self.ascs.len() - 1
                    }
                };
                self.w(&format!("as{k}("));
                self.e(e);
                self.w(")");
            }
            E::ReadLine => self.w("next_input()"),
        }
    }
    fn prog(&mut self) {
        let uses = std::mem::take(&mut self.o);
        debug_assert!(uses.is_empty());
        self.w("use std::io::Io\nuse abilities::{Abort, Throw}\n");
        self.w("extern \"C\" fn __tribute_print_nat(value: Nat) -> Nil\nextern \"C\" fn __tribute_print_int(value: Int) -> Nil\n\n");
        let p = self.p;
        for t in &p.tys {
            let ind = if t.module.is_some() { "    " } else { "" };
            if let Some(m) = &t.module {
                self.w(&format!("pub mod {m} {{\n"));
            }
            let tp = if t.nparams == 0 { String::new() } else { format!("({})", TV[..t.nparams as usize].join(", ")) };
            let vis = if t.module.is_some() { "pub " } else { "" };
            match &t.kind {
                Kind::Struct(f) => {
                    self.w(&format!("{ind}{vis}struct {}{tp} {{\n", t.name));
                    for (n, ty) in f {
                        let s = self.ty(ty);
                        self.w(&format!("{ind}    {n}: {s},\n"));
                    }
                }
                Kind::Enum(v) => {
                    self.w(&format!("{ind}{vis}enum {}{tp} {{\n", t.name));
                    for (n, a) in v {
                        let s: Vec<String> = a.iter().map(|t| self.ty(t)).collect();
                        if s.is_empty() {
                            self.w(&format!("{ind}    {n},\n"));
                        } else {
                            self.w(&format!("{ind}    {n}({}),\n", s.join(", ")));
                        }
                    }
                }
            }
            self.w(&format!("{ind}}}\n"));
            if t.module.is_some() {
                self.w("}\n");
            }
            self.w("\n");
        }
        for a in &p.abs {
            if a.builtin {
                continue;
            }
            self.w(&format!("ability {}{} {{\n", a.name, if a.targ.is_some() { "(s)" } else { "" }));
            let sub = |me: &Self, t: &Ty| if a.targ.as_ref() == Some(t) { "s".to_string() } else { me.ty(t) };
            for o in &a.ops {
                let ps: Vec<String> = o.params.iter().enumerate().map(|(i, t)| format!("p{i}: {}", sub(self, t))).collect();
                let r = sub(self, &o.ret);
                self.w(&format!("    {} {}({}) -> {r}\n", if o.is_fn { "fn" } else { "op" }, o.name, ps.join(", ")));
            }
            self.w("}\n\n");
        }
        for f in &p.funs {
            let ps: Vec<String> = f.params.iter().map(|(v, t)| format!("v{v}: {}", self.ty(t))).collect();
            let r = if f.bare { String::new() } else { format!(" {} {}", self.arrow(&f.eff), self.ty(&f.ret)) };
            self.w(&format!("fn {}({}){r} ", f.name, ps.join(", ")));
            self.block(&f.body);
            self.w("\n\n");
        }
        self.w("fn main() ->{Io} Nil {");
        self.ind = 1;
        self.stmts(&p.main);
        self.nl();
        self.w("Nil\n}\n\n");
        self.ind = 0;
        self.w(HELPERS);
        for (k, t) in self.ascs.clone().iter().enumerate() {
            let ty = self.ty(t);
            self.w(&format!("fn as{k}(x: {ty}) -> {ty} {{\n    x\n}}\n\n"));
        }
        let mut k = 0;
        while k < self.shows.len() {
            let t = self.shows[k].clone();
            self.show_fn(k, &t);
            k += 1;
        }
    }
    fn show_fn(&mut self, k: usize, t: &Ty) {
        let ty = self.ty(t);
        let mut o = format!("fn show{k}(x: {ty}) -> String {{\n");
        match t {
            Ty::Nat => o.push_str("    nat_string(x)\n"),
            Ty::Bool => o.push_str("    case x {\n        True -> \"T\"\n        False -> \"F\"\n    }\n"),
            Ty::Float => o.push_str("    case x < 0.0 {\n        True -> \"neg\"\n        False -> case x == 0.0 {\n            True -> \"zero\"\n            False -> \"pos\"\n        }\n    }\n"),
            Ty::Str => o.push_str("    \"'\" <> x <> \"'\"\n"),
            Ty::Bytes => o.push_str("    \"b'\" <> String::from_bytes(x) <> \"'\"\n"),
            Ty::Nil => o.push_str("    \"nil\"\n"),
            Ty::Int => unreachable!(),
            Ty::List(e) => {
                let s = self.show_name(e);
                let _ = write!(o, "    case x {{\n        [] -> \".\"\n        [h, ..t] -> {s}(h) <> \";\" <> show{k}(t)\n    }}\n");
            }
            Ty::Opt(e) => {
                let s = self.show_name(e);
                let _ = write!(o, "    case x {{\n        None -> \"none\"\n        Some(y) -> \"some(\" <> {s}(y) <> \")\"\n    }}\n");
            }
            Ty::Res(a, b) => {
                let (s, r) = (self.show_name(a), self.show_name(b));
                let _ = write!(o, "    case x {{\n        Ok(y) -> \"ok(\" <> {s}(y) <> \")\"\n        Error(y) -> \"err(\" <> {r}(y) <> \")\"\n    }}\n");
            }
            Ty::Tup(v) => {
                let ps: Vec<String> = (0..v.len()).map(|i| format!("y{i}")).collect();
                let ss: Vec<String> = v.iter().enumerate().map(|(i, t)| format!("{}(y{i})", self.show_name(t))).collect();
                let _ = write!(o, "    let #({}) = x\n    \"(\" <> {} <> \")\"\n", ps.join(", "), ss.join(" <> \",\" <> "));
            }
            Ty::User(i, args) => match self.p.tys[*i].kind.clone() {
                Kind::Struct(f) => {
                    let ss: Vec<String> = f.iter().map(|(n, t)| format!("{}(x.{n}())", self.show_name(&subst(t, args)))).collect();
                    let _ = write!(o, "    \"{{\" <> {} <> \"}}\"\n", ss.join(" <> \",\" <> "));
                }
                Kind::Enum(vs) => {
                    o.push_str("    case x {\n");
                    for (vi, (_, a)) in vs.iter().enumerate() {
                        let c = self.ctor(CtorOf::User(*i), vi);
                        if a.is_empty() {
                            let _ = write!(o, "        {c} -> \"c{vi}\"\n");
                        } else {
                            let ps: Vec<String> = (0..a.len()).map(|i| format!("y{i}")).collect();
                            let ss: Vec<String> = a.iter().enumerate().map(|(i, t)| format!("{}(y{i})", self.show_name(&subst(t, args)))).collect();
                            let _ = write!(o, "        {c}({}) -> \"c{vi}(\" <> {} <> \")\"\n", ps.join(", "), ss.join(" <> \",\" <> "));
                        }
                    }
                    if vs.len() == 1 {
                        o.push_str("        _ -> \"?\"\n");
                    }
                    o.push_str("    }\n");
                }
            },
            Ty::Fn(..) | Ty::Var(_) | Ty::Never => o.push_str("    \"?\"\n"),
        }
        o.push_str("}\n\n");
        self.w(&o);
    }
}
pub fn subst(t: &Ty, a: &[Ty]) -> Ty {
    match t {
        Ty::Var(i) => a.get(*i as usize).cloned().unwrap_or(Ty::Nat),
        Ty::List(t) => Ty::List(Rc::new(subst(t, a))),
        Ty::Opt(t) => Ty::Opt(Rc::new(subst(t, a))),
        Ty::Res(x, y) => Ty::Res(Rc::new(subst(x, a)), Rc::new(subst(y, a))),
        Ty::Tup(v) => Ty::Tup(v.iter().map(|t| subst(t, a)).collect()),
        Ty::User(i, v) => Ty::User(*i, v.iter().map(|t| subst(t, a)).collect()),
        Ty::Fn(p, e, r) => Ty::Fn(p.iter().map(|t| subst(t, a)).collect(), e.clone(), Rc::new(subst(r, a))),
        t => t.clone(),
    }
}
const HELPERS: &str = r#"fn digit_string(d: Nat) -> String {
    case d {
        0 -> "0"
        1 -> "1"
        2 -> "2"
        3 -> "3"
        4 -> "4"
        5 -> "5"
        6 -> "6"
        7 -> "7"
        8 -> "8"
        _ -> "9"
    }
}

fn nat_string(n: Nat) -> String {
    case n < 10 {
        True -> digit_string(n)
        False -> nat_string(n / 10) <> digit_string(n % 10)
    }
}

fn int_parse_show(s: String) -> String {
    case Int::parse(s) {
        Ok(n) -> Int::to_string(n)
        Error(Int::ParseError::InvalidSyntax) -> "syntax"
        Error(Int::ParseError::OutOfRange) -> "range"
    }
}

fn next_input() ->{Io} String {
    handle std::io::read_line() {
        do line { "L:" <> line }
        op Throw::throw(error) {
            case error {
                std::io::Error::EndOfFile -> "E:eof"
                std::io::Error::InvalidEncoding -> "E:enc"
                std::io::Error::System(_) -> "E:sys"
            }
        }
    }
}

"#;
