//! Offline stand-in for the tree-sitter grammar of Tribute: a recursive-descent
//! parser that builds the concrete syntax tree shape (kinds and fields) the real
//! grammar gives to `tribute_front::astgen`. Only the parsing step is replaced;
//! everything after it is the repository's own code.
use crate::{LanguageFn, Raw};

pub const LANGUAGE: LanguageFn = LanguageFn(parse);

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    /// end of the last consumed token
    last: usize,
}
type R<T> = Result<T, ()>;

fn leaf(kind: &'static str, named: bool, start: usize, end: usize) -> Raw {
    Raw { kind, named, start, end, field: None, children: vec![] }
}
fn f(field: &'static str, mut r: Raw) -> Raw {
    r.field = Some(field);
    r
}
fn id_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c >= 0x80
}
fn id_cont(c: u8) -> bool {
    id_start(c) || c.is_ascii_digit()
}
const KEYWORDS: &[&str] = &[
    "fn", "let", "case", "struct", "enum", "ability", "const", "pub", "use", "mod", "if", "handle", "as", "do", "op",
    "resume", "extern",
];

fn parse(s: &str) -> Raw {
    let mut p = P { s, b: s.as_bytes(), i: 0, last: 0 };
    let mut ch = vec![];
    loop {
        p.ws();
        if p.i >= p.b.len() {
            break;
        }
        let start = p.i;
        match p.decl() {
            Ok(d) => ch.push(d),
            Err(()) => {
                if std::env::var_os("TS_DEBUG").is_some() {
                    eprintln!("parse stops near byte {}: …{}⏎⏎{}…", p.last, &s[start..p.last][s[start..p.last].char_indices().rev().nth(200).map_or(0, |x| x.0)..], s[p.last..].chars().take(60).collect::<String>());
                }
                // resynchronise at the next line starting with a declaration keyword in column 0
                let mut j = p.i.max(start + 1);
                loop {
                    while j < p.b.len() && p.b[j] != b'\n' {
                        j += 1;
                    }
                    if j >= p.b.len() {
                        break;
                    }
                    j += 1;
                    if ["fn ", "pub ", "struct ", "enum ", "ability ", "mod ", "use ", "extern "].iter().any(|k| p.b[j..].starts_with(k.as_bytes())) {
                        break;
                    }
                }
                let j = j.min(p.b.len());
                ch.push(leaf("ERROR", true, start, j));
                p.i = j;
            }
        }
    }
    Raw { kind: "source_file", named: true, start: 0, end: s.len(), field: None, children: ch }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.b[self.i..].starts_with(b"//") {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if self.b[self.i..].starts_with(b"/*") {
                match self.s[self.i..].find("*/") {
                    Some(k) => self.i += k + 2,
                    None => self.i = self.b.len(),
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn starts(&mut self, t: &str) -> bool {
        self.ws();
        self.b[self.i..].starts_with(t.as_bytes())
    }
    fn newline_before(&mut self) -> bool {
        self.ws();
        self.s[self.last..self.i].contains('\n')
    }
    /// punctuation
    fn tok(&mut self, t: &'static str) -> R<Raw> {
        if !self.starts(t) {
            return Err(());
        }
        let st = self.i;
        self.i += t.len();
        self.last = self.i;
        Ok(leaf(t, false, st, self.i))
    }
    fn opt(&mut self, t: &'static str) -> Option<Raw> {
        self.tok(t).ok()
    }
    fn word(&mut self) -> Option<&'a str> {
        self.ws();
        if self.i >= self.b.len() || !id_start(self.b[self.i]) {
            return None;
        }
        let mut j = self.i;
        while j < self.b.len() && id_cont(self.b[j]) {
            j += 1;
        }
        Some(&self.s[self.i..j])
    }
    fn is_kw(&mut self, k: &str) -> bool {
        self.word() == Some(k)
    }
    fn kw(&mut self, k: &str, kind: &'static str) -> R<Raw> {
        if !self.is_kw(k) {
            return Err(());
        }
        let st = self.i;
        self.i += k.len();
        self.last = self.i;
        Ok(leaf(kind, true, st, self.i))
    }
    fn take_word(&mut self, kind: &'static str) -> R<Raw> {
        let w = self.word().ok_or(())?;
        let st = self.i;
        self.i += w.len();
        self.last = self.i;
        Ok(leaf(kind, true, st, self.i))
    }
    fn ident(&mut self) -> R<Raw> {
        let w = self.word().ok_or(())?;
        if KEYWORDS.contains(&w) || w.as_bytes()[0].is_ascii_uppercase() {
            return Err(());
        }
        self.take_word("identifier")
    }
    fn type_ident(&mut self) -> R<Raw> {
        let w = self.word().ok_or(())?;
        if !w.as_bytes()[0].is_ascii_uppercase() {
            return Err(());
        }
        self.take_word("type_identifier")
    }
    fn mk(&self, kind: &'static str, start: usize, children: Vec<Raw>) -> Raw {
        Raw { kind, named: true, start, end: self.last, field: None, children }
    }
    fn list<F: FnMut(&mut Self) -> R<Raw>>(&mut self, ch: &mut Vec<Raw>, close: &'static str, mut item: F) -> R<()> {
        loop {
            if let Some(t) = self.opt(close) {
                ch.push(t);
                return Ok(());
            }
            ch.push(item(self)?);
            if let Some(t) = self.opt(",") {
                ch.push(t);
            } else {
                ch.push(self.tok(close)?);
                return Ok(());
            }
        }
    }

    // ---- declarations ----
    fn decl(&mut self) -> R<Raw> {
        self.ws();
        let start = self.i;
        let mut ch = vec![];
        if let Ok(k) = self.kw("pub", "keyword_pub") {
            let m = Raw { kind: "visibility_marker", named: true, start: k.start, end: k.end, field: None, children: vec![k] };
            ch.push(m);
        }
        match self.word().ok_or(())? {
            "fn" => {
                ch.push(self.kw("fn", "keyword_fn")?);
                self.func_rest(start, ch, false)
            }
            "extern" => {
                let ms = self.i;
                let k = self.kw("extern", "keyword_extern")?;
                let mut mc = vec![k];
                if self.peek() == b'"' {
                    mc.push(f("abi", self.string_lit()?));
                }
                let m = self.mk("extern_marker", ms, mc);
                ch.push(m);
                ch.push(self.kw("fn", "keyword_fn")?);
                self.func_rest(start, ch, true)
            }
            "struct" => {
                ch.push(self.kw("struct", "keyword_struct")?);
                ch.push(f("name", self.type_ident()?));
                if self.peek() == b'(' {
                    ch.push(f("type_params", self.type_params()?));
                }
                let b = self.struct_body("struct_body")?;
                ch.push(f("body", b));
                Ok(self.mk("struct_declaration", start, ch))
            }
            "enum" => {
                ch.push(self.kw("enum", "keyword_enum")?);
                ch.push(f("name", self.type_ident()?));
                if self.peek() == b'(' {
                    ch.push(f("type_params", self.type_params()?));
                }
                let bs = {
                    self.ws();
                    self.i
                };
                let mut bc = vec![self.tok("{")?];
                self.ws();
                let vs = self.i;
                let mut vc = vec![];
                while self.peek() != b'}' {
                    vc.push(self.variant()?);
                    if let Some(t) = self.opt(",") {
                        vc.push(t);
                    }
                }
                let v = self.mk("enum_variants", vs, vc);
                bc.push(v);
                bc.push(self.tok("}")?);
                let b = self.mk("enum_body", bs, bc);
                ch.push(f("body", b));
                Ok(self.mk("enum_declaration", start, ch))
            }
            "ability" => {
                ch.push(self.kw("ability", "keyword_ability")?);
                ch.push(f("name", self.type_ident()?));
                if self.peek() == b'(' {
                    ch.push(f("type_params", self.type_params()?));
                }
                self.ws();
                let bs = self.i;
                let mut bc = vec![self.tok("{")?];
                self.ws();
                let os = self.i;
                let mut oc = vec![];
                while self.peek() != b'}' {
                    self.ws();
                    let st = self.i;
                    let k = if self.is_kw("op") { self.kw("op", "keyword_op")? } else { self.kw("fn", "keyword_fn")? };
                    let mut c = vec![f("kind", k)];
                    c.push(f("name", self.ident()?));
                    c.push(self.param_list("typed_parameter_list")?);
                    if self.opt("->").is_some() {
                        let t = self.ty()?;
                        c.push(f("return_type", t));
                    }
                    oc.push(self.mk("ability_operation", st, c));
                    self.opt(",");
                }
                let o = self.mk("ability_operations", os, oc);
                bc.push(o);
                bc.push(self.tok("}")?);
                let b = self.mk("ability_body", bs, bc);
                ch.push(f("body", b));
                Ok(self.mk("ability_declaration", start, ch))
            }
            "mod" => {
                ch.push(self.kw("mod", "keyword_mod")?);
                let n = self.take_word("identifier")?;
                ch.push(f("name", n));
                if self.peek() == b'{' {
                    let bs = self.i;
                    let mut bc = vec![self.tok("{")?];
                    while self.peek() != b'}' {
                        bc.push(self.decl()?);
                    }
                    bc.push(self.tok("}")?);
                    let b = self.mk("mod_body", bs, bc);
                    ch.push(f("body", b));
                }
                Ok(self.mk("mod_declaration", start, ch))
            }
            "use" => {
                ch.push(self.kw("use", "keyword_use")?);
                let t = self.use_tree()?;
                ch.push(f("tree", t));
                Ok(self.mk("use_declaration", start, ch))
            }
            _ => Err(()),
        }
    }
    fn use_tree(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut ch = vec![];
        loop {
            if self.peek() == b'{' {
                let gs = self.i;
                let mut g = vec![self.tok("{")?];
                self.list(&mut g, "}", |p| p.use_tree())?;
                ch.push(self.mk("use_group", gs, g));
                break;
            }
            let w = self.word().ok_or(())?;
            let k = if matches!(w, "pkg" | "super" | "self") {
                "path_keyword"
            } else if w.as_bytes()[0].is_ascii_uppercase() {
                "type_identifier"
            } else {
                "identifier"
            };
            ch.push(self.take_word(k)?);
            match self.opt("::") {
                Some(t) => ch.push(t),
                None => break,
            }
        }
        if self.is_kw("as") {
            ch.push(self.kw("as", "keyword_as")?);
            let a = self.take_word("identifier")?;
            ch.push(f("alias", a));
        }
        Ok(self.mk("use_tree", st, ch))
    }
    fn func_rest(&mut self, start: usize, mut ch: Vec<Raw>, ext: bool) -> R<Raw> {
        let name = if self.peek() == b'(' {
            let st = self.i;
            let end = self.s[st..].find(')').ok_or(())? + st + 1;
            self.i = end;
            self.last = end;
            leaf("operator_name", true, st, end)
        } else {
            self.ident()?
        };
        ch.push(f("name", name));
        let pl = self.param_list(if ext { "typed_parameter_list" } else { "parameter_list" })?;
        ch.push(f("params", pl));
        if self.starts("->") {
            let r = self.return_annotation()?;
            ch.push(f("return_type", r));
        }
        if !ext || self.peek() == b'{' && !self.newline_before() {
            let b = self.block()?;
            ch.push(f("body", b));
        }
        let k = self.mk(if ext { "extern_function" } else { "regular_function" }, start, ch);
        Ok(self.mk("function_definition", start, vec![k]))
    }
    fn return_annotation(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("->")?];
        if self.peek() == b'{' {
            let a = self.ability_row()?;
            c.push(f("abilities", a));
        }
        c.push(self.ty()?);
        Ok(self.mk("return_type_annotation", st, c))
    }
    fn param_list(&mut self, kind: &'static str) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("(")?];
        self.list(&mut c, ")", |p| {
            p.ws();
            let ps = p.i;
            let n = p.ident()?;
            let mut pc = vec![f("name", n)];
            let mut k = "parameter";
            if let Some(t) = p.opt(":") {
                pc.push(t);
                let t = p.ty()?;
                pc.push(f("type", t));
                k = if kind == "typed_parameter_list" { "typed_parameter" } else { "parameter" };
            }
            Ok(p.mk(k, ps, pc))
        })?;
        Ok(self.mk(kind, st, c))
    }
    fn type_params(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("(")?];
        self.list(&mut c, ")", |p| p.ident())?;
        Ok(self.mk("type_parameters", st, c))
    }
    fn struct_body(&mut self, kind: &'static str) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("{")?];
        self.ws();
        let fs = self.i;
        let mut fc = vec![];
        while self.peek() != b'}' {
            self.ws();
            let s0 = self.i;
            let n = self.ident()?;
            let mut x = vec![f("name", n), self.tok(":")?];
            let t = self.ty()?;
            x.push(f("type", t));
            fc.push(self.mk("struct_field", s0, x));
            if let Some(t) = self.opt(",") {
                fc.push(t);
            }
        }
        let fl = self.mk("struct_fields", fs, fc);
        c.push(fl);
        c.push(self.tok("}")?);
        Ok(self.mk(kind, st, c))
    }
    fn variant(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let n = self.type_ident()?;
        let mut c = vec![f("name", n)];
        if self.peek() == b'(' {
            let s0 = self.i;
            let mut t = vec![self.tok("(")?];
            self.list(&mut t, ")", |p| p.ty())?;
            let inner = self.mk("tuple_fields", s0, t);
            let w = self.mk("variant_fields", s0, vec![inner]);
            c.push(f("fields", w));
        } else if self.peek() == b'{' {
            let s0 = self.i;
            let inner = self.struct_body("struct_fields_block")?;
            let w = self.mk("variant_fields", s0, vec![inner]);
            c.push(f("fields", w));
        }
        Ok(self.mk("enum_variant", st, c))
    }

    // ---- types ----
    fn type_path(&mut self, path_kind: &'static str) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut segs: Vec<Raw> = vec![];
        loop {
            let w = self.word().ok_or(())?;
            let up = w.as_bytes()[0].is_ascii_uppercase();
            let kind = if up { "type_identifier" } else { "path_segment" };
            segs.push(self.take_word(kind)?);
            if self.b[self.i..].starts_with(b"::") {
                segs.push(self.tok("::")?);
            } else if up {
                break;
            } else {
                return Err(());
            }
        }
        if segs.len() == 1 {
            return Ok(segs.pop().unwrap());
        }
        Ok(self.mk(path_kind, st, segs))
    }
    fn ty(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        if self.starts("#(") {
            let mut c = vec![self.tok("#(")?];
            self.list(&mut c, ")", |p| p.ty())?;
            return Ok(self.mk("tuple_type", st, c));
        }
        if self.is_kw("fn") {
            let mut c = vec![self.kw("fn", "keyword_fn")?, self.tok("(")?];
            self.ws();
            let ls = self.i;
            let mut l = vec![];
            self.list(&mut l, ")", |p| p.ty())?;
            let l = self.mk("type_list", ls, l);
            c.push(f("params", l));
            c.push(self.tok("->")?);
            if self.peek() == b'{' {
                let a = self.ability_row()?;
                c.push(f("abilities", a));
            }
            let r = self.ty()?;
            c.push(f("return_type", r));
            return Ok(self.mk("function_type", st, c));
        }
        let w = self.word().ok_or(())?;
        if !w.as_bytes()[0].is_ascii_uppercase() && !self.b[self.i + w.len()..].starts_with(b"::") {
            return self.take_word("type_variable");
        }
        let p = self.type_path("type_path")?;
        if self.b.get(self.i) == Some(&b'(') {
            let mut c = vec![p, self.tok("(")?];
            self.list(&mut c, ")", |p| p.ty())?;
            return Ok(self.mk("generic_type", st, c));
        }
        Ok(p)
    }
    fn ability_row(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("{")?];
        if self.peek() != b'}' {
            let ls = self.i;
            let mut l = vec![];
            loop {
                self.ws();
                let s0 = self.i;
                let w = self.word().ok_or(())?;
                if !w.as_bytes()[0].is_ascii_uppercase() && !self.b[self.i + w.len()..].starts_with(b"::") {
                    l.push(self.take_word("ability_tail")?);
                } else {
                    let mut ic = vec![self.type_path("ability_path")?];
                    if self.b.get(self.i) == Some(&b'(') {
                        let as_ = self.i;
                        let mut a = vec![self.tok("(")?];
                        self.list(&mut a, ")", |p| p.ty())?;
                        ic.push(self.mk("type_arguments", as_, a));
                    }
                    l.push(self.mk("ability_item", s0, ic));
                }
                match self.opt(",") {
                    Some(t) => l.push(t),
                    None => break,
                }
            }
            c.push(self.mk("ability_list", ls, l));
        }
        c.push(self.tok("}")?);
        Ok(self.mk("ability_row", st, c))
    }

    // ---- expressions ----
    fn block(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("{")?];
        while self.peek() != b'}' {
            if self.is_kw("let") {
                let s0 = self.i;
                let mut l = vec![self.kw("let", "keyword_let")?];
                let p = self.pattern()?;
                l.push(f("pattern", p));
                l.push(self.tok("=")?);
                let v = self.expr()?;
                l.push(f("value", v));
                c.push(self.mk("let_statement", s0, l));
            } else {
                let s0 = self.i;
                let e = self.expr()?;
                c.push(self.mk("expression_statement", s0, vec![e]));
            }
            self.opt(";");
        }
        c.push(self.tok("}")?);
        Ok(self.mk("block", st, c))
    }
    fn expr(&mut self) -> R<Raw> {
        self.bin(0)
    }
    fn binop(&mut self) -> Option<(&'static str, u8)> {
        if self.newline_before() {
            return None;
        }
        const OPS: &[(&str, u8)] = &[
            ("||", 1), ("&&", 2), ("==", 3), ("!=", 3), ("<>", 4), ("<=", 3), (">=", 3), ("<", 3), (">", 3),
            ("+", 5), ("-", 5), ("*", 6), ("/", 6), ("%", 6),
        ];
        if self.starts("->") {
            return None;
        }
        OPS.iter().find(|(t, _)| self.starts(t)).copied()
    }
    fn bin(&mut self, min: u8) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut l = self.postfix()?;
        while let Some((op, p)) = self.binop() {
            if p <= min {
                break;
            }
            let o = self.tok(op)?;
            let r = self.bin(p)?;
            l = self.mk("binary_expression", st, vec![f("left", l), f("operator", o), f("right", r)]);
        }
        Ok(l)
    }
    fn args(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut c = vec![self.tok("(")?];
        self.list(&mut c, ")", |p| p.expr())?;
        Ok(self.mk("argument_list", st, c))
    }
    fn postfix(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut e = self.primary()?;
        loop {
            if self.b.get(self.i) == Some(&b'(') && e.kind != "nat_literal" {
                let a = self.args()?;
                e = self.mk("call_expression", st, vec![f("function", e), a]);
            } else if self.starts(".") && !self.starts("..") {
                let d = self.tok(".")?;
                self.ws();
                let ms = self.i;
                let mut segs = 0;
                loop {
                    let w = self.word().ok_or(())?;
                    self.i += w.len();
                    self.last = self.i;
                    segs += 1;
                    if self.b[self.i..].starts_with(b"::") {
                        self.i += 2;
                    } else {
                        break;
                    }
                }
                let m = leaf(if segs == 1 { "identifier" } else { "method_path" }, true, ms, self.last);
                if self.b.get(self.i) == Some(&b'(') {
                    let a = self.args()?;
                    e = self.mk("method_call_expression", st, vec![f("receiver", e), d, f("method", m), a]);
                } else {
                    e = self.mk("field_access_expression", st, vec![f("value", e), d, f("field", m)]);
                }
            } else {
                return Ok(e);
            }
        }
    }
    fn number(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut j = st;
        let signed = matches!(self.b[j], b'+' | b'-');
        if signed {
            j += 1;
        }
        if !self.b.get(j).is_some_and(|c| c.is_ascii_digit()) {
            return Err(());
        }
        let hex = self.b[j] == b'0' && matches!(self.b.get(j + 1), Some(b'x' | b'X' | b'b' | b'B' | b'o' | b'O'));
        let mut float = false;
        if hex {
            j += 2;
            while j < self.b.len() && (self.b[j].is_ascii_hexdigit() || self.b[j] == b'_') {
                j += 1;
            }
        } else {
            while j < self.b.len() && (self.b[j].is_ascii_digit() || self.b[j] == b'_') {
                j += 1;
            }
            if self.b.get(j) == Some(&b'.') && self.b.get(j + 1).is_some_and(|c| c.is_ascii_digit()) {
                float = true;
                j += 1;
                while j < self.b.len() && self.b[j].is_ascii_digit() {
                    j += 1;
                }
            }
            if matches!(self.b.get(j), Some(b'e' | b'E')) {
                let mut k = j + 1;
                if matches!(self.b.get(k), Some(b'+' | b'-')) {
                    k += 1;
                }
                if self.b.get(k).is_some_and(|c| c.is_ascii_digit()) {
                    float = true;
                    while k < self.b.len() && self.b[k].is_ascii_digit() {
                        k += 1;
                    }
                    j = k;
                }
            }
        }
        self.i = j;
        self.last = j;
        Ok(leaf(if float { "float_literal" } else if signed { "int_literal" } else { "nat_literal" }, true, st, j))
    }
    fn string_lit(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let mut j = st;
        while matches!(self.b.get(j), Some(b'b' | b's' | b'r')) {
            j += 1;
        }
        let prefix = &self.s[st..j];
        let raw = prefix.contains('r');
        let mut hashes = 0;
        while self.b.get(j) == Some(&b'#') {
            j += 1;
            hashes += 1;
        }
        if self.b.get(j) != Some(&b'"') {
            return Err(());
        }
        j += 1;
        loop {
            match self.b.get(j) {
                None => return Err(()),
                Some(b'\\') if !raw => j += 2,
                Some(b'"') => {
                    let mut k = j + 1;
                    let mut h = 0;
                    while h < hashes && self.b.get(k) == Some(&b'#') {
                        k += 1;
                        h += 1;
                    }
                    j = k;
                    if h == hashes {
                        break;
                    }
                }
                Some(_) => j += 1,
            }
        }
        self.i = j;
        self.last = j;
        let kind = match (prefix.contains('b'), raw) {
            (true, true) => "raw_bytes",
            (true, false) => "bytes_string",
            (false, true) => "raw_string",
            (false, false) => "string",
        };
        Ok(leaf(kind, true, st, j))
    }
    fn at_string(&mut self) -> bool {
        self.ws();
        let mut j = self.i;
        while matches!(self.b.get(j), Some(b'b' | b's' | b'r')) && j < self.i + 2 {
            j += 1;
        }
        while j > self.i && self.b.get(j) == Some(&b'#') {
            j += 1;
        }
        self.b.get(j) == Some(&b'"')
    }
    fn primary(&mut self) -> R<Raw> {
        let c = self.peek();
        let st = self.i;
        if self.at_string() {
            return self.string_lit();
        }
        if c.is_ascii_digit() || (matches!(c, b'+' | b'-') && self.b.get(st + 1).is_some_and(|c| c.is_ascii_digit())) {
            return self.number();
        }
        if c == b'{' {
            return self.block();
        }
        if self.starts("#(") {
            let mut ch = vec![self.tok("#(")?];
            self.list(&mut ch, ")", |p| p.expr())?;
            return Ok(self.mk("tuple_expression", st, ch));
        }
        if c == b'[' {
            let mut ch = vec![self.tok("[")?];
            self.list(&mut ch, "]", |p| p.expr())?;
            return Ok(self.mk("list_expression", st, ch));
        }
        if c == b'(' {
            // operator function?
            if let Some(r) = self.operator_fn() {
                return Ok(r);
            }
            let a = self.tok("(")?;
            let e = self.expr()?;
            let b = self.tok(")")?;
            return Ok(self.mk("parenthesized_expression", st, vec![a, e, b]));
        }
        if c == b'?' {
            let mut j = st + 1;
            if self.b.get(j) == Some(&b'\\') {
                j += 2;
                if matches!(self.b.get(j - 1), Some(b'x' | b'u')) {
                    while self.b.get(j).is_some_and(|c| c.is_ascii_hexdigit()) {
                        j += 1;
                    }
                }
            } else {
                j += self.s[j..].chars().next().ok_or(())?.len_utf8();
            }
            self.i = j;
            self.last = j;
            return Ok(leaf("rune", true, st, j));
        }
        let w = self.word().ok_or(())?;
        match w {
            "case" => {
                let mut ch = vec![self.kw("case", "keyword_case")?];
                let v = self.expr()?;
                ch.push(f("value", v));
                ch.push(self.tok("{")?);
                while self.peek() != b'}' {
                    ch.push(self.case_arm()?);
                    if let Some(t) = self.opt(",") {
                        ch.push(t);
                    }
                }
                ch.push(self.tok("}")?);
                Ok(self.mk("case_expression", st, ch))
            }
            "handle" => {
                let mut ch = vec![self.kw("handle", "keyword_handle")?];
                let v = self.expr()?;
                ch.push(f("expr", v));
                ch.push(self.tok("{")?);
                while self.peek() != b'}' {
                    let a = self.handler_arm()?;
                    ch.push(a);
                    self.opt(",");
                }
                ch.push(self.tok("}")?);
                Ok(self.mk("handle_expression", st, ch))
            }
            "resume" => {
                let mut ch = vec![self.kw("resume", "keyword_resume")?];
                if !self.newline_before() && !matches!(self.peek(), b'}' | b')' | b',') {
                    let v = self.expr()?;
                    ch.push(f("value", v));
                }
                Ok(self.mk("resume_expression", st, ch))
            }
            "fn" => {
                let mut ch = vec![self.kw("fn", "keyword_fn")?];
                let p = self.param_list("parameter_list")?;
                ch.push(f("params", p));
                let b = self.expr()?;
                ch.push(f("body", b));
                Ok(self.mk("lambda_expression", st, ch))
            }
            "Nil" => self.kw("Nil", "keyword_nil"),
            "True" => self.kw("True", "keyword_true"),
            "False" => self.kw("False", "keyword_false"),
            _ if KEYWORDS.contains(&w) => Err(()),
            _ => {
                let mut segs = vec![];
                let mut upper;
                loop {
                    let w = self.word().ok_or(())?;
                    upper = w.as_bytes()[0].is_ascii_uppercase();
                    segs.push(self.take_word(if upper { "type_identifier" } else { "path_segment" })?);
                    if self.b[self.i..].starts_with(b"::") {
                        segs.push(self.tok("::")?);
                    } else {
                        break;
                    }
                }
                if !upper {
                    if segs.len() == 1 {
                        let mut s = segs.pop().unwrap();
                        s.kind = "identifier";
                        return Ok(s);
                    }
                    return Ok(self.mk("value_path", st, segs));
                }
                let name = if segs.len() == 1 { segs.pop().unwrap() } else { self.mk("type_path", st, segs) };
                if self.record_ahead() {
                    let fs = {
                        self.ws();
                        self.i
                    };
                    let open = self.tok("{")?;
                    let mut fc = vec![];
                    let mut close = vec![];
                    self.ws();
                    let fstart = self.i;
                    loop {
                        if let Some(t) = self.opt("}") {
                            close.push(t);
                            break;
                        }
                        self.ws();
                        let s0 = self.i;
                        if self.starts("..") {
                            let d = self.tok("..")?;
                            let sp = Raw { kind: "spread", named: true, ..d };
                            let v = self.expr()?;
                            fc.push(self.mk("record_field", s0, vec![sp, f("value", v)]));
                        } else {
                            let n = self.ident()?;
                            let col = self.tok(":")?;
                            let v = self.expr()?;
                            fc.push(self.mk("record_field", s0, vec![f("name", n), col, f("value", v)]));
                        }
                        if self.opt(",").is_none() {
                            close.push(self.tok("}")?);
                            break;
                        }
                    }
                    let _ = fs;
                    let fl = Raw { kind: "record_fields", named: true, start: fstart, end: self.last, field: None, children: fc };
                    let mut all = vec![f("type", name), open, f("fields", fl)];
                    all.extend(close);
                    return Ok(self.mk("record_expression", st, all));
                }
                let mut ch = vec![f("constructor", name)];
                if self.b.get(self.i) == Some(&b'(') {
                    let a = self.args()?;
                    ch.push(a);
                }
                Ok(self.mk("constructor_expression", st, ch))
            }
        }
    }
    fn operator_fn(&mut self) -> Option<Raw> {
        let st = self.i;
        let rest = &self.s[st + 1..];
        let close = rest.find(')')?;
        let inner = rest[..close].trim();
        let is_op = |t: &str| ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "<>", "&&", "||"].contains(&t);
        let off = st + 1 + rest[..close].find(inner)?;
        let op = if is_op(inner) {
            leaf("operator", true, off, off + inner.len())
        } else {
            let (t, o) = inner.rsplit_once("::")?;
            if !is_op(o) {
                return None;
            }
            let mut q = leaf("qualified_operator", true, off, off + inner.len());
            q.children = vec![
                f("type", leaf("type_identifier", true, off, off + t.len())),
                f("operator", leaf("operator", true, off + t.len() + 2, off + inner.len())),
            ];
            q
        };
        self.i = st + 1 + close + 1;
        self.last = self.i;
        Some(self.mk("operator_fn", st, vec![f("operator", op)]))
    }
    /// after a type path: does `{` open record fields (rather than case arms)?
    fn record_ahead(&mut self) -> bool {
        let save = (self.i, self.last);
        let r = (|| {
            if self.newline_before() || self.tok("{").is_err() {
                return false;
            }
            if self.starts("..") || self.starts("}") {
                return true;
            }
            self.ident().is_ok() && self.starts(":") && !self.starts("::")
        })();
        (self.i, self.last) = save;
        r
    }
    fn case_arm(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let p = self.pattern()?;
        let mut ch = vec![f("pattern", p)];
        if self.is_kw("if") {
            while self.is_kw("if") {
                let bs = self.i;
                let mut b = vec![self.kw("if", "keyword_if")?];
                let g = self.expr()?;
                b.push(f("guard", g));
                b.push(self.tok("->")?);
                let v = self.expr()?;
                b.push(f("value", v));
                ch.push(self.mk("guarded_branch", bs, b));
            }
        } else {
            ch.push(self.tok("->")?);
            let v = self.expr()?;
            ch.push(f("value", v));
        }
        Ok(self.mk("case_arm", st, ch))
    }
    fn handler_arm(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let inner = if self.is_kw("do") {
            let mut c = vec![self.kw("do", "keyword_do")?];
            let b = self.pattern()?;
            c.push(f("binding", b));
            let b = self.block()?;
            c.push(f("body", b));
            self.mk("completion_handler", st, c)
        } else {
            let (k, kind) = if self.is_kw("fn") {
                (self.kw("fn", "keyword_fn")?, "fn_handler")
            } else {
                (self.kw("op", "keyword_op")?, "op_handler")
            };
            let mut c = vec![k];
            self.ws();
            let os = self.i;
            loop {
                let w = self.word().ok_or(())?;
                self.i += w.len();
                self.last = self.i;
                if self.b[self.i..].starts_with(b"::") {
                    self.i += 2;
                } else {
                    break;
                }
            }
            c.push(f("operation", leaf("value_path", true, os, self.last)));
            self.ws();
            let ps = self.i;
            let mut pc = vec![self.tok("(")?];
            self.list(&mut pc, ")", |p| p.pattern())?;
            let pl = self.mk("handler_parameters", ps, pc);
            c.push(f("params", pl));
            let b = self.block()?;
            c.push(f("body", b));
            self.mk(kind, st, c)
        };
        Ok(self.mk("handler_arm", st, vec![inner]))
    }

    // ---- patterns ----
    fn pattern(&mut self) -> R<Raw> {
        self.ws();
        let st = self.i;
        let p = self.pattern_atom()?;
        if self.is_kw("as") {
            let k = self.kw("as", "keyword_as")?;
            let n = self.ident()?;
            return Ok(self.mk("as_pattern", st, vec![f("pattern", p), k, f("binding", n)]));
        }
        Ok(p)
    }
    fn pattern_atom(&mut self) -> R<Raw> {
        let c = self.peek();
        let st = self.i;
        if self.at_string() {
            return self.string_lit();
        }
        if c.is_ascii_digit() || (matches!(c, b'+' | b'-') && self.b.get(st + 1).is_some_and(|c| c.is_ascii_digit())) {
            return self.number();
        }
        if self.starts("#(") {
            let open = self.tok("#(")?;
            self.ws();
            let ls = self.i;
            let mut l = vec![];
            self.list(&mut l, ")", |p| p.pattern())?;
            let pl = self.mk("pattern_list", ls, l);
            return Ok(self.mk("tuple_pattern", st, vec![open, f("elements", pl)]));
        }
        if c == b'[' {
            let mut ch = vec![self.tok("[")?];
            self.list(&mut ch, "]", |p| {
                if p.starts("..") {
                    let rs = p.i;
                    let mut r = vec![p.tok("..")?];
                    if let Ok(n) = p.ident() {
                        r.push(f("name", n));
                    }
                    return Ok(p.mk("rest_pattern", rs, r));
                }
                p.pattern()
            })?;
            return Ok(self.mk("list_pattern", st, ch));
        }
        if c == b'(' {
            self.tok("(")?;
            let p = self.pattern()?;
            self.tok(")")?;
            return Ok(p);
        }
        let w = self.word().ok_or(())?;
        if w == "_" {
            return self.take_word("wildcard_pattern");
        }
        match w {
            "True" => return self.kw("True", "keyword_true"),
            "False" => return self.kw("False", "keyword_false"),
            "Nil" => return self.take_word("unit_literal"),
            _ => {}
        }
        if !w.as_bytes()[0].is_ascii_uppercase() && !self.b[self.i + w.len()..].starts_with(b"::") {
            if KEYWORDS.contains(&w) {
                return Err(());
            }
            return self.take_word("identifier_pattern");
        }
        let mut segs = vec![];
        loop {
            let w = self.word().ok_or(())?;
            let up = w.as_bytes()[0].is_ascii_uppercase();
            segs.push(self.take_word(if up { "type_identifier" } else { "path_segment" })?);
            if self.b[self.i..].starts_with(b"::") {
                segs.push(self.tok("::")?);
            } else {
                break;
            }
        }
        let name = self.mk("type_path", st, segs);
        let mut ch = vec![f("name", name)];
        if self.b.get(self.i) == Some(&b'(') {
            self.tok("(")?;
            self.ws();
            let ls = self.i;
            let mut l = vec![];
            self.list(&mut l, ")", |p| p.pattern())?;
            let pl = self.mk("pattern_list", ls, l);
            ch.push(f("args", pl));
        } else if self.peek() == b'{' && !self.newline_before() {
            self.tok("{")?;
            self.ws();
            let ls = self.i;
            let mut l = vec![];
            self.list(&mut l, "}", |p| {
                if p.starts("..") {
                    let d = p.tok("..")?;
                    return Ok(Raw { kind: "spread", named: true, ..d });
                }
                p.ws();
                let s0 = p.i;
                let n = p.ident()?;
                let mut c = vec![f("name", n)];
                if p.opt(":").is_some() {
                    let q = p.pattern()?;
                    c.push(f("pattern", q));
                }
                Ok(p.mk("pattern_field", s0, c))
            })?;
            let pl = self.mk("pattern_fields", ls, l);
            ch.push(f("fields", pl));
        }
        Ok(self.mk("constructor_pattern", st, ch))
    }
}
