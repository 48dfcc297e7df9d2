//! A minimal JSON value, enough for evidence and replay files.
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::Int(s as i64)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Int(s as i64)
    }
}
impl From<i64> for J {
    fn from(s: i64) -> J {
        J::Int(s)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::Num(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::Arr(v.into_iter().map(Into::into).collect())
    }
}
pub fn obj<const N: usize>(kv: [(&str, J); N]) -> J {
    J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(i) => Some(*i),
            J::Num(f) => Some(*f as i64),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn push(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            o.push((k.to_string(), v))
        }
    }
    pub fn print(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s.push('\n');
        s
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Num(f) => {
                let _ = write!(o, "{}", if f.is_finite() { format!("{f:.3}") } else { "0".into() });
            }
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                let flat = v.iter().all(|x| matches!(x, J::Int(_) | J::Num(_) | J::Bool(_)));
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    x.w(o, ind + 1);
                }
                if !flat && !v.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    esc(k, o);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                }
                if !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = parse(&b, &mut p)?;
        Some(v)
    }
}
fn nl(o: &mut String, n: usize) {
    o.push('\n');
    for _ in 0..n {
        o.push(' ');
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1
    }
}
fn parse(b: &[char], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        '{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == '}' {
                    *p += 1;
                    return Some(J::Obj(o));
                }
                if *b.get(*p)? == ',' {
                    *p += 1;
                    continue;
                }
                let k = match parse(b, p)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, p);
                if *b.get(*p)? != ':' {
                    return None;
                }
                *p += 1;
                let v = parse(b, p)?;
                o.push((k, v));
            }
        }
        '[' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == ']' {
                    *p += 1;
                    return Some(J::Arr(o));
                }
                if *b.get(*p)? == ',' {
                    *p += 1;
                    continue;
                }
                o.push(parse(b, p)?);
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let c = *b.get(*p)?;
                        *p += 1;
                        match c {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'u' => {
                                let h: String = b.get(*p..*p + 4)?.iter().collect();
                                *p += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?).unwrap_or('?'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || "+-.eE".contains(b[*p])) {
                *p += 1
            }
            let t: String = b[st..*p].iter().collect();
            if let Ok(i) = t.parse::<i64>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
