//! Offline stand-in for the `fluent-uri` crate: just the surface tribute uses.
use std::borrow::Borrow;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uri<T> {
    text: T,
}

#[derive(Clone, Debug)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid URI")
    }
}
impl std::error::Error for ParseError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Path<'a>(&'a str);
impl<'a> Path<'a> {
    pub fn as_str(&self) -> &'a str {
        self.0
    }
}
impl fmt::Display for Path<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

fn valid(s: &str) -> bool {
    s.bytes().all(|b| b > 0x20 && b < 0x7f && !matches!(b, b'<' | b'>' | b'"' | b'{' | b'}' | b'|' | b'\\' | b'^' | b'`'))
}

impl Uri<String> {
    pub fn parse_from(s: String) -> Result<Uri<String>, (String, ParseError)> {
        if valid(&s) { Ok(Uri { text: s }) } else { Err((s, ParseError)) }
    }
}
impl<'a> Uri<&'a str> {
    pub fn parse<S: AsRef<str> + ?Sized>(s: &'a S) -> Result<Uri<&'a str>, ParseError> {
        let s = s.as_ref();
        if valid(s) { Ok(Uri { text: s }) } else { Err(ParseError) }
    }
    pub fn to_owned(&self) -> Uri<String> {
        Uri { text: self.text.to_string() }
    }
}
impl<T: Borrow<str>> Uri<T> {
    pub fn as_str(&self) -> &str {
        self.text.borrow()
    }
    pub fn path(&self) -> Path<'_> {
        let s = self.as_str();
        let rest = match s.find(':') {
            Some(i) if !s[..i].contains('/') => &s[i + 1..],
            _ => s,
        };
        let rest = match rest.strip_prefix("//") {
            Some(r) => match r.find('/') {
                Some(i) => &r[i..],
                None => "",
            },
            None => rest,
        };
        let end = rest.find(['?', '#']).unwrap_or(rest.len());
        Path(&rest[..end])
    }
}
impl<T: Borrow<str>> fmt::Display for Uri<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<T: Borrow<str>> fmt::Debug for Uri<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.as_str(), f)
    }
}
impl std::str::FromStr for Uri<String> {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        Uri::parse_from(s.to_string()).map_err(|(_, e)| e)
    }
}
