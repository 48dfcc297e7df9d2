//! Offline stand-in for the `ropey` crate: an immutable shared string with the
//! surface tribute uses. Text is handed out in bounded chunks, as a rope does.
use std::fmt;
use std::ops::{Bound, RangeBounds};
use std::sync::Arc;

const CHUNK: usize = 1024;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Rope(Arc<str>);

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct RopeSlice<'a>(&'a str);

fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

impl Rope {
    pub fn new() -> Self {
        Self::default()
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        Rope(Arc::from(s))
    }
    pub fn from_reader<R: std::io::Read>(mut r: R) -> std::io::Result<Self> {
        let mut s = String::new();
        r.read_to_string(&mut s)?;
        Ok(Rope(Arc::from(s)))
    }
    pub fn len_bytes(&self) -> usize {
        self.0.len()
    }
    pub fn len_chars(&self) -> usize {
        self.0.chars().count()
    }
    pub fn len_lines(&self) -> usize {
        self.0.matches('\n').count() + 1
    }
    pub fn byte_to_line(&self, b: usize) -> usize {
        self.0.as_bytes()[..b].iter().filter(|c| **c == b'\n').count()
    }
    pub fn line_to_byte(&self, line: usize) -> usize {
        if line == 0 {
            return 0;
        }
        self.0.match_indices('\n').nth(line - 1).map_or(self.0.len(), |(i, _)| i + 1)
    }
    pub fn chunk_at_byte(&self, b: usize) -> (&str, usize, usize, usize) {
        let start = floor(&self.0, b / CHUNK * CHUNK);
        let end = floor(&self.0, (b / CHUNK * CHUNK + CHUNK).min(self.0.len()));
        if b >= end && b < self.0.len() {
            let e2 = floor(&self.0, (end + CHUNK).min(self.0.len()));
            return (&self.0[end..e2], end, 0, 0);
        }
        (&self.0[start..end], start, 0, 0)
    }
    pub fn byte_slice<R: RangeBounds<usize>>(&self, r: R) -> RopeSlice<'_> {
        let s = match r.start_bound() {
            Bound::Included(v) => *v,
            Bound::Excluded(v) => *v + 1,
            Bound::Unbounded => 0,
        };
        let e = match r.end_bound() {
            Bound::Included(v) => *v + 1,
            Bound::Excluded(v) => *v,
            Bound::Unbounded => self.0.len(),
        };
        RopeSlice(&self.0[s..e])
    }
    pub fn chunks(&self) -> impl Iterator<Item = &str> {
        std::iter::once(&*self.0)
    }
    pub fn bytes(&self) -> impl Iterator<Item = u8> + '_ {
        self.0.bytes()
    }
}
impl<'a> RopeSlice<'a> {
    pub fn as_str(&self) -> Option<&'a str> {
        Some(self.0)
    }
    pub fn len_bytes(&self) -> usize {
        self.0.len()
    }
}
impl fmt::Display for RopeSlice<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl fmt::Debug for RopeSlice<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.0, f)
    }
}
impl fmt::Display for Rope {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Rope {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&*self.0, f)
    }
}
impl From<&str> for Rope {
    fn from(s: &str) -> Self {
        Rope::from_str(s)
    }
}
impl From<String> for Rope {
    fn from(s: String) -> Self {
        Rope(Arc::from(s))
    }
}
impl From<&Rope> for String {
    fn from(r: &Rope) -> String {
        r.0.to_string()
    }
}
