//! Offline stand-in for the `tree-sitter` runtime: trees are produced by a plain
//! function (see the tree-sitter-tribute stand-in) and exposed through the part of
//! the tree-sitter API that tribute uses.
pub mod grammar;
use std::fmt;
use std::ops::Range as ByteRange;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Point {
    pub row: usize,
    pub column: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InputEdit {
    pub start_byte: usize,
    pub old_end_byte: usize,
    pub new_end_byte: usize,
    pub start_position: Point,
    pub old_end_position: Point,
    pub new_end_position: Point,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Range {
    pub start_byte: usize,
    pub end_byte: usize,
    pub start_point: Point,
    pub end_point: Point,
}

/// What a grammar function returns.
#[derive(Clone, Debug)]
pub struct Raw {
    pub kind: &'static str,
    pub named: bool,
    pub start: usize,
    pub end: usize,
    pub field: Option<&'static str>,
    pub children: Vec<Raw>,
}

#[derive(Clone, Copy)]
pub struct LanguageFn(pub fn(&str) -> Raw);
#[derive(Clone, Copy)]
pub struct Language(fn(&str) -> Raw);
impl From<LanguageFn> for Language {
    fn from(f: LanguageFn) -> Self {
        Language(f.0)
    }
}
#[derive(Debug)]
pub struct LanguageError;
impl fmt::Display for LanguageError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("language error")
    }
}
impl std::error::Error for LanguageError {}

struct Data {
    kind: &'static str,
    named: bool,
    start: usize,
    end: usize,
    field: Option<&'static str>,
    parent: Option<u32>,
    children: Vec<u32>,
    has_error: bool,
    id: usize,
}
struct TreeData {
    nodes: Vec<Data>,
    text: Arc<str>,
}
#[derive(Clone)]
pub struct Tree(Arc<TreeData>);
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Tree({})", self.0.nodes.len())
    }
}

/// Simulation seam: node ids stand for subtree addresses. The seed decides them.
pub mod sim {
    use super::*;
    pub(crate) static SEED: AtomicU64 = AtomicU64::new(0);
    pub(crate) static NEXT: AtomicU64 = AtomicU64::new(1);
    /// Choose the id assignment for trees parsed from now on (0 = ascending ids).
    pub fn set_id_seed(seed: u64) {
        SEED.store(seed, Ordering::SeqCst);
    }
}
fn fresh_id() -> usize {
    let n = sim::NEXT.fetch_add(1, Ordering::SeqCst);
    let seed = sim::SEED.load(Ordering::SeqCst);
    if seed == 0 {
        return (n as usize) * 16;
    }
    // bijective mixing, so ids stay unique for one seed
    let mut x = n ^ seed;
    x ^= x >> 31;
    x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x as usize
}

pub struct ParseOptions<'a>(std::marker::PhantomData<&'a ()>);

#[derive(Default)]
pub struct Parser {
    lang: Option<Language>,
}
impl Parser {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_language(&mut self, l: &Language) -> Result<(), LanguageError> {
        self.lang = Some(*l);
        Ok(())
    }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old: Option<&Tree>) -> Option<Tree> {
        let text = std::str::from_utf8(text.as_ref()).ok()?;
        let raw = (self.lang?.0)(text);
        let mut nodes = Vec::new();
        flatten(raw, None, &mut nodes);
        Some(Tree(Arc::new(TreeData { nodes, text: Arc::from(text) })))
    }
    pub fn parse_with_options<T: AsRef<[u8]>, F: FnMut(usize, Point) -> T>(
        &mut self,
        cb: &mut F,
        old: Option<&Tree>,
        _opt: Option<ParseOptions<'_>>,
    ) -> Option<Tree> {
        let mut buf: Vec<u8> = Vec::new();
        loop {
            let c = cb(buf.len(), Point::default());
            let c = c.as_ref();
            if c.is_empty() {
                break;
            }
            buf.extend_from_slice(c);
        }
        self.parse(buf, old)
    }
    pub fn reset(&mut self) {}
}
fn flatten(raw: Raw, parent: Option<u32>, out: &mut Vec<Data>) -> u32 {
    let idx = out.len() as u32;
    out.push(Data {
        kind: raw.kind,
        named: raw.named,
        start: raw.start,
        end: raw.end,
        field: raw.field,
        parent,
        children: Vec::new(),
        has_error: raw.kind == "ERROR",
        id: fresh_id(),
    });
    for c in raw.children {
        let ci = flatten(c, Some(idx), out);
        if out[ci as usize].has_error {
            out[idx as usize].has_error = true;
        }
        out[idx as usize].children.push(ci);
    }
    idx
}
impl Tree {
    pub fn root_node(&self) -> Node<'_> {
        Node { t: &self.0, i: 0 }
    }
    pub fn edit(&mut self, _e: &InputEdit) {}
    pub fn walk(&self) -> TreeCursor<'_> {
        TreeCursor(std::marker::PhantomData)
    }
}

#[derive(Clone)]
pub struct TreeCursor<'t>(std::marker::PhantomData<&'t ()>);

#[derive(Clone, Copy)]
pub struct Node<'t> {
    t: &'t TreeData,
    i: u32,
}
impl PartialEq for Node<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.id() == o.id()
    }
}
impl Eq for Node<'_> {}
impl std::hash::Hash for Node<'_> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.id().hash(h)
    }
}
impl fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{{Node {} {:?}}}", self.kind(), self.byte_range())
    }
}
impl<'t> Node<'t> {
    fn d(&self) -> &'t Data {
        &self.t.nodes[self.i as usize]
    }
    fn at(&self, i: u32) -> Node<'t> {
        Node { t: self.t, i }
    }
    pub fn id(&self) -> usize {
        self.d().id
    }
    pub fn kind(&self) -> &'static str {
        self.d().kind
    }
    pub fn is_named(&self) -> bool {
        self.d().named
    }
    pub fn is_extra(&self) -> bool {
        false
    }
    pub fn is_missing(&self) -> bool {
        false
    }
    pub fn is_error(&self) -> bool {
        self.kind() == "ERROR"
    }
    pub fn has_error(&self) -> bool {
        self.d().has_error
    }
    pub fn start_byte(&self) -> usize {
        self.d().start
    }
    pub fn end_byte(&self) -> usize {
        self.d().end
    }
    pub fn byte_range(&self) -> ByteRange<usize> {
        self.d().start..self.d().end
    }
    fn pos(&self, b: usize) -> Point {
        let s = &self.t.text.as_bytes()[..b];
        let row = s.iter().filter(|c| **c == b'\n').count();
        let column = b - s.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
        Point { row, column }
    }
    pub fn start_position(&self) -> Point {
        self.pos(self.start_byte())
    }
    pub fn end_position(&self) -> Point {
        self.pos(self.end_byte())
    }
    pub fn range(&self) -> Range {
        Range { start_byte: self.start_byte(), end_byte: self.end_byte(), start_point: self.start_position(), end_point: self.end_position() }
    }
    pub fn walk(&self) -> TreeCursor<'t> {
        TreeCursor(std::marker::PhantomData)
    }
    pub fn parent(&self) -> Option<Node<'t>> {
        self.d().parent.map(|i| self.at(i))
    }
    pub fn child_count(&self) -> usize {
        self.d().children.len()
    }
    pub fn named_child_count(&self) -> usize {
        self.named().len()
    }
    fn all(&self) -> Vec<Node<'t>> {
        self.d().children.iter().map(|i| self.at(*i)).collect()
    }
    fn named(&self) -> Vec<Node<'t>> {
        self.all().into_iter().filter(|n| n.is_named()).collect()
    }
    pub fn child(&self, i: u32) -> Option<Node<'t>> {
        self.all().get(i as usize).copied()
    }
    pub fn named_child(&self, i: u32) -> Option<Node<'t>> {
        self.named().get(i as usize).copied()
    }
    pub fn children<'c>(&self, _c: &'c mut TreeCursor<'t>) -> std::vec::IntoIter<Node<'t>> {
        self.all().into_iter()
    }
    pub fn named_children<'c>(&self, _c: &'c mut TreeCursor<'t>) -> std::vec::IntoIter<Node<'t>> {
        self.named().into_iter()
    }
    pub fn child_by_field_name(&self, name: impl AsRef<[u8]>) -> Option<Node<'t>> {
        let n = name.as_ref();
        self.all().into_iter().find(|c| c.d().field.is_some_and(|f| f.as_bytes() == n))
    }
    pub fn children_by_field_name<'c>(&self, name: &str, _c: &'c mut TreeCursor<'t>) -> std::vec::IntoIter<Node<'t>> {
        let v: Vec<_> = self.all().into_iter().filter(|c| c.d().field == Some(name)).collect();
        v.into_iter()
    }
    pub fn field_name_for_child(&self, i: u32) -> Option<&'static str> {
        self.child(i)?.d().field
    }
    fn sibling(&self, delta: isize, named: bool) -> Option<Node<'t>> {
        let p = self.parent()?;
        let v = p.all();
        let mut k = v.iter().position(|n| n.i == self.i)? as isize;
        loop {
            k += delta;
            if k < 0 {
                return None;
            }
            let n = *v.get(k as usize)?;
            if !named || n.is_named() {
                return Some(n);
            }
        }
    }
    pub fn next_sibling(&self) -> Option<Node<'t>> {
        self.sibling(1, false)
    }
    pub fn prev_sibling(&self) -> Option<Node<'t>> {
        self.sibling(-1, false)
    }
    pub fn next_named_sibling(&self) -> Option<Node<'t>> {
        self.sibling(1, true)
    }
    pub fn prev_named_sibling(&self) -> Option<Node<'t>> {
        self.sibling(-1, true)
    }
    pub fn descendant_for_byte_range(&self, s: usize, e: usize) -> Option<Node<'t>> {
        if s < self.start_byte() || e > self.end_byte() {
            return None;
        }
        let mut n = *self;
        'o: loop {
            for c in n.all() {
                if c.start_byte() <= s && e <= c.end_byte() {
                    n = c;
                    continue 'o;
                }
            }
            return Some(n);
        }
    }
    pub fn named_descendant_for_byte_range(&self, s: usize, e: usize) -> Option<Node<'t>> {
        let mut n = self.descendant_for_byte_range(s, e)?;
        while !n.is_named() {
            n = n.parent()?;
        }
        Some(n)
    }
    pub fn utf8_text<'a>(&self, src: &'a [u8]) -> Result<&'a str, std::str::Utf8Error> {
        std::str::from_utf8(&src[self.byte_range()])
    }
    pub fn to_sexp(&self) -> String {
        let mut s = format!("({}", self.kind());
        for c in self.all() {
            if c.is_named() {
                s.push(' ');
                if let Some(f) = c.d().field {
                    s.push_str(f);
                    s.push_str(": ");
                }
                s.push_str(&c.to_sexp());
            }
        }
        s.push(')');
        s
    }
}
