//! Hosts the repository's own compiler: the real front end, the real pipeline driver
//! (src/pipeline.rs is compiled in as it stands) and the real back ends.
use crate::pipeline::{self, CompilationConfig, OptimizationOptions};
use tribute_front::SourceCst;
use tribute_passes::diagnostic::Diagnostic;

#[derive(Default, Clone)]
#[salsa::db]
pub struct Db {
    storage: salsa::Storage<Self>,
}
#[salsa::db]
impl salsa::Database for Db {}

impl Db {
    pub fn with_events(f: Box<dyn Fn(salsa::Event) + Send + Sync + 'static>) -> Db {
        Db { storage: salsa::Storage::new(Some(f)) }
    }
}

pub fn parse(text: &str) -> (ropey::Rope, Option<tree_sitter::Tree>) {
    let rope = ropey::Rope::from_str(text);
    let mut parser = tree_sitter::Parser::new();
    parser.set_language(&tree_sitter_tribute::LANGUAGE.into()).unwrap();
    let tree = parser.parse(text, None);
    (rope, tree)
}
fn render(mut d: Vec<&Diagnostic>) -> String {
    d.sort_by(|a, b| pipeline::compare_diagnostics(a, b));
    d.iter().map(|d| format!("{d:?}\n")).collect()
}
/// As `native`, with the diagnostics in full, in the order the user sees them.
pub fn native_full(db: &Db, src: SourceCst, asan: bool, opt: OptimizationOptions) -> Result<Vec<u8>, String> {
    let config = CompilationConfig::new(db, asan, opt);
    pipeline::compile_to_native_binary(db, src, config).ok_or_else(|| render(pipeline::compile_to_native_binary::accumulated::<Diagnostic>(db, src, config)))
}
pub fn wasm_full(db: &Db, src: SourceCst) -> Result<Vec<u8>, String> {
    pipeline::compile_to_wasm_binary(db, src).map_err(render)
}
pub fn diagnostics(db: &Db, src: SourceCst) -> String {
    pipeline::compile_with_diagnostics(db, src).diagnostics.iter().map(|d| format!("{d:?}\n")).collect()
}

pub fn source(db: &Db, name: &str, text: &str) -> SourceCst {
    SourceCst::from_source_str(db, name, text)
}

pub fn native(db: &Db, src: SourceCst, asan: bool, opt: OptimizationOptions) -> Result<Vec<u8>, String> {
    let config = CompilationConfig::new(db, asan, opt);
    match pipeline::compile_to_native_binary(db, src, config) {
        Some(b) => Ok(b),
        None => {
            let d: Vec<&Diagnostic> = pipeline::compile_to_native_binary::accumulated::<Diagnostic>(db, src, config);
            Err(d.iter().map(|d| messages(&format!("{d:?}"))).collect::<Vec<_>>().join("; "))
        }
    }
}

pub fn wasm(db: &Db, src: SourceCst) -> Result<Vec<u8>, String> {
    pipeline::compile_to_wasm_binary(db, src).map_err(|d| messages(&format!("{d:?}")))
}

fn messages(d: &str) -> String {
    let mut v = vec![];
    for p in d.split("message: ").skip(1) {
        v.push(p.split("\", ").next().unwrap_or(p).to_string());
    }
    if v.is_empty() { d.to_string() } else { v.join("; ") }
}
