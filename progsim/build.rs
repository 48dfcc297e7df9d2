fn main() {
    let o = std::env::var("RT_OBJ").expect("RT_OBJ: the instrumented runtime object (tools/env.sh build_rt)");
    println!("cargo:rerun-if-env-changed=RT_OBJ");
    println!("cargo:rerun-if-changed={o}");
    println!("cargo:rustc-link-arg-bins={o}");
    // the runtime's exported symbols, as a table for the loader
    let keep = std::path::Path::new(&o).with_file_name("rt.keep");
    println!("cargo:rerun-if-changed={}", keep.display());
    let names = std::fs::read_to_string(&keep).expect("rt.keep");
    let list: Vec<&str> = names.split_whitespace().collect();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("rtsyms.rs");
    std::fs::write(out, format!("syms!({});\n", list.join(" "))).unwrap();
}
