fn main() {
    let o = std::env::var("RT_OBJ").expect("RT_OBJ: the instrumented runtime object (tools/env.sh build_rt)");
    println!("cargo:rerun-if-env-changed=RT_OBJ");
    println!("cargo:rerun-if-changed={o}");
    println!("cargo:rustc-link-arg-bins={o}");
}
