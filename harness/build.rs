fn main() {
    // the C side of the interface, built by check.py
    let o = concat!(env!("CARGO_MANIFEST_DIR"), "/../build/cshim.o");
    println!("cargo:rerun-if-changed={}", o);
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins={}", o);
}
