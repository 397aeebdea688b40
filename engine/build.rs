fn main() {
    // libz3.so of the z3 package; only the C API is used (declared by hand in z3.rs).
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
