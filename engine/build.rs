fn main() {
    // libz3 4.8.12 from the pre-installed libz3-dev package.
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
