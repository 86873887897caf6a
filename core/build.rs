// Resolves the symbols of blas-sys and lapack-sys with the system's OpenBLAS.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-lib=openblas");
}
