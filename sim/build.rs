fn main() {
    // The C library's allocator as seen by native code goes behind a seam; Rust's own global
    // allocator calls the real one directly.
    for f in ["malloc", "calloc", "realloc", "free", "memalign", "posix_memalign", "aligned_alloc"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    // std looks some system calls up by name at run time.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
