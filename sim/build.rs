fn main() {
    // The libc symbols defined in src/libc_seam.rs must win over the C library's.
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
