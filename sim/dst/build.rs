fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=dnaupd_c");
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=dneupd_c");
    for f in ["memcpy", "memmove", "memset"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
}
