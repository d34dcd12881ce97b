fn main() {
    // Crates look these up with dlsym: the executable's definitions must be visible to it.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getentropy");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=clock_gettime");
    println!("cargo:rerun-if-changed=build.rs");
}
