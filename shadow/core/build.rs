fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo::rustc-check-cfg=cfg(have_fspacectl)");
    println!("cargo:rustc-cfg=have_fspacectl");
}
