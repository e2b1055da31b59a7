fn main() {
    println!("cargo:rustc-check-cfg=cfg(subsweep_verif)");
    println!("cargo:rustc-cfg=subsweep_verif");
    let here = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    println!("cargo:rustc-env=SUBSWEEP_VERIF_HOOKS={here}/../../hooks/core");
    println!("cargo:rerun-if-changed=build.rs");
}
