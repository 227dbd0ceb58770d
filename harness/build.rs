use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc")
        .args(["-O2", "-g0", "-fPIC", "-fno-strict-aliasing", "-c", "rt/rt.c", "-o"])
        .arg(format!("{out}/rt.o"))
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg={out}/rt.o");
}
