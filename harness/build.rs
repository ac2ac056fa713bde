// Compiles gas.c (must not be instrumented itself, hence C) when the `gas` feature is on.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=gas.c");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_GAS").is_none() {
        return;
    }
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/gas.o");
    let lib = format!("{out}/libkmongas.a");
    assert!(Command::new("gcc").args(["-O2", "-fPIC", "-c", "gas.c", "-o", &obj]).status().unwrap().success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=kmongas");
}
