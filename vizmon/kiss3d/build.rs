// Compiles delay.c (C, so that it is never instrumented itself).
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=delay.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/delay.o", out);
    let lib = format!("{}/libvizdelay.a", out);
    assert!(Command::new("gcc").args(&["-O2", "-fPIC", "-c", "delay.c", "-o", &obj]).status().unwrap().success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(&["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=vizdelay");
}
