use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/hook.o", out);
    assert!(Command::new("gcc").args(["-O2", "-fPIC", "-c", "hook.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &format!("{}/libhook.a", out), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=hook");
    println!("cargo:rerun-if-changed=hook.c");
}
