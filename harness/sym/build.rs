use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/symrt.o", out);
    let a = format!("{}/libsymrt.a", out);
    assert!(Command::new("cc").args(["-O1", "-g0", "-fPIC", "-c", "symrt.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=symrt");
    println!("cargo:rerun-if-changed=symrt.c");
}
