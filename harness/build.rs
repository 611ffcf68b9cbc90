use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/simrt.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-fno-stack-protector", "-Wall", "-c", "rt/simrt.c", "-o", &o])
        .status()
        .unwrap()
        .success();
    assert!(ok);
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rustc-link-arg=-Wl,--export-dynamic");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
