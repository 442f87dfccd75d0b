use std::{env, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=native.c");
    let out = env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("run compiler").success());
    run(Command::new("gcc").args(&["-O1", "-g", "-fPIC", "-fno-delete-null-pointer-checks", "-Wall", "-Wno-nonnull-compare", "-c", "native.c", "-o"]).arg(format!("{}/native.o", out)));
    run(Command::new("ar").arg("crs").arg(format!("{}/libvpnative.a", out)).arg(format!("{}/native.o", out)));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-arg={}/native.o", out);
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rustc-link-lib=dylib=dl");
    println!("cargo:rustc-link-lib=dylib=pthread");
}
