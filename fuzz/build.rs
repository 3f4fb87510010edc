//! Links the libFuzzer that comes with clang.
use std::process::Command;

fn main() {
    let out = Command::new("clang").arg("-print-resource-dir").output().expect("clang");
    let dir = String::from_utf8(out.stdout).expect("a path");
    println!("cargo:rustc-link-arg={}/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a", dir.trim());
    println!("cargo:rustc-link-arg=-lstdc++");
    println!("cargo:rustc-link-arg=-lm");
    println!("cargo:rerun-if-changed=build.rs");
}
