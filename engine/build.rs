use std::path::PathBuf;
use std::process::Command;
fn main() {
    // link against the LLVM that the pinned rustc ships with, so the bitcode formats match
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let root = PathBuf::from(String::from_utf8(out.stdout).unwrap().trim());
    let lib = root.join("lib");
    let so = std::fs::read_dir(&lib)
        .unwrap()
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so"))
        .expect("libLLVM.so in the toolchain");
    let outdir = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let link = outdir.join("libLLVMrs.so");
    let _ = std::fs::remove_file(&link);
    std::os::unix::fs::symlink(lib.join(&so), &link).unwrap();
    println!("cargo:rustc-link-search=native={}", outdir.display());
    println!("cargo:rustc-link-arg={}", lib.join(&so).display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rustc-link-lib=dylib=z3");
}
