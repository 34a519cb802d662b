use std::{env, path::PathBuf, process::Command};
// Links against the LLVM that rustc itself uses (so its bitcode can always be read) and z3.
fn main() {
    let rustc = env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let lib = PathBuf::from(String::from_utf8(out.stdout).unwrap().trim()).join("lib");
    let dst = PathBuf::from(env::var("OUT_DIR").unwrap());
    let pick = |pre: &str| std::fs::read_dir(&lib).unwrap().map(|e| e.unwrap().path())
        .find(|p| p.file_name().unwrap().to_string_lossy().starts_with(pre)).unwrap();
    let llvm = pick("libLLVM.so.");
    let link = dst.join("libLLVMrust.so");
    let _ = std::fs::remove_file(&link);
    std::os::unix::fs::symlink(&llvm, &link).unwrap();
    let zdirs = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib", "/usr/lib/x86_64-linux-gnu"];
    let zdir = env::var("SV_Z3_DIR").ok().unwrap_or_else(|| zdirs.iter().find(|d| PathBuf::from(d).join("libz3.so").exists()).expect("libz3").to_string());
    println!("cargo:rustc-link-search=native={}", dst.display());
    println!("cargo:rustc-link-search=native={zdir}");
    // z3 first: LLVM's library carries a C++ runtime of its own, which z3 must not bind to
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-lib=dylib=stdc++");
    println!("cargo:rustc-link-lib=dylib=LLVMrust");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{zdir}");
    println!("cargo:rerun-if-changed=build.rs");
}
