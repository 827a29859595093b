use std::path::Path;
fn main() {
    // Prefer the newer z3 shipped with the python venv, fall back on the system library.
    let newer = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if Path::new(newer).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={newer}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{newer}");
    } else {
        println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
