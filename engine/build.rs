use std::path::Path;
fn main() {
    // The z3 5.x shared library shipped with the python tooling; the system one (4.8) as a fall-back.
    let cands = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib",
        "/usr/lib/x86_64-linux-gnu",
    ];
    for c in cands {
        if Path::new(c).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={c}");
            println!("cargo:rustc-link-arg=-Wl,-rpath,{c}");
            println!("cargo:rustc-link-lib=dylib=z3");
            return;
        }
    }
    panic!("libz3.so not found");
}
