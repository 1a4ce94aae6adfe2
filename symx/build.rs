fn main() {
    // libz3 from the preinstalled tool venv (5.x); the system 4.8.12 is the fallback.
    let cands = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib",
        "/usr/lib/x86_64-linux-gnu",
    ];
    for c in cands {
        if std::path::Path::new(c).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={}", c);
            println!("cargo:rustc-link-arg=-Wl,-rpath,{}", c);
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
