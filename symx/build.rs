fn main() {
    // Prefer the newer libz3 of the verification venv, fall back on the system one.
    let dirs = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib", "/usr/lib/x86_64-linux-gnu"];
    for d in dirs {
        if std::path::Path::new(d).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={d}");
            println!("cargo:rustc-link-arg=-Wl,-rpath,{d}");
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
