// Links the z3 C API: the z3 5.x library of the python tooling venv when present, else the
// system one.
fn main() {
    let venv = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(venv).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={}", venv);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", venv);
    } else {
        println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
