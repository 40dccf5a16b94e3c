fn main() {
    // prefer the newer z3 shipped with the verification venv, fall back to the system one
    let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(new).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={new}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{new}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-lib=dylib=m");
    println!("cargo:rustc-link-lib=dylib=dl");
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
