fn main() {
    println!("cargo:rustc-link-arg-bin=mc=-Wl,--wrap=sqlite3_step");
    println!("cargo:rerun-if-changed=build.rs");
}
