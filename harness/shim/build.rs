//! Has the calls of the C library's functions that reach the system go through `sys.rs`.

include!("src/names.rs");

fn main() {
    println!("cargo:rerun-if-changed=src/names.rs");
    let linux = std::env::var("CARGO_CFG_TARGET_OS").as_deref() == Ok("linux");
    if linux && std::env::var("CARGO_FEATURE_CT").is_err() {
        println!("cargo:rustc-cfg=sys");
        for n in NAMES {
            println!("cargo:rustc-cdylib-link-arg=-Wl,--wrap={n}");
        }
    }
    println!("cargo:rustc-check-cfg=cfg(sys)");
}
