fn main() {
    brec::build_setup();
    // the protocol the monitors are built for: the fixed one, or a generated one (property C21)
    println!("cargo:rerun-if-env-changed=MON_PROTO");
    println!("cargo:rustc-check-cfg=cfg(brec_verif)");
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let p = std::env::var("MON_PROTO").unwrap_or_else(|_| format!("{dir}/proto/fixed.rs"));
    println!("cargo:rerun-if-changed={p}");
    println!("cargo:rustc-env=MON_PROTO_FILE={p}");
}
