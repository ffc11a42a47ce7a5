//! Copies the CLI entry point of /repo into OUT_DIR (inner attributes removed) so that it can be `include!`d.
fn main() {
    let src = "/repo/src/bin/cambrian.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    let text = std::fs::read_to_string(src).expect("read CLI source");
    let text: String = text.lines().filter(|l| !l.trim_start().starts_with("#![")).map(|l| format!("{l}\n")).collect();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("cli.rs");
    std::fs::write(out, text).unwrap();
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
