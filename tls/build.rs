fn main() { println!("cargo:rustc-link-arg-bins=-rdynamic"); println!("cargo:rerun-if-changed=build.rs"); }
