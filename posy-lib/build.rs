// Recompile whenever the content of /repo changes, whatever the file timestamps say.
fn main() {
    println!("cargo:rerun-if-env-changed=POSY_SRC_HASH");
    println!("cargo:rustc-env=POSY_SRC_HASH={}", std::env::var("POSY_SRC_HASH").unwrap_or_default());
    println!("cargo:rustc-cfg=posy_verif");
}
