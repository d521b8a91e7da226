// exports the block size of this build variant (from Cargo.toml) and makes the build depend on the sources' hash
fn main() {
    let manifest = std::fs::read_to_string("Cargo.toml").unwrap();
    let size = manifest.lines().find_map(|l| l.strip_prefix("block-size = ")).unwrap().trim().to_string();
    println!("cargo:rustc-env=ND_SIM_BLOCK_SIZE={size}");
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-env-changed=ND_SRC_HASH");
    println!("cargo:rustc-env=ND_SRC_HASH={}", std::env::var("ND_SRC_HASH").unwrap_or_default());
}
