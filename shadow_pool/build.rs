fn main() {
    let repo = std::env::var("BFX_REPO").unwrap_or("/repo".into());
    println!("cargo:rerun-if-env-changed=BFX_REPO");
    println!("cargo:rerun-if-changed={repo}/bfffs/src/pool_create_parser.lalrpop");
    println!("cargo:rustc-env=BFX_REPO={repo}");
    lalrpop::Configuration::new().set_in_dir(format!("{repo}/bfffs/src")).force_build(true).process().unwrap();
}
