fn main() {
    extract::write(
        "lib.rs",
        "/repo/crates/tinymist-world/src/lib.rs",
        &["ShadowApi", "ShadowApiExt", "WorldDeps", "CompilerFeat"],
        &[],
    );
}
