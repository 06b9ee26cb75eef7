fn main() {
    extract::write("input.rs", "/repo/crates/tinymist/src/input.rs", &["ServerState::resolve_task", "ServerState::resolve_task_or"], &["ServerState"]);
    extract::write(
        "entry.rs",
        "/repo/crates/tinymist-project/src/entry.rs",
        &[
            "ProjectResolutionKind",
            "EntryResolver",
            "EntryResolver::root",
            "EntryResolver::resolve",
            "EntryResolver::resolve_with_root",
            "EntryResolver::resolve_lock",
        ],
        &[],
    );
}
