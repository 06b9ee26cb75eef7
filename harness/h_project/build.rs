fn main() {
    extract::write(
        "project.rs",
        "/repo/crates/tinymist/src/project.rs",
        &[
            "LspProjectCompiler",
            "EditorSender",
            "ProjectInsStateExt",
            "ProjectInsStateExt::compiled",
            "ProjectInsStateExt::emit_pending_reasons",
            "ProjectState",
            "ProjectState::primary_id",
            "ProjectState::snapshot",
            "ProjectState::do_interrupt",
            "ProjectState::interrupt",
            "ProjectState::restart_dedicate",
            "ProjectState::stop",
            "ServerState::reload_projects",
            "ProjectPreviewState",
            "ProjectPreviewState::register",
            "ProjectPreviewState::get",
            "CompileHandlerImpl",
            "ProjectClient",
        ],
        &["ServerState", "ServerState::project", "Config"],
    );
    extract::write(
        "editor.rs",
        "/repo/crates/tinymist/src/actor/editor.rs",
        &[
            "EditorActorConfig",
            "EditorRequest",
            "EditorActor",
            "EditorActor::new",
            "EditorActor::run",
            "ProjVersion",
            "PublishDiagnostics",
            "PublishDiagnosticsParams",
        ],
        &[],
    );
    extract::write(
        "input.rs",
        "/repo/crates/tinymist/src/input.rs",
        &[
            "ServerState::create_source",
            "ServerState::remove_source",
            "ServerState::edit_source",
            "ServerState::query_source",
            "ServerState::set_pin_by_preview",
            "ServerState::change_main_file",
            "ServerState::pin_main_file",
            "ServerState::focus_main_file",
            "ServerState::implicit_focus_entry",
        ],
        &["ServerState"],
    );
    extract::write("server.rs", "/repo/crates/tinymist/src/server.rs", &["as_path_"], &["ServerState"]);
    extract::write(
        "lsp.rs",
        "/repo/crates/tinymist/src/lsp.rs",
        &["ServerState::did_open", "ServerState::did_close", "ServerState::did_change", "ServerState::did_save"],
        &["ServerState"],
    );
    extract::write(
        "entry.rs",
        "/repo/crates/tinymist-project/src/entry.rs",
        &[
            "ProjectResolutionKind",
            "EntryResolver",
            "EntryResolver::root",
            "EntryResolver::resolve",
            "EntryResolver::resolve_with_root",
            "EntryResolver::resolve_default",
        ],
        &[],
    );
    extract::write("utils.rs", "/repo/crates/tinymist/src/utils.rs", &["get_arg"], &[]);
    extract::write(
        "cmd.rs",
        "/repo/crates/tinymist/src/cmd.rs",
        &["ServerState::pin_document", "ServerState::focus_document"],
        &["ServerState"],
    );
}
