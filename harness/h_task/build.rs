fn main() {
    extract::write(
        "task.rs",
        "/repo/crates/tinymist/src/task/mod.rs",
        &[
            "SyncTaskFactory",
            "SyncTaskFactory::new",
            "SyncTaskFactory::mutate",
            "SyncTaskFactory::task",
            "FutureFolder",
            "FutureFolder::compute",
            "FutureFolder::spawn",
        ],
        &[],
    );
    extract::write(
        "export.rs",
        "/repo/crates/tinymist/src/task/export.rs",
        &["ExportTask", "ExportTask::new", "ExportTask::change_config", "ExportTask::signal", "ExportTask::do_export", "ExportUserConfig"],
        &[],
    );
    extract::write("compute.rs", "/repo/crates/tinymist-task/src/compute.rs", &["get_page_selection"], &["parse_length"]);
}
