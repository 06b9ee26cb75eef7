//! What the server keeps of its projects.
#![allow(dead_code, unused)]
use std::{num::NonZeroUsize, sync::Arc};

use crate::editor::{EditorRequest, ProjVersion};
use crate::*;
use parking_lot::Mutex;
use tinymist_std::hash::FxHashMap;
use tinymist_std::{error::prelude::*, ImmutPath};
use tinymist_world::vfs::{FileChangeSet, MemoryEvent};
use tokio::sync::mpsc;
use typst::{diag::FileResult, foundations::Bytes};

include!(concat!(env!("OUT_DIR"), "/project.rs"));

use std::collections::HashMap;
use std::path::Path;
use std::sync::Mutex as StdMutex;
use tinymist_world::args::TaskWhen;
use tinymist_world::vfs::notify::NotifyMessage;
use tinymist_world::vfs::Vfs;
use typst::syntax::Source;

/// The settings that matter here.
#[derive(Clone)]
pub struct Config {
    pub entry_resolver: EntryResolver,
    pub has_default_entry_path: bool,
    pub const_config: ConstConfig,
    pub lint: TaskWhen,
}
#[derive(Debug, Clone)]
pub struct ConstConfig {
    pub position_encoding: PositionEncoding,
}
pub struct Previews {
    pub watchers: ProjectPreviewState,
}
impl Previews {
    pub fn stop_all(&mut self) {
        self.watchers.inner.lock().clear();
    }
}
/// Where the files are of a project of a lock file. There is no lock file.
pub struct ResourcePath;
impl ResourcePath {
    pub fn to_abs_path(&self, _: &Path) -> Option<std::path::PathBuf> {
        None
    }
}
pub struct Document {
    pub root: Option<ResourcePath>,
    pub main: ResourcePath,
}
pub struct LockFile;
impl LockFile {
    pub fn get_document(&self, _: &str) -> Option<&Document> {
        None
    }
}
pub struct ProjectResolution {
    pub lock_dir: ImmutPath,
    pub project_id: String,
}
#[derive(Default)]
pub struct ProjectRouteState;
impl ProjectRouteState {
    pub fn resolve(&mut self, _: &ImmutPath) -> Option<ProjectResolution> {
        None
    }
    pub fn locate(&self, _: &ProjectResolution) -> Option<Arc<LockFile>> {
        None
    }
}

/// What the watcher is to be told.
pub static WATCHER: StdMutex<Option<mpsc::UnboundedReceiver<NotifyMessage>>> = StdMutex::new(None);
/// The part of the server that has the projects and the open documents.
pub struct ServerState {
    pub client: LspClient,
    pub route: ProjectRouteState,
    pub project: ProjectState,
    pub preview: Previews,
    pub pinning_by_user: bool,
    pub pinning_by_preview: bool,
    pub pinning_by_browsing_preview: bool,
    pub focusing: Option<ImmutPath>,
    pub implicit_position: Option<LspPosition>,
    pub ever_focusing_by_activities: bool,
    pub ever_manual_focusing: bool,
    pub config: Config,
    pub memory_changes: HashMap<Arc<Path>, Source>,
    pub editor_tx: mpsc::UnboundedSender<EditorRequest>,
}
impl ServerState {
    pub fn new(config: Config, editor_tx: mpsc::UnboundedSender<EditorRequest>) -> Self {
        let watchers = ProjectPreviewState::default();
        let project = Self::project(&config, editor_tx.clone(), LspClient, watchers.clone());
        Self {
            client: LspClient,
            route: ProjectRouteState,
            project,
            preview: Previews { watchers },
            pinning_by_user: false,
            pinning_by_preview: false,
            pinning_by_browsing_preview: false,
            focusing: None,
            implicit_position: None,
            ever_focusing_by_activities: false,
            ever_manual_focusing: false,
            config,
            memory_changes: HashMap::new(),
            editor_tx,
        }
    }
    pub fn const_config(&self) -> &ConstConfig {
        &self.config.const_config
    }
    pub fn entry_resolver(&self) -> &EntryResolver {
        &self.config.entry_resolver
    }
    pub fn project(config: &Config, editor_tx: mpsc::UnboundedSender<EditorRequest>, _: LspClient, preview: ProjectPreviewState) -> ProjectState {
        let handler = Arc::new(CompileHandlerImpl {
            analysis: Arc::new(Analysis { position_encoding: config.const_config.position_encoding, lint: config.lint }),
            preview: preview.clone(),
            is_standalone: false,
            export: task::ExportTask,
            editor_tx,
            client: Box::new(Client),
            status_revision: Default::default(),
            notified_revision: Default::default(),
        });
        let entry = config.entry_resolver.resolve(config.entry_resolver.resolve_default());
        let verse =
            CompilerUniverse::new_raw(entry, Default::default(), None, Vfs::new(Arc::new(Roots), Disk), Arc::new(Packages), Arc::new(Fonts(1)));
        let (dep_tx, told) = mpsc::unbounded_channel();
        *WATCHER.lock().unwrap() = Some(told);
        let compiler =
            ProjectCompiler::new(verse, dep_tx, CompileServerOpts { handler: handler.clone(), enable_watch: true, export_target: Default::default() });
        ProjectState { compiler, preview, analysis: handler.analysis.clone(), stats: Default::default(), export: task::ExportTask }
    }
}
mod input {
    use super::*;
    use lsp_types::*;
    use reflexo_typst::Bytes;
    use tinymist_query::{to_typst_range, PositionEncoding};
    use tinymist_std::error::prelude::*;
    use tinymist_std::ImmutPath;
    use tinymist_world::vfs::{notify::MemoryEvent, FileChangeSet};
    use typst::{diag::FileResult, syntax::Source};
    include!(concat!(env!("OUT_DIR"), "/input.rs"));
}
mod lsp {
    use super::*;
    use lsp_types::*;
    use std::path::PathBuf;
    use tinymist_std::error::{prelude::*, IgnoreLogging};
    include!(concat!(env!("OUT_DIR"), "/server.rs"));
    include!(concat!(env!("OUT_DIR"), "/lsp.rs"));
}
mod cmd {
    use super::*;
    use serde_json::{from_value, Value as JsonValue};
    use std::path::PathBuf;
    type AnySchedulableResponse = LspResult<JsonValue>;
    fn just_ok(v: JsonValue) -> AnySchedulableResponse {
        Ok(v)
    }
    fn internal_error(msg: impl std::fmt::Display) -> String {
        msg.to_string()
    }
    include!(concat!(env!("OUT_DIR"), "/utils.rs"));
    include!(concat!(env!("OUT_DIR"), "/cmd.rs"));
}
mod entries {
    use super::*;
    use serde::{Deserialize, Serialize};
    use tinymist_std::hash::FxDashMap;
    use typst::syntax::VirtualPath;
    include!(concat!(env!("OUT_DIR"), "/entry.rs"));
}
pub use entries::{EntryResolver, ProjectResolutionKind};
