//! Stands in for the rest of the server: the disk, the analyses, the previews,
//! the exports and the client.
#![allow(dead_code)]
use std::collections::HashMap;
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::{Arc, LazyLock, Mutex};

use ecow::{eco_vec, EcoVec};
use lsp_types::{Diagnostic, Url};
use tinymist_std::error::prelude::*;
use tinymist_world::args::TaskWhen;
use tinymist_world::font::FontResolver;
use tinymist_world::package::{PackageRegistry, PackageSpec};
use tinymist_world::vfs::{PathAccessModel, RootResolver};
use tinymist_world::CompilerFeat;
use tinymist_std::ImmutPath;
use typst::diag::{FileError, FileResult, PackageError, SourceDiagnostic};
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;

use crate::*;

pub mod path {
    pub use tinymist_std::path::*;
}
pub mod hash {
    pub use tinymist_std::hash::*;
}
pub use tinymist_std::typst::TypstDocument;

/// What is on the disk.
pub static DISK: Mutex<Vec<(&'static str, Option<String>)>> = Mutex::new(Vec::new());
pub fn on_disk(path: &Path) -> Option<String> {
    DISK.lock().unwrap().iter().find(|e| Path::new(e.0) == path).and_then(|e| e.1.clone())
}
#[derive(Debug, Clone, Copy)]
pub struct Disk;
impl PathAccessModel for Disk {
    fn content(&self, path: &Path) -> FileResult<Bytes> {
        on_disk(path).map(Bytes::from_string).ok_or_else(|| FileError::NotFound(path.into()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        Err(FileError::Package(PackageError::NotFound(pkg.clone())))
    }
}
#[derive(Debug)]
pub struct Fonts(pub usize);
impl FontResolver for Fonts {
    fn revision(&self) -> Option<NonZeroUsize> {
        NonZeroUsize::new(self.0)
    }
    fn font_book(&self) -> &LazyHash<FontBook> {
        static BOOK: LazyLock<LazyHash<FontBook>> = LazyLock::new(|| LazyHash::new(FontBook));
        &BOOK
    }
    fn font(&self, _: usize) -> Option<Font> {
        None
    }
}
#[derive(Debug)]
pub struct Packages;
impl PackageRegistry for Packages {
    fn resolve(&self, spec: &PackageSpec) -> Result<ImmutPath, PackageError> {
        Err(PackageError::NotFound(spec.clone()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct LspCompilerFeat;
impl CompilerFeat for LspCompilerFeat {
    type FontResolver = Fonts;
    type AccessModel = Disk;
    type Registry = Packages;
}
pub type LspWorld = CompilerWorld<LspCompilerFeat>;
pub type LspUniverse = CompilerUniverse<LspCompilerFeat>;
pub type LspCompileSnapshot = CompileSnapshot<LspCompilerFeat>;
pub type LspCompiledArtifact = CompiledArtifact<LspCompilerFeat>;
pub type LspComputeGraph = Arc<WorldComputeGraph<LspCompilerFeat>>;
pub type LspInterrupt = Interrupt<LspCompilerFeat>;

pub type DiagnosticsMap = HashMap<Url, EcoVec<Diagnostic>>;
pub use boundary::*;
pub use typst::foundations::Bytes;
pub type LspResult<T> = Result<T, String>;
pub fn invalid_params(msg: impl std::fmt::Display) -> String {
    msg.to_string()
}
static URLS: LazyLock<Vec<(&str, Url)>> =
    LazyLock::new(|| ["/a.typ", "/b.typ", "/c.typ"].into_iter().map(|p| (p, Url::parse(&format!("file:///w{p}")).unwrap())).collect());
pub fn url_of(file: &str) -> Url {
    URLS.iter().find(|u| u.0 == file).unwrap().1.clone()
}
/// A message names its file.
pub fn convert_diagnostics<'a>(_: &LspWorld, all: impl IntoIterator<Item = &'a SourceDiagnostic>, _: PositionEncoding) -> DiagnosticsMap {
    let mut map = DiagnosticsMap::default();
    for d in all {
        let (file, _) = d.message.split_once('|').unwrap();
        let d = Diagnostic { message: d.message.to_string(), ..Default::default() };
        map.entry(url_of(file)).or_default().push(d);
    }
    map
}
pub struct Analysis {
    pub position_encoding: PositionEncoding,
    pub lint: TaskWhen,
}
pub struct LocalContext(LspWorld);
impl Analysis {
    pub fn enter(&self, world: LspWorld) -> LocalContext {
        LocalContext(world)
    }
}
pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext) -> Option<Self::Response>;
}
pub struct CheckRequest {
    pub snap: LspCompiledArtifact,
}
impl SemanticRequest for CheckRequest {
    type Response = DiagnosticsMap;
    fn request(self, ctx: &mut LocalContext) -> Option<DiagnosticsMap> {
        Some(convert_diagnostics(&ctx.0, self.snap.diagnostics(), PositionEncoding::Utf16))
    }
}
#[derive(Default)]
pub struct CompilerQueryStats;
pub enum ServerEvent {}
#[derive(Debug, Clone, Copy)]
pub enum DiagnosticFormat {
    Human,
}
pub fn print_diagnostics<'a>(_: &LspWorld, _: impl Iterator<Item = &'a SourceDiagnostic>, _: DiagnosticFormat) -> Result<(), String> {
    Ok(())
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct WordsCount;
impl serde::Serialize for WordsCount {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl<'de> serde::Deserialize<'de> for WordsCount {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Ok(WordsCount)
    }
}
/// As `typst::utils::OptionExt`.
pub trait MapOr<T> {
    fn map_or_default<U: Default>(self, f: impl FnOnce(T) -> U) -> U;
}
impl<T> MapOr<T> for Option<T> {
    fn map_or_default<U: Default>(self, f: impl FnOnce(T) -> U) -> U {
        self.map(f).unwrap_or_default()
    }
}

/// What a project was last told to show or export.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Told {
    pub revision: usize,
    pub texts: Vec<String>,
    /// Whether it comes of an edit, of a change on the disk, of another main file.
    pub signal: [bool; 3],
}
pub fn told(art: &LspCompiledArtifact) -> Told {
    let s = art.snap.signal;
    Told { revision: art.world().revision().get(), texts: texts_of(art), signal: [s.by_mem_events, s.by_fs_events, s.by_entry_update] }
}
pub fn texts_of(art: &LspCompiledArtifact) -> Vec<String> {
    match &art.doc {
        Some(TypstDocument::Paged(d)) => d.pages.iter().map(|p| p.text.to_string()).collect(),
        Some(TypstDocument::Html(d)) => vec![d.text.to_string()],
        None => art.diagnostics().map(|d| d.message.to_string()).collect(),
    }
}
/// The artifacts given out, in order, by project.
pub static GIVEN: Mutex<Vec<(ProjectInsId, Told)>> = Mutex::new(Vec::new());
pub mod task {
    #[derive(Clone)]
    pub struct ExportTask;
    impl ExportTask {
        pub fn signal(&self, art: &crate::LspCompiledArtifact) {
            crate::GIVEN.lock().unwrap().push((art.id().clone(), crate::told(art)));
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompileStatus {
    Compiling,
    CompileSuccess,
    CompileError,
}
pub struct CompileWatcher {
    pub status: Mutex<CompileStatus>,
    pub shown: Mutex<Option<Told>>,
}
impl CompileWatcher {
    pub fn status(&self, s: CompileStatus) {
        *self.status.lock().unwrap() = s;
    }
    pub fn notify_compile(&self, view: Arc<tool::preview::PreviewCompileView>) {
        *self.shown.lock().unwrap() = Some(told(&view.art));
    }
}
pub mod tool {
    pub mod preview {
        pub struct PreviewCompileView {
            pub art: crate::LspCompiledArtifact,
        }
    }
}

/// What the editor was told of each file.
pub static SHOWN: Mutex<Vec<(Url, Vec<String>)>> = Mutex::new(Vec::new());
#[derive(Clone)]
pub struct LspClient;
impl LspClient {
    pub fn send_notification<N: lsp_types::notification::Notification>(&self, params: &N::Params)
    where
        N::Params: 'static,
    {
        let params: &dyn std::any::Any = params;
        if let Some(p) = params.downcast_ref::<editor::PublishDiagnosticsParams>() {
            let mut all = SHOWN.lock().unwrap();
            all.retain(|e| e.0 != p.uri);
            all.push((p.uri.clone(), p.messages().into_iter().map(String::from).collect()));
        }
    }
}
/// The results of compilations on their way to the server.
pub static INBOX: Mutex<std::collections::VecDeque<LspInterrupt>> = Mutex::new(std::collections::VecDeque::new());
pub struct Client;
impl project::ProjectClient for Client {
    fn interrupt(&self, event: LspInterrupt) {
        INBOX.lock().unwrap().push_back(event);
    }
    fn server_event(&self, _: ServerEvent) {}
}
pub fn unused() -> EcoVec<u8> {
    eco_vec![]
}
