//! Stands in for what makes documents into bytes, and for the rest of the
//! server.
#![allow(dead_code)]
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::{Arc, LazyLock, Mutex};

use ecow::EcoVec;
use tinymist_std::error::prelude::*;
pub use tinymist_std::typst::{TypstDocument, TypstHtmlDocument, TypstPagedDocument};
pub use tinymist_std::{ImmutPath, TakeAs};
use tinymist_world::font::FontResolver;
use tinymist_world::package::{PackageRegistry, PackageSpec};
use tinymist_world::vfs::{PathAccessModel, RootResolver};
use tinymist_world::CompilerFeat;
pub use typst::diag::SourceDiagnostic;
use typst::diag::{FileError, FileResult, PackageError};
pub use typst::foundations::Bytes;
use typst::foundations::Content;
use typst::layout::{Abs, Page};
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;
use typst::visualize::Color;

use crate::*;

pub mod path {
    pub use tinymist_std::path::*;
}
pub mod hash {
    pub use tinymist_std::hash::*;
}

/// The text that every file has.
pub static TEXT: Mutex<String> = Mutex::new(String::new());
#[derive(Debug, Clone, Copy)]
pub struct Disk;
impl PathAccessModel for Disk {
    fn content(&self, _: &Path) -> FileResult<Bytes> {
        Ok(Bytes::from_string(TEXT.lock().unwrap().clone()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        Err(FileError::Package(PackageError::NotFound(pkg.clone())))
    }
}
#[derive(Debug)]
pub struct Fonts(pub usize);
impl FontResolver for Fonts {
    fn revision(&self) -> Option<NonZeroUsize> {
        NonZeroUsize::new(self.0)
    }
    fn font_book(&self) -> &LazyHash<FontBook> {
        static BOOK: LazyLock<LazyHash<FontBook>> = LazyLock::new(|| LazyHash::new(FontBook));
        &BOOK
    }
    fn font(&self, _: usize) -> Option<Font> {
        None
    }
}
#[derive(Debug)]
pub struct Packages;
impl PackageRegistry for Packages {
    fn resolve(&self, spec: &PackageSpec) -> Result<ImmutPath, PackageError> {
        Err(PackageError::NotFound(spec.clone()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct LspCompilerFeat;
impl CompilerFeat for LspCompilerFeat {
    type FontResolver = Fonts;
    type AccessModel = Disk;
    type Registry = Packages;
}
pub type LspWorld = CompilerWorld<LspCompilerFeat>;
pub type LspUniverse = CompilerUniverse<LspCompilerFeat>;
pub type LspCompileSnapshot = CompileSnapshot<LspCompilerFeat>;
pub type LspCompiledArtifact = CompiledArtifact<LspCompilerFeat>;

/// As `sync_ls` has it.
pub type LspResult<T> = Result<T, String>;
pub type SchedulableResponse<T> = Result<std::pin::Pin<Box<dyn std::future::Future<Output = LspResult<T>> + Send>>, String>;
pub fn just_future<T>(fut: impl std::future::Future<Output = LspResult<T>> + Send + 'static) -> SchedulableResponse<T> {
    Ok(Box::pin(fut))
}
pub fn just_ok<T: Send + 'static>(v: T) -> SchedulableResponse<T> {
    Ok(Box::pin(async move { Ok(v) }))
}

/// What formats: a text given to it, if any.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Config(pub bool);
pub static FORMATTED: Mutex<Option<String>> = Mutex::new(None);
pub struct Typstyle(Config);
impl Typstyle {
    pub fn new(config: Config) -> Self {
        Typstyle(config)
    }
    pub fn format_source(&self, _: &typst::syntax::Source) -> Result<String, ()> {
        FORMATTED.lock().unwrap().clone().ok_or(())
    }
    pub fn format_content(&self, _: &str) -> Result<String, ()> {
        FORMATTED.lock().unwrap().clone().ok_or(())
    }
}
pub fn format(_: &str, _: Config) -> String {
    FORMATTED.lock().unwrap().clone().unwrap()
}

fn all_of(pages: &[Page]) -> String {
    pages.iter().map(|p| p.text.as_str()).collect()
}
/// What is made of a document says what it is and what the document says.
pub struct PdfExport;
impl ExportComputation<LspCompilerFeat, TypstPagedDocument> for PdfExport {
    type Output = Bytes;
    type Config = ExportPdfTask;
    fn run(_: &Arc<WorldComputeGraph<LspCompilerFeat>>, doc: &Arc<TypstPagedDocument>, _: &ExportPdfTask) -> Result<Bytes> {
        Ok(Bytes::from_string(format!("pdf {}", all_of(&doc.pages))))
    }
}
pub struct TextExport;
impl TextExport {
    pub fn run_on_doc(doc: &TypstDocument) -> Result<String> {
        Ok(format!("text {}", text_of(doc)))
    }
}
pub fn text_of(doc: &TypstDocument) -> String {
    match doc {
        TypstDocument::Paged(d) => all_of(&d.pages),
        TypstDocument::Html(d) => d.text.to_string(),
    }
}
pub fn html(doc: &TypstHtmlDocument) -> Result<String, String> {
    Ok(format!("html {}", doc.text))
}
pub struct DefaultExportFeature;
pub fn render_svg_html<F>(doc: &TypstPagedDocument) -> String {
    format!("svghtml {}", all_of(&doc.pages))
}
pub fn svg(page: &Page) -> String {
    format!("svg1 {}", page.text)
}
pub fn svg_merged(doc: &TypstPagedDocument, _: Abs) -> String {
    format!("svg {}", all_of(&doc.pages))
}
pub struct Pixmap(String);
impl Pixmap {
    pub fn encode_png(self) -> Result<Vec<u8>, String> {
        Ok(self.0.into_bytes())
    }
}
pub fn render(page: &Page, _: f32) -> Pixmap {
    Pixmap(format!("png1 {}", page.text))
}
pub fn render_merged(doc: &TypstPagedDocument, _: f32, _: Abs, _: Option<Color>) -> Pixmap {
    Pixmap(format!("png {}", all_of(&doc.pages)))
}
pub fn to_string<T>(_: T) -> Result<String, String> {
    Ok("yaml".into())
}
pub mod query {
    use super::*;
    pub fn retrieve(_: &LspWorld, _: &str, _: &TypstDocument) -> Result<Vec<Content>, String> {
        Ok(vec![Content])
    }
}
pub struct Typlite(Arc<LspWorld>);
impl Typlite {
    pub fn new(world: Arc<LspWorld>) -> Self {
        Typlite(world)
    }
    pub fn convert(self) -> Result<String, String> {
        use typst::World;
        let source = self.0.source(self.0.main()).map_err(|e| e.to_string())?;
        Ok(format!("md {}", source.text()))
    }
}
/// A length in points.
pub fn parse_length(gap: &str) -> Result<Abs> {
    gap.strip_suffix("pt").and_then(|g| g.parse().ok()).map(Abs::pt).context("not a length")
}
pub struct Updater;
impl Updater {
    pub fn compiled(&mut self, _: &LspWorld) -> Option<Id> {
        None
    }
    pub fn task(&mut self, _: ApplyProjectTask) {}
    pub fn commit(self) {}
}
pub fn update_lock(_: ImmutPath) -> Updater {
    Updater
}
pub mod project {
    pub use crate::*;
}
pub mod editor {
    #[derive(Debug)]
    pub enum EditorRequest {
        WordCount(crate::ProjectInsId, String),
    }
}
pub mod word_count {
    pub fn word_count(doc: &crate::TypstDocument) -> String {
        crate::text_of(doc)
    }
}
pub fn unused() -> EcoVec<u8> {
    EcoVec::new()
}
pub use crate::task::selection::get_page_selection;
