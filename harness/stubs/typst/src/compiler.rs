//! A toy of a compiler: a text that starts with `i` is followed by that of the
//! `/b.typ` beside it; a text that has a `!` is wrong. The document is the
//! texts read.
use crate::diag::{At, FileResult, SourceDiagnostic, SourceResult, Warned};
use crate::foundations::{Bytes, Datetime, Dict};
use crate::introspection::Introspector;
use crate::model::DocumentInfo;
use crate::syntax::{FileId, Source, Span};
use crate::text::{Font, FontBook};
use crate::utils::LazyHash;
use ecow::{eco_vec, EcoString, EcoVec};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Feature {
    Html,
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Features(bool);
impl Features {
    pub fn is_enabled(&self, _: Feature) -> bool {
        self.0
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<I: IntoIterator<Item = Feature>>(all: I) -> Self {
        Features(all.into_iter().next().is_some())
    }
}
#[derive(Debug, Clone, Default, Hash)]
pub struct Library {
    pub inputs: Dict,
    pub features: Features,
}
impl Library {
    pub fn builder() -> Library {
        Library::default()
    }
    pub fn with_inputs(mut self, inputs: Dict) -> Library {
        self.inputs = inputs;
        self
    }
    pub fn with_features(mut self, features: Features) -> Library {
        self.features = features;
        self
    }
    pub fn build(self) -> Library {
        self
    }
}
pub trait World: Send + Sync {
    fn library(&self) -> &LazyHash<Library>;
    fn book(&self) -> &LazyHash<FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<Bytes>;
    fn font(&self, index: usize) -> Option<Font>;
    fn today(&self, offset: Option<i64>) -> Option<Datetime>;
}

#[derive(Debug, Clone, Default)]
pub struct Page {
    pub text: EcoString,
}
#[derive(Debug, Clone, Default)]
pub struct PagedDocument {
    pub pages: Vec<Page>,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
#[derive(Debug, Clone, Default)]
pub struct HtmlDocument {
    pub text: EcoString,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
pub trait Document: Sized {
    fn info(&self) -> &DocumentInfo;
    fn of(texts: Vec<EcoString>) -> Self;
}
impl Document for PagedDocument {
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn of(texts: Vec<EcoString>) -> Self {
        let info = info_of(&texts);
        PagedDocument { pages: texts.into_iter().map(|text| Page { text }).collect(), info, ..Default::default() }
    }
}
impl Document for HtmlDocument {
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn of(texts: Vec<EcoString>) -> Self {
        HtmlDocument { text: texts.concat().into(), info: info_of(&texts), ..Default::default() }
    }
}
/// A text that starts with `t` gives its document a title.
fn info_of(texts: &[EcoString]) -> DocumentInfo {
    DocumentInfo { title: texts.first().filter(|t| t.as_bytes().first() == Some(&b't')).cloned() }
}
fn texts(world: &dyn World) -> SourceResult<Vec<EcoString>> {
    let main = world.main();
    let mut all = vec![];
    let mut ids = vec![main];
    while let Some(id) = ids.pop() {
        let file = id.vpath().as_rooted_path().display();
        let source = world.source(id).map_err(|_| format!("{file}|missing")).at(Span::detached())?;
        let text = source.text();
        if text.as_bytes().first() == Some(&b'i') && id == main {
            ids.push(main.join("b.typ"));
        }
        if text.as_bytes().contains(&b'!') {
            return Err(eco_vec![SourceDiagnostic::error(Span::detached(), format!("{file}|{text}"))]);
        }
        all.push(EcoString::from(text));
    }
    Ok(all)
}
pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    Warned { output: texts(world).map(D::of), warnings: EcoVec::new() }
}
