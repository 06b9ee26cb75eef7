//! tinymist-world without what reads fonts, packages and the syntax of typst.
#[path = "/repo/crates/tinymist-world/src/compute.rs"]
mod compute;
#[path = "/repo/crates/tinymist-world/src/debug_loc.rs"]
pub mod debug_loc;
#[path = "/repo/crates/tinymist-world/src/entry.rs"]
pub mod entry;
#[path = "/repo/crates/tinymist-world/src/snapshot.rs"]
mod snapshot;
#[path = "/repo/crates/tinymist-world/src/source.rs"]
pub mod source;
#[path = "/repo/crates/tinymist-world/src/world.rs"]
pub mod world;

pub use compute::*;
pub use entry::*;
pub use snapshot::*;
pub use tinymist_vfs as vfs;
pub use world::*;

pub mod args {
    use serde::{Deserialize, Serialize};
    /// When a task runs.
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Default, Hash, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum TaskWhen {
        #[default]
        Never,
        OnSave,
        OnType,
        OnDocumentHasTitle,
    }
    impl TaskWhen {
        pub fn is_never(&self) -> bool {
            matches!(self, TaskWhen::Never)
        }
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd)]
    pub enum OutputFormat {
        Pdf,
        Png,
        Svg,
        Html,
    }
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Default, Hash)]
    pub enum ExportTarget {
        #[default]
        Paged,
        Html,
    }
    #[allow(non_camel_case_types)]
    #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
    pub enum PdfStandard {
        V_1_7,
        A_2b,
        A_3b,
    }
}
pub mod font {
    use std::num::NonZeroUsize;
    use typst::text::{Font, FontBook};
    use typst::utils::LazyHash;
    pub trait FontResolver {
        fn revision(&self) -> Option<NonZeroUsize> {
            None
        }
        fn font_book(&self) -> &LazyHash<FontBook>;
        fn font(&self, index: usize) -> Option<Font>;
    }
}
pub mod package {
    use std::num::NonZeroUsize;
    use std::path::Path;
    use std::sync::Arc;
    use typst::diag::{EcoString, PackageError};
    pub use typst::syntax::package::PackageSpec;
    pub trait PackageRegistry {
        fn reset(&mut self) {}
        fn revision(&self) -> Option<NonZeroUsize> {
            None
        }
        fn resolve(&self, spec: &PackageSpec) -> Result<Arc<Path>, PackageError>;
        fn packages(&self) -> &[(PackageSpec, Option<EcoString>)] {
            &[]
        }
    }
}
pub mod parser {
    use typst::syntax::Source;
    #[derive(Debug, Clone, Copy)]
    pub enum OffsetEncoding {
        Utf8,
        Utf16,
    }
    pub struct SemanticToken;
    pub struct SemanticTokensLegend;
    pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
        SemanticTokensLegend
    }
    pub fn get_semantic_tokens_full(_: &Source, _: OffsetEncoding) -> Vec<SemanticToken> {
        vec![]
    }
}
#[allow(unused)]
mod api {
    use crate::font::FontResolver;
    use crate::package::PackageRegistry;
    use ecow::EcoVec;
    use std::path::Path;
    use std::sync::Arc;
    use tinymist_vfs::PathAccessModel as VfsAccessModel;
    use typst::diag::{At, FileResult, SourceResult};
    use typst::foundations::Bytes;
    use typst::syntax::{FileId, Span};
    include!(concat!(env!("OUT_DIR"), "/lib.rs"));
}
pub use api::*;
