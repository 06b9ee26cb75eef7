//! Stands in for tinymist-query, which needs all of typst: the boundary to the
//! protocol's positions and locations, the semantic tokens, and the caches that
//! go by revisions.
#![allow(dead_code, unused_imports)]
pub use lsp_typst_boundary::*;
pub use semantic_tokens_delta::*;
pub use semantic_tokens_full::*;

mod prelude {
    pub use std::collections::HashMap;
    pub use std::iter;
    pub use std::ops::Range;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::{Arc, LazyLock, OnceLock};

    pub use ecow::{eco_vec, EcoVec};
    pub use lsp_types::{
        Diagnostic, Position as LspPosition, SemanticTokens, SemanticTokensDelta, SemanticTokensFullDeltaResult, SemanticTokensResult, TextEdit, Url,
        WorkspaceEdit,
    };
    pub use serde_json::Value as JsonValue;
    pub use typst::diag::EcoString;
    pub use typst::foundations::Value;
    pub use typst::syntax::ast::{self, AstNode};
    pub use typst::syntax::{FileId as TypstFileId, LinkedNode, Source, SyntaxKind, SyntaxNode};

    pub use crate::analysis::LocalContext;
    pub use crate::lsp_typst_boundary::{
        path_to_url, to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, LspRange, PositionEncoding,
    };
    pub use crate::SemanticRequest;
}
#[path = "/repo/crates/tinymist-query/src/lsp_typst_boundary.rs"]
mod lsp_typst_boundary;
#[path = "/repo/crates/tinymist-query/src/semantic_tokens_delta.rs"]
mod semantic_tokens_delta;
#[path = "/repo/crates/tinymist-query/src/semantic_tokens_full.rs"]
mod semantic_tokens_full;
mod adt {
    #[path = "/repo/crates/tinymist-query/src/adt/revision.rs"]
    pub mod revision;
}
pub mod analysis {
    #[path = "/repo/crates/tinymist-query/src/analysis/semantic_tokens.rs"]
    pub mod semantic_tokens;
    pub use global::*;
    pub use semantic_tokens::*;
    pub mod global;
}
/// What the analysis knows of the expressions of a file.
pub mod syntax {
    use crate::ty::Ty;
    use std::collections::HashMap;
    use std::sync::Arc;
    use typst::syntax::{FileId, Span};
    #[derive(Debug, Clone)]
    pub enum Decl {
        Func(()),
        Var(()),
        Module(()),
        ModuleAlias(()),
        PathStem(()),
        ImportAlias(()),
        IdentRef(()),
        ImportPath(()),
        IncludePath(()),
        Import(()),
        ContentRef(()),
        Label(()),
        StrName(()),
        ModuleImport(()),
        Closure(()),
        Pattern(()),
        Spread(()),
        Content(()),
        Constant(()),
        BibEntry(()),
        Docs(()),
        Generated(()),
    }
    #[derive(Debug, Clone)]
    pub enum Expr {
        Decl(Arc<Decl>),
        Type(Ty),
        Other,
    }
    #[derive(Debug, Clone)]
    pub struct RefExpr {
        pub root: Option<Expr>,
        pub term: Option<Ty>,
    }
    #[derive(Debug, Clone)]
    pub struct ExprInfo {
        pub fid: FileId,
        pub revision: usize,
        pub resolves: Arc<HashMap<Span, Arc<RefExpr>>>,
    }
}
pub mod ty {
    use std::sync::Arc;
    #[derive(Debug, Clone)]
    pub enum Ty {
        Func(()),
        Value(Arc<InsTy>),
        Other,
    }
    #[derive(Debug, Clone)]
    pub struct InsTy {
        pub val: typst::foundations::Value,
    }
}
/// What the server tells a client about semantic tokens.
mod config {
    use crate::analysis::{Modifier, TokenType};
    use lsp_types::*;
    include!(concat!(env!("OUT_DIR"), "/config.rs"));
    pub fn legend() -> SemanticTokensLegend {
        get_semantic_tokens_options().legend
    }
}
pub use config::legend;
pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext) -> Option<Self::Response>;
}
use analysis::LocalContext;
#[derive(Debug, Clone)]
#[allow(clippy::large_enum_variant)]
pub enum CompilerQueryRequest {
    SemanticTokensFull(SemanticTokensFullRequest),
    SemanticTokensDelta(SemanticTokensDeltaRequest),
    Hover(()),
}
