//! The projects of the server: the real project compiler, its handler and the
//! actor that tells the editor, around a toy compiler of texts.
#![allow(unexpected_cfgs)]
extern crate self as reflexo;
extern crate self as reflexo_typst;
extern crate self as tinymist_analysis;
extern crate self as tinymist_project;
extern crate self as tinymist_query;
extern crate self as typst_preview;

#[path = "/repo/crates/tinymist-project/src/compiler.rs"]
#[allow(dead_code, unused)]
mod compiler;
#[path = "/repo/crates/tinymist-query/src/lsp_typst_boundary.rs"]
#[allow(dead_code, unused)]
mod boundary;
mod docs;
mod editor;
#[path = "/repo/crates/tinymist-analysis/src/location.rs"]
#[allow(dead_code, unused)]
pub mod location;
mod prelude {
    pub use lsp_types::Url;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::LazyLock;
}
mod mains;
mod project;
mod runs;
mod server;
mod sim;

pub use compiler::*;
pub use server::*;
pub use tinymist_world::{vfs, CompileSnapshot, CompilerUniverse, CompilerWorld, EntryReader, EntryState, ExportSignal, ProjectInsId, TaskInputs, WorldComputeGraph};

use docs::*;
use mains::*;
use runs::*;
vsym::entries!(vs_pr_edit, vs_pr_edit_more, vs_pr_fault, vs_pr_fault_more, vs_pr_close, vs_pr_close_more, vs_pr_main, vs_pr_main_more, vs_pr_side, vs_pr_side_more, vs_pr_reload, vs_pr_reload_more, vs_pr_lint, vs_pr_lint_more, vs_pr_reason, vs_pr_share, vs_pr_share_more, vs_doc_change, vs_doc_changes, vs_doc_change_more, vs_doc_changes_more, vs_doc_open, vs_doc_open_more, vs_doc_url, vs_doc_url_more, vs_doc_foreign, vs_main_which, vs_main_which_more, vs_main_result, vs_main_result_more, vs_main_root, vs_main_default);
