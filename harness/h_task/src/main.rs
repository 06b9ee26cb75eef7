//! What is made of documents: exports in the background, their paths, the
//! formatting of a source.
#![allow(unexpected_cfgs)]
extern crate self as reflexo;
extern crate self as reflexo_typst;
extern crate self as reflexo_vec2svg;
extern crate self as serde_yaml;
extern crate self as sync_ls;
extern crate self as tinymist_analysis;
extern crate self as tinymist_project;
extern crate self as tinymist_query;
extern crate self as tinymist_task;
extern crate self as typlite;
extern crate self as typst_html;
extern crate self as typst_render;
extern crate self as typst_svg;
extern crate self as typstfmt;
extern crate self as typstyle_core;

#[path = "/repo/crates/tinymist-query/src/lsp_typst_boundary.rs"]
#[allow(dead_code, unused)]
mod boundary;
#[path = "/repo/crates/tinymist-project/src/compiler.rs"]
#[allow(dead_code, unused)]
mod compiler;
#[path = "/repo/crates/tinymist-analysis/src/location.rs"]
#[allow(dead_code, unused)]
pub mod location;
#[path = "/repo/crates/tinymist-task/src/model.rs"]
#[allow(dead_code, unused)]
mod model;
#[path = "/repo/crates/tinymist-task/src/primitives.rs"]
#[allow(dead_code, unused)]
mod primitives;
mod prelude {
    pub use lsp_types::Url;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::LazyLock;
}
mod around;
mod exports;
mod formats;
mod names;
mod task;

pub use around::*;
pub use boundary::*;
pub use compiler::*;
pub use model::*;
pub use primitives::*;
pub use tinymist_world::{vfs, CompileSnapshot, CompilerUniverse, CompilerWorld, EntryReader, EntryState, ExportSignal, ProjectInsId, TaskInputs, WorldComputeGraph};
pub use tinymist_world::{CompilationTask, ExportComputation};

use exports::*;
use formats::*;
use names::*;
vsym::entries!(
    vs_fmt_edit,
    vs_fmt_edit_more,
    vs_fmt_wide,
    vs_fmt_mutual,
    vs_fmt_off,
    vs_ex_when,
    vs_ex_fold,
    vs_ex_fold_more,
    vs_ex_race,
    vs_ex_race_more,
    vs_ex_config,
    vs_ex_count,
    vs_ex_fault,
    vs_ex_where,
    vs_path_pattern,
    vs_path_pattern_more,
    vs_path_export,
    vs_pages,
    vs_pages_more,
    vs_pages_all,
    vs_res_text,
    vs_res_text_more,
    vs_res_ids,
    vs_res_stored,
    vs_res_stored_more,
    vs_res_place,
    vs_res_place_more
);
