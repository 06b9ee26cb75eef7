//! The tasks of the server.
#![allow(dead_code, unused)]
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::{ops::DerefMut, pin::Pin, sync::Arc};

use crate::{ProjectInsId, TakeAs};
use parking_lot::Mutex;
use rayon::Scope;
use tinymist_std::error::prelude::*;
use tinymist_std::hash::FxHashMap;

include!(concat!(env!("OUT_DIR"), "/task.rs"));

pub mod export {
    use std::path::{Path, PathBuf};
    use std::str::FromStr;
    use std::sync::atomic::AtomicUsize;
    use std::sync::{Arc, OnceLock};

    use reflexo::ImmutPath;
    use reflexo_typst::{Bytes, CompilationTask, ExportComputation};
    use tinymist_project::LspWorld;
    use tinymist_std::error::prelude::*;
    use tinymist_std::fs::paths::write_atomic;
    use tinymist_std::typst::TypstDocument;
    use tinymist_task::{PdfExport, TextExport};
    use tinymist_world::args::{ExportTarget, TaskWhen};
    use tokio::sync::mpsc;
    use typlite::Typlite;
    use typst::foundations::IntoValue;
    use typst::visualize::Color;

    use super::{FutureFolder, SyncTaskFactory};
    use crate::editor::EditorRequest;
    use crate::{
        get_page_selection, word_count, ApplyProjectTask, CompiledArtifact, EntryReader, ExportHtmlTask, ExportMarkdownTask, ExportPdfTask, ExportPngTask,
        ExportSvgTask, ExportTask as ProjectExportTask, ExportTextTask, LspCompiledArtifact, ProjectInsId, ProjectTask, QueryTask,
    };
    mod project {
        pub use crate::*;
    }
    include!(concat!(env!("OUT_DIR"), "/export.rs"));
}
#[path = "/repo/crates/tinymist/src/task/format.rs"]
pub mod format;
pub mod selection {
    use crate::{ExportTransform, Pages, parse_length};
    use tinymist_std::error::prelude::*;
    use typst::layout::Abs;
    include!(concat!(env!("OUT_DIR"), "/compute.rs"));
}
