//! The pieces of `analysis/global.rs` about caches and revisions, with stand-ins
//! for the world and for what the analyses compute.
use std::collections::HashMap;
use std::collections::HashSet;
use std::hash::Hash;
use std::num::NonZeroUsize;
use std::ops::{Deref, DerefMut};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

use ecow::EcoVec;
use parking_lot::Mutex;
use rustc_hash::FxHashMap;
use tinymist_std::hash::{hash128, FxDashMap};
use typst::diag::{FileError, FileResult};
use typst::foundations::{Bytes, Value};
use typst::syntax::{FileId as TypstFileId, Source};

use crate::adt::revision::{RevisionLock, RevisionManager, RevisionManagerLike, RevisionSlot};
use crate::analysis::{SemanticTokenCache, SemanticTokenContext, SemanticTokens};
use crate::syntax::ExprInfo;
use crate::ty::Ty;
use crate::{CompilerQueryRequest, LspPosition, PositionEncoding};

#[derive(Clone)]
pub struct Signature;
pub struct TypeInfo {
    pub fid: TypstFileId,
    pub revision: usize,
}
#[derive(Clone)]
pub struct LintInfo {
    pub fid: TypstFileId,
    pub revision: usize,
}
/// The world of a snapshot: its revision and its files.
#[derive(Clone)]
pub struct LspWorld {
    pub revision: usize,
    pub source: Source,
    pub path: PathBuf,
    pub info: ExprInfo,
    /// Each file whose expressions were worked out, with the file and revision
    /// of what was offered for reuse.
    pub computed: Arc<Mutex<Vec<(TypstFileId, Option<(TypstFileId, usize)>)>>>,
}
impl LspWorld {
    pub fn revision(&self) -> NonZeroUsize {
        NonZeroUsize::new(self.revision).unwrap()
    }
    pub fn source_by_path(&self, path: &Path) -> FileResult<Source> {
        if path == self.path {
            Ok(self.source.clone())
        } else {
            Err(FileError::AccessDenied)
        }
    }
}
#[derive(Default)]
pub struct AnalysisStats;
#[derive(Default, Clone)]
pub struct Analysis {
    pub position_encoding: PositionEncoding,
    pub allow_overlapping_token: bool,
    pub allow_multiline_token: bool,
    pub tokens_caches: Arc<Mutex<SemanticTokenCache>>,
    pub caches: AnalysisGlobalCaches,
    pub analysis_rev_cache: Arc<Mutex<AnalysisRevCache>>,
    pub stats: Arc<AnalysisStats>,
}
/// What the queries of one snapshot share.
pub struct SharedContext {
    pub lifetime: u64,
    pub world: LspWorld,
    pub analysis: Analysis,
    slot: Arc<RevisionSlot<AnalysisRevSlot>>,
}
impl SharedContext {
    fn expr_stage(&self, source: &Source) -> ExprInfo {
        self.slot.expr_stage.compute(hash128(&source), |prev| {
            let prev: Option<ExprInfo> = prev;
            self.world.computed.lock().push((source.id(), prev.map(|p| (p.fid, p.revision))));
            ExprInfo { fid: source.id(), ..self.world.info.clone() }
        })
    }
    pub fn source_by_path(&self, path: &Path) -> FileResult<Source> {
        self.world.source_by_path(path)
    }
}
#[derive(Default)]
pub struct ModuleCache {
    expr_stage: OnceLock<ExprInfo>,
}
#[derive(Default)]
pub struct AnalysisLocalCaches {
    modules: HashMap<TypstFileId, ModuleCache>,
}

include!(concat!(env!("OUT_DIR"), "/global.rs"));

/// Ways in for the harness.
impl Analysis {
    pub fn enter_locked(&self, world: LspWorld, lock: AnalysisRevLock) -> LocalContextGuard {
        self.enter_(world, lock)
    }
}
impl LocalContext {
    pub fn expr_info(&mut self, source: &Source) -> ExprInfo {
        self.expr_stage(source)
    }
}
/// The place of an offset in a file that is no source.
pub fn place_in_file(bytes: Bytes, offset: usize, encoding: PositionEncoding) -> Option<LspPosition> {
    let len = bytes.len();
    find_loc(len, &loc_info(bytes)?, offset, encoding)
}
