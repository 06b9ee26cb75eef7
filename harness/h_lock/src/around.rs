//! Stands in for the rest of the project.
#![allow(dead_code)]
use ecow::EcoVec;
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::sync::{LazyLock, Mutex};

use tinymist_std::ImmutPath;
use tinymist_world::font::FontResolver;
use tinymist_world::package::{PackageRegistry, PackageSpec};
use tinymist_world::vfs::{PathAccessModel, RootResolver};
use tinymist_world::WorldDeps;
use tinymist_world::{CompilerFeat, CompilerUniverse, CompilerWorld};
use typst::syntax::FileId;
use typst::diag::{FileError, FileResult, PackageError};
use typst::foundations::Bytes;
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;

/// The text that every file has.
pub static TEXT: Mutex<String> = Mutex::new(String::new());
#[derive(Debug, Clone, Copy)]
pub struct Disk;
impl PathAccessModel for Disk {
    fn content(&self, _: &Path) -> FileResult<Bytes> {
        Ok(Bytes::from_string(TEXT.lock().unwrap().clone()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        Err(FileError::Package(PackageError::NotFound(pkg.clone())))
    }
}
#[derive(Debug)]
pub struct Fonts(pub usize);
impl FontResolver for Fonts {
    fn revision(&self) -> Option<NonZeroUsize> {
        NonZeroUsize::new(self.0)
    }
    fn font_book(&self) -> &LazyHash<FontBook> {
        static BOOK: LazyLock<LazyHash<FontBook>> = LazyLock::new(|| LazyHash::new(FontBook));
        &BOOK
    }
    fn font(&self, _: usize) -> Option<Font> {
        None
    }
}
#[derive(Debug)]
pub struct Packages;
impl Packages {
    pub fn package_path(&self) -> Option<&ImmutPath> {
        None
    }
    pub fn package_cache_path(&self) -> Option<&ImmutPath> {
        None
    }
}
impl Fonts {
    pub fn font_paths(&self) -> &[PathBuf] {
        static PATHS: LazyLock<Vec<PathBuf>> = LazyLock::new(|| vec!["/f".into()]);
        &PATHS
    }
}
impl PackageRegistry for Packages {
    fn resolve(&self, spec: &PackageSpec) -> Result<ImmutPath, PackageError> {
        Err(PackageError::NotFound(spec.clone()))
    }
}
#[derive(Debug, Clone, Copy)]
pub struct LspCompilerFeat;
impl CompilerFeat for LspCompilerFeat {
    type FontResolver = Fonts;
    type AccessModel = Disk;
    type Registry = Packages;
}
pub type LspWorld = CompilerWorld<LspCompilerFeat>;
pub type LspUniverse = CompilerUniverse<LspCompilerFeat>;
/// What a document was compiled from.
pub struct LspCompileSnapshot {
    pub world: LspWorld,
}
/// What is asked of a world.
pub trait LspWorldExt {
    fn depended_files(&self) -> EcoVec<FileId>;
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath>;
}
impl LspWorldExt for LspWorld {
    fn depended_files(&self) -> EcoVec<FileId> {
        let mut all = EcoVec::new();
        self.iter_dependencies(&mut |f| all.push(f));
        all
    }
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath> {
        let mut all = EcoVec::new();
        self.iter_dependencies(&mut |f| all.extend(self.path_for_id(f).ok().map(|p| p.as_path().into())));
        all
    }
}
