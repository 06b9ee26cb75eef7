//! Stands in for walkdir: a directory first, then what is in it.
use std::fs::FileType;
use std::path::{Path, PathBuf};

pub type Error = std::io::Error;
pub struct WalkDir(PathBuf);
pub struct IntoIter(std::vec::IntoIter<Result<DirEntry, Error>>);
#[derive(Debug, Clone)]
pub struct DirEntry {
    path: PathBuf,
    kind: FileType,
}
impl DirEntry {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn into_path(self) -> PathBuf {
        self.path
    }
    pub fn file_type(&self) -> FileType {
        self.kind
    }
    pub fn file_name(&self) -> &std::ffi::OsStr {
        self.path.file_name().unwrap_or(self.path.as_os_str())
    }
}
impl WalkDir {
    pub fn new(p: impl AsRef<Path>) -> Self {
        WalkDir(p.as_ref().to_owned())
    }
}
fn walk(path: PathBuf, out: &mut Vec<Result<DirEntry, Error>>) {
    let kind = match std::fs::symlink_metadata(&path) {
        Ok(m) => m.file_type(),
        Err(e) => return out.push(Err(e)),
    };
    out.push(Ok(DirEntry { path: path.clone(), kind }));
    if kind.is_dir() {
        match std::fs::read_dir(&path) {
            Ok(all) => {
                for e in all {
                    match e {
                        Ok(e) => walk(e.path(), out),
                        Err(e) => out.push(Err(e)),
                    }
                }
            }
            Err(e) => out.push(Err(e)),
        }
    }
}
impl IntoIterator for WalkDir {
    type Item = Result<DirEntry, Error>;
    type IntoIter = IntoIter;
    fn into_iter(self) -> IntoIter {
        let mut out = vec![];
        walk(self.0, &mut out);
        IntoIter(out.into_iter())
    }
}
impl Iterator for IntoIter {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
