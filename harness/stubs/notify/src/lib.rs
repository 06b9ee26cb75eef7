//! Stands in for notify: the harness says what happened to the files watched.
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Debug)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CreateKind {
        Any,
        File,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum DataChange {
        Any,
        Content,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum MetadataKind {
        Any,
        Permissions,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ModifyKind {
        Any,
        Data(DataChange),
        Metadata(MetadataKind),
        Name(RenameMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EventKind {
        Any,
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
    impl EventKind {
        pub fn is_access(&self) -> bool {
            false
        }
        pub fn is_create(&self) -> bool {
            matches!(self, EventKind::Create(_))
        }
        pub fn is_modify(&self) -> bool {
            matches!(self, EventKind::Modify(_))
        }
        pub fn is_remove(&self) -> bool {
            matches!(self, EventKind::Remove(_))
        }
        pub fn is_other(&self) -> bool {
            matches!(self, EventKind::Other)
        }
    }
    impl Event {
        pub fn new(kind: EventKind) -> Self {
            Event { kind, paths: vec![] }
        }
        pub fn add_path(mut self, path: std::path::PathBuf) -> Self {
            self.paths.push(path);
            self
        }
        pub fn need_rescan(&self) -> bool {
            false
        }
    }
    #[derive(Debug, Clone)]
    pub struct Event {
        pub kind: EventKind,
        pub paths: Vec<std::path::PathBuf>,
    }
}
pub use event::{Event, EventKind};

#[derive(Debug, Default, Clone, Copy)]
pub struct Config;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub trait Watcher {
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}
#[derive(Debug)]
pub struct RecommendedWatcher;

type Handler = Box<dyn FnMut(Result<Event>) + Send>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
static WATCHED: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
/// Whether there is a watcher at all.
pub static WORKS: Mutex<bool> = Mutex::new(true);

impl RecommendedWatcher {
    pub fn new(f: impl FnMut(Result<Event>) + Send + 'static, _: Config) -> Result<Self> {
        if !*WORKS.lock().unwrap() {
            return Err(Error("no watcher"));
        }
        *HANDLER.lock().unwrap() = Some(Box::new(f));
        Ok(RecommendedWatcher)
    }
}
impl Watcher for RecommendedWatcher {
    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
        if !path.exists() {
            return Err(Error("no such file"));
        }
        let mut w = WATCHED.lock().unwrap();
        if !w.iter().any(|p| p == path) {
            w.push(path.to_owned());
        }
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        if gone(path) {
            Ok(())
        } else {
            Err(Error("not watched"))
        }
    }
}
pub fn is_watched(path: &Path) -> bool {
    WATCHED.lock().unwrap().iter().any(|p| p == path)
}
/// What was watched is no longer there.
pub fn gone(path: &Path) -> bool {
    let mut w = WATCHED.lock().unwrap();
    let n = w.len();
    w.retain(|p| p != path);
    w.len() != n
}
pub fn emit(kind: EventKind, path: &Path) {
    if let Some(h) = &mut *HANDLER.lock().unwrap() {
        h(Ok(Event { kind, paths: vec![path.to_owned()] }));
    }
}
