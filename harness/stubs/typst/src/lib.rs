//! Stands in for the parts of typst that the file layers use (typst's sources
//! are not at hand): file ids, virtual paths, bytes, file errors and sources
//! that hold their text.

/// Failures of reading files.
pub mod diag {
    use std::fmt::{self, Display};
    use std::path::{Path, PathBuf};
    pub use ecow::{eco_format, EcoString};

    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub struct SourceDiagnostic {
        pub message: EcoString,
    }
    impl SourceDiagnostic {
        pub fn error(_span: crate::syntax::Span, message: impl Into<EcoString>) -> Self {
            SourceDiagnostic { message: message.into() }
        }
    }
    /// A result with what was found questionable on the way to it.
    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub struct Warned<T> {
        pub output: T,
        pub warnings: ecow::EcoVec<SourceDiagnostic>,
    }
    /// Gives a failure a place.
    pub trait At<T> {
        fn at(self, span: crate::syntax::Span) -> SourceResult<T>;
    }
    impl<T, S: std::fmt::Display> At<T> for Result<T, S> {
        fn at(self, span: crate::syntax::Span) -> SourceResult<T> {
            self.map_err(|e| ecow::eco_vec![SourceDiagnostic::error(span, eco_format!("{e}"))])
        }
    }
    pub type SourceResult<T> = Result<T, ecow::EcoVec<SourceDiagnostic>>;
    pub type FileResult<T> = Result<T, FileError>;
    pub type PackageResult<T> = Result<T, PackageError>;
    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub enum PackageError {
        NotFound(crate::syntax::package::PackageSpec),
        Other(Option<EcoString>),
    }
    #[derive(Debug, Clone, Eq, PartialEq, Hash)]
    pub enum FileError {
        NotFound(PathBuf),
        AccessDenied,
        IsDirectory,
        NotSource,
        InvalidUtf8,
        Package(PackageError),
        Other(Option<EcoString>),
    }
    impl FileError {
        pub fn from_io(err: std::io::Error, path: &Path) -> Self {
            match err.kind() {
                std::io::ErrorKind::NotFound => Self::NotFound(path.into()),
                std::io::ErrorKind::PermissionDenied => Self::AccessDenied,
                std::io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => Self::InvalidUtf8,
                _ => Self::Other(Some(eco_format!("{err}"))),
            }
        }
    }
    impl std::error::Error for FileError {}
    impl Display for FileError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl From<std::str::Utf8Error> for FileError {
        fn from(_: std::str::Utf8Error) -> Self {
            Self::InvalidUtf8
        }
    }
    impl From<PackageError> for FileError {
        fn from(e: PackageError) -> Self {
            Self::Package(e)
        }
    }
}

pub mod foundations {
    use std::ops::Deref;
    use std::sync::Arc;

    #[derive(Debug, Clone, Default, Hash, PartialEq, Eq)]
    pub struct Dict;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Datetime {
        Datetime(time::PrimitiveDateTime),
    }
    /// A value of the language, as far as its kind matters.
    #[derive(Debug, Clone, Default)]
    pub enum Value {
        #[default]
        None,
        Int(i64),
        Func(()),
        Type(()),
        Module(()),
    }
    impl serde::Serialize for Value {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_unit()
        }
    }
    pub trait IntoValue {
        fn into_value(self) -> Value;
    }
    /// An element of a document.
    #[derive(Debug, Clone, Default)]
    pub struct Content;
    impl Content {
        pub fn get_by_name(&self, _: &str) -> Result<Value, ()> {
            Ok(Value::None)
        }
    }
    impl IntoValue for Content {
        fn into_value(self) -> Value {
            Value::None
        }
    }
    /// Bytes shared by all that hold them.
    #[derive(Clone, Hash, PartialEq, Eq)]
    pub struct Bytes(Arc<Vec<u8>>);
    impl Bytes {
        pub fn new<T: AsRef<[u8]> + Send + Sync + 'static>(data: T) -> Self {
            Bytes(Arc::new(data.as_ref().to_vec()))
        }
        pub fn from_string<T: AsRef<str> + Send + Sync + 'static>(data: T) -> Self {
            Bytes(Arc::new(data.as_ref().as_bytes().to_vec()))
        }
        pub fn as_slice(&self) -> &[u8] {
            self
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
            std::str::from_utf8(self)
        }
        pub fn to_vec(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
    impl Deref for Bytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for Bytes {
        fn as_ref(&self) -> &[u8] {
            self
        }
    }
    impl std::fmt::Debug for Bytes {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "Bytes({})", self.len())
        }
    }
}

pub use compiler::{compile, Document, Feature, Features, Library, World};
pub use ecow;
mod compiler;
pub mod introspection {
    #[derive(Debug, Clone, Default)]
    pub struct Introspector;
}
pub mod model {
    #[derive(Debug, Clone, Default)]
    pub struct DocumentInfo {
        pub title: Option<ecow::EcoString>,
    }
}
pub mod html {
    pub use crate::compiler::HtmlDocument;
}
pub mod text {
    #[derive(Debug, Clone, Default, Hash, PartialEq, Eq)]
    pub struct Font;
    #[derive(Debug, Clone, Default, Hash, PartialEq, Eq)]
    pub struct FontBook;
    #[derive(Debug, Clone, Default, Hash, PartialEq, Eq)]
    pub struct FontInfo;
}

pub mod visualize {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Color(u32);
    impl Color {
        pub const BLACK: Color = Color(0xff);
        pub const WHITE: Color = Color(0xffff_ffff);
        pub const RED: Color = Color(0xff41_36ff);
        pub const GREEN: Color = Color(0x2ecc_40ff);
        pub const BLUE: Color = Color(0x0074_d9ff);
    }
    impl std::str::FromStr for Color {
        type Err = &'static str;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            u32::from_str_radix(s, 16).map(Color).map_err(|_| "not a color")
        }
    }
}
/// Positions on pages.
pub mod layout {
    use std::num::NonZeroUsize;
    pub use crate::compiler::{Page, PagedDocument};
    #[derive(Debug, Default, Copy, Clone, PartialEq)]
    pub struct Abs(f64);
    impl Abs {
        pub fn pt(v: f64) -> Self {
            Abs(v)
        }
        pub fn to_pt(self) -> f64 {
            self.0
        }
    }
    #[derive(Debug, Default, Copy, Clone, PartialEq)]
    pub struct Point {
        pub x: Abs,
        pub y: Abs,
    }
    #[derive(Debug, Copy, Clone, PartialEq)]
    pub struct Position {
        pub page: NonZeroUsize,
        pub point: Point,
    }
}

pub mod utils {
    use std::hash::Hash;
    use std::ops::Deref;
    #[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
    pub struct LazyHash<T: Hash>(T);
    impl<T: Hash> LazyHash<T> {
        pub fn new(v: T) -> Self {
            LazyHash(v)
        }
    }
    impl<T: Hash> Deref for LazyHash<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
}

pub mod syntax {
    use std::path::{Component, Path, PathBuf};
    use std::sync::Mutex;
    use package::PackageSpec;

    pub mod package {
        use ecow::EcoString;
        #[derive(Debug, Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
        pub struct PackageSpec {
            pub namespace: EcoString,
            pub name: EcoString,
            pub version: PackageVersion,
        }
        impl std::fmt::Display for PackageSpec {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
            }
        }
        impl std::fmt::Display for PackageVersion {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
            }
        }
        #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct PackageVersion {
            pub major: u32,
            pub minor: u32,
            pub patch: u32,
        }
    }

    type Pair = (Option<PackageSpec>, VirtualPath);
    static IDS: Mutex<Vec<&'static Pair>> = Mutex::new(Vec::new());
    /// A file in a project or package, given a number for life.
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
    pub struct FileId(u16);
    impl FileId {
        pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
            let mut ids = IDS.lock().unwrap();
            if let Some(n) = ids.iter().position(|p| p.0 == package && p.1 == path) {
                return FileId(n as u16 + 1);
            }
            ids.push(Box::leak(Box::new((package, path))));
            FileId(ids.len() as u16)
        }
        fn pair(&self) -> &'static Pair {
            IDS.lock().unwrap()[self.0 as usize - 1]
        }
        pub fn package(&self) -> Option<&'static PackageSpec> {
            self.pair().0.as_ref()
        }
        pub fn vpath(&self) -> &'static VirtualPath {
            &self.pair().1
        }
        /// An id that no other file has.
        pub fn new_fake(path: VirtualPath) -> Self {
            let mut ids = IDS.lock().unwrap();
            ids.push(Box::leak(Box::new((None, path))));
            FileId(ids.len() as u16)
        }
        pub fn join(self, path: &str) -> Self {
            Self::new(self.package().cloned(), self.vpath().join(path))
        }
        pub fn with_extension(&self, extension: &str) -> Self {
            Self::new(self.package().cloned(), self.vpath().with_extension(extension))
        }
    }
    impl std::fmt::Debug for FileId {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            let p = self.pair();
            write!(f, "{:?}{:?}", p.0.as_ref().map(|p| &p.name), p.1)
        }
    }

    /// A path below a root, as typst-syntax has it.
    #[derive(Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
    pub struct VirtualPath(PathBuf);
    impl VirtualPath {
        pub fn new(path: impl AsRef<Path>) -> Self {
            let mut out = Path::new(&Component::RootDir).to_path_buf();
            for component in path.as_ref().components() {
                match component {
                    Component::Prefix(_) | Component::RootDir => {}
                    Component::CurDir => {}
                    Component::ParentDir => match out.components().next_back() {
                        Some(Component::Normal(_)) => {
                            out.pop();
                        }
                        _ => out.push(component),
                    },
                    Component::Normal(_) => out.push(component),
                }
            }
            Self(out)
        }
        pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
            Some(Self::new(path.strip_prefix(root).ok()?))
        }
        pub fn as_rooted_path(&self) -> &Path {
            &self.0
        }
        pub fn as_rootless_path(&self) -> &Path {
            self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
        }
        pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
            let root_len = root.as_os_str().len();
            let mut out = root.to_path_buf();
            for component in self.0.components() {
                match component {
                    Component::Prefix(_) => {}
                    Component::RootDir => {}
                    Component::CurDir => {}
                    Component::ParentDir => {
                        out.pop();
                        if out.as_os_str().len() < root_len {
                            return None;
                        }
                    }
                    Component::Normal(_) => out.push(component),
                }
            }
            Some(out)
        }
        pub fn join(&self, path: impl AsRef<Path>) -> Self {
            match self.0.parent() {
                Some(parent) => Self::new(parent.join(path)),
                None => Self::new(path),
            }
        }
        pub fn with_extension(&self, extension: &str) -> Self {
            Self(self.0.with_extension(extension))
        }
    }
    impl std::fmt::Debug for VirtualPath {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", self.0.display())
        }
    }

    mod kind;
    mod node;
    mod source;
    pub use kind::SyntaxKind;
    pub use node::{ast, LinkedNode, Span, SyntaxNode};
    pub use source::{is_newline, Source};
}
