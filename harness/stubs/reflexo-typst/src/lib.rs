//! Stands in for reflexo-typst: names of other crates, and a lazy hash, which
//! is the value.
use std::ops::{Deref, DerefMut};
pub use tinymist_std::path;
pub use tinymist_std::{hash, ImmutPath};

pub mod typst {
    pub mod prelude {
        pub use ecow::{eco_format, eco_vec, EcoString, EcoVec};
    }
}

#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
pub struct LazyHash<T>(T);
impl<T> LazyHash<T> {
    pub fn new(v: T) -> Self {
        LazyHash(v)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> DerefMut for LazyHash<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
