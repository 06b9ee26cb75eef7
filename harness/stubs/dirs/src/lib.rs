//! Where the caches are.
use std::path::PathBuf;
pub fn cache_dir() -> Option<PathBuf> {
    Some("/cache".into())
}
