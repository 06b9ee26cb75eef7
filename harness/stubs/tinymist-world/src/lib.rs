//! Stands in for tinymist-world, which needs all of typst: its file layers and,
//! with `full`, the entries and the locations.
pub use tinymist_vfs as vfs;

#[cfg(feature = "full")]
#[path = "/repo/crates/tinymist-world/src/debug_loc.rs"]
pub mod debug_loc;
#[cfg(feature = "full")]
#[path = "/repo/crates/tinymist-world/src/entry.rs"]
pub mod entry;
#[cfg(feature = "full")]
pub use entry::*;
