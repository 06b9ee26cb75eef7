//! Stands in for tinymist-analysis, which needs all of typst: the positions.
#[path = "/repo/crates/tinymist-analysis/src/location.rs"]
pub mod location;
