//! Stands in for tinymist-task: which kind of document is made.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Default, Hash)]
pub enum ExportTarget {
    #[default]
    Paged,
    Html,
}
