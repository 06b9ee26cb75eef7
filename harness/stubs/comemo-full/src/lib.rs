//! Stands in for comemo where more than its attribute is used: nothing is
//! remembered, so there is nothing to forget.
pub use comemo_macros::memoize;
pub fn evict(_max_age: usize) {}
pub struct Prehashed;
