//! Stands in for rustc-hash: every hash is the same, so that maps with symbolic keys stay in reach.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct FxHasher(());
impl Hasher for FxHasher {
    #[inline]
    fn write(&mut self, _: &[u8]) {}
    #[inline]
    fn write_u8(&mut self, _: u8) {}
    #[inline]
    fn write_u64(&mut self, _: u64) {}
    #[inline]
    fn write_u128(&mut self, _: u128) {}
    #[inline]
    fn finish(&self) -> u64 {
        0
    }
}
pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = HashSet<V, FxBuildHasher>;
