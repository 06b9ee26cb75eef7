//! Stands in for fxhash: a hash whose collisions are easy to find.
use std::hash::{Hash, Hasher};

#[derive(Debug, Clone, Default)]
pub struct FxHasher32 {
    hash: u32,
}
impl Hasher for FxHasher32 {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(4) {
            let mut w = [0; 4];
            w[..c.len()].copy_from_slice(c);
            self.hash = self.hash.rotate_left(1) ^ u32::from_le_bytes(w);
        }
    }
    fn finish(&self) -> u64 {
        self.hash as u64
    }
}
pub fn hash32<T: Hash + ?Sized>(v: &T) -> u32 {
    let mut h = FxHasher32::default();
    v.hash(&mut h);
    h.finish() as u32
}
