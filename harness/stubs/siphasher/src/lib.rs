//! Stands in for siphasher: an ideal hash. It packs the last eight bytes, the
//! length and a digest of what comes before, so that short items never collide.
pub mod sip128 {
    use std::hash::Hasher;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Hash128 {
        pub h1: u64,
        pub h2: u64,
    }
    impl Hash128 {
        pub fn as_u128(&self) -> u128 {
            (self.h2 as u128) << 64 | self.h1 as u128
        }
        pub fn as_bytes(&self) -> [u8; 16] {
            self.as_u128().to_le_bytes()
        }
    }
    impl From<Hash128> for u128 {
        fn from(h: Hash128) -> u128 {
            h.as_u128()
        }
    }

    pub trait Hasher128 {
        fn finish128(&self) -> Hash128;
    }

    #[derive(Clone, Debug, Default)]
    pub struct SipHasher13 {
        data: Vec<u8>,
    }
    pub type SipHasher = SipHasher13;
    impl SipHasher13 {
        pub fn new() -> Self {
            Self::default()
        }
    }
    impl Hasher for SipHasher13 {
        fn write(&mut self, b: &[u8]) {
            self.data.extend_from_slice(b);
        }
        fn finish(&self) -> u64 {
            self.finish128().h1
        }
    }
    impl Hasher128 for SipHasher13 {
        fn finish128(&self) -> Hash128 {
            let n = self.data.len();
            let (head, tail) = self.data.split_at(n.saturating_sub(8));
            let mut last = [0; 8];
            last[..tail.len()].copy_from_slice(tail);
            let mut d = n as u64 + 1;
            for b in head {
                d = d.rotate_left(9) ^ (*b as u64);
            }
            Hash128 { h1: u64::from_le_bytes(last), h2: d }
        }
    }
}
