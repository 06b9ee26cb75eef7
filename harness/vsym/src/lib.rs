//! The harness interface of the symbolic engine.
//!
//! Without the `native` feature the `__vs_*` functions are undefined: the
//! engine gives them their meaning. With it, they read one concrete input from
//! the file named by `VS_REPLAY` and report what happened on stdout.

extern "C" {
    fn __vs_bytes(p: *mut u8, n: usize, name: *const u8, name_len: usize);
    fn __vs_assume(c: bool);
    fn __vs_assert(c: bool, l: *const u8, n: usize);
    fn __vs_cover(l: *const u8, n: usize);
    fn __vs_panic_ok(c: bool);
    fn __vs_big_alloc_ok(c: bool);
    fn __vs_concretize(v: u64) -> u64;
    fn __vs_note_u64(l: *const u8, n: usize, v: u64);
    fn __vs_end() -> !;
}

/// Fills `b` with arbitrary bytes.
#[inline]
pub fn fill(b: &mut [u8], name: &str) {
    unsafe { __vs_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
#[inline]
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
#[inline]
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b, name);
    b
}
macro_rules! ints {
    ($($t:ident $n:literal)*) => { $(
        #[inline]
        pub fn $t(name: &str) -> $t { $t::from_le_bytes(bytes::<$n>(name)) }
    )* };
}
ints! { u8 1 u16 2 u32 4 u64 8 u128 16 i32 4 i64 8 usize 8 }
/// Either truth value, each on a path of its own.
#[inline]
pub fn bool(name: &str) -> bool {
    pick(name, 2) == 1
}
/// Either truth value, kept symbolic.
#[inline]
pub fn sbool(name: &str) -> bool {
    u8(name) & 1 == 1
}
/// An arbitrary index below `n`; each value is explored on a path of its own.
#[inline]
pub fn pick(name: &str, n: usize) -> usize {
    let v = u8(name);
    assume((v as usize) < n);
    unsafe { __vs_concretize(v as u64) as usize }
}
/// Explores each value of `v` on a path of its own.
#[inline]
pub fn each(v: usize) -> usize {
    unsafe { __vs_concretize(v as u64) as usize }
}
/// An arbitrary ASCII string of exactly `n` bytes.
pub fn ascii(name: &str, n: usize) -> String {
    let b = vec(name, n);
    for c in &b {
        assume(*c < 0x80);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
#[inline]
pub fn assume(c: bool) {
    unsafe { __vs_assume(c) }
}
#[inline]
pub fn check(c: bool, label: &str) {
    unsafe { __vs_assert(c, label.as_ptr(), label.len()) }
}
#[inline]
pub fn cover(label: &str) {
    unsafe { __vs_cover(label.as_ptr(), label.len()) }
}
/// Whether a panic from here on ends the path quietly.
#[inline]
pub fn panic_ok(c: bool) {
    unsafe { __vs_panic_ok(c) }
}
#[inline]
pub fn big_alloc_ok(c: bool) {
    unsafe { __vs_big_alloc_ok(c) }
}
#[inline]
pub fn note(label: &str, v: u64) {
    unsafe { __vs_note_u64(label.as_ptr(), label.len(), v) }
}
/// Ends the path (as if an assumption had failed).
#[inline]
pub fn end() -> ! {
    unsafe { __vs_end() }
}

/// Defines `main`: runs the entry named by the first argument.
#[macro_export]
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        fn main() {
            let want = std::env::args().nth(1).unwrap_or_default();
            let table: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
            for (n, f) in table {
                if *n == want {
                    $crate::start();
                    f();
                    $crate::finish();
                    return;
                }
            }
            std::process::exit(64);
        }
    };
}

#[cfg(not(feature = "native"))]
pub fn start() {}
#[cfg(not(feature = "native"))]
pub fn finish() {}
#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::{finish, start};
