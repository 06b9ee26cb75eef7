//! Fingerprints: their texts, how they are made, and the map keyed by them.
use crate::bi;
use std::hash::Hash;
use std::num::NonZeroU32;
use tinymist_std::adt::FingerprintMap;
use tinymist_std::hash::{hash128, item_hash128, Fingerprint, FingerprintBuilder};
use vsym::*;

fn any() -> Fingerprint {
    Fingerprint::from_pair(u64("lo"), u64("hi"))
}
/// Any fingerprint with one arbitrary half.
fn half() -> Fingerprint {
    match pick("half", 3) {
        0 => Fingerprint::from_pair(u64("lo"), 0),
        1 => Fingerprint::from_pair(u64("lo"), 0x0100_7f00_0000_0080),
        _ => Fingerprint::from_pair(0xfedc_ba98_7654_3210, u64("hi")),
    }
}

/// A fingerprint is its text.
#[no_mangle]
pub extern "C" fn vs_f_text() {
    text(half());
}
#[no_mangle]
pub extern "C" fn vs_f_text_more() {
    text(any());
}
fn text(f: Fingerprint) {
    let s = f.as_svg_id("");
    check(s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'+' || c == b'/'), "the text of a fingerprint is base64");
    let g = Fingerprint::try_from_str(&s);
    check(g.is_ok_and(|g| g == f), "the text of a fingerprint reads back as the fingerprint");
    cover("read");
}
#[no_mangle]
pub extern "C" fn vs_f_serde() {
    let f = half();
    let j = serde_json::to_value(f).unwrap();
    check(j.as_str().is_some_and(|s| s == f.as_svg_id("")), "a fingerprint is stored as its text");
    check(serde_json::from_value::<Fingerprint>(j).is_ok_and(|g| g == f), "a stored fingerprint reads back");
    let p = f.as_svg_id("g");
    check(p.len() > 1 && &p[..1] == "g" && p[1..] == f.as_svg_id(""), "an id is its prefix and the text");
    check(Fingerprint::from_u128(f.to_u128()) == f, "a fingerprint is its 128 bits");
    cover("stored");
}
/// Other texts are refused.
#[no_mangle]
pub extern "C" fn vs_f_any_text() {
    let n = pick("n", 3);
    let b = match n {
        0 => ascii("text", 4),
        1 => {
            let mut s = String::from("AAAAAAAA");
            s.push_str(&ascii("text", 4));
            s
        }
        _ => {
            let mut s = String::from("AAAAAAAAAAA");
            s.push_str(&ascii("text", 3));
            s
        }
    };
    match Fingerprint::try_from_str(&b) {
        Ok(f) => {
            let t = f.as_svg_id("");
            check(b.starts_with(&t[..11]), "the text of what was read is the text that was read");
            cover("read");
        }
        Err(_) => cover("refused"),
    }
}
#[no_mangle]
pub extern "C" fn vs_f_long_text() {
    let n = pick("n", 14);
    let mut s = "A".repeat(11 + n);
    if bool("accent") {
        let at = pick("at", 11 + n);
        s.replace_range(at..at + 1, "\u{e9}");
    }
    match Fingerprint::try_from_str(&s) {
        Ok(f) => {
            check(f.to_u128() == 0, "the text of zeros is zero");
            check(n <= 11, "a text has at most 128 bits");
            cover("read");
        }
        Err(_) => cover("refused"),
    }
}

/// An item with a chosen type and content.
fn item(i: usize) -> (usize, u32) {
    (pick(["ta", "tb", "tc"][i], 2), u32(["va", "vb", "vc"][i]))
}
#[derive(Hash)]
struct Meter(u32);
#[derive(Hash)]
struct Second(u32);

/// Distinct items have distinct fingerprints, and an item keeps its own.
#[no_mangle]
pub extern "C" fn vs_f_resolve() {
    let b = FingerprintBuilder::default();
    let make = |i: (usize, u32)| if i.0 == 0 { b.resolve(&Meter(i.1)) } else { b.resolve(&Second(i.1)) };
    builder(&make);
}
#[no_mangle]
pub extern "C" fn vs_f_resolve_bi() {
    let b = bi::FingerprintBuilder::default();
    let make = |i: (usize, u32)| if i.0 == 0 { b.resolve(&Meter(i.1)) } else { b.resolve(&Second(i.1)) };
    builder(&make);
}
fn builder<F: PartialEq>(make: &dyn Fn((usize, u32)) -> F) {
    let its = [item(0), item(1), item(2)];
    let f: Vec<F> = its.iter().map(|i| make(*i)).collect();
    for i in 0..3 {
        for j in 0..i {
            let same = its[i].0 == its[j].0 && its[i].1 == its[j].1;
            check((f[i] == f[j]) == same, "exactly the same item has the same fingerprint");
        }
    }
    for i in 0..3 {
        check(make(its[i]) == f[i], "an item keeps its fingerprint");
    }
    cover("made");
}
#[no_mangle]
pub extern "C" fn vs_f_unchecked() {
    let a = u32("a");
    let c = u32("b");
    let b = FingerprintBuilder::default();
    check((b.resolve_unchecked(&a) == b.resolve_unchecked(&c)) == (a == c), "exactly the same item has the same fingerprint");
    cover("made");
}
#[no_mangle]
pub extern "C" fn vs_f_unchecked_bi() {
    let a = u64("a");
    let c = u64("b");
    let b = bi::FingerprintBuilder::default();
    let (x, y) = (b.resolve_unchecked(&a), b.resolve_unchecked(&c));
    check((x == y) == (a == c), "exactly the same item has the same fingerprint");
    check(b.resolve_unchecked(&a) == x && b.resolve_unchecked(&c) == y, "an item keeps its fingerprint");
    if x.lower32() == y.lower32() && a != c {
        cover("collision");
    }
    cover("made");
}
/// Two threads that make fingerprints at the same time.
fn race<F: PartialEq + Send + 'static>(make: fn(u64) -> F, again: impl Fn(u64) -> F) {
    let (a, c) = (u64("a"), u64("b"));
    let t = std::thread::spawn(move || make(a));
    let y = again(c);
    let x = t.join().unwrap();
    check((x == y) == (a == c), "exactly the same item has the same fingerprint");
    check(again(a) == x && again(c) == y, "an item keeps its fingerprint");
    cover("made");
}
#[no_mangle]
pub extern "C" fn vs_f_race() {
    static B: std::sync::LazyLock<FingerprintBuilder> = std::sync::LazyLock::new(Default::default);
    race(|v| B.resolve(&v), |v| B.resolve(&v));
}
#[no_mangle]
pub extern "C" fn vs_f_race_bi() {
    static B: std::sync::LazyLock<bi::FingerprintBuilder> = std::sync::LazyLock::new(Default::default);
    race(|v| B.resolve(&v), |v| B.resolve(&v));
}
#[no_mangle]
pub extern "C" fn vs_f_race_unchecked_bi() {
    static B: std::sync::LazyLock<bi::FingerprintBuilder> = std::sync::LazyLock::new(Default::default);
    race(|v| B.resolve_unchecked(&v), |v| B.resolve_unchecked(&v));
}

/// Hashes of items.
#[no_mangle]
pub extern "C" fn vs_f_hash() {
    let (a, c) = (u32("a"), u32("b"));
    check((hash128(&a) == hash128(&c)) == (a == c), "exactly the same item has the same hash");
    check((item_hash128(&a) == item_hash128(&c)) == (a == c), "exactly the same item has the same hash");
    check(item_hash128(&Meter(a)) != item_hash128(&Second(a)), "items of two types have two hashes");
    cover("hashed");
}

/// A map can be made with any number of shards.
#[no_mangle]
pub extern "C" fn vs_f_map_new() {
    let n = u32("shards");
    assume(n > 0);
    let mut m = FingerprintMap::<u8>::new(NonZeroU32::new(n).unwrap());
    let k = m.as_mut_slice().len();
    check(k >= 1 && k <= 512, "a map has between 1 and 512 shards");
    let f = any();
    check(!m.contains_key(&f), "a new map is empty");
    m.shard(f).write().insert(f, 1);
    let full = m.as_mut_slice().iter_mut().map(|s| !s.get_mut().is_empty()).filter(|x| *x).count();
    check(full == 1, "an item is in one shard");
    cover("made");
}
#[no_mangle]
pub extern "C" fn vs_f_map_default() {
    let mut m = FingerprintMap::<u8>::default();
    let k = m.as_mut_slice().len();
    check(k >= 1 && k <= 512, "a map has between 1 and 512 shards");
    cover("made");
}
/// Two threads that use the map at the same time.
#[no_mangle]
pub extern "C" fn vs_f_map_race() {
    static M: std::sync::LazyLock<FingerprintMap<u8>> = std::sync::LazyLock::new(|| FingerprintMap::new(NonZeroU32::new(2).unwrap()));
    let (a, b) = (any(), any());
    assume(a != b);
    let put = |f: Fingerprint, v: u8| {
        M.shard(f).write().insert(f, v);
    };
    let t = std::thread::spawn(move || put(a, 1));
    put(b, 2);
    t.join().unwrap();
    check(M.shard(a).read().get(&a) == Some(&1) && M.shard(b).read().get(&b) == Some(&2), "the map has what both put in it");
    cover("put");
}

/// The map finds what was put in it, whatever the number of shards.
#[no_mangle]
pub extern "C" fn vs_f_map() {
    let n = 1 + pick("shards", 5) as u32;
    let m = FingerprintMap::<u8>::new(NonZeroU32::new(n).unwrap());
    let (a, b) = (any(), any());
    m.shard(a).write().insert(a, 1);
    check(m.contains_key(&a), "the map has what was put in it");
    check(m.contains_key(&b) == (a == b), "the map has nothing else");
    check(m.shard(a).read().get(&a).is_some_and(|v| *v == 1), "the map finds what was put in it");
    m.shard(b).write().insert(b, 2);
    let items: Vec<_> = m.into_items().collect();
    check(items.len() == if a == b { 1 } else { 2 }, "the map has every item once");
    check(items.contains(&(b, 2)) && (a == b || items.contains(&(a, 1))), "the items are what was put in");
    cover("put");
}
