//! Paths and names that are written down.
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};

use crate::{EntryState, Id, Pages, PathPattern, ResourcePath};
use tinymist_std::path::PathClean;
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::{FileId, VirtualPath};
use vsym::{bool, check, cover, pick};

/// The path cleaned: no `.`, and `..` only where it leads beyond the start.
fn clean(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." if out.last().is_some_and(|l| *l != "..") => {
                out.pop();
            }
            ".." if abs => (),
            c => out.push(c),
        }
    }
    let s = out.join("/");
    match (abs, s.is_empty()) {
        (true, _) => format!("/{s}"),
        (false, true) => ".".into(),
        _ => s,
    }
}
fn small() -> char {
    let c = vsym::u8("letter");
    vsym::assume(c.is_ascii_lowercase());
    c as char
}
fn pattern(n: usize, few: bool) {
    let mut pat = String::new();
    for _ in 0..n {
        match pick("piece", 8) {
            0 => pat.push_str("$root"),
            1 => pat.push_str("$dir"),
            2 => pat.push_str("$name"),
            3 => pat.push('/'),
            4 => pat.push(small()),
            5 => pat.push_str(".."),
            6 => pat.push('$'),
            _ => pat.push_str("$nam"),
        }
    }
    let k = if few { 2 } else { 4 };
    let root = ["/w", "/r/$name", "/", "/$dir/w"][pick("root", k)];
    let (main, dir, name) = [("/d/m.typ", "d", "m.typ"), ("/$name/$root", "$name", "$root"), ("/m.x.typ", "", "m.x.typ"), ("/d/$dir/m", "d/$dir", "m")][pick("main", k)];
    let entry = EntryState::new_rooted(Path::new(root).into(), Some(VirtualPath::new(main)));
    let got = PathPattern::new(&pat).substitute(&entry);
    let mut want = String::new();
    let mut rest = &pat[..];
    'all: while !rest.is_empty() {
        for (var, val) in [("$root", root), ("$dir", dir), ("$name", name)] {
            if let Some(r) = rest.strip_prefix(var) {
                want.push_str(val);
                rest = r;
                continue 'all;
            }
        }
        want.push_str(&rest[..1]);
        rest = &rest[1..];
    }
    if pat.is_empty() {
        want = format!("{root}/{dir}/{name}");
    }
    check(got.is_some(), "a pattern gives a path");
    check(got.unwrap().to_str() == Some(&clean(&want)), "a pattern is filled in with the root, the directory and the name");
    cover("filled");
}
#[no_mangle]
pub extern "C" fn vs_path_pattern() {
    if bool("long") {
        pattern(3, true)
    } else {
        pattern(pick("len", 3), false)
    }
}
#[no_mangle]
pub extern "C" fn vs_path_pattern_more() {
    pattern(4, false)
}
/// What is in no project, or in a package, has no place.
#[no_mangle]
pub extern "C" fn vs_path_export() {
    let pat = PathPattern::new(["", "/x/$name", "$root/$dir/$name"][pick("pattern", 3)]);
    let root = || Path::new("/w").into();
    let spec = PackageSpec { namespace: "preview".into(), name: "p".into(), version: PackageVersion { major: 0, minor: 1, patch: 0 } };
    let entry = match pick("entry", 3) {
        0 => EntryState::new_workspace(root()),
        1 => EntryState::new_detached(),
        _ => EntryState::new_rootless(VirtualPath::new("/a.typ")),
    };
    check(pat.substitute(&entry).is_none(), "what is in no project has no place");
    let _ = FileId::new(Some(spec), VirtualPath::new("/lib.typ"));
    cover("none");
}

fn number(s: &str) -> Option<NonZeroUsize> {
    s.parse::<usize>().ok().and_then(NonZeroUsize::new)
}
fn parsed(s: &str) -> Option<(Option<NonZeroUsize>, Option<NonZeroUsize>)> {
    let parts: Vec<&str> = s.split('-').map(|p| p.trim()).collect();
    match parts[..] {
        [one] => number(one).map(|n| (Some(n), Some(n))),
        ["", ""] => None,
        [a, ""] => Some((Some(number(a)?), None)),
        ["", b] => Some((None, Some(number(b)?))),
        [a, b] => {
            let (a, b) = (number(a)?, number(b)?);
            (a <= b).then_some((Some(a), Some(b)))
        }
        _ => None,
    }
}
fn pages(n: usize) {
    let s: String = (0..n).map(|_| b"0129- +x"[pick("char", 8)] as char).collect();
    let got = s.parse::<Pages>();
    let want = parsed(&s);
    check(got.as_ref().ok().map(|p| (*p.0.start(), *p.0.end())) == want, "a range of pages is what it says");
    if let Ok(p) = got {
        check(p.to_string().parse::<Pages>().as_ref() == Ok(&p), "a range of pages is read back as it was written");
        let json = serde_json::to_string(&p).unwrap();
        check(serde_json::from_str::<Pages>(&json).ok() == Some(p), "a range of pages is read back as it was stored");
        cover("range");
    } else {
        cover("refused");
    }
}
#[no_mangle]
pub extern "C" fn vs_pages() {
    pages(pick("len", 4))
}
#[no_mangle]
pub extern "C" fn vs_pages_more() {
    pages(4 + pick("more", 2))
}
/// Every range is read back.
#[no_mangle]
pub extern "C" fn vs_pages_all() {
    let num = |n: &str| vsym::bool(n).then(|| vsym::u8(n) as usize).map(|v| {
        vsym::assume(v > 0);
        NonZeroUsize::new(v).unwrap()
    });
    let (a, b) = (num("start"), num("end"));
    if a.is_none() && b.is_none() {
        return;
    }
    vsym::assume(match (a, b) {
        (Some(a), Some(b)) => a <= b,
        _ => true,
    });
    let p = Pages(a..=b);
    check(p.to_string().parse::<Pages>() == Ok(p), "a range of pages is read back as it was written");
    cover("range");
}

fn some_path(n: usize) -> String {
    (0..n)
        .map(|_| match pick("char", 5) {
            0 => {
                let c = vsym::u8("letter");
                vsym::assume(c > 0 && c < 0x80 && c != b'/' && c != b'.');
                c as char
            }
            1 => ':',
            2 => '/',
            3 => '.',
            _ => 'é',
        })
        .collect()
}
/// A resource is read back as it was written down.
fn resource(n: usize, stored: bool) {
    let mut s = ::vfs::State::new();
    let (_, c) = (s.dir("/c"), s.dir("/c/d"));
    s.cwd = c;
    ::vfs::start(s);
    let r = match pick("kind", 3) {
        0 => ResourcePath::from_user_sys(Path::new(&some_path(n))),
        1 => ResourcePath::from_file_id(FileId::new(None, VirtualPath::new(some_path(n)))),
        _ => {
            let spec = PackageSpec { namespace: "preview".into(), name: "p".into(), version: PackageVersion { major: 0, minor: 1, patch: 0 } };
            ResourcePath::from_file_id(FileId::new(Some(spec), VirtualPath::new(some_path(n))))
        }
    };
    check(r.to_string().parse::<ResourcePath>().as_ref() == Ok(&r), "a resource is read back as it was written");
    cover("resource");
    if !stored {
        return;
    }
    let json = serde_json::to_string(&r).unwrap();
    check(serde_json::from_str::<ResourcePath>(&json).ok() == Some(r.clone()), "a resource is read back as it was stored");
    let id = Id::from(&r);
    check(serde_json::from_str::<Id>(&serde_json::to_string(&id).unwrap()).ok() == Some(id), "an id is read back as it was stored");
    cover("stored");
}
#[no_mangle]
pub extern "C" fn vs_res_text() {
    resource(pick("len", 4), false)
}
#[no_mangle]
pub extern "C" fn vs_res_stored() {
    resource(pick("len", 2), true)
}
#[no_mangle]
pub extern "C" fn vs_res_stored_more() {
    resource(2, true)
}
#[no_mangle]
pub extern "C" fn vs_res_text_more() {
    resource(4, false)
}
/// What is the same resource, and only that, has the same id.
#[no_mangle]
pub extern "C" fn vs_res_ids() {
    let mut s = ::vfs::State::new();
    let c = s.dir("/c");
    s.cwd = c;
    ::vfs::start(s);
    let some = || {
        let text = match pick("path", 3) {
            0 => some_path(2),
            1 => format!("$root/{}", some_path(1)),
            _ => format!("@preview/p:0.1.0/{}", some_path(1)),
        };
        let spec = PackageSpec { namespace: "preview".into(), name: "p".into(), version: PackageVersion { major: 0, minor: 1, patch: 0 } };
        match pick("kind", 3) {
            0 => ResourcePath::from_user_sys(Path::new(&text)),
            1 => ResourcePath::from_file_id(FileId::new(None, VirtualPath::new(text))),
            _ => ResourcePath::from_file_id(FileId::new(Some(spec), VirtualPath::new(text))),
        }
    };
    let (a, b) = (some(), some());
    check((Id::from(&a) == Id::from(&b)) == (a == b), "what is another resource has another id");
    cover(if a == b { "same" } else { "other" });
}
/// A resource is the file of the path it was made of.
fn place(n: usize) {
    let mut s = ::vfs::State::new();
    let (_, c) = (s.dir("/c"), s.dir("/c/d"));
    s.cwd = c;
    ::vfs::start(s);
    let cwd = Path::new("/c/d");
    let base = ["/c/d", "/c", "/"][pick("base", 3)];
    let mut text = some_path(n);
    let near = bool("near");
    if near {
        text = format!("/c/{text}");
    }
    let r = ResourcePath::from_user_sys(Path::new(&text));
    let stored: ResourcePath = r.to_string().parse().unwrap();
    let abs = stored.to_abs_path(cwd);
    check(abs.is_some(), "a file has a path");
    let abs = abs.unwrap();
    check(abs.is_absolute(), "the path of a file is absolute");
    let whole = if text.starts_with('/') { PathBuf::from(&text) } else { cwd.join(&text) };
    check(clean(abs.to_str().unwrap()) == clean(whole.to_str().unwrap()), "a resource is the file of the path it was made of");
    let _ = whole.clean();
    let rel = stored.to_rel_path(Path::new(base)).unwrap();
    check(rel.is_relative(), "a path is relative to where it is stored");
    check(stored.to_abs_path(Path::new(base)).map(|p| clean(p.to_str().unwrap())) == Some(clean(Path::new(base).join(rel).to_str().unwrap())), "both paths of a resource are of one file");
    cover("place");
}
#[no_mangle]
pub extern "C" fn vs_res_place() {
    place(pick("len", 4))
}
#[no_mangle]
pub extern "C" fn vs_res_place_more() {
    place(4)
}
