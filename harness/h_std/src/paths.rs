//! Path algebra: what a path text means, by an independent reading of its bytes.
use std::path::{Path, PathBuf};
use tinymist_std::fs::paths;
use tinymist_std::path::{diff, unix_slash, PathClean};
use vsym::*;

/// Any path text of up to `max` bytes of ASCII.
pub fn text(name: &str, max: usize) -> String {
    let n = pick("len", max + 1);
    let b = vec(name, n);
    for c in &b {
        assume(*c < 0x80 && *c != 0);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

pub fn is_abs(s: &[u8]) -> bool {
    !s.is_empty() && s[0] == b'/'
}
/// The names of a path, without the ones that stand for the directory itself.
pub fn names(s: &[u8]) -> Vec<&[u8]> {
    let mut r = vec![];
    let mut at = 0;
    for i in 0..=s.len() {
        if i == s.len() || s[i] == b'/' {
            if i > at && &s[at..i] != b"." {
                r.push(&s[at..i]);
            }
            at = i + 1;
        }
    }
    r
}
/// What a path names when there are no links: how far above the start it is,
/// and the names below that.
pub fn resolve(s: &[u8]) -> (bool, usize, Vec<&[u8]>) {
    let abs = is_abs(s);
    let mut up = 0;
    let mut r = vec![];
    for n in names(s) {
        if n == b".." {
            if r.pop().is_none() && !abs {
                up += 1;
            }
        } else {
            r.push(n);
        }
    }
    (abs, up, r)
}
fn bytes(p: &Path) -> &[u8] {
    use std::os::unix::ffi::OsStrExt;
    p.as_os_str().as_bytes()
}

fn joined(abs: bool, ns: &[&[u8]]) -> Vec<u8> {
    let mut r = vec![];
    if abs {
        r.push(b'/');
    }
    for (i, n) in ns.iter().enumerate() {
        if i > 0 {
            r.push(b'/');
        }
        r.extend_from_slice(n);
    }
    if r.is_empty() {
        r.push(b'.');
    }
    r
}

/// `unix_slash` writes a path with its names in order, one slash between them,
/// and drops what means nothing.
fn slash(max: usize) {
    let s = text("path", max);
    let out = unix_slash(Path::new(&s));
    check(out.as_bytes() == joined(is_abs(s.as_bytes()), &names(s.as_bytes())), "the text has the names of the path, one slash between them");
    check(unix_slash(Path::new(&out)) == out, "writing it again changes nothing");
    cover("written");
}
#[no_mangle]
pub extern "C" fn vs_p_slash() {
    slash(7);
}
#[no_mangle]
pub extern "C" fn vs_p_slash_more() {
    slash(9);
}

/// A name may be any text.
#[no_mangle]
pub extern "C" fn vs_p_slash_text() {
    let b = vec("name", 3);
    for c in &b {
        assume(*c != b'/' && *c != 0);
    }
    use std::os::unix::ffi::OsStrExt;
    let mut t = b"x/".to_vec();
    t.extend_from_slice(&b);
    let out = unix_slash(Path::new(std::ffi::OsStr::from_bytes(&t)));
    match std::str::from_utf8(&b) {
        Ok(s) if s != "." => {
            check(out.len() == 2 + s.len() && out.as_bytes()[2..] == *s.as_bytes(), "a name is written as it is");
            cover("text");
        }
        Ok(_) => {}
        Err(_) => {
            check(out.starts_with("x/"), "a name that is no text is written somehow");
            cover("no text");
        }
    }
}

/// `clean` and `normalize_path` keep what a path names.
#[no_mangle]
pub extern "C" fn vs_p_clean() {
    let s = text("path", 7);
    let c = Path::new(&s).clean();
    let (abs, up, ns) = resolve(s.as_bytes());
    check(resolve(bytes(&c)) == (abs, up, ns.clone()), "a clean path names the same");
    let want: Vec<&[u8]> = (0..up).map(|_| &b".."[..]).chain(ns.iter().copied()).collect();
    check(bytes(&c) == joined(abs, &want), "a clean path has no name it can do without");
    let n = paths::normalize_path(Path::new(&s));
    for x in names(bytes(&n)) {
        check(x != b"..", "a normalized path does not go up");
    }
    check(is_abs(bytes(&n)) == abs, "a normalized path is absolute when the path is");
    if up == 0 {
        check(names(bytes(&n)) == ns, "a normalized path names the same");
        cover("normalized");
    } else {
        cover("above");
    }
}

/// `diff(to, base)` is the way from `base` to `to`.
fn way(max: usize) {
    let to = text("to", max);
    let base = text("base", max);
    let d = diff(Path::new(&to), Path::new(&base));
    let (tabs, tup, tn) = resolve(to.as_bytes());
    let (babs, bup, _) = resolve(base.as_bytes());
    match d {
        Some(d) => {
            let mut j = PathBuf::from(&base);
            j.push(&d);
            check(resolve(bytes(&j)) == (tabs, tup, tn), "following the difference from the base leads to the path");
            cover("some");
        }
        None => {
            // from a base above the start, there is no way down
            check(if tabs == babs { bup > tup } else { !tabs }, "there is a difference when there is a way");
            cover("none");
        }
    }
}
#[no_mangle]
pub extern "C" fn vs_p_diff() {
    way(4);
}
#[no_mangle]
pub extern "C" fn vs_p_diff_more() {
    way(5);
}

/// The ancestors of a path are itself and each parent, up to the one to stop at.
#[no_mangle]
pub extern "C" fn vs_p_ancestors() {
    let s = text("path", 5);
    let stop = bool("stop");
    let t = if stop { text("root", 2) } else { String::new() };
    let got: Vec<&Path> = paths::ancestors(Path::new(&s), stop.then(|| Path::new(&t))).collect();
    let mut want = vec![];
    for p in Path::new(&s).ancestors() {
        want.push(p);
        if stop && p == Path::new(&t) {
            cover("stopped");
            break;
        }
    }
    check(got == want, "the ancestors of a path, up to the one to stop at");
    cover("walked");
}

/// Paths and bytes; lists of paths.
#[no_mangle]
pub extern "C" fn vs_p_bytes() {
    let b = vec("bytes", 4);
    let p = paths::bytes2path(&b);
    check(p.is_ok(), "any bytes are a path");
    let p = p.unwrap();
    let back = paths::path2bytes(&p);
    check(back.is_ok_and(|x| x == b), "a path and its bytes are the same");
    cover("same");
}
#[no_mangle]
pub extern "C" fn vs_p_join() {
    let n = 1 + pick("n", 2);
    let ps: Vec<Vec<u8>> = (0..n).map(|i| vec(["a", "b"][i], 1 + pick("len", 2))).collect();
    use std::os::unix::ffi::OsStrExt;
    let os: Vec<&std::ffi::OsStr> = ps.iter().map(|p| std::ffi::OsStr::from_bytes(p)).collect();
    let bad = ps.iter().any(|p| p.contains(&b':'));
    if bad {
        // the names are listed for the user
        for p in &ps {
            assume(p.iter().all(|c| c.is_ascii_alphabetic() || *c == b':'));
        }
    }
    match paths::join_paths(&os, "PATH") {
        Ok(j) => {
            check(!bad, "a path with a colon is refused");
            let back: Vec<PathBuf> = std::env::split_paths(&j).collect();
            check(back.len() == n && back.iter().zip(&ps).all(|(a, b)| bytes(a) == &b[..]), "a joined list splits into its paths");
            cover("joined");
        }
        Err(e) => {
            check(bad, "only a path with a colon is refused");
            let m = e.to_string();
            for p in &ps {
                check(m.contains(unsafe { std::str::from_utf8_unchecked(p) }), "the refusal lists the paths");
            }
            cover("refused");
        }
    }
}
