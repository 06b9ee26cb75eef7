//! Removing and linking: what is outside stays as it is.
use std::path::Path;
use tinymist_std::fs::{flock::Filesystem, paths};
use vfs::{Fault, Inode, Kind, State};
use vsym::*;

/// `/o` with a file and a directory in it, which nothing may touch.
fn outside(s: &mut State) -> Vec<Inode> {
    s.dir("/w");
    s.dir("/o");
    let mode = (u16("mode") & 0o777) as u32;
    s.put("/o/f", Kind::File(b"out".to_vec()), mode);
    s.dir("/o/g");
    s.file("/o/g/x", b"1");
    s.inodes[2..].to_vec()
}
fn same_outside(s: &State, was: &[Inode]) {
    check(s.inodes[2..2 + was.len()] == *was, "what is outside is left alone");
}
/// Puts something of any kind at a path.
fn something(s: &mut State, path: &str, what: usize) {
    let sub = format!("{path}/s");
    match what {
        0 => _ = s.file(path, b"1"),
        1 => _ = s.put(path, Kind::File(b"1".to_vec()), 0o444),
        2 => _ = s.link(path, "/o/f"),
        3 => _ = s.link(path, "/o/g"),
        4 => _ = s.link(path, "none"),
        5 => _ = s.dir(path),
        6 => {
            s.dir(path);
            s.file(&sub, b"1");
        }
        7 => {
            s.dir(path);
            s.link(&sub, "/o/g");
        }
        _ => {
            let d = s.dir(path);
            s.link(&sub, "../../../o/f");
            s.inodes[d].mode = 0o555;
        }
    }
}
const KINDS: usize = 9;
fn trouble(c: &str) -> &'static [Fault] {
    match c {
        "unlink" | "rmdir" | "chmod" | "open" | "readdir" => &[Fault::Any],
        _ => &[],
    }
}
#[no_mangle]
pub extern "C" fn vs_r_tree() {
    let mut s = State::new();
    let was = outside(&mut s);
    let d = s.dir("/w/d");
    s.file("/w/keep", b"k");
    let (a, b) = (pick("a", KINDS), pick("b", KINDS + 1));
    something(&mut s, "/w/d/a", a);
    if b < KINDS {
        something(&mut s, "/w/d/b", b);
    }
    let shut = bool("closed");
    if shut {
        s.inodes[d].mode = 0o555;
    }
    s.faults = trouble;
    s.budget = 1;
    vfs::start(s);
    let r = paths::remove_dir_all("/w/d").is_ok();
    let s = vfs::stop();
    same_outside(&s, &was);
    check(s.content("/w/keep") == Some(b"k"), "what is outside is left alone");
    check(r == s.lfind("/w/d").is_none(), "it succeeds exactly when the directory is gone");
    if !shut && a != 8 && b != 8 && s.hits.is_empty() {
        check(r, "removing succeeds when nothing is in the way");
        cover("removed");
    }
    if !r {
        cover("failed");
    }
}
/// The path itself is a link, a file or missing.
#[no_mangle]
pub extern "C" fn vs_r_odd() {
    let mut s = State::new();
    let was = outside(&mut s);
    let a = pick("a", KINDS + 1);
    if a < KINDS {
        something(&mut s, "/w/d", a);
    }
    s.file("/w/keep", b"k");
    let shut = bool("closed");
    if shut {
        s.inodes[1].mode = 0o555;
    }
    s.faults = trouble;
    s.budget = 1;
    let dir = bool("dir");
    vfs::start(s);
    let r = if dir { paths::remove_dir_all("/w/d") } else { paths::remove_file("/w/d") };
    let r = r.is_ok();
    let s = vfs::stop();
    same_outside(&s, &was);
    check(s.content("/w/keep") == Some(b"k"), "what is outside is left alone");
    let there = s.lfind("/w/d").is_some();
    check(if a == KINDS { !r && !there } else { r != there }, "it succeeds exactly when the directory is gone");
    let can = match a {
        0 | 1 => !dir,
        2..=4 => true,
        5..=7 => dir,
        _ => false,
    };
    if !can {
        check(!r, "what is no such thing is not removed");
        check(a == KINDS || there, "what is no such thing is not removed");
    } else if !shut && s.hits.is_empty() {
        check(r, "removing succeeds when nothing is in the way");
        cover("removed");
    }
}
/// A lock's siblings go, the locked file stays.
#[no_mangle]
pub extern "C" fn vs_r_siblings() {
    let mut s = State::new();
    let was = outside(&mut s);
    let (a, b) = (pick("a", KINDS - 1), pick("b", KINDS - 1));
    let n = pick("before", 3);
    for (k, (path, what)) in [("/w/a", a), (["/w/lock2", "/w/lock.x", "/w/LOCK"][pick("name", 3)], b)].into_iter().enumerate() {
        if k == n {
            s.file("/w/lock", b"held");
        }
        something(&mut s, path, what);
    }
    if n == 2 {
        s.file("/w/lock", b"held");
    }
    s.faults = trouble;
    s.budget = bool("faulty") as usize;
    vfs::start(s);
    let l = Filesystem::new("/w".into()).open_rw_exclusive_create("lock", "");
    let r = l.as_ref().ok().map(|l| l.remove_siblings().is_ok());
    let held = vfs::with(|s| s.lfind("/w/lock").is_some_and(|i| !i.locks.is_empty()));
    check(r.is_none() || held, "the lock is still held");
    drop(l);
    let s = vfs::stop();
    same_outside(&s, &was);
    check(s.content("/w/lock") == Some(b"held"), "the locked file stays");
    if s.hits.is_empty() {
        check(r == Some(true), "removing succeeds when nothing is in the way");
    }
    if r == Some(true) {
        check(s.names("/w").len() == 1, "the siblings are gone");
        cover("gone");
    }
}
/// The destination comes to hold what the source holds.
#[no_mangle]
pub extern "C" fn vs_r_link() {
    let mut s = State::new();
    let was = outside(&mut s);
    s.dir("/w/sub");
    let data = vec("data", pick("len", 2));
    let dir = bool("dir");
    let src = if dir {
        let p = if bool("below") { "/w/sub/src" } else { "/w/src" };
        s.dir(p);
        s.file(&format!("{p}/in"), &data);
        p
    } else {
        s.file("/w/src", &data);
        "/w/src"
    };
    let a = pick("a", 8);
    match a {
        0..=5 => something(&mut s, "/w/sub/dst", a),
        6 => _ = s.link("/w/sub/dst", src),
        _ => (),
    }
    s.faults = |c| match c {
        "link" | "symlink" | "create" | "unlink" => &[Fault::Any],
        "write" => &[Fault::Short, Fault::Any],
        _ => &[],
    };
    s.budget = 2;
    vfs::start(s);
    let r = paths::link_or_copy(src, "/w/sub/dst").is_ok();
    let s = vfs::stop();
    same_outside(&s, &was);
    let at = |p: &str| if dir { s.content(&format!("{p}/in")).map(|c| c.to_vec()) } else { s.content(p).map(|c| c.to_vec()) };
    check(at(src).as_ref() == Some(&data), "the source stays");
    if r {
        check(at("/w/sub/dst").as_ref() == Some(&data), "the destination holds what the source holds");
        cover(if dir { "dir" } else { "file" });
    } else {
        check(!s.hits.is_empty() || a == 5, "linking succeeds when nothing goes wrong");
        cover("failed");
    }
    if a == 5 {
        check(!r && s.find("/w/sub/dst").is_some(), "a directory is not replaced");
    }
    if s.hits.iter().all(|h| matches!(h.0, "link")) && !dir && a != 5 {
        check(r, "what cannot be linked is copied");
    }
}
/// Paths are compared by what they lead to.
#[no_mangle]
pub extern "C" fn vs_r_canon() {
    let mut s = State::new();
    s.dir("/w");
    s.dir("/w/a");
    s.dir("/w/a/b");
    s.file("/w/a/b/f", b"1");
    s.link("/l", "/w/a");
    s.link("/w/m", "a/b");
    const ALL: [(&str, &str); 8] = [
        ("/w", "/w"), ("/w/a", "/w/a"), ("/l", "/w/a"), ("/w/m", "/w/a/b"), ("/l/b/f", "/w/a/b/f"), ("/w/m/../b/f", "/w/a/b/f"),
        ("/w/none", "/w/none"), ("/w/a/./b", "/w/a/b"),
    ];
    let (p, b) = (ALL[pick("p", 8)], ALL[pick("b", 8)]);
    vfs::start(s);
    let r = paths::strip_prefix_canonical(p.0, b.0);
    vfs::stop();
    let want = Path::new(p.1).strip_prefix(b.1).ok().map(|p| p.to_path_buf());
    check(r.ok() == want, "the rest is that of the real paths");
}
