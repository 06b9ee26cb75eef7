//! Writing files: what is there at every moment, whatever goes wrong.
use tinymist_std::fs::paths;
use vfs::{Fault, Inode, Kind, State};
use vsym::*;

const T: &str = "/d/t";
/// What the file may hold: what was there, and what is being written.
static mut MAY: Vec<Option<Vec<u8>>> = Vec::new();
#[allow(static_mut_refs)]
fn may() -> &'static mut Vec<Option<Vec<u8>>> {
    unsafe { &mut MAY }
}
fn is(now: Option<&[u8]>, want: &Option<Vec<u8>>) -> bool {
    now == want.as_deref()
}
fn any_faults(call: &str) -> &'static [Fault] {
    match call {
        "write" => &[Fault::Any, Fault::Short, Fault::Kill],
        "unlink" | "fstat" | "stat" | "fsync" => &[Fault::Kill],
        "create" | "rename" | "chmod" | "ftruncate" => &[Fault::Any, Fault::Kill],
        _ => &[],
    }
}
fn io_faults(call: &str) -> &'static [Fault] {
    match call {
        "write" | "read" => &[Fault::Any, Fault::Short],
        "create" | "open" | "ftruncate" | "lseek" => &[Fault::Any],
        _ => &[],
    }
}
fn whole(s: &State) {
    let now = s.content(T);
    check(may().iter().any(|w| is(now, w)), "the file has its old or its new content at every moment");
}
/// `/d/other`, and perhaps `/d/t` with some content and permissions.
fn start_with(max: usize) -> (State, Option<Vec<u8>>, u32) {
    let mut s = State::new();
    s.dir("/d");
    s.file("/d/other", b"x");
    let was = pick("was", max + 2);
    if was == 0 {
        return (s, None, 0);
    }
    let old = vec("old", was - 1);
    let mode = (u16("mode") & 0o777) as u32;
    s.put(T, Kind::File(old.clone()), mode);
    (s, Some(old), mode)
}
fn write_atomic(max: usize, budget: usize) {
    let (mut s, old, mode) = start_with(max);
    let new = vec("new", pick("len", max + 1));
    *may() = vec![old.clone(), Some(new.clone())];
    s.observer = whole;
    s.faults = any_faults;
    s.budget = budget;
    vfs::start(s);
    let r = paths::write_atomic(T, &new).is_ok();
    let s = vfs::stop();
    let now = s.content(T);
    if r {
        check(now == Some(&new), "what was written is there");
        check(old.is_none() || s.find(T).unwrap().mode == mode, "the permissions are kept");
        cover("written");
    } else if s.killed.is_empty() {
        check(!s.hits.is_empty(), "writing succeeds when nothing goes wrong");
        check(is(now, &old), "a failure leaves the file as it was");
        check(old.is_none() || s.find(T).unwrap().mode == mode, "a failure leaves the permissions");
        cover("failed");
    } else {
        cover("killed");
        return;
    }
    check(s.names("/d").len() == 1 + now.is_some() as usize, "nothing else is left behind");
    check(s.content("/d/other") == Some(b"x"), "other files are left alone");
}
#[no_mangle]
pub extern "C" fn vs_a_write() {
    write_atomic(2, 2);
}
#[no_mangle]
pub extern "C" fn vs_a_write_more() {
    write_atomic(3, 3);
}
/// The target is a link, a directory, or its directory is missing or closed.
#[no_mangle]
pub extern "C" fn vs_a_write_odd() {
    let mut s = State::new();
    let d = s.dir("/d");
    s.dir("/o");
    let mode = (u16("mode") & 0o777) as u32;
    let out = s.put("/o/f", Kind::File(b"out".to_vec()), mode);
    let new = vec("new", 1);
    *may() = vec![None, Some(new.clone())];
    let case = pick("case", 5);
    let good = match case {
        0 => {
            s.link(T, "/o/f");
            *may() = vec![Some(b"out".to_vec()), Some(new.clone())];
            true
        }
        1 => {
            s.link(T, "../o/none");
            true
        }
        2 => {
            s.dir(T);
            s.file("/d/t/x", b"1");
            false
        }
        3 => {
            s.inodes[d].mode = 0o555;
            false
        }
        _ => {
            s.entries(0).unwrap().retain(|e| e.1 != d);
            false
        }
    };
    s.observer = whole;
    let before: Vec<Inode> = s.inodes.clone();
    vfs::start(s);
    let r = paths::write_atomic(T, &new).is_ok();
    let s = vfs::stop();
    check(r == good, "writing fails only when it cannot be done");
    check(s.inodes[out] == before[out], "what a link leads to is left alone");
    if r {
        check(s.content(T) == Some(&new), "what was written is there");
        check(s.names("/d").len() == 1, "nothing else is left behind");
        check(case != 0 || s.find(T).unwrap().mode == mode, "the permissions are kept");
        cover("written");
    } else {
        check(s.inodes[..before.len()] == before[..], "a failure changes nothing");
        cover("failed");
    }
}
/// Two processes write one file.
#[no_mangle]
pub extern "C" fn vs_a_write_two() {
    let (mut s, old, _) = start_with(0);
    let a = vec("a", 1 + pick("alen", 2));
    let b = vec("b", 1);
    *may() = vec![old.clone(), Some(a.clone()), Some(b.clone())];
    s.observer = whole;
    s.faults = |c| if c == "rename" { &[Fault::Kill] } else { &[] };
    s.budget = 1;
    vfs::start(s);
    let (b2, ra) = (b.clone(), a.clone());
    let t = std::thread::spawn(move || {
        vfs::become_process(1);
        paths::write_atomic(T, b2).is_ok()
    });
    let ra = paths::write_atomic(T, ra).is_ok();
    let rb = t.join().unwrap();
    let s = vfs::stop();
    let now = s.content(T);
    if s.killed.is_empty() {
        check(ra && rb, "writing succeeds when nothing goes wrong");
        check(s.names("/d").len() == 2, "nothing else is left behind");
        cover("both");
    } else {
        check(ra != rb, "one process killed does not disturb the other");
        cover("one");
    }
    check((ra && now == Some(&a)) || (rb && now == Some(&b)), "what was written is there");
}
/// Writing in place, with every kind of trouble a disk may make.
#[no_mangle]
pub extern "C" fn vs_a_inplace() {
    let (mut s, old, mode) = start_with(2);
    assume(old.is_none() || mode & 0o600 == 0o600);
    let new = vec("new", pick("len", 3));
    let how = pick("how", 3);
    s.faults = io_faults;
    s.budget = 2;
    vfs::start(s);
    let p = std::path::Path::new(T);
    let r = match how {
        0 => paths::write(p, &new).is_ok(),
        1 => paths::write_if_changed(p, &new).is_ok(),
        _ => paths::append(p, &new).is_ok(),
    };
    let s = vfs::stop();
    check(r || !s.hits.is_empty(), "writing succeeds when nothing goes wrong");
    if r {
        let was = old.clone().unwrap_or_default();
        let want = if how == 2 { [&was[..], &new].concat() } else { new.clone() };
        check(s.content(T) == Some(&want), "what was written is there");
        check(old.is_none() || s.find(T).unwrap().mode == mode, "the permissions are kept");
        if how == 1 && was == new {
            check(!s.log.iter().any(|c| *c == "write" || *c == "ftruncate"), "what has not changed is not written");
            cover("same");
        }
        cover("written");
    } else {
        cover("failed");
    }
    check(s.content("/d/other") == Some(b"x"), "other files are left alone");
    check(s.names("/d").len() == 1 + s.content(T).is_some() as usize, "nothing else is left behind");
}
/// Reading gives the file's bytes or an error.
#[no_mangle]
pub extern "C" fn vs_a_read() {
    let (mut s, old, _) = start_with(3);
    s.root = true;
    s.faults = io_faults;
    s.budget = 2;
    vfs::start(s);
    let p = std::path::Path::new(T);
    let text = bool("text");
    let r = if text { paths::read(p).ok().map(|t| t.into_bytes()) } else { paths::read_bytes(p).ok() };
    let s = vfs::stop();
    match &r {
        Some(b) => {
            check(Some(b) == old.as_ref(), "what is read is what the file holds");
            check(!text || std::str::from_utf8(b).is_ok(), "a text is well-formed");
            cover("read");
        }
        None => {
            let bad = old.as_ref().is_none_or(|o| text && std::str::from_utf8(o).is_err());
            check(bad || !s.hits.is_empty(), "reading succeeds when nothing goes wrong");
            cover("failed");
        }
    }
}
/// Copying gives the file's bytes or an error.
#[no_mangle]
pub extern "C" fn vs_a_copy() {
    let (mut s, old, _) = start_with(1);
    s.root = true;
    let src = vec("src", pick("len", 3));
    s.file("/d/s", &src);
    s.faults = io_faults;
    s.budget = 1;
    vfs::start(s);
    let r = paths::copy("/d/s", T).ok();
    let s = vfs::stop();
    check(r.is_some() || !s.hits.is_empty(), "writing succeeds when nothing goes wrong");
    check(s.content("/d/s") == Some(&src), "other files are left alone");
    if let Some(n) = r {
        check(s.content(T) == Some(&src) && n == src.len() as u64, "what was written is there");
        cover("copied");
    }
    let _ = old;
}
/// A temporary directory is there while it is used, and gone afterwards.
#[no_mangle]
pub extern "C" fn vs_a_temp_dir() {
    let mut s = State::new();
    let there = bool("there");
    if there {
        s.dir("/d");
        s.file("/d/other", b"x");
    }
    let (ok, leave) = (bool("ok"), pick("leave", 4));
    s.faults = |c| match c {
        "mkdir" | "unlink" | "rmdir" => &[Fault::Any],
        _ => &[],
    };
    s.budget = bool("faulty") as usize;
    vfs::start(s);
    let (mut ran, mut done) = (false, false);
    let r = paths::temp_dir_in("/d", |p| {
        ran = true;
        check(p.is_dir() && p.parent() == Some("/d".as_ref()), "the directory is there while it is used");
        match leave {
            0 => (),
            1 => std::fs::write(p.join("f"), b"1")?,
            2 => std::fs::create_dir(p.join("e"))?,
            _ => std::os::unix::fs::symlink("/d/other", p.join("l"))?,
        }
        done = true;
        if ok {
            Ok(7)
        } else {
            anyhow::bail!("no")
        }
    });
    let v = r.as_ref().ok().copied();
    drop(r);
    let s = vfs::stop();
    check(v == (done && ok).then_some(7), "the result is that of the function");
    check(ran || !s.hits.is_empty(), "the function runs when nothing goes wrong");
    if s.hits.is_empty() {
        check(s.names("/d").len() == there as usize, "the directory is gone afterwards");
        cover("gone");
    }
    check(!there || s.content("/d/other") == Some(b"x"), "other files are left alone");
}
const TAG: &[u8] = b"Signature: 8a477f597d28d172789f06886806bc55";
fn tagged(s: &State) {
    if s.find("/d/p/t").is_some() {
        check(s.content("/d/p/t/CACHEDIR.TAG").is_some_and(|c| c.starts_with(TAG) && c.ends_with(b"/\n")), "the directory never appears without its mark");
    }
}
/// A directory kept out of backups never appears without the mark.
#[no_mangle]
pub extern "C" fn vs_a_excluded() {
    let mut s = State::new();
    s.dir("/d");
    if bool("parent") {
        s.dir("/d/p");
    }
    s.observer = tagged;
    s.faults = |c| match c {
        "mkdir" | "rename" => &[Fault::Any, Fault::Kill],
        "create" | "write" => &[Fault::Kill],
        _ => &[],
    };
    s.budget = 1;
    vfs::start(s);
    let r = paths::create_dir_all_excluded_from_backups_atomic("/d/p/t").is_ok();
    let again = r && paths::create_dir_all_excluded_from_backups_atomic("/d/p/t").is_ok();
    let s = vfs::stop();
    let there = s.find("/d/p/t").is_some();
    if s.killed.is_empty() {
        check(r == there && again == r, "it succeeds exactly when the directory is there");
        check(r || !s.hits.is_empty(), "writing succeeds when nothing goes wrong");
        check(s.names("/d/p").len() == there as usize, "nothing else is left behind");
        check(!there || s.names("/d/p/t").len() == 1, "nothing else is left behind");
        cover("made");
    }
}
/// Two processes make it, or it is there already.
#[no_mangle]
pub extern "C" fn vs_a_excluded_two() {
    let mut s = State::new();
    s.dir("/d");
    let there = bool("there");
    if there {
        s.dir("/d/p");
        s.dir("/d/p/t");
        s.file("/d/p/t/mine", b"1");
    } else {
        s.observer = tagged;
    }
    vfs::start(s);
    let t = std::thread::spawn(move || {
        vfs::become_process(1);
        paths::create_dir_all_excluded_from_backups_atomic("/d/p/t").is_ok()
    });
    let a = paths::create_dir_all_excluded_from_backups_atomic("/d/p/t").is_ok();
    let b = t.join().unwrap();
    let s = vfs::stop();
    check(a && b, "writing succeeds when nothing goes wrong");
    check(s.names("/d/p").len() == 1, "nothing else is left behind");
    check(s.names("/d/p/t").len() == 1, "a directory that is there is left alone");
    cover("made");
}
