//! Locks between processes.
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use tinymist_std::fs::flock::{FileLock, Filesystem};
use vfs::{Fault, State};
use vsym::*;

const WAYS: usize = 5;
/// Whether the way to lock is exclusive, and whether it waits.
fn excl(way: usize) -> bool {
    way < 2
}
fn waits(way: usize) -> bool {
    way == 0 || way == 2 || way == 4
}
/// Locks `/d/l`; `None` if somebody else has it.
fn take(fs: &Filesystem, way: usize, name: &str) -> anyhow::Result<Option<FileLock>> {
    match way {
        0 => fs.open_rw_exclusive_create(name, "m").map(Some),
        1 => fs.try_open_rw_exclusive_create(name),
        2 => fs.open_ro_shared_create(name, "m").map(Some),
        3 => fs.try_open_ro_shared_create(name),
        _ => fs.open_ro_shared(name, "m").map(Some),
    }
}
static WRITERS: AtomicI32 = AtomicI32::new(0);
static READERS: AtomicI32 = AtomicI32::new(0);
fn enter(way: usize) {
    if excl(way) {
        check(WRITERS.fetch_add(1, SeqCst) == 0 && READERS.load(SeqCst) == 0, "an exclusive lock excludes all others");
    } else {
        READERS.fetch_add(1, SeqCst);
        check(WRITERS.load(SeqCst) == 0, "an exclusive lock excludes all others");
    }
}
fn leave(way: usize) {
    if excl(way) { &WRITERS } else { &READERS }.fetch_sub(1, SeqCst);
}
fn files() -> State {
    let mut s = State::new();
    s.dir("/d");
    s.file("/d/l", b"12");
    s
}
fn party(way: usize) -> bool {
    let fs = Filesystem::new("/d".into());
    let l = take(&fs, way, "l").expect("the lock can be taken");
    let got = l.is_some();
    check(got || !waits(way), "one who waits gets the lock");
    if got {
        enter(way);
        leave(way);
    }
    drop(l);
    got
}
fn race(n: usize) {
    let ways: Vec<usize> = (0..n).map(|_| pick("way", WAYS)).collect();
    vfs::start(files());
    let ts: Vec<_> = ways[1..]
        .iter()
        .enumerate()
        .map(|(i, w)| {
            let w = *w;
            std::thread::spawn(move || {
                vfs::become_process(i as u32 + 1);
                party(w)
            })
        })
        .collect();
    let mut any = party(ways[0]);
    for t in ts {
        any |= t.join().unwrap();
    }
    let s = vfs::stop();
    check(any, "somebody gets the lock");
    check(s.inodes.iter().all(|i| i.locks.is_empty()), "a lock is free once it is dropped");
    check(s.content("/d/l") == Some(b"12"), "locking leaves the content");
    cover("done");
}
#[no_mangle]
pub extern "C" fn vs_l_race() {
    race(2);
}
#[no_mangle]
pub extern "C" fn vs_l_race3() {
    race(3);
}
/// One holds the lock while another tries.
#[no_mangle]
pub extern "C" fn vs_l_try() {
    let (a, b) = (pick("a", WAYS), pick("b", WAYS));
    assume(!waits(b) || !(excl(a) || excl(b)));
    vfs::start(files());
    let fs = Filesystem::new("/d".into());
    let held = take(&fs, a, "l").unwrap();
    check(held.is_some(), "a free lock is taken");
    vfs::become_process(1);
    let got = take(&fs, b, "l").unwrap();
    check(got.is_some() == !(excl(a) || excl(b)), "a lock is refused exactly when another excludes it");
    check(!vfs::with(|s| s.log.contains(&"lock")), "nobody waits who need not");
    drop(got);
    vfs::become_process(0);
    match pick("end", 3) {
        0 => drop(held),
        1 => {
            vfs::with(|s| s.kill(0));
            std::mem::forget(held);
        }
        // what failed to get the lock does not free it
        _ => {
            vfs::become_process(2);
            check(take(&fs, 1, "l").unwrap().is_none(), "a lock is refused exactly when another excludes it");
            drop(held);
        }
    }
    vfs::become_process(1);
    check(take(&fs, 1, "l").unwrap().is_some(), "a lock is free once it is dropped");
    cover("done");
    vfs::stop();
}
/// Where locks do not work they are done without; other errors are reported.
#[no_mangle]
pub extern "C" fn vs_l_errors() {
    let mut s = files();
    s.fs_type = u32("fs") as i64;
    let nfs = s.fs_type == libc::NFS_SUPER_MAGIC as i64;
    s.faults = |c| match c {
        "try_lock" | "lock" | "statfs" | "unlock" => &[Fault::Any],
        _ => &[],
    };
    s.budget = 2;
    let way = pick("way", WAYS);
    vfs::start(s);
    let r = take(&Filesystem::new("/d".into()), way, "l");
    let (ok, got) = (r.is_ok(), matches!(r, Ok(Some(_))));
    let locked = vfs::with(|s| !s.inodes[2].locks.is_empty());
    drop(r);
    let s = vfs::stop();
    let hit = |c: &str| s.hits.iter().find_map(|h| match h.1 {
        Fault::Err(e) if h.0 == c => Some(e),
        _ => None,
    });
    if nfs && hit("statfs").is_none() {
        check(got && !s.log.iter().any(|c| c.ends_with("try_lock") || *c == "lock"), "a file system without locks is not asked for one");
        cover("without");
    } else if let Some(libc::EOPNOTSUPP | libc::ENOSYS) = hit("try_lock") {
        check(got, "a file system without locks is done without");
        cover("unsupported");
    } else if hit("try_lock") == Some(libc::EWOULDBLOCK) && !waits(way) {
        check(ok && !got, "a lock is refused exactly when another excludes it");
        cover("refused");
    } else if hit("try_lock").is_some_and(|e| e != libc::EWOULDBLOCK) || hit("lock").is_some() {
        check(!ok || [hit("try_lock"), hit("lock")].contains(&Some(libc::EINTR)), "an error is reported");
        cover("error");
    } else {
        check(got && locked, "who gets a lock has it");
        cover("locked");
    }
    check(s.content("/d/l") == Some(b"12"), "locking leaves the content");
}
/// Files and directories are made where that is asked for, and only there.
#[no_mangle]
pub extern "C" fn vs_l_open() {
    let mut s = State::new();
    let deep = pick("there", 3);
    if deep > 0 {
        s.dir("/d");
    }
    if deep > 1 {
        s.dir("/d/e");
    }
    s.faults = |c| if c == "mkdir" { &[Fault::Err(libc::EACCES)] } else { &[] };
    s.budget = bool("faulty") as usize;
    let way = pick("way", WAYS);
    vfs::start(s);
    let fs = Filesystem::new("/d".into()).join("e");
    let r = take(&fs, way, "l");
    match &r {
        Ok(Some(l)) => {
            check(way != 4, "a file that must be there is not made");
            check(l.path() == std::path::Path::new("/d/e/l") && l.parent() == fs.as_path_unlocked(), "the lock knows its file");
            cover("made");
        }
        Ok(None) => check(false, "a free lock is taken"),
        Err(_) => {
            check(way == 4 || vfs::with(|s| !s.hits.is_empty()), "the file is made");
            cover("failed");
        }
    }
    let ok = r.is_ok();
    drop(r);
    let s = vfs::stop();
    check(s.content("/d/e/l").is_some() == ok, "the file is there exactly when it was locked");
    if way == 4 {
        check(s.inodes.len() == 1 + deep, "a file that must be there is not made");
    }
}
/// A locked file is read and written like any other.
#[no_mangle]
pub extern "C" fn vs_l_io() {
    let way = pick("way", WAYS);
    let data = vec("data", pick("len", 3));
    let at = pick("at", 4);
    vfs::start(files());
    let mut l = take(&Filesystem::new("/d".into()), way, "l").unwrap().unwrap();
    let mut was = vec![];
    check(l.read_to_end(&mut was).is_ok() && was == b"12", "what is read is what the file holds");
    check(l.seek(SeekFrom::Start(at as u64)).ok() == Some(at as u64), "a position can be set");
    let w = l.write_all(&data).and_then(|_| l.flush()).is_ok();
    drop(l);
    let s = vfs::stop();
    let mut want = b"12".to_vec();
    if w && !data.is_empty() {
        want.resize(want.len().max(at + data.len()), 0);
        want[at..at + data.len()].copy_from_slice(&data);
    }
    check(w == (way != 4) || data.is_empty(), "what is locked for reading is not written");
    check(s.content("/d/l") == Some(&want), "what was written is there");
}
