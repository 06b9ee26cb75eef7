//! What a file reads as, through the layers of `Vfs`, its caches and its
//! snapshots.
use std::path::Path;
use std::sync::{Arc, Mutex};
use tinymist_vfs::{Bytes, FileChangeSet, FileId, FileSnapshot, PathAccessModel, RootResolver, Vfs, WorkspaceResolver};
use typst::diag::{FileError, FileResult};
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;

type ImmutPath = Arc<Path>;
/// What a file has: a byte, or it is missing.
pub type Has = Option<u8>;

static DISK: Mutex<[Has; 2]> = Mutex::new([None; 2]);
/// The files: `/w/s/x`, which has two ids, and `/w/b`.
const PATHS: [&str; 2] = ["/w/s/x", "/w/b"];

#[derive(Clone, Copy)]
pub struct Disk;
impl PathAccessModel for Disk {
    fn content(&self, src: &Path) -> FileResult<Bytes> {
        let Some(n) = PATHS.iter().position(|p| Path::new(p) == src) else { return Err(FileError::AccessDenied) };
        told(DISK.lock().unwrap()[n]).content().cloned()
    }
    fn reset(&mut self) {
        RESETS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}
static RESETS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, _: &PackageSpec) -> FileResult<ImmutPath> {
        Err(FileError::AccessDenied)
    }
}
fn told(h: Has) -> FileSnapshot {
    match h {
        Some(b) => FileSnapshot::from(Ok(Bytes::new(vec![b]))),
        None => FileSnapshot::from(Err(FileError::IsDirectory)),
    }
}
fn any(name: &str) -> Has {
    vsym::bool("present").then(|| vsym::u8(name))
}

/// The ids: two of the first file, one of the second, one of no file.
fn ids() -> [FileId; 4] {
    let w: ImmutPath = Path::new("/w").into();
    let s: ImmutPath = Path::new("/w/s").into();
    [
        WorkspaceResolver::workspace_file(Some(&w), VirtualPath::new("/s/x")),
        WorkspaceResolver::workspace_file(Some(&s), VirtualPath::new("x")),
        WorkspaceResolver::workspace_file(Some(&w), VirtualPath::new("b")),
        WorkspaceResolver::rootless_file(VirtualPath::new("untitled")),
    ]
}
const FILE: [Option<usize>; 4] = [Some(0), Some(0), Some(1), None];

/// What the layers hold.
#[derive(Clone, Default)]
struct Model {
    by_id: [Option<Has>; 4],
    by_path: [Option<Has>; 2],
    notified: [Option<Has>; 2],
}
impl Model {
    fn want(&self, id: usize) -> Has {
        if let Some(h) = self.by_id[id] {
            return h;
        }
        let f = FILE[id]?;
        self.by_path[f].or(self.notified[f]).unwrap_or_else(|| DISK.lock().unwrap()[f])
    }
    fn wants(&self) -> [Has; 4] {
        [0, 1, 2, 3].map(|i| self.want(i))
    }
}
fn same(got: &FileResult<Bytes>, want: Has) -> bool {
    match (got, want) {
        (Ok(b), Some(w)) => b.len() == 1 && b[0] == w,
        (Err(_), None) => true,
        _ => false,
    }
}
fn read_all(v: &Vfs<Disk>, ids: &[FileId; 4], want: &[Has; 4], label: &str) {
    for n in 0..4 {
        vsym::check(same(&v.read(ids[n]), want[n]), label);
    }
}
fn sources(v: &Vfs<Disk>, ids: &[FileId; 4], want: &[Has; 4]) {
    for n in 0..4 {
        let s = v.source(ids[n]);
        match want[n] {
            None => vsym::check(s.is_err(), "a file that is not there has no source"),
            Some(b) if b >= 0x80 => vsym::check(s == Err(FileError::InvalidUtf8), "a file that is no text has no source"),
            Some(b) => {
                let ok = s.as_ref().is_ok_and(|s| s.text().as_bytes() == [b] && s.id() == ids[n]);
                vsym::check(ok, "the source of a file is what it reads as");
            }
        }
    }
}
fn paths() -> [ImmutPath; 2] {
    PATHS.map(|p| Path::new(p).into())
}
/// One change of the layers, on the real thing and on the model; which ids it touched.
fn change(v: &mut Vfs<Disk>, m: &mut Model, ids: &[FileId; 4], kinds: &[usize]) -> [bool; 4] {
    let p = paths();
    let mut touched = [false; 4];
    let mut touch = |f: usize| {
        for n in 0..4 {
            touched[n] |= FILE[n] == Some(f);
        }
    };
    match kinds[vsym::pick("change", kinds.len())] {
        0 => {
            let h = any("shadow");
            v.revise().map_shadow(&p[0], told(h)).unwrap();
            m.by_path[0] = Some(h);
            touch(0);
        }
        1 => {
            v.revise().unmap_shadow(&p[0]).unwrap();
            m.by_path[0] = None;
            touch(0);
        }
        2 => {
            let h = any("shadow of id");
            v.revise().map_shadow_by_id(ids[1], told(h)).unwrap();
            m.by_id[1] = Some(h);
            touched[1] = true;
        }
        3 => {
            v.revise().remove_shadow_by_id(ids[1]);
            m.by_id[1] = None;
            touched[1] = true;
        }
        4 => {
            let h = any("notified");
            v.revise().notify_fs_changes(FileChangeSet::new_inserts(vec![(p[0].clone(), told(h))]));
            m.notified[0] = Some(h);
            touch(0);
        }
        5 => {
            let h = any("disk");
            DISK.lock().unwrap()[0] = h;
            v.revise().notify_fs_changes(FileChangeSet::new_removes(vec![p[0].clone()]));
            m.notified[0] = None;
            touch(0);
        }
        6 => {
            v.revise().reset_shadow();
            for n in 0..2 {
                if m.by_path[n].take().is_some() {
                    touch(n);
                }
            }
            for n in 0..4 {
                touched[n] |= m.by_id[n].take().is_some();
            }
        }
        7 => {
            let (g, h) = (any("first"), any("second"));
            let mut r = v.revise();
            r.map_shadow(&p[1], told(g)).unwrap();
            r.map_shadow_by_id(ids[3], told(h)).unwrap();
            drop(r);
            m.by_path[1] = Some(g);
            m.by_id[3] = Some(h);
            touch(1);
            touched[3] = true;
        }
        8 => {
            // removed and inserted at once: the insertion is what counts
            let (g, h) = (any("first"), any("second"));
            v.revise().notify_fs_changes(FileChangeSet { removes: vec![p[0].clone()], inserts: vec![(p[1].clone(), told(g)), (p[0].clone(), told(h))] });
            m.notified = [Some(h), Some(g)];
            touch(0);
            touch(1);
        }
        9 => v.evict(vsym::pick("threshold", 2)),
        _ => v.reset_mapping(),
    }
    touched
}
const ALL: [usize; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
/// Those that leave the disk alone.
const LAYERS: [usize; 10] = [0, 1, 2, 3, 4, 6, 7, 8, 9, 10];

fn fresh() -> (Vfs<Disk>, Model, [FileId; 4]) {
    vfs::start(vfs::State::new());
    *DISK.lock().unwrap() = [Some(vsym::u8("disk")), None];
    (Vfs::new(Arc::new(Roots), Disk), Model::default(), ids())
}
fn reads(n: usize) {
    let (mut v, mut m, ids) = fresh();
    for _ in 0..n {
        match vsym::pick("before", 3) {
            0 => (),
            1 => read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it"),
            _ => drop(v.read(ids[1])),
        }
        change(&mut v, &mut m, &ids, &ALL);
    }
    read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it");
    sources(&v, &ids, &m.wants());
    let shadowed: Vec<_> = (0..2).filter(|n| m.by_path[*n].is_some()).collect();
    vsym::check(v.shadow_paths().len() == shadowed.len() && shadowed.iter().all(|n| v.shadow_paths().contains(&paths()[*n])), "the shadowed paths are listed");
    let by_id: Vec<_> = (0..4).filter(|n| m.by_id[*n].is_some()).collect();
    vsym::check(v.shadow_ids().len() == by_id.len() && by_id.iter().all(|n| v.shadow_ids().contains(&ids[*n])), "the shadowed ids are listed");
    vsym::cover("read");
}
/// Changes of the layers, with reads between them.
#[no_mangle]
pub extern "C" fn vs_v_read() {
    reads(2);
}
#[no_mangle]
pub extern "C" fn vs_v_read_more() {
    reads(3);
}

/// A snapshot reads what was there when it was taken.
fn snaps(n: usize) {
    let (mut v, mut m, ids) = fresh();
    let at = vsym::pick("snapshot", n);
    let mut snap = None;
    for k in 0..n {
        match vsym::pick("before", 3) {
            0 => (),
            1 => read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it"),
            _ => drop(v.read(ids[1])),
        }
        if at == k {
            let s = if vsym::bool("fork") { v.fork() } else { v.snapshot() };
            snap = Some((s, m.wants()));
        }
        change(&mut v, &mut m, &ids, &LAYERS);
    }
    let (s, want) = snap.unwrap();
    if vsym::bool("snapshot first") {
        read_all(&s, &ids, &want, "a snapshot reads as it was");
        read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it, whatever a snapshot reads");
    } else {
        read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it, whatever a snapshot reads");
        read_all(&s, &ids, &want, "a snapshot reads as it was");
    }
    vsym::cover("read");
}
#[no_mangle]
pub extern "C" fn vs_v_snap() {
    snaps(2);
}
#[no_mangle]
pub extern "C" fn vs_v_snap_more() {
    snaps(3);
}

/// A compilation reads a file through its snapshot while the layers change.
#[no_mangle]
pub extern "C" fn vs_v_race() {
    let (mut v, mut m, ids) = fresh();
    if vsym::bool("known") {
        v.revise().remove_shadow_by_id(ids[0]);
    }
    let s = v.snapshot();
    let want = m.wants();
    let id = ids[0];
    let t = std::thread::spawn(move || {
        let got = s.read(id);
        vsym::check(same(&got, want[0]), "a snapshot reads as it was");
        got
    });
    change(&mut v, &mut m, &ids, &[0, 2, 4]);
    let early = vsym::bool("read while it reads");
    if early {
        read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it, whatever a snapshot reads");
    }
    t.join().unwrap().ok();
    read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it, whatever a snapshot reads");
    change(&mut v, &mut m, &ids, &[0, 4]);
    read_all(&v, &ids, &m.wants(), "a later change is seen, whatever a snapshot read");
    vsym::cover("read");
}

/// A compilation is clean only if what it read has not changed.
fn clean(race: bool) {
    let (mut v, mut m, ids) = fresh();
    if vsym::bool("before") {
        change(&mut v, &mut m, &ids, if race { &[3] } else { &ALL[..8] });
    }
    let s = Arc::new(v.snapshot());
    let was = m.wants();
    // it reads one file now, or after a change
    let n = if race { 0 } else { vsym::pick("read", 4) };
    let late = !race && vsym::bool("late");
    let id = ids[n];
    let rev = s.revision().get();
    let mut t = if race {
        let s = s.clone();
        Some(std::thread::spawn(move || drop(s.read(id))))
    } else {
        if !late {
            let _ = s.read(id);
        }
        None
    };
        for k in 0..2 {
        let kinds: &[usize] = if race {
            if k == 0 { &[7, 4] } else { &[4, 0, 5] }
        } else if late && k == 0 {
            &LAYERS
        } else {
            &ALL
        };
        change(&mut v, &mut m, &ids, kinds);
        if late && k == 0 {
            let _ = s.read(id);
        }
        if vsym::bool("read again") {
            let got = v.read(ids[n]);
            vsym::check(same(&got, m.want(n)), "a file reads as the uppermost layer that has it");
        }
        if k == 0 && t.is_some() {
            let _ = t.take().unwrap().join();
        }
    }
    let clean = v.is_clean_compile(rev, &[id]);
    vsym::check(!clean || was[n] == m.want(n), "a compilation whose files changed is not clean");
    if clean {
        vsym::cover("clean");
    } else {
        vsym::cover("dirty");
    }
}
#[no_mangle]
pub extern "C" fn vs_v_clean() {
    clean(false);
}
/// The same, of a compilation that reads while the layers change.
#[no_mangle]
pub extern "C" fn vs_v_clean_race() {
    clean(true);
}
/// What nobody touched is clean: no compilation is needed.
#[no_mangle]
pub extern "C" fn vs_v_harmless() {
    let (mut v, mut m, ids) = fresh();
    change(&mut v, &mut m, &ids, &ALL);
    let s = v.snapshot();
    for id in ids {
        let _ = s.read(id);
    }
    let was = m.wants();
    let rev = s.revision().get();
    let mut touched = [false; 4];
    for _ in 0..2 {
        let t = change(&mut v, &mut m, &ids, &ALL[..9]);
        for n in 0..4 {
            touched[n] |= t[n];
        }
        if vsym::bool("read again") {
            let _ = v.read(ids[0]);
        }
    }
    for n in 0..4 {
        vsym::check(touched[n] || v.is_clean_compile(rev, &[ids[n]]), "a compilation is clean if its files were not touched");
        vsym::check(was[n] == m.want(n) || !v.is_clean_compile(rev, &[ids[2 - n.min(2)], ids[n]]), "one file that changed is enough");
    }
    vsym::cover("clean");
}

/// What the disk's own model remembers is forgotten when it is asked to; what
/// is above the disk stays.
#[no_mangle]
pub extern "C" fn vs_v_reset() {
    let (mut v, mut m, ids) = fresh();
    change(&mut v, &mut m, &ids, &ALL[..9]);
    read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it");
    DISK.lock().unwrap()[vsym::pick("file", 2)] = any("disk");
    if vsym::bool("all") {
        v.reset_all();
    } else {
        v.reset_access_model();
        v.reset_mapping();
    }
    vsym::check(RESETS.load(std::sync::atomic::Ordering::SeqCst) == 1, "resetting reaches what reads the disk");
    read_all(&v, &ids, &m.wants(), "a file reads as the uppermost layer that has it, once everything is reset");
    vsym::cover("reset");
}

/// The sources of a snapshot and of what comes after it share a cache.
#[no_mangle]
pub extern "C" fn vs_v_sources() {
    let (mut v, mut m, ids) = fresh();
    let mut snap = None;
    for k in 0..2 {
        if vsym::bool("read before") {
            sources(&v, &ids, &m.wants());
        }
        if k == 1 {
            snap = Some((v.snapshot(), m.wants()));
        }
        change(&mut v, &mut m, &ids, &[0, 2, 4]);
        match vsym::pick("cache", 4) {
            0 => drop(v.take_source_cache()),
            1 => (),
            n => v.clone_source_cache().evict(v.revision(), n - 2),
        }
    }
    let (s, want) = snap.unwrap();
    if vsym::bool("snapshot first") {
        sources(&s, &ids, &want);
        sources(&v, &ids, &m.wants());
    } else {
        sources(&v, &ids, &m.wants());
        sources(&s, &ids, &want);
    }
    vsym::cover("read");
}

/// The text of a file is its bytes without a mark.
#[no_mangle]
pub extern "C" fn vs_v_source() {
    let (mut v, _, ids) = fresh();
    for round in 0..2 {
        let n = vsym::pick("length", 4 + 1);
        let b = vsym::vec("content", n);
        v.revise().map_shadow(Path::new(PATHS[0]), FileSnapshot::from(Ok(Bytes::new(b.clone())))).unwrap();
        let text = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&b);
        let got = v.source(ids[0]);
        match std::str::from_utf8(text) {
            Ok(t) => vsym::check(got.as_ref().is_ok_and(|s| s.text() == t), "the source is the text without a mark"),
            Err(_) => vsym::check(got == Err(FileError::InvalidUtf8), "a file that is no text has no source"),
        }
        vsym::check(v.read(ids[0]).is_ok_and(|r| r[..] == b[..]), "the bytes of a file are as they are");
        if round == 1 {
            vsym::cover("read");
        }
    }
}
