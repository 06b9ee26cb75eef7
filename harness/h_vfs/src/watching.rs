//! What the file watcher tells about files that change, vanish and come back.
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use std::task::{Context, Waker};

use notify::event::{DataChange, EventKind, MetadataKind, ModifyKind, RemoveKind, RenameMode};
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage, UpstreamUpdateEvent};
use tinymist_vfs::system::SystemAccessModel;
use tinymist_vfs::{FileSnapshot, PathAccessModel};
use tokio::sync::mpsc::{unbounded_channel, UnboundedSender};
use vfs::{Kind, State};

#[path = "/repo/crates/tinymist-project/src/watch.rs"]
#[allow(dead_code, unused)]
mod watch;

type ImmutPath = Arc<Path>;

/// The clock of the actor is the harness's.
///
/// # Safety
/// `ts` is valid.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let ms = tokio::NOW.load(Relaxed);
    (*ts).tv_sec = (ms / 1000) as i64;
    (*ts).tv_nsec = (ms % 1000) as i64 * 1_000_000;
    0
}

static TOLD: Mutex<Vec<FilesystemEvent>> = Mutex::new(Vec::new());

struct Consumer {
    task: Pin<Box<dyn Future<Output = ()>>>,
    inbox: UnboundedSender<NotifyMessage>,
    deps: Vec<ImmutPath>,
    /// What was told of each file.
    told: [Option<FileSnapshot>; 2],
    /// How often something was told.
    count: usize,
    upstream: usize,
}
const PATHS: [&str; 2] = ["/p", "/q"];
fn path(n: usize) -> &'static Path {
    Path::new(PATHS[n])
}
impl Consumer {
    fn new() -> Self {
        let (inbox, rx) = unbounded_channel();
        let task = Box::pin(watch::NotifyActor::new(|e| TOLD.lock().unwrap().push(e)).run(rx));
        Consumer { task, inbox, deps: vec![path(0).into()], told: [None, None], count: 0, upstream: 0 }
    }
    fn sync(&mut self) {
        let _ = self.inbox.send(NotifyMessage::SyncDependency(Box::new(self.deps.clone())));
    }
    fn upstream(&mut self, n: usize) {
        let _ = self.inbox.send(NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent { invalidates: vec![path(n).into()], opaque: Box::new(7u8) }));
    }
    /// Lets the actor work until it waits; whether it told something.
    fn turn(&mut self) -> bool {
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            vsym::check(self.task.as_mut().poll(&mut cx).is_pending(), "the watcher goes on");
            let left = tokio::turn();
            if tokio::turn() == left {
                break;
            }
        }
        vsym::check(self.task.as_mut().poll(&mut cx).is_pending(), "the watcher goes on");
        let all = std::mem::take(&mut *TOLD.lock().unwrap());
        let mut news = false;
        for e in all {
            let (changes, upstream) = e.split();
            if let Some(u) = upstream {
                vsym::check(u.opaque.downcast_ref::<u8>() == Some(&7), "an update from upstream comes back as it was");
                self.upstream += 1;
            }
            for p in changes.removes {
                let n = PATHS.iter().position(|q| Path::new(q) == &*p);
                self.told[n.unwrap()] = None;
            }
            for (p, s) in changes.inserts {
                let n = PATHS.iter().position(|q| Path::new(q) == &*p);
                self.told[n.unwrap()] = Some(s);
                self.count += 1;
                news = true;
            }
        }
        news
    }
    fn wait(&mut self, ms: u64) -> bool {
        tokio::NOW.fetch_add(ms, Relaxed);
        self.turn()
    }
    /// Lets time pass until nothing is told any more; the consumer asks for
    /// the files again whenever something was.
    fn settle(&mut self, compiles: bool) {
        for _ in 0..6 {
            let mut news = self.turn();
            news |= self.wait(60);
            news |= self.wait(60);
            if !news {
                return;
            }
            if compiles {
                self.sync();
            }
        }
        vsym::check(false, "files that stay as they are are not told for ever");
    }
    fn knows(&self, n: usize) -> bool {
        let now = FileSnapshot::from(SystemAccessModel.content(path(n)));
        self.told[n].as_ref().is_some_and(|t| *t == now)
    }
}

/// Changes a file; whether the watcher can know.
fn change(n: usize, kind: usize) -> bool {
    let p = path(n);
    let watched = notify::is_watched(p);
    let there = vfs::with(|s| s.find(PATHS[n]).is_some());
    let put = |data: Vec<u8>, replace: bool| {
        vfs::with(|s| {
            if replace && there {
                s.entries(0).unwrap().retain(|e| e.0 != PATHS[n].as_bytes()[1..]);
            }
            if replace || !there {
                s.file(PATHS[n], &data);
            } else {
                let i = s.walk(0, PATHS[n].as_bytes(), true).unwrap().2.unwrap();
                s.inodes[i].kind = Kind::File(data);
            }
        })
    };
    let what = match kind {
        0 => {
            put(vec![vsym::u8("content")], false);
            EventKind::Modify(ModifyKind::Data(DataChange::Content))
        }
        1 => {
            put(vec![], false);
            EventKind::Modify(ModifyKind::Data(DataChange::Any))
        }
        2 => {
            vfs::with(|s| s.entries(0).unwrap().retain(|e| e.0 != PATHS[n].as_bytes()[1..]));
            notify::gone(p);
            if vsym::bool("renamed") {
                EventKind::Modify(ModifyKind::Name(RenameMode::From))
            } else {
                EventKind::Remove(RemoveKind::File)
            }
        }
        3 => {
            put(vec![vsym::u8("content")], true);
            notify::gone(p);
            EventKind::Remove(RemoveKind::File)
        }
        _ => {
            if there {
                vfs::with(|s| {
                    let i = s.walk(0, PATHS[n].as_bytes(), true).unwrap().2.unwrap();
                    s.inodes[i].mode ^= 0o400;
                });
            }
            EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
        }
    };
    if watched {
        notify::emit(what, p);
    }
    watched
}
fn begin(order: bool) -> Consumer {
    let mut s = State::new();
    match vsym::pick("at first", 3) {
        0 => (),
        1 => drop(s.file(PATHS[0], b"")),
        _ => drop(s.file(PATHS[0], &[vsym::u8("first")])),
    }
    vfs::start(s);
    if order {
        tokio::FIRST.store(vsym::pick("first", 3), Relaxed);
    }
    let mut c = Consumer::new();
    c.sync();
    c.turn();
    vsym::check(c.knows(0), "a file that is asked for is told");
    c
}
fn history(n: usize, order: bool) {
    let mut c = begin(order);
    let compiles = vsym::bool("compiles");
    let mut seen = true;
    for _ in 0..n {
        match vsym::pick("step", 10) {
            k @ 0..5 => seen = change(0, k),
            5 => {
                c.sync();
                seen = true;
            }
            6 => {
                let n = vsym::pick("upstream", 2);
                c.upstream(n);
                seen |= n == 0;
            }
            7 => drop(c.wait(60)),
            8 => drop(c.wait(20)),
            _ => {
                // it is changed twice before anyone looks
                seen = change(0, [0, 1, 2][vsym::pick("first change", 3)]);
                let again = change(0, 3);
                seen |= again;
            }
        }
        if vsym::bool("look") && c.turn() && compiles {
            c.sync();
        }
    }
    c.settle(compiles);
    if seen {
        vsym::check(c.knows(0), "what was told of a file is what it has");
        vsym::cover("seen");
    } else {
        vsym::cover("unseen");
    }
    let upstream = c.upstream;
    // whatever happened, from now on changes are noticed
    c.sync();
    c.settle(true);
    vsym::check(c.knows(0), "what was told of a file is what it has, once it is asked for");
    let readable = vfs::with(|s| s.find(PATHS[0]).is_some());
    vsym::check(notify::is_watched(path(0)) == readable, "a file that is asked for is watched");
    c.upstream(1);
    c.settle(false);
    vsym::check(c.upstream == upstream + 1, "every update from upstream comes back once");
    vsym::check(c.knows(1), "an update from upstream tells the file it names");
    if readable {
        vsym::check(notify::is_watched(path(0)), "a file stays watched while others are updated");
        change(0, 0);
        c.settle(false);
        vsym::check(c.knows(0), "a later change of a file is told");
        vsym::cover("later");
    }
}
#[no_mangle]
pub extern "C" fn vs_w_watch() {
    history(2, false);
}
#[no_mangle]
pub extern "C" fn vs_w_watch_more() {
    history(3, true);
}
/// A file flickers: it is emptied and written in quick succession.
#[no_mangle]
pub extern "C" fn vs_w_flicker() {
    let mut s = State::new();
    s.file(PATHS[0], &[vsym::u8("first")]);
    vfs::start(s);
    let mut c = Consumer::new();
    c.sync();
    c.turn();
    for _ in 0..4 {
        match vsym::pick("step", 5) {
            0 => drop(change(0, 0)),
            1 => drop(change(0, 1)),
            2 => drop(change(0, 4)),
            3 => drop(c.wait(60)),
            _ => drop(c.wait(20)),
        }
        if c.turn() {
            let said = c.told[0].as_ref().unwrap();
            let text = said.content().is_ok_and(|b| !b.is_empty());
            vsym::check(!text || c.knows(0), "new content is told at once");
        }
    }
    c.settle(false);
    vsym::check(c.knows(0), "what was told of a file is what it has");
    vsym::cover("seen");
}
/// The files that are asked for change, and files are asked for twice.
#[no_mangle]
pub extern "C" fn vs_w_deps() {
    deps(2);
}
#[no_mangle]
pub extern "C" fn vs_w_deps_more() {
    deps(3);
}
fn deps(n: usize) {
    let mut s = State::new();
    s.file(PATHS[0], &[vsym::u8("first")]);
    if vsym::bool("both") {
        s.file(PATHS[1], &[vsym::u8("second")]);
    }
    vfs::start(s);
    let mut c = Consumer::new();
    for _ in 0..n {
        let sets: [&[usize]; 5] = [&[], &[0], &[1], &[0, 1], &[0, 0]];
        let set = sets[vsym::pick("files", 5)];
        c.deps = set.iter().map(|n| path(*n).into()).collect();
        c.sync();
        c.settle(vsym::bool("compiles"));
        for n in 0..2 {
            let there = vfs::with(|s| s.find(PATHS[n]).is_some());
            vsym::check(notify::is_watched(path(n)) == (there && set.contains(&n)), "the files that are asked for, and no others, are watched");
            vsym::check(!set.contains(&n) || c.knows(n), "a file that is asked for is told");
        }
        match vsym::pick("change", 4) {
            0 => (),
            1 => drop(change(0, 2)),
            2 => drop(change(0, 3)),
            _ => drop(change(1, 0)),
        }
        // the news is there before files are asked for again
        c.turn();
    }
    vsym::cover("seen");
}
/// A file nobody asks for any more is given up in the end, and no other is.
#[no_mangle]
pub extern "C" fn vs_w_old() {
    let mut s = State::new();
    s.file(PATHS[0], &[vsym::u8("first")]);
    if vsym::bool("both") {
        s.file(PATHS[1], &[vsym::u8("second")]);
    }
    vfs::start(s);
    *notify::WORKS.lock().unwrap() = vsym::bool("works");
    let mut c = Consumer::new();
    c.deps = vec![path(0).into(), path(1).into()];
    c.sync();
    c.turn();
    c.deps = vec![path(1).into()];
    let upstream = vsym::bool("upstream");
    for _ in 0..40 {
        if upstream {
            c.upstream(1);
        } else {
            c.sync();
        }
        c.turn();
        vsym::check(c.knows(1), "a file that is asked for is not given up");
    }
    if upstream {
        vsym::check(c.knows(0) && c.knows(1), "updates from upstream give up no file");
    } else {
        vsym::check(c.told[0].is_none(), "a file nobody asks for is given up");
        vsym::check(c.knows(1), "a file that is asked for is not given up");
    }
    change(0, 0);
    change(1, 0);
    c.deps = vec![path(0).into(), path(1).into()];
    c.sync();
    c.turn();
    vsym::check(c.knows(0) && c.knows(1), "a file that is asked for is told");
    vsym::cover("seen");
}
