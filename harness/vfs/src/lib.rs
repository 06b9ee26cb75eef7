//! A file system in memory behind the C library's functions.
//!
//! The code under test, the standard library and the crates it uses call
//! `open64`, `read`, `rename`, ...: the definitions here take their place, in
//! the symbolic run and in the native one. Until `start` every call goes to
//! the kernel; afterwards only the standard streams do.
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, MutexGuard};
mod calls;

pub type Ino = usize;
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File(Vec<u8>),
    /// The entries, without `.` and `..`, and the parent.
    Dir(Vec<(Vec<u8>, Ino)>, Ino),
    Link(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    /// Open files that hold a lock, and whether it is exclusive.
    pub locks: Vec<(usize, bool)>,
}
pub struct Open {
    pub ino: Ino,
    pub pos: usize,
    pub flags: i32,
    pub refs: usize,
    pub proc: u32,
}
/// What may go wrong.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// The call fails with this error.
    Err(i32),
    /// The call fails with any error that does not say what is there.
    Any,
    /// The process is killed before the call has an effect.
    Kill,
    /// The call transfers fewer bytes.
    Short,
}
pub struct State {
    pub inodes: Vec<Inode>,
    pub opens: Vec<Open>,
    pub fds: Vec<Option<usize>>,
    pub cwd: Ino,
    /// Whether permissions are ignored.
    pub root: bool,
    pub umask: u32,
    /// What `statfs` says the file system is.
    pub fs_type: i64,
    /// The faults that may still happen, and the calls they may happen in.
    pub budget: usize,
    pub faults: fn(&str) -> &'static [Fault],
    /// Faults that happened.
    pub hits: Vec<(&'static str, Fault)>,
    /// Called whenever the files have changed.
    pub observer: fn(&State),
    /// The processes that were killed.
    pub killed: Vec<u32>,
    /// The calls that were made.
    pub log: Vec<&'static str>,
    pub blocked: usize,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static WAIT: Condvar = Condvar::new();
static ON: AtomicBool = AtomicBool::new(false);
thread_local! { static PROC: Cell<u32> = const { Cell::new(0) }; }

/// The process this thread plays.
pub fn become_process(p: u32) {
    PROC.set(p);
}
pub fn no_faults(_: &str) -> &'static [Fault] {
    &[]
}

/// Any error of the system, except those that would be a lie about the files.
fn any_error() -> i32 {
    let e = vsym::u8("errno") as i32;
    vsym::assume((1..=133).contains(&e));
    const LIES: [i32; 9] = [
        libc::ENOENT, libc::ENOTDIR, libc::EISDIR, libc::EEXIST, libc::ENOTEMPTY, libc::ELOOP, libc::EINVAL, libc::EBADF, libc::ENAMETOOLONG,
    ];
    for l in LIES {
        vsym::assume(e != l);
    }
    e
}

impl State {
    pub fn new() -> State {
        State {
            inodes: vec![Inode { kind: Kind::Dir(vec![], 0), mode: 0o755, locks: vec![] }],
            opens: vec![],
            fds: vec![],
            cwd: 0,
            root: false,
            umask: 0o022,
            fs_type: 0xEF53,
            budget: 0,
            faults: no_faults,
            hits: vec![],
            observer: |_| (),
            killed: vec![],
            log: vec![],
            blocked: 0,
        }
    }
    fn add(&mut self, dir: Ino, name: &[u8], kind: Kind, mode: u32) -> Ino {
        let n = self.inodes.len();
        let kind = match kind {
            Kind::Dir(e, _) => Kind::Dir(e, dir),
            k => k,
        };
        self.inodes.push(Inode { kind, mode, locks: vec![] });
        self.entries(dir).unwrap().push((name.to_vec(), n));
        n
    }
    pub fn entries(&mut self, dir: Ino) -> Result<&mut Vec<(Vec<u8>, Ino)>, i32> {
        match &mut self.inodes[dir].kind {
            Kind::Dir(e, _) => Ok(e),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn list(&self, dir: Ino) -> Result<&[(Vec<u8>, Ino)], i32> {
        match &self.inodes[dir].kind {
            Kind::Dir(e, _) => Ok(e),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn may(&self, ino: Ino, want: u32) -> Result<(), i32> {
        if self.root || self.inodes[ino].mode & want == want {
            Ok(())
        } else {
            Err(libc::EACCES)
        }
    }
    fn get(&self, dir: Ino, name: &[u8]) -> Result<Option<Ino>, i32> {
        let Kind::Dir(e, up) = &self.inodes[dir].kind else { return Err(libc::ENOTDIR) };
        self.may(dir, 0o100)?;
        if name == b"." {
            return Ok(Some(dir));
        }
        if name == b".." {
            return Ok(Some(*up));
        }
        Ok(e.iter().find(|(n, _)| n == name).map(|(_, i)| *i))
    }
    /// The directory the last name of a path is in, that name, and what it
    /// stands for.
    pub fn walk(&self, base: Ino, path: &[u8], follow: bool) -> Result<(Ino, Vec<u8>, Option<Ino>), i32> {
        self.walk_links(base, path, follow, 0)
    }
    fn walk_links(&self, base: Ino, path: &[u8], follow: bool, depth: usize) -> Result<(Ino, Vec<u8>, Option<Ino>), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 8 {
            return Err(libc::ELOOP);
        }
        let mut at = if path[0] == b'/' { 0 } else { base };
        let slash = path[path.len() - 1] == b'/';
        let mut names: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|n| !n.is_empty()).collect();
        let Some(last) = names.pop() else { return Ok((0, b".".to_vec(), Some(0))) };
        for n in names {
            let next = self.get(at, n)?.ok_or(libc::ENOENT)?;
            at = match &self.inodes[next].kind {
                Kind::Link(t) => self.walk_links(at, t, true, depth + 1)?.2.ok_or(libc::ENOENT)?,
                _ => next,
            };
        }
        let found = self.get(at, last)?;
        if let Some(i) = found {
            match &self.inodes[i].kind {
                Kind::Link(t) if follow || slash => return self.walk_links(at, t, true, depth + 1),
                Kind::Dir(..) => (),
                _ if slash => return Err(libc::ENOTDIR),
                _ => (),
            }
        }
        Ok((at, last.to_vec(), found))
    }
    pub fn find(&self, path: &str) -> Option<&Inode> {
        Some(&self.inodes[self.walk(self.cwd, path.as_bytes(), true).ok()?.2?])
    }
    pub fn lfind(&self, path: &str) -> Option<&Inode> {
        Some(&self.inodes[self.walk(self.cwd, path.as_bytes(), false).ok()?.2?])
    }
    pub fn content(&self, path: &str) -> Option<&[u8]> {
        match &self.find(path)?.kind {
            Kind::File(d) => Some(d),
            _ => None,
        }
    }
    pub fn names(&self, path: &str) -> Vec<&[u8]> {
        match self.find(path).map(|i| &i.kind) {
            Some(Kind::Dir(e, _)) => e.iter().map(|(n, _)| &n[..]).collect(),
            _ => vec![],
        }
    }
    /// Puts something in the file system; directories above it must exist.
    pub fn put(&mut self, path: &str, kind: Kind, mode: u32) -> Ino {
        let was = self.root;
        self.root = true;
        let (dir, name, old) = self.walk(0, path.as_bytes(), false).unwrap();
        self.root = was;
        assert!(old.is_none());
        self.add(dir, &name, kind, mode)
    }
    pub fn file(&mut self, path: &str, data: &[u8]) -> Ino {
        self.put(path, Kind::File(data.to_vec()), 0o644)
    }
    pub fn dir(&mut self, path: &str) -> Ino {
        self.put(path, Kind::Dir(vec![], 0), 0o755)
    }
    pub fn link(&mut self, path: &str, to: &str) -> Ino {
        self.put(path, Kind::Link(to.as_bytes().to_vec()), 0o777)
    }
    pub fn dead(&self) -> bool {
        self.killed.contains(&PROC.get())
    }
    /// A call is made: lets a fault happen.
    fn gate(&mut self, call: &'static str) -> Result<(), i32> {
        if self.dead() {
            return Err(libc::EIO);
        }
        self.log.push(call);
        if self.budget == 0 {
            return Ok(());
        }
        let all = (self.faults)(call);
        if all.is_empty() {
            return Ok(());
        }
        let k = vsym::pick(call, all.len() + 1);
        if k == 0 {
            return Ok(());
        }
        self.budget -= 1;
        let fault = match all[k - 1] {
            Fault::Any => Fault::Err(any_error()),
            f => f,
        };
        self.hits.push((call, fault));
        match fault {
            Fault::Err(e) => Err(e),
            Fault::Any => unreachable!(),
            Fault::Kill => {
                self.kill(PROC.get());
                Err(libc::EIO)
            }
            Fault::Short => Err(-1),
        }
    }
    /// The process is gone: it has no effect any more, and its locks are free.
    pub fn kill(&mut self, p: u32) {
        self.killed.push(p);
        for o in 0..self.opens.len() {
            if self.opens[o].proc == p {
                self.unlock(o);
            }
        }
        WAIT.notify_all();
    }
    fn unlock(&mut self, o: usize) {
        let i = self.opens[o].ino;
        self.inodes[i].locks.retain(|l| l.0 != o);
    }
    fn changed(&self) {
        (self.observer)(self)
    }
    fn open_of(&self, fd: i32) -> Result<usize, i32> {
        let k = (fd as usize).wrapping_sub(FIRST);
        self.fds.get(k).copied().flatten().ok_or(libc::EBADF)
    }
}
impl Default for State {
    fn default() -> Self {
        Self::new()
    }
}

/// The first descriptor of a file here; the kernel's are below.
const FIRST: usize = 1000;

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}
/// From now on the files are these.
pub fn start(s: State) {
    *lock() = Some(s);
    ON.store(true, Relaxed);
}
/// Looks at the files, or changes them.
pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    f(lock().as_mut().unwrap())
}
/// From now on calls go to the kernel again.
pub fn stop() -> State {
    ON.store(false, Relaxed);
    lock().take().unwrap()
}
