//! The functions of the C library.
use super::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t, stat64 as Stat};
use std::ffi::CStr;
use std::ptr::null_mut;

fn on(fd: c_int) -> bool {
    ON.load(Relaxed) && (fd < 0 || fd as usize >= FIRST)
}
unsafe fn text<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
unsafe fn fail(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn int(r: Result<c_int, i32>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => fail(e),
    }
}
fn call<T>(name: &'static str, f: impl FnOnce(&mut State) -> Result<T, i32>) -> Result<T, i32> {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.gate(name)?;
    f(s)
}
/// As `call`, for something that changes the files.
fn change<T>(name: &'static str, f: impl FnOnce(&mut State) -> Result<T, i32>) -> Result<T, i32> {
    call(name, |s| {
        let r = f(s)?;
        s.changed();
        Ok(r)
    })
}
fn base(s: &State, dir: c_int) -> Result<Ino, i32> {
    if dir == libc::AT_FDCWD {
        Ok(s.cwd)
    } else {
        Ok(s.opens[s.open_of(dir)?].ino)
    }
}
fn new_fd(s: &mut State, o: usize) -> c_int {
    s.opens[o].refs += 1;
    let k = s.fds.iter().position(|f| f.is_none()).unwrap_or_else(|| {
        s.fds.push(None);
        s.fds.len() - 1
    });
    s.fds[k] = Some(o);
    (FIRST + k) as c_int
}
fn open_at(dir: c_int, path: &[u8], flags: c_int, mode: c_uint) -> Result<c_int, i32> {
    let creating = flags & libc::O_CREAT != 0;
    call(if creating { "create" } else { "open" }, |s| {
        let b = base(s, dir)?;
        let excl = creating && flags & libc::O_EXCL != 0;
        let (d, name, found) = s.walk(b, path, !excl && flags & libc::O_NOFOLLOW == 0)?;
        let ino = match found {
            Some(_) if excl => return Err(libc::EEXIST),
            Some(i) => {
                let acc = flags & libc::O_ACCMODE;
                if acc != libc::O_WRONLY {
                    s.may(i, 0o400)?;
                }
                match &s.inodes[i].kind {
                    Kind::Link(_) => return Err(libc::ELOOP),
                    Kind::Dir(..) if acc != libc::O_RDONLY || creating => return Err(libc::EISDIR),
                    Kind::File(_) if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                    _ => (),
                }
                if acc != libc::O_RDONLY {
                    s.may(i, 0o200)?;
                }
                if flags & libc::O_TRUNC != 0 {
                    if let Kind::File(f) = &mut s.inodes[i].kind {
                        f.clear();
                        s.changed();
                    }
                }
                i
            }
            None if creating => {
                s.may(d, 0o300)?;
                let m = mode & 0o7777 & !s.umask;
                let i = s.add(d, &name, Kind::File(vec![]), m);
                s.changed();
                i
            }
            None => return Err(libc::ENOENT),
        };
        s.opens.push(Open { ino, pos: 0, flags, refs: 0, proc: PROC.get() });
        let o = s.opens.len() - 1;
        Ok(new_fd(s, o))
    })
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_open, path, flags, mode) as c_int;
    }
    int(open_at(libc::AT_FDCWD, text(path), flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int;
    }
    int(open_at(dir, text(path), flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}
fn drop_fd(s: &mut State, fd: c_int) -> Result<c_int, i32> {
    let o = s.open_of(fd)?;
    s.fds[fd as usize - FIRST] = None;
    s.opens[o].refs -= 1;
    if s.opens[o].refs == 0 {
        s.unlock(o);
        WAIT.notify_all();
    }
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    int(drop_fd(lock().as_mut().unwrap(), fd))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    int((|| {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        let o = s.open_of(fd)?;
        match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => Ok(new_fd(s, o)),
            libc::F_GETFL => Ok(s.opens[o].flags),
            _ => Ok(0),
        }
    })())
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !on(fd) {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let mut n = n;
    match s.gate("read") {
        Err(-1) => n = n.min(1),
        Err(e) => return fail(e) as ssize_t,
        Ok(()) => (),
    }
    let Ok(o) = s.open_of(fd) else { return fail(libc::EBADF) as ssize_t };
    let Kind::File(d) = &s.inodes[s.opens[o].ino].kind else { return fail(libc::EISDIR) as ssize_t };
    if s.opens[o].flags & libc::O_ACCMODE == libc::O_WRONLY {
        return fail(libc::EBADF) as ssize_t;
    }
    let from = s.opens[o].pos.min(d.len());
    let k = n.min(d.len() - from);
    std::ptr::copy_nonoverlapping(d.as_ptr().add(from), buf as *mut u8, k);
    s.opens[o].pos = from + k;
    k as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !on(fd) {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let mut n = n;
    match s.gate("write") {
        Err(-1) => n = n.min(1),
        Err(e) => return fail(e) as ssize_t,
        Ok(()) => (),
    }
    let Ok(o) = s.open_of(fd) else { return fail(libc::EBADF) as ssize_t };
    let (ino, flags) = (s.opens[o].ino, s.opens[o].flags);
    if flags & libc::O_ACCMODE == libc::O_RDONLY {
        return fail(libc::EBADF) as ssize_t;
    }
    // a process may be killed after any byte
    for i in 0..n {
        let Kind::File(d) = &mut s.inodes[ino].kind else { return fail(libc::EISDIR) as ssize_t };
        let pos = if flags & libc::O_APPEND != 0 { d.len() } else { s.opens[o].pos };
        while d.len() <= pos {
            d.push(0);
        }
        d[pos] = *(buf as *const u8).add(i);
        s.opens[o].pos = pos + 1;
        s.changed();
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !on(fd) {
        return libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t;
    }
    let mut sum = 0;
    for i in 0..n as usize {
        let p = &*v.add(i);
        let k = write(fd, p.iov_base, p.iov_len);
        if k < 0 {
            return if sum > 0 { sum } else { -1 };
        }
        sum += k;
        if (k as usize) < p.iov_len {
            break;
        }
    }
    sum
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !on(fd) {
        return libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if let Err(e) = s.gate("lseek") {
        return fail(e) as off64_t;
    }
    let Ok(o) = s.open_of(fd) else { return fail(libc::EBADF) as off64_t };
    let len = match &s.inodes[s.opens[o].ino].kind {
        Kind::File(d) => d.len() as i64,
        _ => 0,
    };
    let at = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => s.opens[o].pos as i64 + off,
        libc::SEEK_END => len + off,
        _ => -1,
    };
    if at < 0 {
        return fail(libc::EINVAL) as off64_t;
    }
    s.opens[o].pos = at as usize;
    at
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_ftruncate, fd, n) as c_int;
    }
    int(change("ftruncate", |s| {
        let o = s.open_of(fd)?;
        if s.opens[o].flags & libc::O_ACCMODE == libc::O_RDONLY || n < 0 {
            return Err(libc::EINVAL);
        }
        let i = s.opens[o].ino;
        match &mut s.inodes[i].kind {
            Kind::File(d) => d.resize(n as usize, 0),
            _ => return Err(libc::EINVAL),
        }
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    int(call("fsync", |s| s.open_of(fd).map(|_| 0)))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_fchmod, fd, mode) as c_int;
    }
    int(change("chmod", |s| {
        let o = s.open_of(fd)?;
        let i = s.opens[o].ino;
        s.inodes[i].mode = mode & 0o7777;
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_chmod, path, mode) as c_int;
    }
    int(change("chmod", |s| {
        let i = s.walk(s.cwd, text(path), true)?.2.ok_or(libc::ENOENT)?;
        s.inodes[i].mode = mode & 0o7777;
        Ok(0)
    }))
}
fn nlink(s: &State, i: Ino) -> u64 {
    s.inodes.iter().filter_map(|n| if let Kind::Dir(e, _) = &n.kind { Some(e) } else { None }).flatten().filter(|e| e.1 == i).count() as u64
}
fn type_mode(s: &State, i: Ino) -> u32 {
    let n = &s.inodes[i];
    n.mode
        | match n.kind {
            Kind::File(_) => libc::S_IFREG,
            Kind::Dir(..) => libc::S_IFDIR,
            Kind::Link(_) => libc::S_IFLNK,
        }
}
fn size(s: &State, i: Ino) -> usize {
    match &s.inodes[i].kind {
        Kind::File(d) => d.len(),
        Kind::Link(d) => d.len(),
        Kind::Dir(..) => 4096,
    }
}
unsafe fn fill(s: &State, i: Ino, b: *mut Stat) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).st_mode = type_mode(s, i);
    (*b).st_ino = i as u64 + 1;
    (*b).st_dev = 77;
    (*b).st_nlink = nlink(s, i);
    (*b).st_size = size(s, i) as i64;
    (*b).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut Stat) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_fstat, fd, b) as c_int;
    }
    int(call("fstat", |s| {
        let o = s.open_of(fd)?;
        fill(s, s.opens[o].ino, b);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, b: *mut Stat) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_stat, path, b) as c_int;
    }
    int(call("stat", |s| {
        let i = s.walk(s.cwd, text(path), true)?.2.ok_or(libc::ENOENT)?;
        fill(s, i, b);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, b: *mut Stat) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_lstat, path, b) as c_int;
    }
    int(call("stat", |s| {
        let i = s.walk(s.cwd, text(path), false)?.2.ok_or(libc::ENOENT)?;
        fill(s, i, b);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, b: *mut Stat, flags: c_int) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_newfstatat, dir, path, b, flags) as c_int;
    }
    int(call("stat", |s| {
        let at = base(s, dir)?;
        let i = s.walk(at, text(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)?.2.ok_or(libc::ENOENT)?;
        fill(s, i, b);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if !ON.load(Relaxed) || (flags & libc::AT_EMPTY_PATH != 0 && dir >= 0 && (dir as usize) < FIRST) {
        return libc::syscall(libc::SYS_statx, dir, path, flags, mask, b) as c_int;
    }
    if b.is_null() {
        // the standard library asks whether the call is there
        return fail(libc::EFAULT);
    }
    int(call("stat", |s| {
        let p = text(path);
        let i = if p.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
            base(s, dir)?
        } else {
            let at = base(s, dir)?;
            s.walk(at, p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?.2.ok_or(libc::ENOENT)?
        };
        std::ptr::write_bytes(b, 0, 1);
        (*b).stx_mask = libc::STATX_BASIC_STATS;
        (*b).stx_mode = type_mode(s, i) as u16;
        (*b).stx_ino = i as u64 + 1;
        (*b).stx_dev_minor = 77;
        (*b).stx_nlink = nlink(s, i) as u32;
        (*b).stx_size = size(s, i) as u64;
        (*b).stx_blksize = 4096;
        Ok(0)
    }))
}
fn above(s: &State, mut d: Ino, what: Ino) -> bool {
    loop {
        if d == what {
            return true;
        }
        let Kind::Dir(_, up) = s.inodes[d].kind else { return false };
        if up == d {
            return false;
        }
        d = up;
    }
}
fn rename_at(a: c_int, old: &[u8], b: c_int, new: &[u8], flags: c_uint) -> Result<c_int, i32> {
    change("rename", |s| {
        let (fb, tb) = (base(s, a)?, base(s, b)?);
        let (fd, fname, from) = s.walk(fb, old, false)?;
        let from = from.ok_or(libc::ENOENT)?;
        let (td, tname, to) = s.walk(tb, new, false)?;
        s.may(fd, 0o300)?;
        s.may(td, 0o300)?;
        if fname == b"." || fname == b".." || tname == b"." || tname == b".." {
            return Err(libc::EBUSY);
        }
        let isdir = matches!(s.inodes[from].kind, Kind::Dir(..));
        if isdir && above(s, td, from) {
            return Err(libc::EINVAL);
        }
        if let Some(t) = to {
            if flags & 1 != 0 {
                return Err(libc::EEXIST);
            }
            if t == from {
                return Ok(0);
            }
            match &s.inodes[t].kind {
                Kind::Dir(e, _) if isdir && !e.is_empty() => return Err(libc::ENOTEMPTY),
                Kind::Dir(..) if !isdir => return Err(libc::EISDIR),
                Kind::Dir(..) => (),
                _ if isdir => return Err(libc::ENOTDIR),
                _ => (),
            }
            s.entries(td)?.retain(|e| e.0 != tname);
        } else if isdir && new.ends_with(b"/") || !new.ends_with(b"/") {
        } else {
            return Err(libc::ENOTDIR);
        }
        s.entries(fd)?.retain(|e| e.0 != fname);
        s.entries(td)?.push((tname, from));
        if let Kind::Dir(_, up) = &mut s.inodes[from].kind {
            *up = td;
        }
        Ok(0)
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(old: *const c_char, new: *const c_char) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_rename, old, new) as c_int;
    }
    int(rename_at(libc::AT_FDCWD, text(old), libc::AT_FDCWD, text(new), 0))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(a: c_int, old: *const c_char, b: c_int, new: *const c_char) -> c_int {
    renameat2(a, old, b, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: c_uint) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_renameat2, a, old, b, new, flags) as c_int;
    }
    int(rename_at(a, text(old), b, text(new), flags))
}
fn unlink_at(dir: c_int, path: &[u8], rmdir: bool) -> Result<c_int, i32> {
    change(if rmdir { "rmdir" } else { "unlink" }, |s| {
        let b = base(s, dir)?;
        let (d, name, i) = s.walk(b, path, false)?;
        let i = i.ok_or(libc::ENOENT)?;
        match &s.inodes[i].kind {
            Kind::Dir(..) if !rmdir => return Err(libc::EISDIR),
            Kind::Dir(e, _) if !e.is_empty() => return Err(libc::ENOTEMPTY),
            Kind::Dir(..) => (),
            _ if rmdir => return Err(libc::ENOTDIR),
            _ => (),
        }
        if name == b"." || name == b".." {
            return Err(libc::EINVAL);
        }
        s.may(d, 0o300)?;
        s.entries(d)?.retain(|e| e.0 != name);
        Ok(0)
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_unlink, path) as c_int;
    }
    int(unlink_at(libc::AT_FDCWD, text(path), false))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_rmdir, path) as c_int;
    }
    int(unlink_at(libc::AT_FDCWD, text(path), true))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_unlinkat, dir, path, flags) as c_int;
    }
    int(unlink_at(dir, text(path), flags & libc::AT_REMOVEDIR != 0))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_mkdir, path, mode) as c_int;
    }
    int(change("mkdir", |s| {
        let (d, name, i) = s.walk_new(text(path))?;
        if i.is_some() {
            return Err(libc::EEXIST);
        }
        s.may(d, 0o300)?;
        let m = mode & 0o7777 & !s.umask;
        s.add(d, &name, Kind::Dir(vec![], d), m);
        Ok(0)
    }))
}
impl State {
    /// As `walk`, for the name of a new directory, which may end in a slash.
    fn walk_new(&self, mut p: &[u8]) -> Result<(Ino, Vec<u8>, Option<Ino>), i32> {
        while p.len() > 1 && p[p.len() - 1] == b'/' {
            p = &p[..p.len() - 1];
        }
        self.walk(self.cwd, p, false)
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: c_int) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_linkat, a, old, b, new, flags) as c_int;
    }
    int(change("link", |s| {
        let (fb, tb) = (base(s, a)?, base(s, b)?);
        let from = s.walk(fb, text(old), flags & libc::AT_SYMLINK_FOLLOW != 0)?.2.ok_or(libc::ENOENT)?;
        let (d, name, to) = s.walk(tb, text(new), false)?;
        if to.is_some() {
            return Err(libc::EEXIST);
        }
        if matches!(s.inodes[from].kind, Kind::Dir(..)) {
            return Err(libc::EPERM);
        }
        s.may(d, 0o300)?;
        s.entries(d)?.push((name, from));
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn link(old: *const c_char, new: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(to: *const c_char, path: *const c_char) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_symlink, to, path) as c_int;
    }
    int(change("symlink", |s| {
        let (d, name, i) = s.walk(s.cwd, text(path), false)?;
        if i.is_some() {
            return Err(libc::EEXIST);
        }
        s.may(d, 0o300)?;
        s.add(d, &name, Kind::Link(text(to).to_vec()), 0o777);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t;
    }
    match call("readlink", |s| {
        let i = s.walk(s.cwd, text(path), false)?.2.ok_or(libc::ENOENT)?;
        let Kind::Link(t) = &s.inodes[i].kind else { return Err(libc::EINVAL) };
        let k = t.len().min(n);
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
        Ok(k)
    }) {
        Ok(k) => k as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}
fn full_name(s: &State, mut i: Ino, tail: Option<&[u8]>) -> Vec<u8> {
    let mut names = vec![];
    if let Some(t) = tail {
        names.push(t.to_vec());
    }
    while i != 0 {
        let Kind::Dir(_, up) = s.inodes[i].kind else { break };
        names.push(s.list(up).unwrap().iter().find(|e| e.1 == i).map(|e| e.0.clone()).unwrap_or_default());
        i = up;
    }
    let mut r = vec![];
    for n in names.iter().rev() {
        r.push(b'/');
        r.extend_from_slice(n);
    }
    if r.is_empty() {
        r.push(b'/');
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut c_char) -> *mut c_char {
    if !ON.load(Relaxed) || !buf.is_null() {
        return null_mut();
    }
    match call("realpath", |s| {
        let (d, name, i) = s.walk(s.cwd, text(path), true)?;
        let i = i.ok_or(libc::ENOENT)?;
        let mut v = match &s.inodes[i].kind {
            Kind::Dir(..) => full_name(s, i, None),
            _ => full_name(s, d, Some(&name)),
        };
        v.push(0);
        Ok(v)
    }) {
        Ok(v) => {
            let p = libc::malloc(v.len()) as *mut c_char;
            std::ptr::copy_nonoverlapping(v.as_ptr(), p as *mut u8, v.len());
            p
        }
        Err(e) => {
            fail(e);
            null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !ON.load(Relaxed) {
        return if libc::syscall(libc::SYS_getcwd, buf, n) > 0 { buf } else { null_mut() };
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let mut v = full_name(s, s.cwd, None);
    v.push(0);
    if v.len() > n {
        fail(libc::ERANGE);
        return null_mut();
    }
    std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
    buf
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_access, path, mode) as c_int;
    }
    int(call("stat", |s| {
        let i = s.walk(s.cwd, text(path), true)?.2.ok_or(libc::ENOENT)?;
        s.may(i, (mode as u32 & 7) << 6)?;
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn statfs(path: *const c_char, b: *mut libc::statfs) -> c_int {
    if !ON.load(Relaxed) {
        return libc::syscall(libc::SYS_statfs, path, b) as c_int;
    }
    int(call("statfs", |s| {
        s.walk(s.cwd, text(path), true)?.2.ok_or(libc::ENOENT)?;
        std::ptr::write_bytes(b, 0, 1);
        (*b).f_type = s.fs_type;
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !on(fd) {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    let mut g = lock();
    {
        let s = g.as_mut().unwrap();
        let name = if op & libc::LOCK_UN != 0 {
            "unlock"
        } else if op & libc::LOCK_NB != 0 {
            "try_lock"
        } else {
            "lock"
        };
        if let Err(e) = s.gate(name) {
            return fail(e);
        }
    }
    loop {
        let s = g.as_mut().unwrap();
        if s.dead() {
            return fail(libc::EIO);
        }
        let Ok(o) = s.open_of(fd) else { return fail(libc::EBADF) };
        let i = s.opens[o].ino;
        s.unlock(o);
        if op & libc::LOCK_UN != 0 {
            WAIT.notify_all();
            return 0;
        }
        let excl = op & libc::LOCK_EX != 0;
        if s.inodes[i].locks.iter().any(|l| l.1 || excl) {
            if op & libc::LOCK_NB != 0 {
                return fail(libc::EWOULDBLOCK);
            }
            s.blocked += 1;
            g = WAIT.wait(g).unwrap_or_else(|e| e.into_inner());
            continue;
        }
        s.inodes[i].locks.push((o, excl));
        return 0;
    }
}
/// An open directory.
pub struct Dir {
    fd: c_int,
    names: Option<Vec<(Vec<u8>, u8, u64)>>,
    at: usize,
    entry: libc::dirent64,
}
unsafe fn new_dir(fd: c_int) -> *mut Dir {
    Box::into_raw(Box::new(Dir { fd, names: None, at: 0, entry: std::mem::zeroed() }))
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut Dir {
    if !ON.load(Relaxed) {
        fail(libc::ENOSYS);
        return null_mut();
    }
    match open_at(libc::AT_FDCWD, text(path), libc::O_RDONLY | libc::O_DIRECTORY, 0) {
        Ok(fd) => new_dir(fd),
        Err(e) => {
            fail(e);
            null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut Dir {
    if !on(fd) {
        fail(libc::ENOSYS);
        return null_mut();
    }
    new_dir(fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> c_int {
    (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    let d = Box::from_raw(d);
    close(d.fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut libc::dirent64 {
    let d = &mut *d;
    let r = call("readdir", |s| {
        if d.names.is_none() {
            let o = s.open_of(d.fd)?;
            let dir = s.opens[o].ino;
            let mut v = vec![(b".".to_vec(), libc::DT_DIR, dir as u64 + 1), (b"..".to_vec(), libc::DT_DIR, 1)];
            for (n, i) in s.list(dir)? {
                let t = match s.inodes[*i].kind {
                    Kind::File(_) => libc::DT_REG,
                    Kind::Dir(..) => libc::DT_DIR,
                    Kind::Link(_) => libc::DT_LNK,
                };
                v.push((n.clone(), t, *i as u64 + 1));
            }
            d.names = Some(v);
        }
        Ok(d.names.as_ref().unwrap().get(d.at).cloned())
    });
    match r {
        Ok(None) => null_mut(),
        Ok(Some((n, t, i))) => {
            d.at += 1;
            d.entry.d_ino = i;
            d.entry.d_type = t;
            d.entry.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (k, c) in n.iter().enumerate() {
                d.entry.d_name[k] = *c as c_char;
            }
            d.entry.d_name[n.len()] = 0;
            &mut d.entry
        }
        Err(e) => {
            fail(e);
            null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off64_t, _: size_t) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t {
    fail(libc::ENOSYS) as ssize_t
}
