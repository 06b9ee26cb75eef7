use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

static INPUTS: Mutex<VecDeque<(String, Vec<u8>)>> = Mutex::new(VecDeque::new());
static PANIC_OK: AtomicBool = AtomicBool::new(false);
static BIG_OK: AtomicBool = AtomicBool::new(false);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

struct Limited;
#[global_allocator]
static A: Limited = Limited;
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn out(s: &str) {
    use std::io::Write;
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

/// Lines: `name hex`, then optionally `!limit N`.
pub fn start() {
    if let Ok(p) = std::env::var("VS_REPLAY") {
        let t = std::fs::read_to_string(p).expect("replay file");
        let mut q = INPUTS.lock().unwrap();
        for l in t.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let (n, h) = l.rsplit_once(' ').expect("replay line");
            if n == "!limit" {
                LIMIT.store(h.parse().unwrap(), Ordering::Relaxed);
                continue;
            }
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            q.push_back((n.to_string(), b));
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if PANIC_OK.load(Ordering::SeqCst) {
            out("VS panic_ok");
            std::process::exit(0);
        }
        out(&format!("VS panic {i}").replace('\n', " "));
        std::process::exit(101);
    }));
    std::alloc::handle_alloc_error as fn(Layout) -> !;
}
pub fn finish() {
    out("VS completed");
}

unsafe fn s(l: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(l, n)).into_owned()
}

#[no_mangle]
unsafe extern "C" fn __vs_bytes(p: *mut u8, n: usize, name: *const u8, name_len: usize) {
    let name = s(name, name_len);
    let mut q = INPUTS.lock().unwrap();
    let d = std::slice::from_raw_parts_mut(p, n);
    d.fill(0);
    if n == 0 {
        return;
    }
    if let Some((nm, b)) = q.pop_front() {
        if nm != name || b.len() != n {
            out(&format!("VS mismatch: wanted {name} ({n} bytes), the input has {nm} ({} bytes)", b.len()));
            std::process::exit(66);
        }
        d.copy_from_slice(&b);
    }
}
#[no_mangle]
extern "C" fn __vs_assume(c: bool) {
    if !c {
        out("VS infeasible");
        std::process::exit(0);
    }
}
#[no_mangle]
unsafe extern "C" fn __vs_assert(c: bool, l: *const u8, n: usize) {
    if !c {
        out(&format!("VS assert {}", s(l, n)));
        std::process::exit(102);
    }
}
#[no_mangle]
unsafe extern "C" fn __vs_cover(l: *const u8, n: usize) {
    out(&format!("VS cover {}", s(l, n)));
}
#[no_mangle]
extern "C" fn __vs_panic_ok(c: bool) {
    PANIC_OK.store(c, Ordering::SeqCst);
}
#[no_mangle]
extern "C" fn __vs_big_alloc_ok(c: bool) {
    BIG_OK.store(c, Ordering::SeqCst);
}
#[no_mangle]
extern "C" fn __vs_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn __vs_note_u64(l: *const u8, n: usize, v: u64) {
    out(&format!("VS note {}: {v}", s(l, n)));
}
#[no_mangle]
extern "C" fn __vs_end() -> ! {
    out("VS infeasible");
    std::process::exit(0);
}
