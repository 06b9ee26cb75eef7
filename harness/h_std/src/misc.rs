//! Small concepts: computed once, taken, stored; errors and times.
use std::borrow::Cow;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, UNIX_EPOCH};
use tinymist_std::cow_mut::CowMut;
use tinymist_std::error::prelude::*;
use tinymist_std::error::{DiagMessage, DiagSeverity, ErrKind};
use tinymist_std::time::{ToUtcDateTime, UtcDateTime};
use tinymist_std::{AsCowBytes, Error, QueryRef, TakeAs};
use vsym::*;

/// A query computes once, and everyone sees its result.
#[no_mangle]
pub extern "C" fn vs_m_query() {
    let q: Arc<QueryRef<u8, u8, u8>> = Arc::new(QueryRef::with_context(u8("context")));
    let runs = Arc::new(AtomicUsize::new(0));
    let fail = bool("fail");
    let ctx = Arc::new(AtomicUsize::new(999));
    let ask = move |mine: u8, q: &QueryRef<u8, u8, u8>, runs: &AtomicUsize, ctx: &AtomicUsize| -> Result<u8, u8> {
        q.compute_with_context(|c| {
            runs.fetch_add(1, SeqCst);
            ctx.store(c as usize, SeqCst);
            if fail { Err(mine) } else { Ok(mine) }
        })
        .copied()
    };
    let (a, b) = (u8("a"), u8("b"));
    assume(a != b);
    check(q.get_uninitialized().is_none(), "nothing is computed before it is asked for");
    let (q2, r2, c2) = (q.clone(), runs.clone(), ctx.clone());
    let t = std::thread::spawn(move || ask(a, &q2, &r2, &c2));
    let y = ask(b, &q, &runs, &ctx);
    let x = t.join().unwrap();
    check(runs.load(SeqCst) == 1, "a query computes once");
    check(x == y, "everyone sees the same result");
    let v = match x {
        Ok(v) => v,
        Err(v) => v,
    };
    check(x.is_err() == fail && (v == a || v == b), "the result is what was computed");
    check(ask(7, &q, &runs, &ctx) == x && runs.load(SeqCst) == 1, "a result stays");
    check(q.get_uninitialized().is_some_and(|r| *r == x), "a result is visible");
    cover("computed");
}
#[no_mangle]
pub extern "C" fn vs_m_query_more() {
    let c = u8("context");
    let q: QueryRef<u8, u8, u8> = QueryRef::with_context(c);
    check(q.compute_with_context(Ok).is_ok_and(|v| *v == c), "a query is given its context");
    let q: QueryRef<u8, u8, u8> = QueryRef::with_value(c);
    check(q.compute_with_context(|_| Err(1)).is_ok_and(|v| *v == c), "a value is not computed again");
    let q: QueryRef<u8, u8> = QueryRef::default();
    check(q.compute(|| Err(c)) == Err(c) && q.compute(|| Ok(2)) == Err(c), "a failure stays");
    cover("computed");
}

struct Counted(Arc<AtomicUsize>, u8);
impl Clone for Counted {
    fn clone(&self) -> Self {
        self.0.fetch_add(1, SeqCst);
        Counted(self.0.clone(), self.1)
    }
}
/// Every taker gets the value, and the last one gets the original.
#[no_mangle]
pub extern "C" fn vs_m_take() {
    let clones = Arc::new(AtomicUsize::new(0));
    let v = u8("v");
    let a = Arc::new(Counted(clones.clone(), v));
    if bool("alone") {
        check(a.take().1 == v, "the value is taken");
        check(clones.load(SeqCst) == 0, "the only holder takes the value itself");
        cover("alone");
    } else {
        let b = a.clone();
        let t = std::thread::spawn(move || b.take().1);
        let x = a.take().1;
        let y = t.join().unwrap();
        check(x == v && y == v, "every taker gets the value");
        check(clones.load(SeqCst) >= 1 && clones.load(SeqCst) <= 2, "a shared value is cloned");
        cover("shared");
    }
}
#[no_mangle]
pub extern "C" fn vs_m_cow() {
    let v = u8("v");
    let mut x = 0u8;
    {
        let mut c = if bool("owned") { CowMut::Owned(1) } else { CowMut::Borrowed(&mut x) };
        *c = v;
        check(*c == v, "what is written is read");
        if matches!(c, CowMut::Owned(_)) {
            drop(c);
            check(x == 0, "an owned value is its own");
            cover("owned");
            return;
        }
    }
    check(x == v, "a borrowed value is written through");
    cover("borrowed");
}

#[serde_with::serde_as]
#[derive(serde::Serialize, serde::Deserialize)]
struct Font {
    #[serde_as(as = "AsCowBytes")]
    data: Cow<'static, [u8]>,
}
/// Bytes survive being stored as text.
#[no_mangle]
pub extern "C" fn vs_m_bytes() {
    let n = pick("n", 8);
    let b = vec("bytes", n);
    let j = serde_json::to_value(Font { data: Cow::Owned(b.clone()) }).unwrap();
    let t = j["data"].as_str().unwrap_or("");
    check(t.len() == (n + 2) / 3 * 4, "bytes are stored as padded base64");
    let back: Result<Font, _> = serde_json::from_value(j);
    check(back.is_ok_and(|f| f.data[..] == b[..]), "stored bytes read back");
    cover("stored");
}
#[no_mangle]
pub extern "C" fn vs_m_bytes_any() {
    let s = ascii("text", 4);
    let r: Result<Font, _> = serde_json::from_value(serde_json::json!({ "data": s }));
    if let Ok(f) = r {
        let j = serde_json::to_value(&f).unwrap();
        check(j["data"].as_str() == Some(&s), "bytes have one text");
        cover("read");
    } else {
        cover("refused");
    }
}

/// A diagnostic survives being stored.
#[no_mangle]
pub extern "C" fn vs_m_diag() {
    let k = pick("severity", 4);
    let sev = [DiagSeverity::Error, DiagSeverity::Warning, DiagSeverity::Information, DiagSeverity::Hint][k].clone();
    let text = ascii("message", 2);
    let p = |n: &str| lsp_types::Position { line: u32(n), character: 7 };
    let range = bool("range").then(|| lsp_types::Range { start: p("start"), end: p("end") });
    let d = DiagMessage { package: "p".into(), path: "q".into(), message: text.as_str().into(), severity: sev, range };
    let j = serde_json::to_value(&d).unwrap();
    check(j["severity"].as_u64() == Some(k as u64 + 1), "a severity is its number in the protocol");
    let e: DiagMessage = match serde_json::from_value(j) {
        Ok(e) => e,
        Err(_) => return check(false, "a stored diagnostic reads back"),
    };
    check(e.severity as u8 == k as u8 + 1 && e.range == range && e.message == text && e.package == "p" && e.path == "q", "a stored diagnostic reads back");
    cover("stored");
}
#[no_mangle]
pub extern "C" fn vs_m_severity() {
    let n = u8("n");
    let r = serde_json::from_value::<DiagSeverity>(serde_json::json!(n));
    check(r.is_ok() == (n >= 1 && n <= 4), "exactly the numbers of the protocol are severities");
    if let Ok(s) = r {
        let names = ["error", "warning", "information", "hint"];
        check(s.to_string() == names[n as usize - 1], "a severity has its name");
        cover("severity");
    }
}

fn args_of(n: usize) -> Option<Box<[(&'static str, String)]>> {
    (n > 0).then(|| (0..n - 1).map(|i| (["k", "l"][i], "w".to_string())).collect::<Vec<_>>().into_boxed_slice())
}
/// An error tells where it comes from, what happened and with what.
#[no_mangle]
pub extern "C" fn vs_m_error() {
    let loc = ["", "load file"][pick("loc", 2)];
    let k = pick("kind", 4);
    let msg = ascii("message", 2);
    for c in msg.bytes() {
        assume(c.is_ascii_alphabetic());
    }
    let msg = if bool("empty") { String::new() } else { msg };
    let kind = match k {
        0 => ErrKind::None,
        1 => ErrKind::Msg(msg.as_str().into()),
        2 => ErrKind::Diag(Box::new(DiagMessage { package: "p".into(), path: "q".into(), message: msg.as_str().into(), severity: DiagSeverity::Error, range: None })),
        _ => ErrKind::Inner(Error::new("inner", ErrKind::Msg(msg.as_str().into()), None)),
    };
    let na = pick("args", 4);
    let e = Error::new(loc, kind, args_of(na));
    check(e.loc() == loc && e.arguments().len() == na.saturating_sub(1), "an error keeps its parts");
    let s = e.to_string();
    let inner = if k == 3 && !msg.is_empty() { format!("inner: {msg}") } else if k == 3 { "inner".into() } else if k == 0 { String::new() } else { msg.clone() };
    let head = match (loc.is_empty(), inner.is_empty()) {
        (false, false) => format!("{loc}: {inner}"),
        (false, true) => loc.to_string(),
        (true, false) => inner,
        (true, true) => String::new(),
    };
    if head.is_empty() {
        cover("nothing to tell");
        return;
    }
    check(s.starts_with(&head), "an error tells its place and its message");
    let rest = &s[head.len()..];
    if na == 0 {
        check(rest.is_empty() || rest == ": ", "an error tells nothing else");
    } else {
        check(rest.starts_with(", with ") || rest.starts_with(": , with "), "an error tells its arguments");
        for (k, v) in e.arguments() {
            check(rest.contains(k) && rest.contains(v.as_str()), "an error tells its arguments");
        }
    }
    check(format!("{e:?}") == s, "an error is shown the same way for developers");
    cover("told");
}
/// Errors made from other results keep their text.
#[no_mangle]
pub extern "C" fn vs_m_context() {
    let m = ascii("message", 2);
    for c in m.bytes() {
        assume(c.is_ascii_alphabetic());
    }
    let r: Result<u8, String> = if bool("ok") { Ok(1) } else { Err(m.clone()) };
    let ok = r.is_ok();
    let how = pick("how", 6);
    let want = format!("here: {m}");
    let (e, want) = match how {
        0 => (WithContext::context(r, "here"), want),
        1 => (WithContext::with_context(r, "here", || args_of(2)), want),
        2 => (r.context_ut("here"), want),
        3 => (r.with_context_ut("here", || args_of(2)), want),
        4 => (r.map_err(map_string_err("here")), want),
        _ => (r.map_err(|m| Error::from(anyhow::anyhow!(m))), m.clone()),
    };
    match e {
        Ok(v) => {
            check(ok && v == 1, "a success stays");
            cover("ok");
        }
        Err(e) => {
            check(!ok, "a failure stays");
            check(e.to_string().starts_with(&want), "the text of a failure is kept");
            check(e.arguments().len() == (how == 1 || how == 3) as usize, "the arguments are kept");
            let w = wrap_err("outer")(e);
            check(w.to_string().starts_with("outer: ") && w.to_string().contains(&m), "a wrapped failure tells both");
            cover("failure");
        }
    }
}
#[no_mangle]
pub extern "C" fn vs_m_bail() {
    let v = u8("v");
    let f = || -> Result<()> {
        bail!("bad {v}");
    };
    let e = f().unwrap_err();
    check(e.to_string().ends_with(&format!("bad {v}")) && e.loc().contains("misc.rs"), "a failure tells its place and text");
    cover("failed");
}

/// Any second near a border of the calendar, or any far away.
fn near() -> i64 {
    let k = pick("near", 9);
    let at = [0, -377705116800, 253402300799, 951782400, -62135596800, 68256000000, i64::MAX - 0xff, i64::MIN + 0x100][k % 8];
    if k == 8 {
        let t = i64("t");
        assume(t < -377705116800 || t > 253402300799);
        return t;
    }
    at + u8("t") as i64 - if bool("before") { 0x100 } else { 0 }
}
/// Times.
#[no_mangle]
pub extern "C" fn vs_m_unix() {
    let t = near();
    // the years -9999 to 9999
    let ok = t >= -377705116800 && t <= 253402300799;
    match t.to_utc_datetime() {
        Some(d) => {
            check(ok, "a time out of range is refused");
            check(d.unix_timestamp() == t, "a time is the seconds it was made from");
            cover("time");
        }
        None => {
            check(!ok, "only a time out of range is refused");
            cover("refused");
        }
    }
}
#[no_mangle]
pub extern "C" fn vs_m_system_time() {
    let n = [0, 999_999_999][pick("n", 2)];
    let s = [0, -377705116800i64, 253402300799, i64::MAX - 7, i64::MIN + 8][pick("near", 5)] + (u8("t") & 7) as i64 - if bool("before") { 8 } else { 0 };
    let t = if s >= 0 { UNIX_EPOCH.checked_add(Duration::new(s as u64, n)) } else { UNIX_EPOCH.checked_sub(Duration::new(s.unsigned_abs(), n)) };
    let Some(t) = t else { return };
    let want = if s >= 0 || n == 0 { s } else { s - 1 };
    let ok = want >= -377705116800 && want <= 253402300799;
    match t.to_utc_datetime() {
        Some(d) => {
            check(ok && d.unix_timestamp() == want, "a time is the seconds it was made from");
            cover("time");
        }
        None => {
            check(!ok, "only a time out of range is refused");
            cover("refused");
        }
    }
}
#[allow(dead_code)]
fn _u(_: UtcDateTime) {}
