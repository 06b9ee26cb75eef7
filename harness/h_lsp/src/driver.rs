//! Histories of messages through the real language server driver.
use crate::srv::*;
use crate::world::*;
use serde_json::Value as J;
use sync_ls::lsp::*;
use sync_ls::{LspMessage, LspResult, RequestId};
use vsym::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    Uninit,
    Initing,
    Ready,
    Down,
}

pub fn one_of(out: &Out) -> Option<Response> {
    one(out)
}
fn one(out: &Out) -> Option<Response> {
    match out.lsp.try_recv() {
        Ok(sync_ls::Message::Lsp(LspMessage::Response(r))) => Some(r),
        Ok(_) => {
            check(false, "only responses are sent");
            None
        }
        Err(_) => None,
    }
}
fn none(out: &Out) -> bool {
    out.lsp.try_recv().is_err()
}
pub fn num(r: &Response) -> Option<i64> {
    r.result.as_ref().and_then(|v| v.as_i64())
}
fn code(r: &Response) -> Option<i32> {
    r.error.as_ref().map(|e| e.code)
}

/// Lets the runtime poll what is ready.
pub fn settle(rt: &tokio::runtime::Runtime) {
    rt.block_on(async {
        for _ in 0..2 {
            tokio::task::yield_now().await;
        }
    });
}

const INITIALIZE: &[u8] = b"initialize";
const SHUTDOWN: &[u8] = b"shutdown";
const EXEC: &[u8] = b"workspace/executeCommand";

/// A request method: any string of one of the lengths the server knows
/// methods of, or the command method.
fn method(i: usize) -> (String, bool) {
    match pick(["m0", "m1", "m2", "m3", "m4"][i], 5) {
        0 => (ascii("method3", 3), false),
        1 => (ascii("method8", 8), false),
        2 => (ascii("method10", 10), false),
        3 => (String::from("workspace/executeCommand"), true),
        _ => (String::new(), false),
    }
}

fn history(steps: usize, ready: bool) {
    let rt = runtime();
    let (root, out) = client::<LspMessage>(&rt);
    let ecode = i32("code");
    let mut d = lsp_builder(root.weak(), ecode, false).build();
    let mut st = L::Uninit;
    // (id, the argument the answer has to carry)
    let mut late: Vec<RequestId> = vec![];
    let mut used: Vec<RequestId> = vec![];
    if ready {
        let id = RequestId::from(String::from("i"));
        let _ = feed(&mut d, Request { id: id.clone(), method: "initialize".into(), params: J::from(1) }.into());
        let _ = feed(&mut d, Notification { method: "initialized".into(), params: J::Null }.into());
        let r = one(&out);
        check(r.is_some_and(|r| r.id == id && num(&r) == Some(1)), "initialize is answered");
        check(d.state().is_some(), "the server is ready after the handshake");
        st = L::Ready;
    }
    for i in 0..steps {
        let kind = pick(["k0", "k1", "k2", "k3", "k4"][i], 3);
        if kind == 0 {
            let (m, _) = method(i);
            let id = if bool("sid") { RequestId::from(ascii("id", 1)) } else { RequestId::from(i32("id")) };
            for u in &used {
                assume(*u != id);
            }
            used.push(id.clone());
            let good = bool("params");
            let arg = u8("arg") as i32;
            let params = if good { J::from(arg) } else { J::Bool(true) };
            let mb = m.clone().into_bytes();
            let before = d.state().map_or(0, |s| s.handled + s.shutdowns);
            let res = feed(&mut d, Request { id: id.clone(), method: m, params }.into());
            check(res.is_ok(), "a request never stops the server");
            let handled = d.state().map_or(0, |s| s.handled + s.shutdowns) - d.state().map_or(0, |_| before);
            let r = one(&out);
            check(none(&out), "at most one response per request");
            // what the protocol asks for in this state
            let mut want: Option<(Option<i32>, Option<i64>)> = None; // (error, result)
            let mut deferred = false;
            let mut ran = 0;
            match st {
                L::Uninit if mb == INITIALIZE => {
                    if good {
                        st = L::Initing;
                        want = Some((None, Some(arg as i64)));
                        cover("initialized");
                    } else {
                        want = Some((Some(-32600), None));
                        cover("bad-initialize");
                    }
                }
                L::Uninit | L::Initing => {
                    want = Some((Some(-32002), None));
                    cover("not-initialized");
                }
                L::Ready | L::Down if mb == INITIALIZE => {
                    want = Some((Some(-32600), None));
                    cover("twice-initialized");
                }
                L::Down => {
                    want = Some((Some(-32600), None));
                    cover("after-shutdown");
                }
                L::Ready => match &mb[..] {
                    b"s/o" if good => {
                        ran = 1;
                        want = Some((None, Some(arg as i64)));
                        cover("sync");
                    }
                    b"s/e" | b"e/r" if good => {
                        ran = 1;
                        want = Some((Some(ecode), None));
                        cover("rejected");
                    }
                    b"s/b" if good => {
                        ran = 1;
                        want = Some((Some(-32603), None));
                        cover("odd");
                    }
                    b"a/f" if good => {
                        ran = 1;
                        deferred = true;
                        cover("deferred");
                    }
                    b"s/o" | b"s/e" | b"e/r" | b"a/f" | b"s/b" => {
                        want = Some((Some(-32600), None));
                        cover("bad-params");
                    }
                    b"r/n" => {
                        ran = 1;
                        want = Some((None, None));
                        cover("raw-none");
                    }
                    b"r/e" => {
                        ran = 1;
                        want = Some((Some(ecode), None));
                    }
                    b"r/2" => {
                        ran = 1;
                        want = Some((None, if good { Some(arg as i64) } else { None }));
                        cover("raw-twice");
                    }
                    m if m == SHUTDOWN => {
                        want = Some((None, None));
                        st = L::Down;
                        cover("shutdown");
                    }
                    m if m == EXEC => {
                        want = Some((Some(-32602), None));
                        cover("bad-command");
                    }
                    _ => {
                        want = Some((Some(-32601), None));
                        cover("unknown-method");
                    }
                },
            }
            if d.state().is_some() {
                check(handled == ran, "exactly the registered handler ran");
            }
            check((st == L::Ready) == d.state().is_some(), "the server serves exactly between handshake and shutdown");
            match (r, want) {
                (Some(r), Some((e, v))) => {
                    check(r.id == id, "the response carries the id of the request");
                    check(r.result.is_some() != r.error.is_some(), "a response has a result or an error");
                    check(code(&r) == e, "the response has the right error code");
                    if e.is_none() {
                        check(num(&r) == v, "the response has the result of its request");
                    }
                }
                (None, None) => check(deferred, "a request is answered"),
                (None, _) => check(false, "a request is answered"),
                (Some(_), _) => check(false, "no response before the deferred one"),
            }
            if deferred {
                late.push(id);
            }
            check(root.weak().has_pending_requests() == !late.is_empty(), "pending exactly while unanswered");
        } else if kind == 1 {
            let m = match pick("n", 4) {
                0 => ascii("note3", 3),
                1 => String::from("initialized"),
                2 => String::from("exit"),
                _ => ascii("note11", 11),
            };
            let arg = u8("arg") as i32;
            let mb = m.clone().into_bytes();
            let b = d.state().map(|s| s.notes);
            let bi = d.state().map_or(0, |s| s.initialized);
            let res = feed(&mut d, Notification { method: m, params: J::from(arg) }.into());
            check(res.is_ok(), "a notification never stops the server with an error");
            check(none(&out), "a notification is never answered");
            if mb == b"initialized" && st == L::Initing {
                st = L::Ready;
                cover("handshake");
                check(d.state().is_some_and(|s| s.initialized == 1), "the service is told once of the handshake");
            } else if st == L::Ready {
                let n = d.state().map_or(0, |s| s.notes) - b.unwrap_or(0);
                let known = mb == b"n/o" || mb == b"n/r" || mb == b"exit";
                check((n == 1) == known && n <= 1, "exactly the registered notification handler ran");
                if mb == b"n/o" {
                    check(d.state().is_some_and(|s| s.note_arg == arg), "the notification carries its parameters");
                    cover("notification");
                }
                if mb == b"initialized" {
                    check(d.state().is_some_and(|s| s.initialized == bi + 1), "a repeated handshake notification is only that");
                }
            }
            check((st == L::Ready) == d.state().is_some(), "notifications change the state only by the handshake");
        } else {
            // one of the deferred requests is finished, in any order
            let n = late.len();
            if n == 0 {
                end();
            }
            let j = pick("done", n);
            let id = late.remove(j);
            let ok = bool("ok");
            let v = u8("value") as i32;
            let tx = match d.state_mut() {
                Some(s) => s.late.remove(j),
                None => end(),
            };
            let _ = tx.send(if ok { Ok(J::from(v)) } else { Err(resp(v)) });
            settle(&rt);
            let r = one(&out);
            check(none(&out), "at most one response per request");
            match r {
                Some(r) => {
                    check(r.id == id, "the response carries the id of the request");
                    check(code(&r) == if ok { None } else { Some(v) }, "the response has the right error code");
                    if ok {
                        check(num(&r) == Some(v as i64), "the response has the result of its request");
                    }
                    cover("completed");
                }
                None => check(false, "a request is answered"),
            }
            check(root.weak().has_pending_requests() == !late.is_empty(), "pending exactly while unanswered");
        }
    }
    cover("end");
    std::mem::forget((rt, root, d, out));
}

#[no_mangle]
pub extern "C" fn vs_drv_start() {
    history(3, false);
}
#[no_mangle]
pub extern "C" fn vs_drv_ready() {
    history(2, true);
}
#[no_mangle]
pub extern "C" fn vs_drv_more() {
    history(3, true);
}
