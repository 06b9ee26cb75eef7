//! Requests of the server to the client, pending requests, commands,
//! resources and internal events.
use crate::driver::{num, one_of, settle};
use crate::srv::*;
use crate::world::*;
use lsp_types::request::Request as _;
use serde_json::{json, Value as J};
use sync_ls::lsp::*;
use sync_ls::req_queue::ReqQueue;
use sync_ls::{LspMessage, RequestId};
use vsym::*;

fn some_id(name: &str) -> RequestId {
    if bool("string?") {
        RequestId::from(ascii(name, 1))
    } else {
        RequestId::from(i32(name))
    }
}

/// A driver past its handshake.
pub fn ready(rt: &tokio::runtime::Runtime, code: i32) -> (sync_ls::LspClientRoot, Out, Lsp) {
    let (root, out) = client::<LspMessage>(rt);
    let mut d = lsp_builder(root.weak(), code, false).build();
    let _ = feed(&mut d, Request { id: RequestId::from(String::from("i")), method: "initialize".into(), params: J::from(1) }.into());
    let _ = feed(&mut d, Notification { method: "initialized".into(), params: J::Null }.into());
    let _ = out.lsp.try_recv();
    (root, out, d)
}

pub enum Ask {}
impl lsp_types::request::Request for Ask {
    type Params = i32;
    type Result = i32;
    const METHOD: &'static str = "ask/it";
}

/// Requests to the client: fresh ids, the handler of a request sees exactly
/// the first response that carries its id.
fn ask(steps: usize, restart: bool) {
    let rt = runtime();
    let (root, out, mut d) = ready(&rt, -7);
    let cl = root.weak();
    let typed = cl.to_typed::<Srv>();
    let mut open: Vec<(RequestId, u8)> = vec![];
    let mut all: Vec<RequestId> = vec![];
    let mut n = 0u8;
    let mut sent = |n: u8, arg: i32, all: &mut Vec<RequestId>, open: &mut Vec<(RequestId, u8)>| {
        match out.lsp.try_recv() {
            Ok(sync_ls::Message::Lsp(LspMessage::Request(r))) => {
                check(r.method == Ask::METHOD && r.params == J::from(arg), "a request to the client is sent as asked");
                for o in all.iter() {
                    check(*o != r.id, "ids of requests to the client are never reused");
                }
                all.push(r.id.clone());
                open.push((r.id, n));
            }
            _ => check(false, "a request to the client is sent"),
        }
        check(out.lsp.try_recv().is_err(), "nothing else is sent");
    };
    for i in 0..steps {
        let before = d.state().map_or(0, |s| s.replies.len());
        if pick(["k0", "k1", "k2", "k3", "k4", "k5"][i], 2) == 0 {
            let arg = u8("arg") as i32;
            let me = n;
            n += 1;
            if bool("typed") {
                typed.send_lsp_request::<Ask>(arg, move |s: &mut Srv, r| s.replies.push((me, num(&r).unwrap_or(-1) as i32, r.error.is_some())));
            } else {
                let again = restart.then(|| cl.clone());
                cl.send_lsp_request_::<Ask>(arg, move |s, r| {
                    let s = s.downcast_mut::<Srv>().unwrap();
                    s.replies.push((me, num(&r).unwrap_or(-1) as i32, r.error.is_some()));
                    // a handler may ask again right away
                    if let Some(c) = again {
                        c.send_lsp_request_::<Ask>(5, |_, _| ());
                    }
                });
            }
            sent(me, arg, &mut all, &mut open);
            check(d.state().map_or(0, |s| s.replies.len()) == before, "no handler runs before its response");
            cover("asked");
        } else {
            let id = some_id("rid");
            let ok = bool("ok");
            let v = u8("v") as i32;
            let r = if ok { Response::new_ok(id.clone(), v) } else { Response::new_err(id.clone(), v, "e".into()) };
            let res = feed(&mut d, r.into());
            check(res.is_ok(), "a response never stops the server");
            let got = d.state().map_or(0, |s| s.replies.len()) - before;
            match open.iter().position(|o| o.0 == id) {
                Some(k) => {
                    let (_, who) = open.remove(k);
                    check(got == 1 || who == 255, "a response runs one handler");
                    if got == 1 {
                        let l = d.state().unwrap().replies[before];
                        check(l == (who, if ok { v } else { -1 }, !ok), "the handler of the request sees the response");
                    }
                    cover("answered");
                }
                None => {
                    check(got == 0, "a response without a request runs no handler");
                    cover("unknown");
                }
            }
            if let Ok(m) = out.lsp.try_recv() {
                // the handler asked again
                match m {
                    sync_ls::Message::Lsp(LspMessage::Request(r)) if restart => {
                        for o in all.iter() {
                            check(*o != r.id, "ids of requests to the client are never reused");
                        }
                        all.push(r.id.clone());
                        open.push((r.id, 255));
                        cover("asked-again");
                    }
                    _ => check(false, "nothing is sent for a response"),
                }
            }
        }
    }
    cover("end");
    std::mem::forget((rt, root, d, out, typed));
}
#[no_mangle]
pub extern "C" fn vs_q_ask() {
    ask(4, false);
}
#[no_mangle]
pub extern "C" fn vs_q_ask_again() {
    ask(3, true);
}
#[no_mangle]
pub extern "C" fn vs_q_ask_more() {
    ask(5, true);
}

/// The pending requests against a list.
fn pending(steps: usize) {
    let mut q = ReqQueue::<u8, u8>::default();
    let mut model: Vec<(RequestId, u8)> = vec![];
    let mut out: Vec<(RequestId, u8)> = vec![];
    for i in 0..steps {
        let k = pick(["k0", "k1", "k2", "k3", "k4", "k5"][i], 5);
        let data = i as u8;
        match k {
            0 => {
                let id = some_id("id");
                model.retain(|m| m.0 != id);
                q.incoming.register(id.clone(), data);
                model.push((id, data));
            }
            1 => {
                let id = some_id("id");
                let want = model.iter().position(|m| m.0 == id);
                let got = q.incoming.complete(&id);
                check(got == want.map(|p| model[p].1), "completing returns what was registered, once");
                if let Some(p) = want {
                    model.remove(p);
                    cover("completed");
                }
            }
            2 => {
                let id = some_id("id");
                let want = model.iter().position(|m| m.0 == id);
                match (q.incoming.cancel(id.clone()), want) {
                    (Some(r), Some(p)) => {
                        check(r.id == id && r.result.is_none() && r.error.is_some_and(|e| e.code == -32800), "a cancelled request is answered as cancelled");
                        model.remove(p);
                        cover("cancelled");
                    }
                    (None, None) => {}
                    _ => check(false, "exactly a pending request can be cancelled"),
                }
            }
            3 => {
                let r = q.outgoing.register("m".into(), data, data);
                for o in &out {
                    check(o.0 != r.id, "ids of requests to the client are never reused");
                }
                check(r.method == "m" && r.params == J::from(data), "a request to the client is sent as asked");
                out.push((r.id, data));
            }
            _ => {
                let id = some_id("id");
                let got = q.outgoing.complete(id.clone());
                let want = out.iter().position(|m| m.0 == id && m.1 != 255);
                check(got == want.map(|p| out[p].1), "completing returns what was registered, once");
                if let Some(p) = want {
                    out[p].1 = 255;
                    cover("answered");
                }
            }
        }
        check(q.incoming.has_pending() == !model.is_empty(), "pending exactly while something is registered");
        for m in &model {
            check(!q.incoming.is_completed(&m.0), "a registered request is not completed");
        }
    }
    let id = some_id("probe");
    check(q.incoming.is_completed(&id) == !model.iter().any(|m| m.0 == id), "completed exactly when not registered");
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_q_pending() {
    pending(3);
}
#[no_mangle]
pub extern "C" fn vs_q_pending4() {
    pending(4);
}

/// A client whose server is gone: everything it is asked is harmless.
#[no_mangle]
pub extern "C" fn vs_q_closed() {
    let rt = runtime();
    let (root, out) = client::<LspMessage>(&rt);
    let cl = root.weak();
    let id = RequestId::from(i32("id"));
    cl.register_request("m", &id, std::time::Instant::now());
    check(cl.has_pending_requests(), "pending exactly while unanswered");
    let far = bool("far end gone");
    let out = if far {
        drop(out);
        None
    } else {
        drop(root);
        Some(out)
    };
    match pick("op", 5) {
        0 => cl.respond_result(id, Ok(1)),
        1 => cl.respond_lsp(Response::new_ok(id, 2)),
        2 => cl.send_lsp_request_::<Ask>(1, |_, _| ()),
        3 => cl.send_notification_(Notification::new("n".into(), 1)),
        _ => cl.send_event(1u8),
    }
    if let Some(o) = &out {
        check(o.lsp.try_recv().is_err() && o.event.try_recv().is_err(), "nothing is sent once the server is gone");
    }
    cover("end");
    std::mem::forget((rt, out));
}

/// Two responses race for one request: exactly the first is sent, whichever
/// way it is given.
#[no_mangle]
pub extern "C" fn vs_q_respond() {
    let rt = runtime();
    let (root, out) = client::<LspMessage>(&rt);
    let cl = root.weak();
    let a = some_id("a");
    let b = some_id("b");
    let ra = bool("register a");
    let rb = bool("register b");
    if ra {
        cl.register_request("m", &a, std::time::Instant::now());
    }
    if rb {
        cl.register_request("m", &b, std::time::Instant::now());
    }
    let mut left: Vec<RequestId> = vec![];
    if ra {
        left.push(a.clone());
    }
    if rb && !left.contains(&b) {
        left.push(b.clone());
    }
    for i in 0..3 {
        let id = if pick(["w0", "w1", "w2"][i], 2) == 0 { a.clone() } else { b.clone() };
        let v = u8("v");
        let err = bool("err");
        if bool("ready-made") {
            let r = if err { Response::new_err(id.clone(), v as i32, "e".into()) } else { Response::new_ok(id.clone(), v) };
            cl.respond_lsp(r);
        } else {
            cl.respond_result(id.clone(), if err { Err(resp(v as i32)) } else { Ok(v) });
        }
        let got = one_of(&out);
        match left.iter().position(|x| *x == id) {
            Some(p) => {
                left.remove(p);
                match got {
                    Some(r) => {
                        check(r.id == id, "the response carries the id of the request");
                        check(num(&r) == if err { None } else { Some(v as i64) }, "the response has the result of its request");
                        check(r.error.map(|e| e.code) == if err { Some(v as i32) } else { None }, "the response has the right error code");
                        cover("sent");
                    }
                    None => check(false, "a request is answered"),
                }
            }
            None => {
                check(got.is_none(), "at most one response per request");
                cover("dropped");
            }
        }
        check(out.lsp.try_recv().is_err(), "at most one response per request");
        check(cl.has_pending_requests() == !left.is_empty(), "pending exactly while unanswered");
    }
    cover("end");
    std::mem::forget((rt, root, out));
}

/// `workspace/executeCommand` with any command name and arguments.
fn command(name_len: usize) {
    let rt = runtime();
    let ecode = i32("code");
    let (root, out, mut d) = ready(&rt, ecode);
    let id = RequestId::from(i32("id"));
    let cmd = ascii("cmd", name_len);
    let arg = u8("arg") as i32;
    let n = pick("nargs", 3);
    let args: Vec<J> = [J::from(arg), J::Null][..n].to_vec();
    let params = match pick("form", 5) {
        0 | 1 => json!({ "command": cmd.clone(), "arguments": args }),
        2 if n == 0 => json!({ "command": cmd.clone() }),
        3 => json!({ "command": 3, "arguments": args }),
        4 => json!({ "command": cmd.clone(), "arguments": { "a": 1 } }),
        _ => end(),
    };
    // that one is registered by the server itself, see vs_q_resource
    assume(cmd != "tinymist.getResources");
    let good = params.get("command").is_some_and(|c| c.is_string()) && params.get("arguments").map_or(true, |a| a.is_array());
    let res = feed(&mut d, Request { id: id.clone(), method: "workspace/executeCommand".into(), params }.into());
    check(res.is_ok(), "a request never stops the server");
    let b = cmd.as_bytes();
    let mut want: Option<Result<Option<i64>, i32>> = None;
    let mut ran = 0;
    let first = if n > 0 { arg } else { -5 };
    if !good {
        want = Some(Err(-32602));
        cover("malformed");
    } else if b == b"c/o" {
        ran = 1;
        want = Some(Ok(Some(first as i64)));
        cover("ran");
    } else if b == b"c/f" {
        ran = 1;
        cover("deferred");
    } else if b == b"c/e" {
        ran = 1;
        want = Some(Err(ecode));
    } else if b == b"c/r" {
        ran = 1;
        want = Some(Ok(None));
    } else {
        want = Some(Err(-32601));
        cover("unknown");
    }
    check(d.state().is_some_and(|s| s.cmds == ran), "exactly the registered command ran");
    if ran == 1 {
        check(d.state().is_some_and(|s| s.n_args == n && s.first_arg == if n > 0 { Some(arg) } else { None }), "a command gets its arguments");
    }
    answered(one_of(&out), want.clone(), &id);
    if want.is_none() {
        let tx = d.state_mut().unwrap().late.remove(0);
        let _ = tx.send(Ok(J::from(arg)));
        settle(&rt);
        answered(one_of(&out), Some(Ok(Some(arg as i64))), &id);
    }
    check(out.lsp.try_recv().is_err(), "at most one response per request");
    check(!root.weak().has_pending_requests(), "pending exactly while unanswered");
    std::mem::forget((rt, root, d, out));
}
fn answered(r: Option<Response>, want: Option<Result<Option<i64>, i32>>, id: &RequestId) {
    match (r, want) {
        (Some(r), Some(w)) => {
            check(r.id == *id, "the response carries the id of the request");
            check(r.result.is_some() != r.error.is_some(), "a response has a result or an error");
            match w {
                Ok(v) => check(r.error.is_none() && num(&r) == v, "the response has the result of its request"),
                Err(c) => check(r.error.is_some_and(|e| e.code == c), "the response has the right error code"),
            }
        }
        (None, None) => {}
        (None, _) => check(false, "a request is answered"),
        (Some(_), _) => check(false, "no response before the deferred one"),
    }
}
#[no_mangle]
pub extern "C" fn vs_q_command() {
    command(pick("len", 25));
}

/// The resource command, with any path and any arguments.
#[no_mangle]
pub extern "C" fn vs_q_resource() {
    let rt = runtime();
    let ecode = i32("code");
    let (root, out, mut d) = ready(&rt, ecode);
    let id = RequestId::from(i32("id"));
    let arg = u8("arg") as i32;
    let n = pick("nargs", 4);
    // any one-letter name, or another spelling
    let path = match pick("path", 6) {
        0 => format!("/{}", ascii("letter", 1)),
        k => String::from(["", "r", "/r/", "/q/e", "/e/."][k - 1]),
    };
    let kind = pick("first", 3);
    let first = match kind {
        0 => J::String(path.clone()),
        1 => J::from(3),
        _ => J::Null,
    };
    let args: Vec<J> = [first, J::from(arg), J::Bool(true)][..n].to_vec();
    let params = if n == 0 && bool("omitted") { json!({ "command": "tinymist.getResources" }) } else { json!({ "command": "tinymist.getResources", "arguments": args }) };
    let res = feed(&mut d, Request { id: id.clone(), method: "workspace/executeCommand".into(), params }.into());
    check(res.is_ok(), "a request never stops the server");
    let b = path.as_bytes();
    let mut ran = 0;
    let want = if n == 0 || kind != 0 {
        cover("malformed");
        Err(-32602)
    } else if b == b"/r" || b == b"/r/" {
        ran = 1;
        cover("ran");
        Ok(Some(n as i64))
    } else if b == b"/e" || b == b"/e/." {
        ran = 1;
        Err(ecode)
    } else {
        cover("unknown");
        Err(-32601)
    };
    check(d.state().is_some_and(|s| s.res == ran && s.cmds == 0), "exactly the registered resource ran");
    if ran == 1 {
        check(d.state().is_some_and(|s| s.n_args == n), "a resource gets its arguments");
    }
    answered(one_of(&out), Some(want), &id);
    check(out.lsp.try_recv().is_err(), "at most one response per request");
    check(!root.weak().has_pending_requests(), "pending exactly while unanswered");
    std::mem::forget((rt, root, d, out));
}

/// Internal events: exactly the handler of their type, in order, after the
/// messages that are already there.
#[no_mangle]
pub extern "C" fn vs_q_events() {
    let rt = runtime();
    let (root, out) = client::<LspMessage>(&rt);
    let cl = root.weak();
    let mut b = lsp_builder(cl.clone(), -7, false);
    let seen = std::rc::Rc::new(std::cell::RefCell::new(Vec::<(u8, u8, bool, u32)>::new()));
    let (s1, s2) = (seen.clone(), seen.clone());
    b = b
        .with_event(&0u8, move |mut s, v: u8| {
            let notes = s.ready().map(|s| s.notes);
            s1.borrow_mut().push((1, v, notes.is_some(), notes.unwrap_or(0)));
            if v == 200 {
                anyhow::bail!("stop");
            }
            Ok(())
        })
        .with_event(&(0u8, 0u8), move |mut s, v: (u8, u8)| {
            let notes = s.ready().map(|s| s.notes);
            s2.borrow_mut().push((2, v.1, notes.is_some(), notes.unwrap_or(0)));
            Ok(())
        });
    let mut d = b.build();
    let level = pick("level", 4);
    if level > 0 {
        let _ = feed(&mut d, Request { id: 1.into(), method: "initialize".into(), params: J::from(1) }.into());
    }
    if level > 1 {
        let _ = feed(&mut d, Notification { method: "initialized".into(), params: J::Null }.into());
    }
    if level > 2 {
        let _ = feed(&mut d, Request { id: 2.into(), method: "shutdown".into(), params: J::from(1) }.into());
    }
    // events first, then messages, all there before the loop starts
    let n = pick("events", 4);
    let mut want = vec![];
    let (l, lr) = crossbeam_channel::unbounded();
    let mut failed = false;
    let notes = pick("notes", 3);
    for i in 0..n {
        let v = u8("ev");
        match pick(["t0", "t1", "t2"][i], 3) {
            0 => {
                if bool("typed") {
                    cl.to_typed::<Srv>().send_event(v);
                } else {
                    cl.send_event(v);
                }
                if level < 3 && !failed {
                    want.push((1, v, level > 0, if level == 2 { notes as u32 } else { 0 }));
                    failed = v == 200;
                }
            }
            1 => {
                cl.send_event((0u8, v));
                if level < 3 && !failed {
                    want.push((2, v, level > 0, if level == 2 { notes as u32 } else { 0 }));
                }
            }
            _ => cl.send_event("nobody listens"),
        }
    }
    for _ in 0..notes {
        l.send(sync_ls::Message::Lsp(Notification { method: "n/o".into(), params: J::from(1) }.into())).unwrap();
    }
    // the events sent to the client arrive at the loop
    let er = out.event.clone();
    let (e2, er2) = crossbeam_channel::unbounded();
    for _ in 0..n {
        match er.try_recv() {
            Ok(e) => e2.send(e).unwrap(),
            Err(_) => check(false, "an event is queued"),
        }
    }
    drop(e2);
    let res = d.start_(rx(lr, er2));
    check(res.is_err() == failed, "exactly a failing event handler stops the loop");
    check(*seen.borrow() == want, "each event runs the handler of its type once, in order, after waiting messages");
    cover(["uninitialized", "initializing", "ready", "shut down"][level]);
    if n == 3 && level < 3 {
        cover("events");
    }
    std::mem::forget((rt, root, d, out, l, seen));
}
