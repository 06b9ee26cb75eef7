//! Histories of messages through the real debug adaptor driver.
use crate::driver::settle;
use crate::srv::*;
use crate::world::*;
use serde_json::Value as J;
use sync_ls::dap::{Event, Request, Response};
use sync_ls::{DapBuilder, DapMessage, LsDriver, LspClient};
use vsym::*;

type Dap = LsDriver<DapMessage, Init>;
fn dap_builder(c: LspClient, code: i32) -> DapBuilder<Init> {
    let mut srv = Srv::new();
    srv.client = Some(c.clone());
    srv.code = code;
    DapBuilder::new(Init { srv, fail: false }, c)
        .with_request::<SyncOk>(sync_ok)
        .with_request::<SyncErr>(sync_err)
        .with_request::<OddReq>(odd)
        .with_request::<Reject>(reject)
        .with_request::<Later>(later)
        .with_raw_request::<RawNone>(raw_none)
        .with_raw_request::<RawTwice>(raw_twice)
        .with_raw_request::<RawErr>(raw_err)
        .with_raw_request::<Disc>(shut)
}
fn feed(d: &mut Dap, m: DapMessage) -> anyhow::Result<()> {
    let (l, lr) = crossbeam_channel::unbounded();
    let (_e, er) = crossbeam_channel::unbounded();
    l.send(sync_ls::Message::Dap(m)).unwrap();
    drop(l);
    d.start_(rx(lr, er))
}
fn one(out: &Out) -> Option<Response> {
    match out.lsp.try_recv() {
        Ok(sync_ls::Message::Dap(DapMessage::Response(r))) => Some(r),
        Ok(_) => {
            check(false, "only responses are sent");
            None
        }
        Err(_) => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Uninit,
    Ready,
    Down,
}

fn history(steps: usize, ready: bool, wide: bool) {
    let rt = runtime();
    let (root, out) = client::<DapMessage>(&rt);
    let mut d = dap_builder(root.weak(), 1).build();
    let mut st = S::Uninit;
    let mut late: Vec<i64> = vec![];
    let mut used: Vec<i64> = vec![];
    if ready {
        let _ = feed(&mut d, Request { seq: -9, command: "initialize".into(), arguments: J::from(1) }.into());
        let r = one(&out);
        check(r.is_some_and(|r| r.request_seq == -9 && r.success), "initialize is answered");
        check(d.state().is_some(), "the adaptor is ready after initialize");
        st = S::Ready;
        used.push(-9);
    }
    for i in 0..steps {
        match pick(["k0", "k1", "k2", "k3", "k4"][i], 4) {
            0 => {
                let m = match pick(["m0", "m1", "m2", "m3", "m4"][i], 3) {
                    0 => ascii("cmd3", 3),
                    1 => ascii("cmd10", 10),
                    _ => String::new(),
                };
                let seq = if wide { i64("seq") } else { i32("seq") as i64 };
                for u in &used {
                    assume(*u != seq);
                }
                used.push(seq);
                let good = bool("params");
                let arg = u8("arg") as i32;
                let arguments = if good { J::from(arg) } else { J::Bool(true) };
                let mb = m.clone().into_bytes();
                let before = d.state().map_or(0, |s| s.handled + s.shutdowns);
                let res = feed(&mut d, Request { seq, command: m, arguments }.into());
                check(res.is_ok(), "a request never stops the adaptor");
                let handled = d.state().map(|s| s.handled + s.shutdowns - before);
                let r = one(&out);
                check(out.lsp.try_recv().is_err(), "at most one response per request");
                // Some(Ok(body)) or Some(Err(message of the handler, if any))
                let mut want: Option<Result<Option<i64>, Option<&str>>> = None;
                let mut ran = 0;
                match st {
                    S::Uninit if mb == b"initialize" => {
                        if good {
                            st = S::Ready;
                            want = Some(Ok(Some(arg as i64)));
                            cover("initialized");
                        } else {
                            want = Some(Err(None));
                            cover("bad-initialize");
                        }
                    }
                    S::Uninit => {
                        want = Some(Err(Some("not initialized yet")));
                        cover("not-initialized");
                    }
                    S::Ready | S::Down if mb == b"initialize" => {
                        want = Some(Err(None));
                        cover("twice-initialized");
                    }
                    S::Down => {
                        want = Some(Err(None));
                        cover("after-disconnect");
                    }
                    S::Ready => match &mb[..] {
                        b"s/o" if good => {
                            ran = 1;
                            want = Some(Ok(Some(arg as i64)));
                            cover("sync");
                        }
                        b"s/e" | b"e/r" if good => {
                            ran = 1;
                            want = Some(Err(Some("e")));
                        }
                        b"s/b" if good => {
                            ran = 1;
                            want = Some(Err(None));
                            cover("odd");
                        }
                        b"a/f" if good => {
                            ran = 1;
                            cover("deferred");
                        }
                        b"s/o" | b"s/e" | b"e/r" | b"a/f" | b"s/b" => {
                            want = Some(Err(None));
                            cover("bad-arguments");
                        }
                        b"r/n" => {
                            ran = 1;
                            want = Some(Ok(None));
                        }
                        b"r/e" => {
                            ran = 1;
                            want = Some(Err(Some("e")));
                        }
                        b"r/2" => {
                            ran = 1;
                            want = Some(Ok(if good { Some(arg as i64) } else { None }));
                            cover("raw-twice");
                        }
                        b"disconnect" => {
                            want = Some(Ok(None));
                            st = S::Down;
                            cover("disconnect");
                        }
                        _ => {
                            want = Some(Err(Some("method not found")));
                            cover("unknown-command");
                        }
                    },
                }
                if let (Some(h), true) = (handled, st == S::Ready) {
                    check(h == ran, "exactly the registered handler ran");
                }
                check((st == S::Ready) == d.state().is_some(), "the adaptor serves exactly between initialize and disconnect");
                if want.is_none() {
                    check(r.is_none(), "no response before the deferred one");
                    late.push(seq);
                } else {
                    verdict(r, seq, want.unwrap());
                }
            }
            1 => {
                // an event or a stray response: never answered
                let e = bool("event");
                let m: DapMessage = if e {
                    Event { seq: i64("eseq"), event: ascii("event", 2), body: J::Null }.into()
                } else {
                    Response { request_seq: i64("rseq"), success: bool("ok"), message: None, body: None }.into()
                };
                check(feed(&mut d, m).is_ok(), "an event or a response never stops the adaptor");
                check(out.lsp.try_recv().is_err(), "an event or a response is never answered");
                check((st == S::Ready) == d.state().is_some(), "events do not change the state");
                cover("event");
            }
            2 => {
                // the adaptor sends an event of its own
                let c = root.weak().to_typed::<Srv>();
                let v = bool("stopped");
                c.send_dap_event_(Event::new(i as i64, "ev".into(), v));
                match out.lsp.try_recv() {
                    Ok(sync_ls::Message::Dap(DapMessage::Event(e))) => {
                        check(e.event == "ev" && e.body == J::Bool(v) && e.seq == i as i64, "an event is sent as given");
                        cover("own-event");
                    }
                    _ => check(false, "an event is sent as given"),
                }
            }
            _ => {
                let n = late.len();
                if n == 0 {
                    end();
                }
                let j = pick("done", n);
                let seq = late.remove(j);
                let ok = bool("ok");
                let v = u8("value") as i32;
                let tx = match d.state_mut() {
                    Some(s) => s.late.remove(j),
                    None => end(),
                };
                let _ = tx.send(if ok { Ok(J::from(v)) } else { Err(resp(v)) });
                settle(&rt);
                let r = one(&out);
                check(out.lsp.try_recv().is_err(), "at most one response per request");
                verdict(r, seq, if ok { Ok(Some(v as i64)) } else { Err(Some("e")) });
                cover("completed");
            }
        }
        check(root.weak().has_pending_requests() == !late.is_empty(), "pending exactly while unanswered");
    }
    cover("end");
    std::mem::forget((rt, root, d, out));
}
fn verdict(r: Option<Response>, seq: i64, want: Result<Option<i64>, Option<&str>>) {
    let Some(r) = r else {
        check(false, "a request is answered");
        return;
    };
    check(r.request_seq == seq, "the response carries the sequence number of the request");
    match want {
        Ok(v) => {
            check(r.success, "a request that succeeds is answered with success");
            check(r.body.as_ref().and_then(|b| b.as_i64()) == v, "the response has the result of its request");
        }
        Err(m) => {
            check(!r.success && r.message.is_some(), "a request that fails is answered with an error");
            if let Some(m) = m {
                check(r.message.as_deref() == Some(m), "an error response says why");
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn vs_dap_start() {
    history(3, false, false);
}
#[no_mangle]
pub extern "C" fn vs_dap_ready() {
    history(2, true, false);
}
#[no_mangle]
pub extern "C" fn vs_dap_wide() {
    history(2, true, true);
}
#[no_mangle]
pub extern "C" fn vs_dap_more() {
    history(3, true, true);
}

/// Events the adaptor sends have sequence numbers of their own.
#[no_mangle]
pub extern "C" fn vs_dap_events() {
    let rt = runtime();
    let (root, out) = client::<DapMessage>(&rt);
    let c = root.weak().to_typed::<Srv>();
    let mut seen: Vec<i64> = vec![];
    for _ in 0..3 {
        let code = u8("code") as i64;
        if bool("exited") {
            c.send_dap_event::<dapts::event::Exited>(dapts::ExitedEvent { exit_code: code as u64 });
        } else {
            c.send_dap_event::<dapts::event::Initialized>(None);
        }
        match out.lsp.try_recv() {
            Ok(sync_ls::Message::Dap(DapMessage::Event(e))) => {
                check(!seen.contains(&e.seq), "sequence numbers of events are never reused");
                check(
                    e.event == "initialized" && e.body.is_null() || e.event == "exited" && e.body.get("exitCode").and_then(|c| c.as_i64()) == Some(code),
                    "an event is sent as given",
                );
                seen.push(e.seq);
            }
            _ => check(false, "an event is sent as given"),
        }
    }
    cover("end");
    std::mem::forget((rt, root, out, c));
}
