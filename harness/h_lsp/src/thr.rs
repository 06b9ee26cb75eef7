//! The reader and writer threads between a byte stream and the server.
use crate::frame::Pieces;
use serde_json::Value as J;
use std::io::{self, BufReader, Write};
use std::sync::{Arc, Mutex};
use sync_ls::lsp::{Message as Lsp, Notification, Request, Response};
use sync_ls::transport::io_transport;
use sync_ls::{Message, MessageKind};
use vsym::*;

#[derive(Clone, Default)]
struct Sink(Arc<Mutex<(Vec<u8>, usize)>>, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if self.1 > 0 && s.0.len() + b.len() > self.1 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        s.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().1 += 1;
        Ok(())
    }
}

/// Any letter.
fn payload() -> u8 {
    let v = u8("payload");
    assume(v >= b'a' && v <= b'z');
    v
}
fn val(v: u8) -> J {
    J::String((v as char).into())
}
fn unval(v: Option<&J>) -> u8 {
    v.and_then(|v| v.as_str()).map_or(0, |s| s.as_bytes()[0])
}

fn tag(m: &Message) -> (u8, u8) {
    match m {
        Message::Lsp(Lsp::Request(r)) => (0, unval(Some(&r.params))),
        Message::Lsp(Lsp::Notification(n)) if n.method == "exit" => (2, unval(Some(&n.params))),
        Message::Lsp(Lsp::Notification(n)) => (1, unval(Some(&n.params))),
        Message::Lsp(Lsp::Response(r)) => (3, unval(r.result.as_ref())),
        _ => (9, 0),
    }
}
fn make(k: usize, v: u8) -> Lsp {
    match k {
        0 => Lsp::Request(Request { id: 7.into(), method: "m".into(), params: val(v) }),
        1 => Lsp::Notification(Notification { method: "n".into(), params: val(v) }),
        2 => Lsp::Notification(Notification { method: "exit".into(), params: val(v) }),
        _ => Lsp::Response(Response::new_ok(7.into(), val(v))),
    }
}

/// Every message of the stream reaches the server once and in order; reading
/// stops at the exit notification, at the end of the stream or at a malformed
/// message.
fn reader(n: usize) {
    let mut w = Vec::new();
    let mut want = vec![];
    let mut exited = false;
    for i in 0..n {
        let k = pick(["k0", "k1", "k2", "k3"][i], 4);
        let v = payload();
        let _ = make(k, v).write(&mut w);
        if !exited {
            want.push((k as u8, v));
            exited = k == 2;
        }
    }
    let broken = bool("broken");
    if broken {
        w.extend_from_slice(b"Content-Length: 2\r\n\r\n{}");
    }
    let step = [3, 64][pick("step", 2)];
    let (tx, rx, threads) = io_transport(
        MessageKind::Lsp,
        move || {
            let w: &'static [u8] = Box::leak(w.into_boxed_slice());
            BufReader::with_capacity(16, Pieces(w, step))
        },
        || Sink::default(),
    );
    let mut got = vec![];
    for m in rx.iter() {
        got.push(tag(&m));
    }
    check(got == want, "every message arrives once and in order");
    drop(tx);
    let r = threads.join();
    check(r.is_err() == (broken && !exited), "exactly a malformed stream is reported");
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_io_read() {
    reader(1 + pick("n", 2));
}
#[no_mangle]
pub extern "C" fn vs_io_read3() {
    reader(3);
}

/// What the server sends is written in order, each message whole and flushed,
/// before the writer finishes.
fn writer(n: usize, senders: usize) {
    let sink = Sink::default();
    let s2 = sink.clone();
    let (tx, rx, threads) = io_transport(MessageKind::Lsp, || io::empty(), move || s2);
    let mut hs = vec![];
    let sent: Vec<Vec<u8>> = (0..senders).map(|_| (0..n).map(|_| payload()).collect()).collect();
    for s in 0..senders {
        let tx = tx.clone();
        let mine = sent[s].clone();
        let f = move || {
            for v in mine {
                // the sender is told by the kind of the message
                let m: Message = Message::Lsp(make([1, 0][s], v));
                if tx.send(m).is_err() {
                    check(false, "a working writer takes messages");
                }
            }
        };
        if senders == 1 {
            f();
        } else {
            hs.push(std::thread::spawn(f));
        }
    }
    for h in hs {
        let _ = h.join();
    }
    drop(tx);
    check(threads.join_write().is_ok(), "the writer finishes without an error");
    drop(rx);
    let b = sink.0.lock().unwrap();
    let mut r = &b.0[..];
    let mut next = vec![0; senders];
    for _ in 0..n * senders {
        match Lsp::read(&mut r) {
            Ok(Some(m)) => {
                let (k, v) = tag(&Message::Lsp(m));
                let s = 1 - k as usize;
                check(v == sent[s][next[s]], "messages of one sender stay in order");
                next[s] += 1;
            }
            _ => check(false, "every message is written whole"),
        }
    }
    check(r.is_empty(), "nothing else is written");
    check(b.1 >= 1, "what is written is flushed");
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_io_write() {
    writer(3, 1);
}
#[no_mangle]
pub extern "C" fn vs_io_write2() {
    writer(1, 2);
}

/// A writer that fails reports it and does not keep the server waiting.
#[no_mangle]
pub extern "C" fn vs_io_write_fail() {
    let lim = 1 + pick("limit", 4) * 20;
    let sink = Sink(Default::default(), lim);
    let s2 = sink.clone();
    let (tx, rx, threads) = io_transport(MessageKind::Lsp, || io::empty(), move || s2);
    for i in 0..3 {
        // either taken or refused, never stuck
        let _ = tx.send(Message::Lsp(make(1, b'a' + i)));
    }
    drop(tx);
    check(threads.join_write().is_err(), "a failed write is reported");
    drop(rx);
    cover("end");
}
