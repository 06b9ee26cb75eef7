//! Framing and JSON encoding of the base protocol.
use serde_json::{Map, Value as J};
use std::io::{self, BufRead, BufReader, Read};
use sync_ls::lsp::*;
use sync_ls::{dap, RequestId, ResponseError};
use vsym::*;

/// Hands out its bytes in pieces of at most `step`.
pub struct Pieces<'a>(pub &'a [u8], pub usize);
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Any ASCII text; the ways its characters are written in JSON are told apart
/// first.
fn chars(name: &str, n: usize) -> String {
    let s = ascii(name, n);
    for c in s.bytes() {
        each(match c {
            b'"' | b'\\' | 8 | 9 | 10 | 12 | 13 => 1,
            0..=31 => 2,
            _ => 0,
        });
    }
    s
}
/// Any byte value; its number of digits is told apart first.
fn small(name: &str) -> u8 {
    let v = u8(name);
    each(if v < 10 {
        1
    } else if v < 100 {
        2
    } else {
        3
    });
    v
}

/// A JSON value of one of the shapes protocol messages are made of.
fn value(which: usize, text: usize) -> J {
    match which {
        0 => J::Null,
        1 => J::Bool(bool("b")),
        2 => J::from([0, -1, i64::MIN, i64::MAX, 10][pick("num", 5)]),
        3 => J::String(chars("str", text)),
        4 => {
            let mut m = Map::new();
            m.insert(chars("key", 1), J::Array(vec![J::from(7), J::Null]));
            m.insert(String::from("method"), J::Object(Map::new()));
            J::Object(m)
        }
        _ => J::Array(vec![J::Bool(bool("b")), J::Object(Map::new()), J::Array(vec![]), J::from(u64::MAX)]),
    }
}
fn some_id() -> RequestId {
    match pick("idkind", 4) {
        0 => RequestId::from(small("id") as i32),
        1 => RequestId::from(i32::MIN),
        2 => RequestId::from(i32::MAX),
        _ => RequestId::from(chars("ids", 1)),
    }
}

fn same(a: &Message, b: &Message) -> bool {
    match (a, b) {
        (Message::Request(a), Message::Request(b)) => a.id == b.id && a.method == b.method && a.params == b.params,
        (Message::Notification(a), Message::Notification(b)) => a.method == b.method && a.params == b.params,
        (Message::Response(a), Message::Response(b)) => {
            let e = match (&a.error, &b.error) {
                (Some(a), Some(b)) => a.code == b.code && a.message == b.message && a.data == b.data,
                (None, None) => true,
                _ => false,
            };
            // an absent result and a null one are the same to the reader
            let null = J::Null;
            a.id == b.id && e && a.result.as_ref().unwrap_or(&null) == b.result.as_ref().unwrap_or(&null)
        }
        _ => false,
    }
}

/// A request, notification or response; one of its fields (`focus`) is
/// arbitrary, the others take one of two values.
fn message(kind: usize) -> Message {
    let focus = pick("focus", 3);
    let id = if focus == 0 && kind < 3 { some_id() } else { [RequestId::from(-7), RequestId::from(String::from("é\n"))][pick("id2", 2)].clone() };
    let method = if focus == 1 { chars("method", 2) } else { String::from("a/b") };
    let val = if focus == 2 { value(pick("shape", 6), 1) } else { [J::Null, J::from(vec![1, 2])][pick("val2", 2)].clone() };
    match kind {
        0 => Message::Request(Request { id, method, params: val }),
        1 => Message::Notification(Notification { method, params: val }),
        2 => Message::Response(Response { id, result: Some(val), error: None }),
        _ => {
            let code = if focus == 0 { -(small("ecode") as i32) } else { -32600 };
            let data = if val.is_null() { None } else { Some(val) };
            Message::Response(Response { id, result: None, error: Some(ResponseError { code, message: method, data }) })
        }
    }
}

#[no_mangle]
pub extern "C" fn vs_fr_rt_request() {
    roundtrip(0)
}
#[no_mangle]
pub extern "C" fn vs_fr_rt_notification() {
    roundtrip(1)
}
#[no_mangle]
pub extern "C" fn vs_fr_rt_result() {
    roundtrip(2)
}
#[no_mangle]
pub extern "C" fn vs_fr_rt_error() {
    roundtrip(3)
}
fn roundtrip(kind: usize) {
    let m = message(kind);
    let mut w = Vec::new();
    check(m.clone().write(&mut w).is_ok(), "a message can be written");
    let n = w.len();
    check(head_ok(&w), "the header announces the length of the body");
    // a second message and trailing garbage follow on the same stream
    let note = Notification { method: "x".into(), params: J::Null };
    check(Message::Notification(note).write(&mut w).is_ok(), "a message can be written");
    let total = w.len();
    w.extend_from_slice(b"rest");
    let mut r = &w[..];
    match Message::read(&mut r) {
        Ok(Some(b)) => {
            check(same(&m, &b), "a message survives the wire");
            check(r.len() == w.len() - n, "exactly the message is consumed");
        }
        _ => check(false, "a written message can be read"),
    }
    match Message::read(&mut r) {
        Ok(Some(Message::Notification(b))) => {
            check(b.method == "x" && b.params.is_null(), "the next message survives the wire");
            check(r.len() == w.len() - total, "exactly the next message is consumed");
        }
        _ => check(false, "the next message can be read"),
    }
    cover("read");
}

/// "Content-Length: N\r\n\r\n" followed by exactly N bytes.
fn head_ok(w: &[u8]) -> bool {
    const H: &[u8] = b"Content-Length: ";
    if !w.starts_with(H) {
        return false;
    }
    let mut n = 0usize;
    let mut i = H.len();
    while i < w.len() && w[i].is_ascii_digit() {
        n = n * 10 + (w[i] - b'0') as usize;
        i += 1;
    }
    w[i..].starts_with(b"\r\n\r\n") && w.len() - i - 4 == n
}

fn seq() -> i64 {
    match pick("seqkind", 3) {
        0 => small("seq") as i64,
        1 => i64::MIN,
        _ => i64::MAX,
    }
}

/// Every id and error code.
#[no_mangle]
pub extern "C" fn vs_fr_ids() {
    let base = [0, 900, 9_900, 65_400, 999_900, 99_999_900, i32::MAX - 255, i32::MIN, -256, -1000 - 128][pick("base", 10)];
    let id = base + u8("id") as i32;
    let mut w = Vec::new();
    let m = Response::new_ok(id.into(), J::Null);
    check(Message::Response(m).write(&mut w).is_ok(), "a message can be written");
    check(head_ok(&w), "the header announces the length of the body");
    let mut r = &w[..];
    match Message::read(&mut r) {
        Ok(Some(Message::Response(b))) => check(b.id == id.into() && b.error.is_none(), "a message survives the wire"),
        _ => check(false, "a written message can be read"),
    }
    cover("read");
}

#[no_mangle]
pub extern "C" fn vs_fr_dap_roundtrip() {
    let focus = pick("focus", 3);
    let seq = if focus == 0 { seq() } else { 3 };
    let text = if focus == 1 { chars("text", 1) } else { String::from("é\n") };
    let val = if focus == 2 { value(pick("shape", 6), 1) } else { J::from(vec![1, 2]) };
    let m = match pick("kind", 3) {
        0 => dap::Message::Request(dap::Request { seq, command: text, arguments: val }),
        1 => dap::Message::Event(dap::Event { seq, event: text, body: val }),
        _ => dap::Message::Response(dap::Response {
            request_seq: seq,
            success: bool("ok"),
            message: if focus == 1 || bool("msg") { Some(text) } else { None },
            body: if val.is_null() { None } else { Some(val) },
        }),
    };
    let mut w = Vec::new();
    check(m.clone().write(&mut w).is_ok(), "a message can be written");
    check(head_ok(&w), "the header announces the length of the body");
    let n = w.len();
    w.extend_from_slice(b"Content-Length: 5\r\n");
    let mut r = &w[..];
    match (dap::Message::read(&mut r), m) {
        (Ok(Some(dap::Message::Request(b))), dap::Message::Request(a)) => {
            check(a.seq == b.seq && a.command == b.command && a.arguments == b.arguments, "a message survives the wire");
            cover("request");
        }
        (Ok(Some(dap::Message::Event(b))), dap::Message::Event(a)) => {
            check(a.seq == b.seq && a.event == b.event && a.body == b.body, "a message survives the wire");
            cover("event");
        }
        (Ok(Some(dap::Message::Response(b))), dap::Message::Response(a)) => {
            check(
                a.request_seq == b.request_seq && a.success == b.success && a.message == b.message && a.body == b.body,
                "a message survives the wire",
            );
            cover("response");
        }
        _ => check(false, "a written message can be read"),
    }
    check(r.len() == w.len() - n, "exactly the message is consumed");
}

/// Text bodies of any content: every escape, control character and code point
/// class survives.
#[no_mangle]
pub extern "C" fn vs_fr_text() {
    text(1 + pick("len", 2));
}
#[no_mangle]
pub extern "C" fn vs_fr_text4() {
    text(3 + pick("len", 2));
}
fn text(n: usize) {
    let b = vec("text", n);
    let Ok(s) = String::from_utf8(b) else { end() };
    let m = Notification { method: s.clone(), params: J::Null };
    let mut w = Vec::new();
    check(Message::Notification(m).write(&mut w).is_ok(), "a message can be written");
    check(head_ok(&w), "the header announces the length of the body");
    let mut r = &w[..];
    match Message::read(&mut r) {
        Ok(Some(Message::Notification(m))) => check(m.method == s, "text survives the wire"),
        _ => check(false, "a written message can be read"),
    }
    check(r.is_empty(), "exactly the message is consumed");
    cover("read");
}

/// The stream may arrive in pieces of any size.
#[no_mangle]
pub extern "C" fn vs_fr_pieces() {
    let id = small("id") as i32;
    let s = String::from("m");
    let mut w = Vec::new();
    let a = Request { id: id.into(), method: s.clone(), params: J::Null };
    check(Message::Request(a).write(&mut w).is_ok(), "a message can be written");
    let b = Response::new_ok(RequestId::from(2), J::from(small("v")));
    let bv = b.result.clone();
    check(Message::Response(b).write(&mut w).is_ok(), "a message can be written");
    let step = [1, 2, 5, 19, 64][pick("step", 5)];
    let cap = [1, 7, 64][pick("cap", 3)];
    let mut r = BufReader::with_capacity(cap, Pieces(&w, step));
    match Message::read(&mut r) {
        Ok(Some(Message::Request(m))) => check(m.id == id.into() && m.method == s, "a message survives the wire"),
        _ => check(false, "a written message can be read"),
    }
    match Message::read(&mut r) {
        Ok(Some(Message::Response(m))) => check(m.id == 2.into() && m.result == bv, "the next message survives the wire"),
        _ => check(false, "the next message can be read"),
    }
    check(matches!(Message::read(&mut r), Ok(None)), "the end of the stream is clean");
    cover("read");
}

fn classify(x: &io::Result<Option<Message>>) {
    match x {
        Ok(None) => cover("eof"),
        Ok(Some(_)) => cover("message"),
        Err(_) => cover("error"),
    }
}

/// Arbitrary bytes.
#[no_mangle]
pub extern "C" fn vs_fr_any() {
    let b = vec("in", 1 + pick("len", 12));
    let mut r = &b[..];
    let x = Message::read(&mut r);
    classify(&x);
    check(!matches!(x, Ok(Some(_))), "no message in a stream without a body length");
}
#[no_mangle]
pub extern "C" fn vs_fr_any_dap() {
    let b = vec("in", 10);
    let mut r = &b[..];
    let x = dap::Message::read(&mut r);
    check(!matches!(x, Ok(Some(_))), "no message in a stream without a body length");
    cover("done");
}

/// A body length of any digits, followed by fewer bytes.
#[no_mangle]
pub extern "C" fn vs_fr_length() {
    length([1, 20][pick("digits", 2)]);
}
#[no_mangle]
pub extern "C" fn vs_fr_length_more() {
    length([2, 21][pick("digits", 2)]);
}
fn length(n: usize) {
    let mut w = b"Content-Length: ".to_vec();
    let v = vec("value", n);
    let mut all = true;
    for c in &v {
        all &= c.is_ascii_digit();
    }
    if n > 2 {
        assume(all);
    }
    w.extend_from_slice(&v);
    w.extend_from_slice(b"\r\n\r\n{}");
    let mut r = &w[..];
    let x = Message::read(&mut r);
    check(x.is_err(), "a body that is no message is refused");
    classify(&x);
}

/// Headers: any case, any other header before or after.
#[no_mangle]
pub extern "C" fn vs_fr_header() {
    let mut w = Vec::new();
    let other = pick("other", 4);
    let mut name = vec("name", 3);
    for c in name.iter() {
        assume(*c > b' ' && *c < 0x7f && *c != b':');
    }
    let mut val = vec("val", 2);
    for c in val.iter() {
        assume(*c >= b' ' && *c < 0x7f);
    }
    let mut push_other = |w: &mut Vec<u8>| {
        w.append(&mut name.clone());
        w.extend_from_slice(b": ");
        w.append(&mut val.clone());
        w.extend_from_slice(b"\r\n");
    };
    if other & 1 == 1 {
        push_other(&mut w);
    }
    let mut key = b"content-length".to_vec();
    for i in [0, 8, 13] {
        if bool("upper") {
            key[i] = key[i].to_ascii_uppercase();
        }
    }
    w.append(&mut key);
    w.extend_from_slice(b": 14\r\n");
    if other & 2 == 2 {
        push_other(&mut w);
    }
    w.extend_from_slice(b"\r\n{\"method\":\"m\"}");
    let _ = &mut val;
    let _ = &mut name;
    let mut r = &w[..];
    match Message::read(&mut r) {
        Ok(Some(Message::Notification(n))) => check(n.method == "m" && r.is_empty(), "unknown headers are skipped"),
        _ => check(false, "unknown headers are skipped"),
    }
    cover("read");
}

/// A stream cut anywhere yields no message.
#[no_mangle]
pub extern "C" fn vs_fr_cut() {
    let m = Request { id: (small("id") as i32).into(), method: chars("m", 1), params: J::Null };
    let mut w = Vec::new();
    check(Message::Request(m).write(&mut w).is_ok(), "a message can be written");
    let cut = each(usize_below("cut", w.len()));
    let body = w.iter().position(|c| *c == b'{').unwrap_or(0);
    let mut r = &w[..cut];
    let x = Message::read(&mut r);
    check(!matches!(x, Ok(Some(_))), "a message cut short is not delivered");
    if cut == 0 {
        check(matches!(x, Ok(None)), "the end of the stream is clean");
    }
    if cut >= body {
        check(x.is_err(), "a body cut short is an error");
    }
    classify(&x);
}
fn usize_below(name: &str, n: usize) -> usize {
    let v = u8(name) as usize;
    assume(v < n);
    v
}

/// Any short body: either an error or a message that writes and reads back as
/// itself.
fn body(n: usize, prefix: &[u8], suffix: &[u8]) {
    let mut b = prefix.to_vec();
    let mut v = vec("body", n);
    for c in &v {
        // fractions and exponents are left out: no floating point here
        assume(*c != b'.' && *c != b'e' && *c != b'E');
    }
    b.append(&mut v);
    b.extend_from_slice(suffix);
    let mut w = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
    w.extend_from_slice(&b);
    w.extend_from_slice(b"Content");
    let mut r = &w[..];
    let x = Message::read(&mut r);
    check(r.len() == 7, "exactly the body is consumed");
    classify(&x);
    match x {
        Ok(Some(m)) => {
            let mut o = Vec::new();
            check(m.clone().write(&mut o).is_ok(), "a message can be written");
            match Message::read(&mut &o[..]) {
                Ok(Some(m2)) => check(same(&m, &m2), "a message survives the wire"),
                _ => check(false, "a written message can be read"),
            }
        }
        Ok(None) => check(false, "a body is not the end of the stream"),
        Err(_) => {}
    }
}
#[no_mangle]
pub extern "C" fn vs_fr_body() {
    body(3, b"", b"");
}
#[no_mangle]
pub extern "C" fn vs_fr_body4() {
    body(4, b"", b"");
}
/// Escapes in the text of a body.
#[no_mangle]
pub extern "C" fn vs_fr_escape() {
    match pick("where", 3) {
        0 => body(2, b"{\"method\":\"\\", b"\"}"),
        1 => body(4, b"{\"method\":\"\\u", b"\"}"),
        _ => body(4, b"{\"method\":\"\\ud83d\\u", b"\"}"),
    }
}
#[no_mangle]
pub extern "C" fn vs_fr_body_in3() {
    match pick("where", 3) {
        0 => body(3, b"{\"method\":\"", b"\"}"),
        1 => body(3, b"{\"method\":\"a\",\"id\":", b"}"),
        _ => body(3, b"{\"id\":1,\"result\":", b"}"),
    }
}
#[no_mangle]
pub extern "C" fn vs_fr_body_in() {
    match pick("where", 3) {
        0 => body(2, b"{\"method\":\"", b"\"}"),
        1 => body(2, b"{\"method\":\"a\",\"id\":", b"}"),
        _ => body(2, b"{\"id\":1,\"result\":", b"}"),
    }
}

/// Classification by the fields that are present, in any order.
#[no_mangle]
pub extern "C" fn vs_fr_classify() {
    let (id, method, params, result, error, extra) = (bool("id?"), bool("method?"), bool("params?"), bool("result?"), bool("error?"), bool("extra?"));
    let idv = if bool("text id") { RequestId::from(ascii("idt", 2)) } else { RequestId::from(i32("idv")) };
    let pv = u8("pv");
    let rv = u8("rv");
    let ev = u8("ev") as i32;
    let mut parts: Vec<(&str, J)> = vec![("jsonrpc", J::from("2.0"))];
    if each(id as usize) == 1 {
        parts.push(("id", serde_json::to_value(&idv).unwrap()));
    }
    if each(method as usize) == 1 {
        parts.push(("method", J::from("m")));
    }
    if each(params as usize) == 1 {
        parts.push(("params", J::from(pv)));
    }
    if each(result as usize) == 1 {
        parts.push(("result", J::from(rv)));
    }
    if each(error as usize) == 1 {
        let mut m = Map::new();
        m.insert("code".into(), J::from(ev));
        m.insert("message".into(), J::from("t"));
        parts.push(("error", J::Object(m)));
    }
    if each(extra as usize) == 1 {
        parts.push(("zzz", J::Array(vec![J::Null])));
    }
    let rev = bool("reversed");
    let n = parts.len();
    let mut o = Map::new();
    for i in 0..n {
        let j = if rev { n - 1 - i } else { i };
        o.insert(parts[j].0.into(), parts[j].1.clone());
    }
    let x = serde_json::from_value::<Message>(J::Object(o));
    match x {
        Ok(Message::Request(r)) => {
            check(id && method, "a request has an id and a method");
            check(r.id == idv && r.method == "m", "a request keeps its id and method");
            check(if params { r.params == J::from(pv) } else { r.params.is_null() }, "a request keeps its parameters");
            cover("request");
        }
        Ok(Message::Response(r)) => {
            check(id && !method, "a response has an id and no method");
            check(r.id == idv, "a response keeps its id");
            check(r.result == if result { Some(J::from(rv)) } else { None }, "a response keeps its result");
            check(r.error.map(|e| e.code) == if error { Some(ev) } else { None }, "a response keeps its error");
            cover("response");
        }
        Ok(Message::Notification(r)) => {
            check(!id && method, "a notification has a method and no id");
            check(r.method == "m" && if params { r.params == J::from(pv) } else { r.params.is_null() }, "a notification keeps its parameters");
            cover("notification");
        }
        Err(_) => {
            check(!id && !method, "only an object with neither id nor method is refused");
            cover("refused");
        }
    }
}

#[allow(dead_code)]
fn _unused(r: &mut dyn BufRead) {
    let _ = r;
}
