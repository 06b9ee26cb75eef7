//! The service under the real driver: its handlers only record what they were
//! asked and answer in the way their name says.
use crate::world::*;
use futures::channel::oneshot;
use lsp_types::{notification as n, request as r};
use serde_json::Value as J;
use sync_ls::*;

/// The answer every successful handler gives carries this argument back.
pub struct Srv {
    pub client: Option<LspClient>,
    /// requests and notifications handled so far
    pub handled: u32,
    pub inits: u32,
    pub notes: u32,
    pub note_arg: i32,
    pub initialized: u32,
    pub shutdowns: u32,
    pub cmds: u32,
    pub res: u32,
    pub first_arg: Option<i32>,
    pub n_args: usize,
    pub code: i32,
    pub held: Vec<(RequestId, oneshot::Sender<LspResult<J>>)>,
    pub late: Vec<oneshot::Sender<LspResult<J>>>,
    pub replies: Vec<(u8, i32, bool)>,
}
impl Srv {
    pub fn new() -> Srv {
        Srv {
            client: None,
            handled: 0,
            inits: 0,
            notes: 0,
            note_arg: 0,
            initialized: 0,
            shutdowns: 0,
            cmds: 0,
            res: 0,
            first_arg: None,
            n_args: 0,
            code: -7,
            held: vec![],
            late: vec![],
            replies: vec![],
        }
    }
}

pub struct Init {
    pub srv: Srv,
    pub fail: bool,
}
impl Initializer for Init {
    type I = i32;
    type S = Srv;
    fn initialize(mut self, req: i32) -> (Srv, AnySchedulableResponse) {
        self.srv.inits += 1;
        let r = if self.fail {
            Err(resp(self.srv.code))
        } else {
            just_ok(J::from(req))
        };
        (self.srv, r)
    }
}

pub fn resp(code: i32) -> ResponseError {
    ResponseError { code, message: String::from("e"), data: None }
}

macro_rules! req {
    ($($t:ident $m:literal),*) => { $(
        pub enum $t {}
        impl r::Request for $t { type Params = i32; type Result = i32; const METHOD: &'static str = $m; }
        impl dapts::IRequest for $t { type Arguments = i32; type Response = i32; const COMMAND: &'static str = $m; }
    )* };
}
req! { SyncOk "s/o", SyncErr "s/e", Reject "e/r", Later "a/f", RawNone "r/n", RawTwice "r/2", RawErr "r/e", Shut "shutdown", Disc "disconnect" }
/// A result that is no JSON.
pub struct Odd;
impl serde::Serialize for Odd {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("odd"))
    }
}
impl<'de> serde::Deserialize<'de> for Odd {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Odd, D::Error> {
        Ok(Odd)
    }
}
pub enum OddReq {}
impl r::Request for OddReq {
    type Params = i32;
    type Result = Odd;
    const METHOD: &'static str = "s/b";
}
impl dapts::IRequest for OddReq {
    type Arguments = i32;
    type Response = Odd;
    const COMMAND: &'static str = "s/b";
}
pub fn odd(s: &mut Srv, _: i32) -> SchedulableResponse<Odd> {
    s.handled += 1;
    just_ok(Odd)
}
pub enum Note {}
impl n::Notification for Note {
    type Params = i32;
    const METHOD: &'static str = "n/o";
}
pub enum RawNote {}
impl n::Notification for RawNote {
    type Params = J;
    const METHOD: &'static str = "n/r";
}
pub enum Inited {}
impl n::Notification for Inited {
    type Params = J;
    const METHOD: &'static str = "initialized";
}
pub enum ExitNote {}
impl n::Notification for ExitNote {
    type Params = J;
    const METHOD: &'static str = "exit";
}

pub fn sync_ok(s: &mut Srv, a: i32) -> SchedulableResponse<i32> {
    s.handled += 1;
    just_ok(a)
}
pub fn sync_err(s: &mut Srv, _: i32) -> SchedulableResponse<i32> {
    s.handled += 1;
    just_result(Err(resp(s.code)))
}
pub fn reject(s: &mut Srv, _: i32) -> SchedulableResponse<i32> {
    s.handled += 1;
    Err(resp(s.code))
}
pub fn later(s: &mut Srv, _: i32) -> SchedulableResponse<i32> {
    s.handled += 1;
    let (tx, rx) = oneshot::channel::<LspResult<J>>();
    s.late.push(tx);
    just_future(async move {
        match rx.await {
            Ok(Ok(v)) => Ok(v.as_i64().unwrap_or(0) as i32),
            Ok(Err(e)) => Err(e),
            Err(_) => Err(resp(-1)),
        }
    })
}
pub fn raw_none(s: &mut Srv, _: RequestId, _: J) -> ScheduledResult {
    s.handled += 1;
    Ok(None)
}
pub fn raw_err(s: &mut Srv, _: RequestId, _: J) -> ScheduledResult {
    s.handled += 1;
    Err(resp(s.code))
}
pub fn raw_twice(s: &mut Srv, id: RequestId, a: J) -> ScheduledResult {
    s.handled += 1;
    let c = s.client.as_ref().unwrap();
    c.respond_result(id.clone(), Ok(a));
    c.respond_result(id, Ok(J::Null));
    Ok(Some(()))
}
pub fn shut(s: &mut Srv, _: RequestId, a: J) -> ScheduledResult {
    s.shutdowns += 1;
    let _ = a;
    Ok(None)
}
pub fn shut_deferred(s: &mut Srv, a: i32) -> SchedulableResponse<i32> {
    s.shutdowns += 1;
    later(s, a)
}
pub fn note(s: &mut Srv, a: i32) -> LspResult<()> {
    s.notes += 1;
    s.note_arg = a;
    if a == 77 {
        return Err(resp(1));
    }
    Ok(())
}
pub fn raw_note(s: &mut Srv, _: J) -> LspResult<()> {
    s.notes += 1;
    Ok(())
}
pub fn inited(s: &mut Srv, _: J) -> LspResult<()> {
    s.initialized += 1;
    Ok(())
}
fn args(s: &mut Srv, a: &[J]) {
    s.n_args = a.len();
    s.first_arg = a.first().and_then(|v| v.as_i64()).map(|v| v as i32);
}
pub fn cmd_ok(s: &mut Srv, a: Vec<J>) -> SchedulableResponse<i32> {
    s.cmds += 1;
    args(s, &a);
    just_ok(s.first_arg.unwrap_or(-5))
}
pub fn cmd_later(s: &mut Srv, a: Vec<J>) -> SchedulableResponse<i32> {
    s.cmds += 1;
    args(s, &a);
    let h = s.handled;
    let r = later(s, 0);
    s.handled = h;
    r
}
pub fn cmd_raw(s: &mut Srv, _: RequestId, a: Vec<J>) -> ScheduledResult {
    s.cmds += 1;
    args(s, &a);
    Ok(None)
}
pub fn cmd_err(s: &mut Srv, a: Vec<J>) -> SchedulableResponse<i32> {
    s.cmds += 1;
    args(s, &a);
    Err(resp(s.code))
}
pub fn res_ok(s: &mut Srv, a: Vec<J>) -> AnySchedulableResponse {
    s.res += 1;
    s.n_args = a.len();
    s.first_arg = a.get(1).and_then(|v| v.as_i64()).map(|v| v as i32);
    just_ok(J::from(a.len()))
}
pub fn res_raw(s: &mut Srv, _: RequestId, a: Vec<J>) -> ScheduledResult {
    s.res += 1;
    s.n_args = a.len();
    Err(resp(s.code))
}

pub type Lsp = LsDriver<LspMessage, Init>;
pub fn lsp_builder(c: LspClient, code: i32, fail: bool) -> LspBuilder<Init> {
    let mut srv = Srv::new();
    srv.client = Some(c.clone());
    srv.code = code;
    LspBuilder::new(Init { srv, fail }, c)
        .with_request::<SyncOk>(sync_ok)
        .with_request::<SyncErr>(sync_err)
        .with_request::<OddReq>(odd)
        .with_request::<Reject>(reject)
        .with_request::<Later>(later)
        .with_raw_request::<RawNone>(raw_none)
        .with_raw_request::<RawTwice>(raw_twice)
        .with_raw_request::<RawErr>(raw_err)
        .with_raw_request::<Shut>(shut)
        .with_notification::<Note>(note)
        .with_notification_::<RawNote>(raw_note)
        .with_notification_::<Inited>(inited)
        .with_notification_::<ExitNote>(raw_note)
        .with_command("c/o", cmd_ok)
        .with_command("c/f", cmd_later)
        .with_command("c/e", cmd_err)
        .with_command_("c/r", cmd_raw)
        .with_resource("/r", res_ok)
        .with_resource_(std::path::Path::new("/e").into(), res_raw)
}

/// Feeds one message to the real main loop and returns when it has gone idle.
pub fn feed(d: &mut Lsp, m: LspMessage) -> anyhow::Result<()> {
    let (l, lr) = crossbeam_channel::unbounded();
    let (_e, er) = crossbeam_channel::unbounded();
    l.send(Message::Lsp(m)).unwrap();
    drop(l);
    d.start_(rx(lr, er))
}
