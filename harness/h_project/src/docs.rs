//! The documents that are open in the editor.
use crate::project::*;
use crate::sim::*;
use crate::*;
use lsp_types::*;
use std::path::PathBuf;
use tinymist_world::args::TaskWhen;
use typst::World;
use vsym::{bool, check, cover, pick};

fn url(f: usize) -> Url {
    url_of(&FILES[f][2..])
}
pub fn open(sv: &mut ServerState, f: usize, text: String) -> LspResult<()> {
    let text_document = TextDocumentItem { uri: url(f), language_id: "typst".into(), version: 1, text };
    sv.did_open(DidOpenTextDocumentParams { text_document })
}
fn close(sv: &mut ServerState, f: usize) -> LspResult<()> {
    sv.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: url(f) } })
}
fn change(sv: &mut ServerState, f: usize, content_changes: Vec<TextDocumentContentChangeEvent>) -> LspResult<()> {
    let text_document = VersionedTextDocumentIdentifier { uri: url(f), version: 2 };
    sv.did_change(DidChangeTextDocumentParams { text_document, content_changes })
}
fn some_char(few: bool) -> char {
    match pick("char", if few { 3 } else { 5 }) {
        0 => {
            let c = vsym::u8("letter");
            vsym::assume(c < 0x80 && !(10..14).contains(&c));
            c as char
        }
        1 => '\n',
        2 => '🥺',
        3 => '€',
        _ => '\r',
    }
}
fn some_text(n: usize, few: bool) -> String {
    (0..n).map(|_| some_char(few)).collect()
}

/// What the editor shows: lines that end with `\n`, `\r\n` or `\r`.
struct Shown {
    chars: Vec<char>,
    utf8: bool,
    beyond: bool,
}
impl Shown {
    fn units(&self, c: char) -> u32 {
        if self.utf8 {
            c.len_utf8() as u32
        } else {
            c.len_utf16() as u32
        }
    }
    /// The positions between the characters, and their offsets.
    fn places(&self) -> Vec<(Position, usize)> {
        let (mut line, mut col) = (0, 0);
        let mut all = vec![(Position::new(0, 0), 0)];
        for (k, &c) in self.chars.iter().enumerate() {
            if c == '\n' || c == '\r' && self.chars.get(k + 1) != Some(&'\n') {
                (line, col) = (line + 1, 0);
            } else if c == '\r' {
                // Between the characters of a line end there is no position.
                continue;
            } else {
                col += self.units(c);
            }
            all.push((Position::new(line, col), k + 1));
        }
        all
    }
    /// Some position, and its offset; positions beyond the end of a line or of
    /// the text are those ends.
    fn position(&self) -> (Position, usize) {
        let places = self.places();
        let (pos, at) = places[pick("place", places.len())];
        let line_ends = !places.iter().any(|p| p.0.line == pos.line && p.1 > at);
        if self.beyond && line_ends && bool("beyond") {
            if pos.line == places.last().unwrap().0.line && bool("below") {
                return (Position::new(pos.line + 1, vsym::u32("column") % 2), at);
            }
            let more = vsym::u32("more");
            vsym::assume(more < 1000);
            return (Position::new(pos.line, pos.character + more), at);
        }
        (pos, at)
    }
    fn text(&self) -> String {
        self.chars.iter().collect()
    }
}

/// A text of `n` characters, of fewer kinds if there are several changes, is changed as often as the list says, by the
/// changes of one message or of several; texts of that many characters come in.
fn changes(n: usize, texts: &[usize]) {
    let utf8 = bool("utf8");
    let few = texts.len() > 1;
    let mut s = Sim::new(TaskWhen::Never);
    s.sv.config.const_config.position_encoding = if utf8 { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
    let sv = &mut s.sv;
    let text = some_text(n, few);
    let mut shown = Shown { chars: text.chars().collect(), utf8, beyond: !few };
    check(open(sv, A, text).is_ok(), "a document is opened");
    let at_once = texts.len() > 1 && bool("at-once");
    let mut all = vec![];
    let mut wrong = false;
    let before = shown.text();
    for (k, &len) in texts.iter().enumerate() {
        let text = some_text(len, few);
        let range = if bool("whole") {
            shown.chars = text.chars().collect();
            None
        } else {
            let (start, from) = shown.position();
            let (end, to) = shown.position();
            if from > to {
                wrong = true;
            } else {
                shown.chars.splice(from..to, text.chars());
            }
            Some(Range { start, end })
        };
        all.push(TextDocumentContentChangeEvent { range, range_length: None, text });
        if wrong {
            break;
        }
        if !at_once && k + 1 < texts.len() {
            check(change(sv, A, std::mem::take(&mut all)).is_ok(), "a change is applied");
        }
    }
    let done = change(sv, A, all);
    check(done.is_err() == wrong, "a change that is not wrong is applied");
    if wrong && at_once {
        // Nothing of a wrong message is applied.
        shown.chars = before.chars().collect();
    }
    let want = shown.text();
    let text = sv.query_source(path(A), |s| Ok(s.text().to_string()));
    check(text.is_ok_and(|t| t == want), "the text of an open document is that of the editor");
    let snap = sv.project.snapshot().unwrap();
    let text = snap.world().source(file_id(A)).map(|s| s.text().to_string());
    check(text == Ok(want), "a query reads the text of the editor");
    cover(if wrong { "wrong" } else { "changed" });
}
#[no_mangle]
pub extern "C" fn vs_doc_change() {
    changes(2, &[1])
}
#[no_mangle]
pub extern "C" fn vs_doc_changes() {
    changes(1, &[1, 1])
}
#[no_mangle]
pub extern "C" fn vs_doc_change_more() {
    changes(3, &[1])
}
#[no_mangle]
pub extern "C" fn vs_doc_changes_more() {
    changes(2, &[1, 1])
}

/// Documents are opened, changed and closed.
fn documents(n: usize) {
    let mut s = Sim::new(TaskWhen::Never);
    s.write(A, Some("disk".into()));
    let mut open_now: [Option<String>; 2] = [None, None];
    let which = [A, C];
    for k in 0..n {
        let f = pick("file", 2);
        let text = format!("s{k}");
        match pick("what", 4) {
            0 => {
                check(open(&mut s.sv, which[f], text.clone()).is_ok(), "a document is opened");
                open_now[f] = Some(text);
            }
            1 => {
                check(close(&mut s.sv, which[f]).is_ok(), "a document is closed");
                open_now[f] = None;
            }
            2 => {
                let done = change(&mut s.sv, which[f], vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: text.clone() }]);
                check(done.is_ok() == open_now[f].is_some(), "an open document is changed, and no other");
                if done.is_ok() {
                    open_now[f] = Some(text);
                }
            }
            _ => {
                s.watch();
                s.event();
            }
        }
        for f in 0..2 {
            let text = s.sv.query_source(path(which[f]), |s| Ok(s.text().to_string())).ok();
            check(text == open_now[f], "what is open is known, and nothing else");
        }
    }
    s.rest();
    let snap = s.sv.project.snapshot().unwrap();
    for f in 0..2 {
        let text = snap.world().source(file_id(which[f])).ok().map(|s| s.text().to_string());
        let disk = (f == 0).then(|| "disk".to_string());
        check(text == open_now[f].clone().or(disk), "a query reads what is open, or what is on the disk");
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_doc_open() {
    documents(3)
}
#[no_mangle]
pub extern "C" fn vs_doc_open_more() {
    documents(4)
}

/// A path has its own URL, which leads back to it.
fn urls(n: usize) {
    let untitled = bool("untitled");
    let name = |_: usize| -> String {
        (0..n)
            .map(|_| {
                if bool("ascii") {
                    let c = vsym::u8("c");
                    vsym::assume(c >= 0x20 && c < 0x7f && c != b'/');
                    c as char
                } else {
                    'é'
                }
            })
            .collect()
    };
    let name = name(0);
    vsym::assume(name != "." && name != "..");
    let path = PathBuf::from(format!("/{}/{name}", if untitled { "untitled" } else { "w" }));
    let url = path_to_url(&path);
    check(url.is_ok(), "a path has a URL");
    let url = url.unwrap();
    check(url.scheme() == if untitled { "untitled" } else { "file" }, "a URL tells whether the document has a file");
    check(url_to_path(url) == path, "the URL of a path leads to it");
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_doc_url() {
    urls(1)
}
#[no_mangle]
pub extern "C" fn vs_doc_url_more() {
    urls(3)
}

/// A URL that the server does not know how to read.
#[no_mangle]
pub extern "C" fn vs_doc_foreign() {
    let url = ["file://host/a.typ", "git:/a.typ?x", "http://a.b/c.typ", "mailto:a", "file:///", "untitled:"];
    let k = pick("url", url.len());
    let path = url_to_path(Url::parse(url[k]).unwrap());
    check(path.starts_with("/untitled") || k == 1 || k == 2, "a document without a file is not taken for a file");
    cover("end");
}
