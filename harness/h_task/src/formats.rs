//! The edits that format a document.
use std::task::{Context, Poll, Waker};

use crate::task::format::{FormatTask, FormatUserConfig, FormatterConfig};
use crate::{Config, LspPosition, PositionEncoding, FORMATTED};
use lsp_types::TextEdit;
use typst::syntax::Source;
use vsym::{bool, check, cover, pick};

fn letter() -> char {
    let c = vsym::u8("letter");
    vsym::assume(c < 0x80 && !(10..14).contains(&c));
    c as char
}
/// A character: any of one byte, line ends, and some of more bytes that have
/// bytes in common, before and behind.
fn some_char(wide: bool) -> char {
    if wide {
        ['é', 'ĩ', 'è', '🥺', '🥲', '慺', 'b'][pick("char", 7)]
    } else {
        match pick("char", 4) {
            0 => letter(),
            1 => '\n',
            2 => '\r',
            _ => 'é',
        }
    }
}
fn some_text(n: usize, wide: bool) -> Vec<char> {
    (0..n).map(|_| some_char(wide)).collect()
}
fn now<T>(f: crate::SchedulableResponse<T>) -> T {
    let mut f = f.unwrap();
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r.unwrap(),
        Poll::Pending => panic!("pending"),
    }
}
/// The byte a position means to an editor; never within a character.
fn offset(text: &[char], utf8: bool, p: LspPosition) -> usize {
    let (mut line, mut start, mut i) = (0, 0, 0);
    while line < p.line && i < text.len() {
        if text[i] == '\n' || text[i] == '\r' {
            if text[i] == '\r' && text.get(i + 1) == Some(&'\n') {
                i += 1;
            }
            line += 1;
            start = i + 1;
        }
        i += 1;
    }
    check(line == p.line, "an edit is of lines that are there");
    let byte = |i: usize| text[..i].iter().map(|c| c.len_utf8()).sum();
    let (mut i, mut at) = (start, 0);
    while at < p.character && i < text.len() && text[i] != '\n' && text[i] != '\r' {
        at += if utf8 { text[i].len_utf8() } else { text[i].len_utf16() } as u32;
        i += 1;
    }
    check(at <= p.character || i == start, "an edit does not split a character");
    byte(i)
}
fn applied(text: &[char], utf8: bool, edits: &[TextEdit]) -> String {
    let mut at: Vec<(usize, usize, &str)> =
        edits.iter().map(|e| (offset(text, utf8, e.range.start), offset(text, utf8, e.range.end), e.new_text.as_str())).collect();
    at.sort();
    check(at.iter().all(|e| e.0 <= e.1) && at.windows(2).all(|w| w[0].1 <= w[1].0), "the edits do not overlap");
    let mut out: String = text.iter().collect();
    for (from, to, with) in at.into_iter().rev() {
        out.replace_range(from..to, with);
    }
    out
}
fn formatted(old: Vec<char>, new: Vec<char>, typstyle: bool) {
    let utf8 = bool("utf8");
    let source = Source::detached(old.iter().collect::<String>());
    let new: String = new.into_iter().collect();
    *FORMATTED.lock().unwrap() = Some(new.clone());
    let config = if typstyle { FormatterConfig::Typstyle(Box::default()) } else { FormatterConfig::Typstfmt(Box::default()) };
    let position_encoding = if utf8 { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
    let edits = now(FormatTask::new(FormatUserConfig { config, position_encoding }).run(source));
    check(edits.is_some(), "what can be formatted is formatted");
    check(applied(&old, utf8, &edits.unwrap()) == new, "the edits make the text the formatted one");
    cover("formatted");
}
#[no_mangle]
pub extern "C" fn vs_fmt_edit() {
    let old = some_text(pick("old", 4), false);
    let new = some_text(pick("new", 3), false);
    formatted(old, new, bool("typstyle"))
}
#[no_mangle]
pub extern "C" fn vs_fmt_edit_more() {
    let old = some_text(3, false);
    let new = some_text(pick("new", 4), false);
    formatted(old, new, true)
}
/// Characters that begin or end with the same bytes.
#[no_mangle]
pub extern "C" fn vs_fmt_wide() {
    let old = some_text(pick("old", 3), true);
    let new = some_text(pick("new", 3), true);
    formatted(old, new, true)
}
/// Something between what both texts begin with and what both end with.
#[no_mangle]
pub extern "C" fn vs_fmt_mutual() {
    let (pre, post) = (some_text(1, true), some_text(1, true));
    let whole = |mid: Vec<char>| [&pre[..], &mid, &post].concat();
    let (old, new) = (some_text(pick("old", 2), true), some_text(pick("new", 2), true));
    formatted(whole(old), whole(new), true)
}
/// Without a formatter, or for a source that it cannot format, or that needs
/// nothing, there is nothing to do; the settings are those of the last change.
#[no_mangle]
pub extern "C" fn vs_fmt_off() {
    let old = some_text(2, false);
    let text: String = old.iter().collect();
    let fmt = |config| FormatUserConfig { config, position_encoding: PositionEncoding::Utf8 };
    let kind = |k: usize| match k {
        0 => FormatterConfig::Disable,
        1 => FormatterConfig::Typstyle(Box::default()),
        _ => FormatterConfig::Typstfmt(Box::new(Config(true))),
    };
    let (first, then) = (pick("first", 3), pick("then", 3));
    let broken = then == 1 && bool("broken");
    let task = FormatTask::new(fmt(kind(first)));
    *FORMATTED.lock().unwrap() = Some(text.clone());
    check(now(task.run(Source::detached(text.clone()))).unwrap_or_default().is_empty(), "what is formatted is left as it is");
    let held = task.clone();
    task.change_config(fmt(kind(then)));
    *FORMATTED.lock().unwrap() = (!broken).then(|| format!("{text}x"));
    let edits = now(held.run(Source::detached(text.clone()))).unwrap_or_default();
    if then == 0 || broken {
        check(edits.is_empty(), "what cannot be formatted is left as it is");
        cover("off");
    } else {
        check(applied(&old, true, &edits) == format!("{text}x"), "the formatter is that of the settings");
        cover("on");
    }
}
