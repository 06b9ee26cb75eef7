//! Offsets in a text and positions of the protocol.
use lsp_types::{Position, Range};
use tinymist_query::{to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, PositionEncoding};
use typst::syntax::Source;

/// A text of `n` characters: of one byte, some of them unknown, of two, three
/// and four bytes, and line ends.
pub fn some_text(n: usize) -> Vec<char> {
    (0..n)
        .map(|_| match vsym::pick("char", 6) {
            0 => letter(),
            1 => '\n',
            2 => '\r',
            3 => 'é',
            4 => '€',
            _ => '🥺',
        })
        .collect()
}
/// Some character of one byte that does not end a line.
pub fn letter() -> char {
    let c = vsym::u8("letter");
    vsym::assume(c < 0x80 && !(10..14).contains(&c));
    c as char
}
pub fn encoding() -> PositionEncoding {
    if vsym::bool("utf8") {
        PositionEncoding::Utf8
    } else {
        PositionEncoding::Utf16
    }
}
/// The units of the encoding a character takes.
pub fn units(e: PositionEncoding, c: char) -> usize {
    match e {
        PositionEncoding::Utf8 => c.len_utf8(),
        PositionEncoding::Utf16 => c.len_utf16(),
    }
}
/// The lines of the text as the protocol has them: where each begins and where
/// its end of line begins, as indices of characters.
pub fn lines(text: &[char]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let (mut start, mut i) = (0, 0);
    while i < text.len() {
        match text[i] {
            '\n' | '\r' => {
                out.push((start, i));
                if text[i] == '\r' && text.get(i + 1) == Some(&'\n') {
                    i += 1;
                }
                start = i + 1;
            }
            _ => (),
        }
        i += 1;
    }
    out.push((start, text.len()));
    out
}
/// The byte where the `i`th character begins.
pub fn byte(text: &[char], i: usize) -> usize {
    text[..i].iter().map(|c| c.len_utf8()).sum()
}
/// What the protocol says a position means: an offset, or either of two when it
/// is within a character.
pub fn meaning(text: &[char], e: PositionEncoding, line: usize, character: usize) -> (usize, usize) {
    let all = lines(text);
    let Some(&(start, end)) = all.get(line) else { return (byte(text, text.len()), byte(text, text.len())) };
    let mut at = 0;
    for i in start..end {
        if character <= at {
            return (byte(text, i), byte(text, i));
        }
        at += units(e, text[i]);
        if character < at {
            return (byte(text, i), byte(text, i + 1));
        }
    }
    (byte(text, end), byte(text, end))
}

fn offsets(n: usize) {
    let text = some_text(n);
    let e = encoding();
    let source = Source::detached(text.iter().collect::<String>());
    let i = vsym::pick("at", n + 1);
    let at = byte(&text, i);
    let got = to_lsp_position(at, e, &source);
    // A line end of two characters has an inside, which belongs to its line.
    let inside = i > 0 && i < n && text[i - 1] == '\r' && text[i] == '\n';
    let (line, (start, _)) = lines(&text).into_iter().enumerate().filter(|l| l.1 .0 <= i).last().unwrap();
    let column: usize = text[start..i].iter().map(|c| units(e, *c)).sum();
    vsym::check(got == Position::new(line as u32, column as u32), "an offset is given as the line and the units into it");
    if !inside {
        vsym::check(to_typst_position(got, e, &source) == Some(at), "a position given out leads back to its offset");
    }
    vsym::cover(if column > i - start { "wide" } else { "narrow" });
}
#[no_mangle]
pub extern "C" fn vs_q_offsets() {
    offsets(vsym::pick("len", 4))
}
#[no_mangle]
pub extern "C" fn vs_q_offsets_more() {
    offsets(4)
}

fn positions(n: usize) {
    let text = some_text(n);
    let e = encoding();
    let source = Source::detached(text.iter().collect::<String>());
    let (line, character) = (vsym::u32("line"), vsym::u32("character"));
    let got = to_typst_position(Position::new(line, character), e, &source);
    let (low, high) = meaning(&text, e, line as usize, character as usize);
    vsym::check(got.is_some(), "any position means an offset");
    let got = got.unwrap();
    vsym::check(got == low || got == high, "a position means the offset so many units into its line, or its end");
    vsym::cover(if low == high { "exact" } else { "within" });
}
/// Any position at all, in a short text.
#[no_mangle]
pub extern "C" fn vs_q_positions() {
    positions(vsym::pick("len", 4))
}
#[no_mangle]
pub extern "C" fn vs_q_positions_more() {
    positions(4)
}

/// A range is its two ends.
#[no_mangle]
pub extern "C" fn vs_q_ranges() {
    let text = some_text(2);
    let e = encoding();
    let source = Source::detached(text.iter().collect::<String>());
    let p = |n: &str| Position::new(vsym::u8(n) as u32, vsym::u8(n) as u32);
    let (a, b) = (p("a"), p("b"));
    let got = to_typst_range(Range::new(a, b), e, &source);
    vsym::check(got == Some(to_typst_position(a, e, &source).unwrap()..to_typst_position(b, e, &source).unwrap()), "a range means what its ends mean");
    let (i, j) = (vsym::pick("i", 3), vsym::pick("j", 3));
    let (i, j) = (byte(&text, i), byte(&text, j));
    let got = to_lsp_range(i..j, &source, e);
    vsym::check(got == Range::new(to_lsp_position(i, e, &source), to_lsp_position(j, e, &source)), "a range is given by its ends");
    vsym::cover("range");
}

/// The place of an offset in a file that is no source, such as a bibliography.
#[no_mangle]
pub extern "C" fn vs_q_places() {
    let n = vsym::pick("len", 4);
    let mut text = some_text(n);
    let e = encoding();
    // Such a file's lines end in \n or \r\n.
    if vsym::bool("dos") {
        text = text.into_iter().flat_map(|c| if c == '\n' { vec!['\r', c] } else { vec![c] }).collect();
    } else {
        vsym::assume(!text.contains(&'\r'));
    }
    let text: Vec<char> = text.iter().enumerate().filter(|(i, c)| **c != '\r' || text.get(i + 1) == Some(&'\n')).map(|(_, c)| *c).collect();
    let i = vsym::pick("at", text.len() + 1);
    vsym::assume(i == 0 || i == text.len() || text[i - 1] != '\r');
    let bytes = text.iter().collect::<String>().into_bytes();
    let past = if i == text.len() { vsym::pick("past", 3) } else { 0 };
    let got = tinymist_query::analysis::place_in_file(typst::foundations::Bytes::new(bytes), byte(&text, i) + past, e);
    let (line, (start, _)) = lines(&text).into_iter().enumerate().filter(|l| l.1 .0 <= i).last().unwrap();
    let column: usize = text[start..i].iter().map(|c| units(e, *c)).sum();
    vsym::check(got == Some(Position::new(line as u32, column as u32)), "an offset in any file is given as the line and the units into it");
    vsym::cover(if column > i - start { "wide" } else { "narrow" });
}
