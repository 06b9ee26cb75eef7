//! A source file as typst-syntax 0.13 has it: its id, its text, and the
//! conversions between bytes, UTF-16 code units, lines and columns, worked out
//! from the text whenever they are asked for.
use std::ops::Range;
use std::sync::Arc;

use super::{FileId, SyntaxNode, VirtualPath};

pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
}

struct Repr {
    id: FileId,
    text: String,
    root: SyntaxNode,
}
#[derive(Clone)]
pub struct Source(Arc<Repr>);
impl PartialEq for Source {
    fn eq(&self, o: &Self) -> bool {
        self.0.id == o.0.id && self.0.text == o.0.text
    }
}
impl Eq for Source {}
impl std::hash::Hash for Source {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.id.hash(h);
        self.0.text.hash(h);
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl std::fmt::Debug for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Source({:?})", self.id())
    }
}

/// The lines of a text: where each starts, in bytes and in UTF-16 code units.
fn lines(text: &str) -> impl Iterator<Item = (usize, usize)> + '_ {
    let mut chars = text.char_indices().peekable();
    let mut utf16 = 0;
    let rest = std::iter::from_fn(move || loop {
        let (i, c) = chars.next()?;
        utf16 += c.len_utf16();
        let mut end = i + c.len_utf8();
        if is_newline(c) {
            if c == '\r' && chars.peek().is_some_and(|(_, c)| *c == '\n') {
                chars.next();
                utf16 += 1;
                end += 1;
            }
            return Some((end, utf16));
        }
    });
    std::iter::once((0, 0)).chain(rest)
}

impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        Source(Arc::new(Repr { id, text, root: SyntaxNode::default() }))
    }
    /// A source whose tree is given: parsing is not modelled.
    pub fn with_root(id: FileId, root: SyntaxNode) -> Self {
        Source(Arc::new(Repr { id, text: root.clone().into_text().to_string(), root }))
    }
    pub fn detached(text: impl Into<String>) -> Self {
        Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
    }
    pub fn root(&self) -> &SyntaxNode {
        &self.0.root
    }
    pub fn id(&self) -> FileId {
        self.0.id
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn get(&self, range: Range<usize>) -> Option<&str> {
        self.text().get(range)
    }
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        *self = Self::new(self.id(), new.to_owned());
        0..new.len()
    }
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        assert!(self.byte_to_utf16(replace.start).is_some(), "the start of the edit is in the text");
        let mut text = self.text().to_owned();
        let start = replace.start;
        text.replace_range(replace, with);
        *self = Self::new(self.id(), text);
        start..start + with.len()
    }
    pub fn len_bytes(&self) -> usize {
        self.text().len()
    }
    pub fn len_utf16(&self) -> usize {
        self.text().chars().map(char::len_utf16).sum()
    }
    pub fn len_lines(&self) -> usize {
        lines(self.text()).count()
    }
    pub fn byte_to_utf16(&self, byte: usize) -> Option<usize> {
        if byte > self.len_bytes() {
            return None;
        }
        Some(self.text().get(..byte)?.chars().map(char::len_utf16).sum())
    }
    pub fn byte_to_line(&self, byte: usize) -> Option<usize> {
        (byte <= self.len_bytes()).then(|| lines(self.text()).take_while(|l| l.0 <= byte).count() - 1)
    }
    pub fn byte_to_column(&self, byte: usize) -> Option<usize> {
        let start = self.line_to_byte(self.byte_to_line(byte)?)?;
        Some(self.get(start..byte)?.chars().count())
    }
    pub fn byte_to_line_column(&self, byte: usize) -> Option<(usize, usize)> {
        Some((self.byte_to_line(byte)?, self.byte_to_column(byte)?))
    }
    pub fn utf16_to_byte(&self, utf16: usize) -> Option<usize> {
        let mut k = 0;
        for (i, c) in self.text().char_indices() {
            if k >= utf16 {
                return Some(i);
            }
            k += c.len_utf16();
        }
        (k == utf16).then_some(self.len_bytes())
    }
    pub fn line_to_byte(&self, line: usize) -> Option<usize> {
        lines(self.text()).nth(line).map(|l| l.0)
    }
    pub fn line_to_range(&self, line: usize) -> Option<Range<usize>> {
        let start = self.line_to_byte(line)?;
        Some(start..self.line_to_byte(line + 1).unwrap_or(self.len_bytes()))
    }
    pub fn line_column_to_byte(&self, line: usize, column: usize) -> Option<usize> {
        let range = self.line_to_range(line)?;
        let line = self.get(range.clone())?;
        let mut chars = line.chars();
        for _ in 0..column {
            if chars.next().is_none() {
                break;
            }
        }
        Some(range.start + (line.len() - chars.as_str().len()))
    }
}
