//! The semantic tokens of a document.
use std::collections::HashMap;
use std::num::NonZeroU64;
use std::path::PathBuf;
use std::sync::Arc;

use crate::positions::*;
use lsp_types::{SemanticToken, SemanticTokensResult};
use tinymist_query::analysis::{Analysis, LspWorld};
use tinymist_query::syntax::{Decl, Expr, ExprInfo, RefExpr};
use tinymist_query::ty::{InsTy, Ty};
use tinymist_query::{CompilerQueryRequest, PositionEncoding, SemanticRequest, SemanticTokensFullRequest};
use typst::syntax::{FileId, Source, Span, SyntaxKind, SyntaxNode, VirtualPath};
use SyntaxKind as K;

pub fn leaf(kind: K, text: &str) -> SyntaxNode {
    SyntaxNode::leaf(kind, text)
}
pub fn inner(kind: K, children: Vec<SyntaxNode>) -> SyntaxNode {
    SyntaxNode::inner(kind, children)
}
pub fn document(root: SyntaxNode) -> Source {
    Source::with_root(FileId::new(None, VirtualPath::new("main.typ")), root)
}
pub fn world(revision: usize, source: Source, resolves: HashMap<Span, Arc<RefExpr>>) -> LspWorld {
    let info = ExprInfo { fid: source.id(), revision, resolves: Arc::new(resolves) };
    LspWorld { revision, source, path: PathBuf::from("/w/main.typ"), info, computed: Default::default() }
}
/// The tokens the server gives for a document.
fn tokens(e: PositionEncoding, multiline: bool, source: &Source, resolves: HashMap<Span, Arc<RefExpr>>) -> Vec<SemanticToken> {
    let analysis = Analysis { position_encoding: e, allow_multiline_token: multiline, ..Default::default() };
    let request = SemanticTokensFullRequest { path: PathBuf::from("/w/main.typ") };
    let lock = analysis.lock_revision(Some(&CompilerQueryRequest::SemanticTokensFull(request.clone())));
    let mut ctx = analysis.enter_locked(world(1, source.clone(), resolves), lock);
    match request.request(&mut ctx) {
        Some(SemanticTokensResult::Tokens(t)) => t.data,
        _ => {
            vsym::check(false, "a document has tokens");
            vec![]
        }
    }
}

/// A token as the client reads it: line, column, length, type and modifiers.
type Read = (u32, u32, u32, &'static str, Vec<&'static str>);
fn name_of(all: &[&'static str], n: u32) -> &'static str {
    all.get(n as usize).copied().unwrap_or("?")
}
const TYPES: [&str; 23] = [
    "comment", "string", "keyword", "operator", "number", "function", "decorator", "type", "namespace", "bool", "punct", "escape", "link", "raw", "label", "ref",
    "heading", "marker", "term", "delim", "pol", "error", "text",
];
const MODIFIERS: [&str; 6] = ["strong", "emph", "math", "readonly", "static", "defaultLibrary"];
fn read(data: &[SemanticToken]) -> Vec<Read> {
    let (mut line, mut column) = (0, 0);
    data.iter()
        .map(|t| {
            if t.delta_line > 0 {
                column = 0;
            }
            line += t.delta_line;
            column += t.delta_start;
            let modifiers = (0..32).filter(|i| t.token_modifiers_bitset >> i & 1 == 1).map(|i| name_of(&MODIFIERS, i)).collect();
            (line, column, t.length, name_of(&TYPES, t.token_type), modifiers)
        })
        .collect()
}

/// A leaf: where it is, what it is, and what its parents make of it.
struct Leaf {
    start: usize,
    end: usize,
    kind: K,
    parent: K,
    modifiers: Vec<&'static str>,
}
fn leaves(node: &SyntaxNode, at: usize, parent: K, modifiers: &[&'static str], out: &mut Vec<Leaf>) {
    let mut modifiers = modifiers.to_vec();
    let own = match node.kind() {
        K::Strong => Some("strong"),
        K::Emph => Some("emph"),
        K::Math | K::Equation => Some("math"),
        _ => None,
    };
    if let Some(own) = own.filter(|o| !modifiers.contains(o)) {
        modifiers.push(own);
    }
    if node.children().len() == 0 {
        if node.len() > 0 {
            out.push(Leaf { start: at, end: at + node.len(), kind: node.kind(), parent, modifiers });
        }
        return;
    }
    let mut at = at;
    for c in node.children() {
        leaves(c, at, node.kind(), &modifiers, out);
        at += c.len();
    }
}
/// The type a leaf has by itself, if it is neither a name nor a hash.
fn own_type(kind: K, parent: K) -> &'static str {
    match kind {
        K::Star if parent == K::Strong => "punct",
        K::Star if parent == K::ModuleImport => "operator",
        K::Underscore if parent == K::Emph => "punct",
        K::Underscore if parent == K::MathAttach => "operator",
        K::LeftBrace | K::RightBrace | K::LeftBracket | K::RightBracket | K::LeftParen | K::RightParen => "punct",
        K::Comma | K::Semicolon | K::Colon => "punct",
        K::Linebreak | K::Escape | K::Shorthand => "escape",
        K::Link => "link",
        K::Raw => "raw",
        K::Label => "label",
        K::RefMarker => "ref",
        K::Heading | K::HeadingMarker => "heading",
        K::ListMarker | K::EnumMarker | K::TermMarker => "marker",
        K::MathAlignPoint | K::Plus | K::Minus | K::Slash | K::Hat | K::Dot | K::Dots | K::Arrow => "operator",
        K::Eq | K::EqEq | K::ExclEq | K::Lt | K::LtEq | K::Gt | K::GtEq | K::PlusEq | K::HyphEq | K::StarEq | K::SlashEq => "operator",
        K::Dollar => "delim",
        K::Not | K::And | K::Or | K::None | K::Auto | K::Let | K::Show | K::If | K::Else | K::For | K::In | K::While => "keyword",
        K::Break | K::Continue | K::Return | K::Import | K::Include | K::As | K::Set | K::Context => "keyword",
        K::Bool => "bool",
        K::Int | K::Float | K::Numeric => "number",
        K::Str => "string",
        K::LineComment | K::BlockComment => "comment",
        K::Error => "error",
        K::Ident | K::MathIdent => "pol",
        _ => "text",
    }
}
/// The tokens there should be: each leaf, cut at the ends of lines unless tokens
/// may go beyond.
fn expected(text: &[char], e: PositionEncoding, multiline: bool, all: Vec<(Leaf, &'static str)>) -> Vec<Read> {
    let (mut line, mut column, mut at, mut i) = (0, 0, 0, 0);
    let mut out: Vec<Read> = vec![];
    for (leaf, kind) in all {
        let mut modifiers = leaf.modifiers;
        modifiers.sort_by_key(|m| MODIFIERS.iter().position(|x| x == m));
        let mut fresh = true;
        while at < leaf.end {
            if fresh {
                out.push((line, column, 0, kind, modifiers.clone()));
                fresh = false;
            }
            let c = text[i];
            let n = units(e, c) as u32;
            out.last_mut().unwrap().2 += n;
            at += c.len_utf8();
            column += n;
            i += 1;
            if c == '\n' || c == '\r' && text.get(i) != Some(&'\n') {
                line += 1;
                column = 0;
                fresh = !multiline;
            }
        }
    }
    out
}
fn check(source: &Source, resolves: HashMap<Span, Arc<RefExpr>>, type_of: impl Fn(usize, &[Leaf]) -> &'static str) {
    let e = encoding();
    let multiline = vsym::bool("multiline");
    let got = read(&tokens(e, multiline, source, resolves));
    let mut all = vec![];
    leaves(source.root(), 0, K::End, &[], &mut all);
    let types: Vec<_> = (0..all.len()).map(|i| type_of(i, &all)).collect();
    let text: Vec<char> = source.text().chars().collect();
    let want = expected(&text, e, multiline, all.into_iter().zip(types).collect());
    let ordered = got.windows(2).all(|w| (w[0].0, w[0].1) < (w[1].0, w[1].1) && (w[0].0 != w[1].0 || multiline || w[0].1 + w[0].2 <= w[1].1));
    vsym::check(ordered, "tokens come in order and do not overlap");
    let places = |t: &[Read]| t.iter().map(|t| (t.0, t.1, t.2)).collect::<Vec<_>>();
    vsym::check(places(&got) == places(&want), "every leaf of the document is a token, on each line it is on");
    let kinds = |t: &[Read]| t.iter().map(|t| t.3).collect::<Vec<_>>();
    vsym::check(kinds(&got) == kinds(&want), "a token has the type of its leaf");
    let modifiers = |t: &[Read]| t.iter().map(|t| t.4.clone()).collect::<Vec<_>>();
    vsym::check(modifiers(&got) == modifiers(&want), "a token has the modifiers of what it is in");
    vsym::cover(if want.len() > 1 { "several" } else { "few" });
}

/// A word of one character.
fn word() -> SyntaxNode {
    let c = match vsym::pick("text", 3) {
        0 => letter(),
        1 => 'é',
        _ => '🥺',
    };
    leaf(K::Text, &c.to_string())
}
/// What is within something: nothing, one thing, or a few words.
fn body(depth: usize) -> SyntaxNode {
    let children = match vsym::pick("body", 3) {
        0 => vec![],
        1 => item(depth),
        _ => vec![leaf(K::Text, "é"), inner(K::Emph, vec![leaf(K::Underscore, "_"), inner(K::Markup, vec![word()]), leaf(K::Underscore, "_")]), leaf(K::Text, "b")],
    };
    inner(K::Markup, children)
}
/// One thing of a document.
fn item(depth: usize) -> Vec<SyntaxNode> {
    match vsym::pick("item", if depth == 0 { 5 } else { 9 }) {
        0 => vec![word()],
        1 => vec![leaf(K::Space, ["\n", " "][vsym::pick("space", 2)])],
        2 => vec![leaf(K::Parbreak, ["\n\n", "\r\n\r\n", " \n\n "][vsym::pick("break", 3)])],
        3 => vec![leaf(K::BlockComment, ["/*\n*/", "/*\n\né*/"][vsym::pick("comment", 2)])],
        4 => vec![inner(K::Raw, vec![leaf(K::RawDelim, "`"), word(), leaf(K::RawTrimmed, "\n"), leaf(K::RawDelim, "`")])],
        5 => vec![inner(K::Heading, vec![leaf(K::HeadingMarker, "="), leaf(K::Space, " "), body(depth - 1)])],
        6 => vec![inner(K::Strong, vec![leaf(K::Star, "*"), body(depth - 1), leaf(K::Star, "*")])],
        7 => vec![inner(K::Emph, vec![leaf(K::Underscore, "_"), body(depth - 1), leaf(K::Underscore, "_")])],
        _ => vec![inner(K::Equation, vec![leaf(K::Dollar, "$"), inner(K::Math, vec![word()]), leaf(K::Dollar, "$")])],
    }
}
/// A document of `n` things, some of them with things within.
fn documents(n: usize, depth: usize) {
    let children = (0..n).flat_map(|_| item(depth)).collect();
    let source = document(inner(K::Markup, children));
    check(&source, HashMap::new(), |i, all| own_type(all[i].kind, all[i].parent))
}
#[no_mangle]
pub extern "C" fn vs_q_tokens() {
    documents(1 + vsym::pick("n", 2), 1)
}
#[no_mangle]
pub extern "C" fn vs_q_tokens_flat() {
    documents(3, 0)
}
#[no_mangle]
pub extern "C" fn vs_q_tokens_deep() {
    documents(1, 3)
}
#[no_mangle]
pub extern "C" fn vs_q_tokens_more() {
    documents(2, 2)
}

/// A leaf of any kind within a node of any kind.
#[no_mangle]
pub extern "C" fn vs_q_token_types() {
    let kind = |n| {
        let k = vsym::u8(n);
        vsym::assume(k < K::COUNT);
        K::from_u8(k).unwrap()
    };
    let (k, parent) = (kind("leaf"), kind("parent"));
    // A hash is what follows it, and names are looked up.
    vsym::assume(k != K::Hash);
    let source = document(inner(parent, vec![leaf(k, "a"), leaf(K::Text, "b")]));
    check(&source, HashMap::new(), |i, all| own_type(all[i].kind, all[i].parent))
}

/// A hash is of the type of what follows it.
#[no_mangle]
pub extern "C" fn vs_q_token_hash() {
    let (next, type_) = match vsym::pick("next", 7) {
        0 => (inner(K::LetBinding, vec![leaf(K::Let, "let"), leaf(K::Space, " "), leaf(K::Ident, "x")]), "keyword"),
        1 => (leaf(K::Int, "1"), "number"),
        2 => (leaf(K::Str, "\"\""), "string"),
        3 => (inner(K::FuncCall, vec![leaf(K::Ident, "f"), inner(K::Args, vec![leaf(K::LeftParen, "("), leaf(K::RightParen, ")")])]), "function"),
        4 => (leaf(K::Ident, "x"), "pol"),
        5 => (inner(K::ContentBlock, vec![leaf(K::LeftBracket, "["), inner(K::Markup, vec![]), leaf(K::RightBracket, "]")]), "punct"),
        // Nothing that may follow a hash.
        _ => (leaf(K::Text, "x"), "text"),
    };
    let source = document(inner(K::Markup, vec![leaf(K::Hash, "#"), next]));
    check(&source, HashMap::new(), |i, all| match all[i].kind {
        K::Hash => type_,
        K::Ident if i == 1 => type_,
        k => own_type(k, all[i].parent),
    })
}

/// A name is of the type of what the analysis found it to stand for, or else of
/// what comes next.
#[no_mangle]
pub extern "C" fn vs_q_token_names() {
    use typst::foundations::Value;
    let name = if vsym::bool("math") { K::MathIdent } else { K::Ident };
    let term = |n: &str| -> (Ty, Option<&'static str>, Vec<&'static str>) {
        let value = |val| Ty::Value(Arc::new(InsTy { val }));
        match vsym::pick(n, 6) {
            0 => (Ty::Func(()), Some("function"), vec![]),
            1 => (value(Value::Func(())), Some("function"), vec![]),
            2 => (value(Value::Type(())), Some("function"), vec!["defaultLibrary"]),
            3 => (value(Value::Module(())), Some("namespace"), vec!["readonly", "static"]),
            4 => (value(Value::None), None, vec![]),
            _ => (Ty::Other, None, vec![]),
        }
    };
    let ns = || (Some("namespace"), vec!["readonly", "static"]);
    let mut resolved = HashMap::new();
    let span = Span::from_raw(NonZeroU64::new(77).unwrap());
    let (found, modifiers) = match vsym::pick("known", 4) {
        0 => (None, vec![]),
        1 => {
            let (t, k, m) = term("term");
            resolved.insert(span, Arc::new(RefExpr { root: None, term: Some(t) }));
            (k, m)
        }
        2 => {
            let (decl, (k, m)) = match vsym::pick("decl", 6) {
                0 => (Decl::Func(()), (Some("function"), vec![])),
                1 => (Decl::Var(()), (None, vec![])),
                2 => (Decl::Module(()), ns()),
                3 => (Decl::ModuleAlias(()), ns()),
                4 => (Decl::PathStem(()), ns()),
                _ => (Decl::ImportAlias(()), (None, vec![])),
            };
            resolved.insert(span, Arc::new(RefExpr { root: Some(Expr::Decl(Arc::new(decl))), term: None }));
            (k, m)
        }
        _ => {
            let (t, k, m) = term("type");
            let (other, k2, m2) = term("second");
            let direct = vsym::bool("direct");
            let root = if direct { Expr::Type(t) } else { Expr::Other };
            resolved.insert(span, Arc::new(RefExpr { root: Some(root), term: Some(other) }));
            if direct {
                (k, m)
            } else {
                (k2, m2)
            }
        }
    };
    let id = leaf(name, "f").spanned(span);
    let (children, next) = match vsym::pick("next", 4) {
        0 => (vec![id, inner(K::Args, vec![leaf(K::LeftParen, "("), leaf(K::RightParen, ")")])], "function"),
        1 => (vec![id, inner(K::Args, vec![inner(K::ContentBlock, vec![leaf(K::LeftBracket, "["), leaf(K::RightBracket, "]")])])], "function"),
        2 => (vec![id, leaf(K::Space, " "), inner(K::Args, vec![leaf(K::LeftParen, "("), leaf(K::RightParen, ")")])], "pol"),
        _ => (vec![id, inner(K::Parenthesized, vec![leaf(K::LeftParen, "("), leaf(K::RightParen, ")")])], "pol"),
    };
    let source = document(inner(K::FuncCall, children));
    let analysed = tokens(PositionEncoding::Utf16, false, &source, resolved);
    let got = read(&analysed);
    vsym::check(got[0].3 == found.unwrap_or(next), "a name is of the type of what it stands for, or else of how it is used");
    vsym::check(got[0].4 == modifiers, "a name has the modifiers of what it stands for");
    vsym::check(got[1..].iter().all(|t| t.4.is_empty()), "what follows the name is not modified by it");
    vsym::cover("names");
}

/// What the server tells the client about the numbers of types and modifiers is
/// what the tokens use.
#[no_mangle]
pub extern "C" fn vs_q_legend() {
    let legend = tinymist_query::legend();
    vsym::check(legend.token_types.iter().map(|t| t.as_str()).eq(TYPES), "the legend names the types in the order of their numbers");
    vsym::check(legend.token_modifiers.iter().map(|t| t.as_str()).eq(MODIFIERS), "the legend names the modifiers in the order of their numbers");
    vsym::cover("legend");
}
