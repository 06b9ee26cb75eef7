//! Syntax trees: nodes with a kind and a text or children, and the walk over
//! them that knows offsets and parents, as typst-syntax 0.13 has them.
use std::ops::Range;
use std::rc::Rc;
use std::sync::Arc;

use ecow::EcoString;

use super::{FileId, SyntaxKind};

/// Names a node of a file.
#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Span(std::num::NonZeroU64);
impl Span {
    pub const fn detached() -> Self {
        Span(std::num::NonZeroU64::MIN)
    }
    pub const fn from_raw(v: std::num::NonZeroU64) -> Self {
        Span(v)
    }
    pub const fn into_raw(self) -> std::num::NonZeroU64 {
        self.0
    }
    pub const fn is_detached(self) -> bool {
        self.0.get() == 1
    }
    pub fn id(self) -> Option<FileId> {
        None
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
struct Repr {
    kind: SyntaxKind,
    text: EcoString,
    len: usize,
    children: Vec<SyntaxNode>,
    span: Span,
}
#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SyntaxNode(Arc<Repr>);
impl SyntaxNode {
    pub fn leaf(kind: SyntaxKind, text: impl Into<EcoString>) -> Self {
        let text = text.into();
        let len = text.len();
        SyntaxNode(Arc::new(Repr { kind, text, len, children: vec![], span: Span::detached() }))
    }
    pub fn inner(kind: SyntaxKind, children: Vec<SyntaxNode>) -> Self {
        let len = children.iter().map(|c| c.len()).sum();
        SyntaxNode(Arc::new(Repr { kind, text: EcoString::new(), len, children, span: Span::detached() }))
    }
    /// The node under another span: numbering is not modelled.
    pub fn spanned(mut self, span: Span) -> Self {
        Arc::make_mut(&mut self.0).span = span;
        self
    }
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        self.0.len
    }
    pub fn span(&self) -> Span {
        self.0.span
    }
    pub fn text(&self) -> &EcoString {
        &self.0.text
    }
    pub fn into_text(self) -> EcoString {
        let mut s = self.0.text.clone();
        for c in &self.0.children {
            s.push_str(&c.clone().into_text());
        }
        s
    }
    pub fn children(&self) -> std::slice::Iter<'_, SyntaxNode> {
        self.0.children.iter()
    }
    pub fn erroneous(&self) -> bool {
        self.kind().is_error() || self.children().any(|c| c.erroneous())
    }
    pub fn is<'a, T: ast::AstNode<'a>>(&'a self) -> bool {
        self.cast::<T>().is_some()
    }
    pub fn cast<'a, T: ast::AstNode<'a>>(&'a self) -> Option<T> {
        T::from_untyped(self)
    }
}
impl Default for SyntaxNode {
    fn default() -> Self {
        Self::leaf(SyntaxKind::End, "")
    }
}

#[derive(Clone)]
pub struct LinkedNode<'a> {
    node: &'a SyntaxNode,
    parent: Option<Rc<LinkedNode<'a>>>,
    index: usize,
    offset: usize,
}
impl<'a> LinkedNode<'a> {
    pub fn new(root: &'a SyntaxNode) -> Self {
        Self { node: root, parent: None, index: 0, offset: 0 }
    }
    pub fn get(&self) -> &'a SyntaxNode {
        self.node
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn offset(&self) -> usize {
        self.offset
    }
    pub fn range(&self) -> Range<usize> {
        self.offset..self.offset + self.node.len()
    }
    pub fn children(&self) -> LinkedChildren<'a> {
        let mut offset = self.offset;
        let parent = Rc::new(self.clone());
        let all: Vec<_> = self
            .node
            .children()
            .enumerate()
            .map(|(index, node)| {
                let n = LinkedNode { node, parent: Some(parent.clone()), index, offset };
                offset += node.len();
                n
            })
            .collect();
        LinkedChildren(all.into_iter())
    }
    pub fn parent(&self) -> Option<&Self> {
        self.parent.as_deref()
    }
    pub fn parent_kind(&self) -> Option<SyntaxKind> {
        Some(self.parent()?.node.kind())
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        let parent = self.parent.clone()?;
        let n = parent.children().0.take(self.index).filter(|n| !n.kind().is_trivia()).last();
        n
    }
    pub fn next_sibling(&self) -> Option<Self> {
        let parent = self.parent.clone()?;
        let n = parent.children().0.skip(self.index + 1).find(|n| !n.kind().is_trivia());
        n
    }
    pub fn next_sibling_kind(&self) -> Option<SyntaxKind> {
        Some(self.next_sibling()?.node.kind())
    }
    pub fn prev_sibling_kind(&self) -> Option<SyntaxKind> {
        Some(self.prev_sibling()?.node.kind())
    }
    pub fn leftmost_leaf(&self) -> Option<Self> {
        if self.is_leaf() && !self.kind().is_trivia() && !self.kind().is_error() {
            return Some(self.clone());
        }
        self.children().find_map(|c| c.leftmost_leaf())
    }
    pub fn rightmost_leaf(&self) -> Option<Self> {
        if self.is_leaf() && !self.kind().is_trivia() {
            return Some(self.clone());
        }
        self.children().rev().find_map(|c| c.rightmost_leaf())
    }
    pub fn next_leaf(&self) -> Option<Self> {
        let mut node = self.clone();
        while let Some(next) = node.next_sibling() {
            if let Some(leaf) = next.leftmost_leaf() {
                return Some(leaf);
            }
            node = next;
        }
        self.parent()?.next_leaf()
    }
    pub fn prev_leaf(&self) -> Option<Self> {
        let mut node = self.clone();
        while let Some(prev) = node.prev_sibling() {
            if let Some(leaf) = prev.rightmost_leaf() {
                return Some(leaf);
            }
            node = prev;
        }
        self.parent()?.prev_leaf()
    }
    pub fn is_leaf(&self) -> bool {
        self.node.children().len() == 0
    }
    pub fn kind(&self) -> SyntaxKind {
        self.node.kind()
    }
    pub fn span(&self) -> Span {
        self.node.span()
    }
}
impl<'a> std::ops::Deref for LinkedNode<'a> {
    type Target = SyntaxNode;
    fn deref(&self) -> &SyntaxNode {
        self.node
    }
}
impl LinkedNode<'_> {
    pub fn text(&self) -> &EcoString {
        self.node.text()
    }
}
impl<'a> LinkedNode<'a> {
    pub fn cast<T: ast::AstNode<'a>>(&self) -> Option<T> {
        self.node.cast()
    }
    pub fn is<T: ast::AstNode<'a>>(&self) -> bool {
        self.cast::<T>().is_some()
    }
}
pub struct LinkedChildren<'a>(std::vec::IntoIter<LinkedNode<'a>>);
impl<'a> Iterator for LinkedChildren<'a> {
    type Item = LinkedNode<'a>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl DoubleEndedIterator for LinkedChildren<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back()
    }
}
impl ExactSizeIterator for LinkedChildren<'_> {}

pub mod ast {
    use super::{Span, SyntaxKind, SyntaxNode};
    pub trait AstNode<'a>: Sized {
        fn from_untyped(node: &'a SyntaxNode) -> Option<Self>;
        fn to_untyped(self) -> &'a SyntaxNode;
        fn span(self) -> Span {
            self.to_untyped().span()
        }
    }
    /// An expression of some kind.
    #[derive(Debug, Copy, Clone, Hash)]
    pub struct Expr<'a>(&'a SyntaxNode);
    impl<'a> AstNode<'a> for Expr<'a> {
        fn from_untyped(node: &'a SyntaxNode) -> Option<Self> {
            use SyntaxKind::*;
            matches!(
                node.kind(),
                Linebreak | Parbreak | Text | Space | Escape | Shorthand | SmartQuote | Strong | Emph | Raw | Link | Label | Ref | Heading | ListItem
                    | EnumItem | TermItem | Equation | Math | MathText | MathIdent | MathShorthand | MathAlignPoint | MathDelimited | MathAttach
                    | MathPrimes | MathFrac | MathRoot | Ident | None | Auto | Bool | Int | Float | Numeric | Str | CodeBlock | ContentBlock
                    | Parenthesized | Array | Dict | Unary | Binary | FieldAccess | FuncCall | Closure | LetBinding | DestructAssignment | SetRule
                    | ShowRule | Contextual | Conditional | WhileLoop | ForLoop | ModuleImport | ModuleInclude | LoopBreak | LoopContinue | FuncReturn
            )
            .then_some(Expr(node))
        }
        fn to_untyped(self) -> &'a SyntaxNode {
            self.0
        }
    }
    impl Expr<'_> {
        /// Whether a hash may precede the expression in markup.
        pub fn hash(self) -> bool {
            use SyntaxKind::*;
            matches!(
                self.0.kind(),
                Ident | None | Auto | Bool | Int | Float | Numeric | Str | CodeBlock | ContentBlock | Array | Dict | Parenthesized | FieldAccess
                    | FuncCall | LetBinding | SetRule | ShowRule | Contextual | Conditional | WhileLoop | ForLoop | ModuleImport | ModuleInclude
                    | LoopBreak | LoopContinue | FuncReturn
            )
        }
    }
}
