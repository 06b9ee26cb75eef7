//! The kinds of syntax nodes, in the order of typst-syntax 0.13.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[repr(u8)]
pub enum SyntaxKind {
    End,
    Error,
    Shebang,
    LineComment,
    BlockComment,
    Markup,
    Text,
    Space,
    Linebreak,
    Parbreak,
    Escape,
    Shorthand,
    SmartQuote,
    Strong,
    Emph,
    Raw,
    RawLang,
    RawDelim,
    RawTrimmed,
    Link,
    Label,
    Ref,
    RefMarker,
    Heading,
    HeadingMarker,
    ListItem,
    ListMarker,
    EnumItem,
    EnumMarker,
    TermItem,
    TermMarker,
    Equation,
    Math,
    MathText,
    MathIdent,
    MathShorthand,
    MathAlignPoint,
    MathDelimited,
    MathAttach,
    MathPrimes,
    MathFrac,
    MathRoot,
    Hash,
    LeftBrace,
    RightBrace,
    LeftBracket,
    RightBracket,
    LeftParen,
    RightParen,
    Comma,
    Semicolon,
    Colon,
    Star,
    Underscore,
    Dollar,
    Plus,
    Minus,
    Slash,
    Hat,
    Prime,
    Dot,
    Eq,
    EqEq,
    ExclEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
    PlusEq,
    HyphEq,
    StarEq,
    SlashEq,
    Dots,
    Arrow,
    Root,
    Not,
    And,
    Or,
    None,
    Auto,
    Let,
    Set,
    Show,
    Context,
    If,
    Else,
    For,
    In,
    While,
    Break,
    Continue,
    Return,
    Import,
    Include,
    As,
    Code,
    Ident,
    Bool,
    Int,
    Float,
    Numeric,
    Str,
    CodeBlock,
    ContentBlock,
    Parenthesized,
    Array,
    Dict,
    Named,
    Keyed,
    Unary,
    Binary,
    FieldAccess,
    FuncCall,
    Args,
    Spread,
    Closure,
    Params,
    LetBinding,
    SetRule,
    ShowRule,
    Contextual,
    Conditional,
    WhileLoop,
    ForLoop,
    ModuleImport,
    ImportItems,
    ImportItemPath,
    RenamedImportItem,
    ModuleInclude,
    LoopBreak,
    LoopContinue,
    FuncReturn,
    Destructuring,
    DestructAssignment,
}
impl SyntaxKind {
    /// How many kinds there are.
    pub const COUNT: u8 = SyntaxKind::DestructAssignment as u8 + 1;
    pub fn from_u8(n: u8) -> Option<Self> {
        (n < Self::COUNT).then(|| unsafe { std::mem::transmute(n) })
    }
    pub fn is_trivia(self) -> bool {
        matches!(self, Self::Shebang | Self::LineComment | Self::BlockComment | Self::Space | Self::Parbreak)
    }
    pub fn is_error(self) -> bool {
        self == Self::Error
    }
    pub fn is_keyword(self) -> bool {
        matches!(
            self,
            Self::Not | Self::And | Self::Or | Self::None | Self::Auto | Self::Let | Self::Set | Self::Show | Self::Context | Self::If | Self::Else
                | Self::For | Self::In | Self::While | Self::Break | Self::Continue | Self::Return | Self::Import | Self::Include | Self::As
        )
    }
}
