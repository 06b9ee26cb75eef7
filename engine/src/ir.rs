//! Textual LLVM IR: lazily parsed functions, globals, metadata locations.

use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u16),
    Ptr,
    F32,
    F64,
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u64 {
        match self {
            Ty::I(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// Width of a scalar register.
    pub fn w(&self) -> u16 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("not a scalar: {t:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => ((self.bits() + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => (*w as u64 + 7) / 8,
            Ty::Vec(..) => (self.bits() + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::I(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => up((self.bits() + 7) / 8, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                up(o, self.align())
            }
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        o = up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Struct(ts, _) => ts.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => panic!("count of {self:?}"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

/// A constant: fully resolved (addresses of globals are fixed).
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    I(u128),
    Agg(Rc<Vec<C>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(C),
    /// An address in a thread-local global, as the main thread sees it.
    Tls(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    PtrInt,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    /// Function index.
    F(u32),
    /// External or intercepted, by builtin index in the name table.
    Ext(u32),
    Ind(Op),
    Asm(Rc<String>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { size: u64, count: Op, align: u64 },
    Load { ty: Ty, p: Op, atomic: bool },
    Store { ty: Ty, v: Op, p: Op, atomic: bool },
    Gep { base: Op, off: i64, idx: Vec<(Op, i64, u16)> },
    VGep { n: u64, base: Op, off: i64 },
    Bin { op: crate::expr::BinOp, ty: Ty, a: Op, b: Op },
    Icmp { p: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { p: u8, ty: Ty, a: Op, b: Op },
    FBin { op: FBin, ty: Ty, a: Op, b: Op },
    FNeg { ty: Ty, a: Op },
    Cast { k: Cast, from: Ty, to: Ty, a: Op },
    Select { ty: Ty, cty: Ty, c: Op, a: Op, b: Op },
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, next: Option<u32> },
    ExtractV { a: Op, idx: Vec<u32> },
    InsertV { ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtractE { a: Op, i: Op },
    InsertE { ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { ty: Ty, a: Op, b: Op, mask: Vec<u32> },
    Freeze { a: Op },
    Rmw { op: Rmw, ty: Ty, p: Op, v: Op },
    CmpXchg { ty: Ty, p: Op, c: Op, v: Op },
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u16, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    LandingPad,
}

#[derive(Debug)]
pub struct Ins {
    pub dst: u32, // u32::MAX: none
    pub i: I,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Function {
    pub id: u32,
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty, Option<u64>)>, // register, type, byval size
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub text: (usize, usize),
    pub addr: u64,
    pub body: Option<Rc<Function>>,
}

pub struct Global {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub ro: bool,
    pub tls: bool,
    pub init: (usize, usize),
    pub ty: Ty,
    pub external: bool,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x4000_0000;

pub struct Module {
    pub text: String,
    pub named: HashMap<String, Ty>,
    named_src: HashMap<String, (usize, usize)>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<Rc<str>, u32>,
    pub globals: Vec<Global>,
    pub tls_ranges: Vec<(u64, u64)>,
    pub glob_by_name: HashMap<Rc<str>, u32>,
    pub aliases: HashMap<Rc<str>, (usize, usize)>,
    /// Names of external symbols (declared, or intercepted).
    pub exts: Vec<Rc<str>>,
    pub ext_by_name: HashMap<Rc<str>, u32>,
    pub meta: FxMap<u32, (usize, usize)>,
    pub intercept: fn(&str) -> bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),     // bare word
    Loc(&'a str),    // %x
    Glob(&'a str),   // @x
    Meta(&'a str),   // !x
    Attr(&'a str),   // #n
    Int(&'a str),    // number-like
    Str(&'a str),    // "..."
    CStr(&'a str),   // c"..."
    P(char),         // punctuation
    Dots,
    End,
}

struct Lx<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s, b: s.as_bytes(), i: 0, peeked: None }
    }
    fn at(s: &'a str, lo: usize, hi: usize) -> Self {
        Lx { s: &s[..hi], b: &s.as_bytes()[..hi], i: lo, peeked: None }
    }
    fn raw(&mut self) -> Tok<'a> {
        let b = self.b;
        loop {
            while self.i < b.len() && (b[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < b.len() && b[self.i] == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= b.len() {
            return Tok::End;
        }
        let c = b[self.i];
        let idch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
        let name = |me: &mut Self| -> &'a str {
            if me.i < b.len() && b[me.i] == b'"' {
                let st = me.i + 1;
                me.i += 1;
                while b[me.i] != b'"' {
                    me.i += 1;
                }
                let r = &me.s[st..me.i];
                me.i += 1;
                r
            } else {
                let st = me.i;
                while me.i < b.len() && idch(b[me.i]) {
                    me.i += 1;
                }
                &me.s[st..me.i]
            }
        };
        match c {
            b'%' => {
                self.i += 1;
                Tok::Loc(name(self))
            }
            b'@' => {
                self.i += 1;
                Tok::Glob(name(self))
            }
            b'!' => {
                self.i += 1;
                Tok::Meta(name(self))
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(name(self))
            }
            b'"' => Tok::Str(name(self)),
            b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(name(self))
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'.' || b[self.i] == b'+' || (b[self.i] == b'-' && matches!(b[self.i - 1], b'e' | b'E'))) {
                    self.i += 1;
                }
                Tok::Int(&self.s[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = self.i;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'_' || b[self.i] == b'.' || b[self.i] == b'$') {
                    self.i += 1;
                }
                Tok::Id(&self.s[st..self.i])
            }
            c => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    fn next(&mut self) -> Tok<'a> {
        if let Some((t, e)) = self.peeked.take() {
            self.i = e;
            return t;
        }
        self.raw()
    }
    fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() {
            let save = self.i;
            let t = self.raw();
            let e = self.i;
            self.i = save;
            self.peeked = Some((t, e));
        }
        &self.peeked.as_ref().unwrap().0
    }
    fn is(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {c:?}, found {t:?} near `{}`", self.ctx());
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if *self.peek() == Tok::Id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn ctx(&self) -> &str {
        let lo = self.s[..self.i].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let hi = self.s[self.i..].find('\n').map(|x| x + self.i).unwrap_or(self.s.len());
        &self.s[lo..hi.min(lo + 400)]
    }
    fn pos(&self) -> usize {
        self.i
    }
    /// Skips a balanced parenthesised group whose opening parenthesis is next.
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn parse_int(s: &str) -> u128 {
    if let Some(h) = s.strip_prefix("-") {
        (h.parse::<u128>().unwrap()).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("bad int {s}"))
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn unesc_name(s: &str) -> String {
    if s.contains('\\') {
        String::from_utf8_lossy(&unescape(s)).into_owned()
    } else {
        s.to_string()
    }
}

impl Module {
    pub fn load(text: String, intercept: fn(&str) -> bool) -> Module {
        let mut m = Module {
            text: String::new(),
            named: Default::default(),
            named_src: Default::default(),
            fns: vec![],
            fn_by_name: Default::default(),
            globals: vec![],
            tls_ranges: vec![],
            glob_by_name: Default::default(),
            aliases: Default::default(),
            exts: vec![],
            ext_by_name: Default::default(),
            meta: Default::default(),
            intercept,
        };
        // pass 1: index the lines
        let mut pos = 0usize;
        let mut globs: Vec<(usize, usize)> = vec![];
        while pos < text.len() {
            let end = text[pos..].find('\n').map(|x| x + pos).unwrap_or(text.len());
            let line = &text[pos..end];
            let b = line.as_bytes().first().copied().unwrap_or(0);
            match b {
                b'%' => {
                    if let Some(eq) = line.find(" = type ") {
                        let name = line[1..eq].trim_matches('"').to_string();
                        m.named_src.insert(name, (pos + eq + 8, end));
                    }
                }
                b'@' => globs.push((pos, end)),
                b'!' => {
                    if let Some(eq) = line.find(" = ") {
                        if let Ok(n) = line[1..eq].parse::<u32>() {
                            m.meta.insert(n, (pos + eq + 3, end));
                        }
                    }
                }
                b'd' => {
                    if line.starts_with("define ") {
                        let name = Self::fn_name(line);
                        // body end: "\n}\n"
                        let bend = text[pos..].find("\n}").map(|x| x + pos + 2).unwrap();
                        let id = m.fns.len() as u32;
                        let name: Rc<str> = Rc::from(name);
                        m.fns.push(FnDecl {
                            name: name.clone(),
                            text: (pos, bend),
                            addr: FUNC_BASE + 16 * (id as u64 + 1),
                            body: None,
                        });
                        m.fn_by_name.insert(name, id);
                        pos = bend + 1;
                        continue;
                    } else if line.starts_with("declare ") {
                        let name = Self::fn_name(line);
                        m.ext(&name);
                    }
                }
                _ => {}
            }
            pos = end + 1;
        }
        m.text = text;
        let names: Vec<String> = m.named_src.keys().cloned().collect();
        for n in names {
            m.named_ty(&n);
        }
        // pass 2: globals
        let text = std::mem::take(&mut m.text);
        let mut addr = GLOBAL_BASE;
        for (lo, hi) in globs {
            let mut lx = Lx::at(&text, lo, hi);
            let Tok::Glob(name) = lx.next() else { panic!() };
            let name: Rc<str> = Rc::from(unesc_name(name));
            lx.expect('=');
            let mut ro = false;
            let mut tls = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Id("constant") => {
                        ro = true;
                        break;
                    }
                    Tok::Id("global") => break,
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id("thread_local") => {
                        tls = true;
                        if *lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        }
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::Id("addrspace") => lx.skip_parens(),
                    Tok::Id(_) => {}
                    t => panic!("global {name}: {t:?}"),
                }
            }
            let ty = m.ty(&mut lx);
            if alias {
                if *lx.peek() == Tok::P('(') {
                    lx.skip_parens();
                }
                lx.expect(',');
                m.aliases.insert(name, (lx.pos(), hi));
                continue;
            }
            let size = if external { 64 } else { ty.size() };
            let start = lx.pos();
            // alignment
            let mut al = ty.align().max(1);
            if let Some(p) = text[start..hi].rfind(", align ") {
                let num: String = text[start + p + 8..hi].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(v) = num.parse::<u64>() {
                    al = al.max(v);
                }
            }
            addr = up(addr, al.max(16));
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: name.clone(), addr, size, ro, tls, init: (start, hi), ty, external });
            m.glob_by_name.insert(name, id);
            if tls {
                m.tls_ranges.push((addr, addr + size.max(1)));
            }
            addr += size + 16;
        }
        assert!(addr < FUNC_BASE);
        m.text = text;
        m
    }

    fn fn_name(line: &str) -> String {
        let at = line.find('@').unwrap();
        let mut lx = Lx::at(line, at, line.len());
        match lx.next() {
            Tok::Glob(n) => unesc_name(n),
            _ => panic!(),
        }
    }

    pub fn ext(&mut self, name: &str) -> u32 {
        if let Some(i) = self.ext_by_name.get(name) {
            return *i;
        }
        let n: Rc<str> = Rc::from(name);
        let i = self.exts.len() as u32;
        self.exts.push(n.clone());
        self.ext_by_name.insert(n, i);
        i
    }
    /// Address of an external function symbol.
    pub const EXT_BASE: u64 = 0x6000_0000;

    fn named_ty(&mut self, n: &str) -> Ty {
        if let Some(t) = self.named.get(n) {
            return t.clone();
        }
        let Some(&(lo, hi)) = self.named_src.get(n) else {
            return Ty::Other;
        };
        let src = if self.text.is_empty() { panic!("named type late: {n}") } else { self.text[lo..hi].to_string() };
        let t = if src.starts_with("opaque") {
            Ty::Other
        } else {
            let mut lx = Lx::new(&src);
            self.ty(&mut lx)
        };
        self.named.insert(n.to_string(), t.clone());
        t
    }

    fn ty(&mut self, lx: &mut Lx) -> Ty {
        let mut t = match lx.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if lx.word("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("float") => Ty::F32,
            Tok::Id("double") => Ty::F64,
            Tok::Id("half") | Tok::Id("bfloat") => Ty::I(16),
            Tok::Id("x86_fp80") | Tok::Id("fp128") => Ty::I(128),
            Tok::Id("metadata") | Tok::Id("label") | Tok::Id("token") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::I(s[1..].parse().unwrap()),
            Tok::Loc(n) => {
                let n = n.to_string();
                self.named_ty(&n)
            }
            Tok::P('[') => {
                let Tok::Int(n) = lx.next() else { panic!() };
                let n = n.parse().unwrap();
                assert!(lx.word("x"));
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if lx.is('{') {
                    let ts = self.ty_list(lx);
                    lx.expect('>');
                    Ty::Struct(Rc::new(ts), true)
                } else {
                    let Tok::Int(n) = lx.next() else { panic!("vec type near {}", lx.ctx()) };
                    let n = n.parse().unwrap();
                    assert!(lx.word("x"));
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                let ts = self.ty_list(lx);
                Ty::Struct(Rc::new(ts), false)
            }
            t => panic!("type: {t:?} near `{}`", lx.ctx()),
        };
        // function types: "void (ptr, i64)"
        if *lx.peek() == Tok::P('*') {
            lx.next();
            t = Ty::Ptr;
        }
        t
    }
    fn ty_list(&mut self, lx: &mut Lx) -> Vec<Ty> {
        let mut v = vec![];
        if lx.is('}') {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.is('}') {
                return v;
            }
            lx.expect(',');
        }
    }

    fn zero(t: &Ty) -> C {
        match t {
            Ty::Struct(ts, _) => C::Agg(Rc::new(ts.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = Self::zero(t);
                C::Agg(Rc::new(vec![z; *n as usize]))
            }
            _ => C::I(0),
        }
    }

    pub fn sym_addr(&mut self, name: &str) -> u64 {
        let name = unesc_name(name);
        if let Some(&g) = self.glob_by_name.get(&*name) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fn_by_name.get(&*name) {
            return self.fns[f as usize].addr;
        }
        if let Some(&(lo, hi)) = self.aliases.get(&*name) {
            let src = self.text_slice(lo, hi);
            let mut lx = Lx::new(&src);
            let t = self.ty(&mut lx);
            return match self.cst(&mut lx, &t) {
                C::I(v) => v as u64,
                _ => panic!(),
            };
        }
        let i = self.ext(&name);
        Self::EXT_BASE + 16 * (i as u64 + 1)
    }

    fn text_slice(&self, lo: usize, hi: usize) -> String {
        self.text[lo..hi].to_string()
    }

    /// Parses a constant of the given type.
    fn cst(&mut self, lx: &mut Lx, t: &Ty) -> C {
        let m = |v: u128, t: &Ty| -> C {
            match t {
                Ty::I(w) => C::I(v & crate::expr::mask(*w)),
                Ty::Ptr => C::I(v & crate::expr::mask(64)),
                _ => C::I(v),
            }
        };
        match lx.next() {
            Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => Self::zero(t),
            Tok::Id("true") => C::I(1),
            Tok::Id("false") => C::I(0),
            Tok::Int(s) => match t {
                Ty::F64 => C::I(parse_f64(s) as u128),
                Ty::F32 => C::I((f64::from_bits(parse_f64(s)) as f32).to_bits() as u128),
                _ => m(parse_int(s), t),
            },
            Tok::CStr(s) => C::Agg(Rc::new(unescape(s).into_iter().map(|b| C::I(b as u128)).collect())),
            Tok::Glob(n) => {
                let n = n.to_string();
                C::I(self.sym_addr(&n) as u128)
            }
            Tok::P('[') => {
                let r = self.cst_list(lx, ']');
                C::Agg(Rc::new(r))
            }
            Tok::P('{') => {
                let r = self.cst_list(lx, '}');
                C::Agg(Rc::new(r))
            }
            Tok::P('<') => {
                if lx.is('{') {
                    let r = self.cst_list(lx, '}');
                    lx.expect('>');
                    C::Agg(Rc::new(r))
                } else {
                    let r = self.cst_list(lx, '>');
                    C::Agg(Rc::new(r))
                }
            }
            Tok::Id("splat") => {
                lx.expect('(');
                let et = self.ty(lx);
                let v = self.cst(lx, &et);
                lx.expect(')');
                C::Agg(Rc::new(vec![v; t.count() as usize]))
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(w) = lx.peek() {
                    let _ = w;
                    let w = match lx.next() {
                        Tok::Id(w) => w,
                        _ => unreachable!(),
                    };
                    if w == "inrange" {
                        lx.skip_parens();
                    }
                }
                lx.expect('(');
                let et = self.ty(lx);
                lx.expect(',');
                let pt = self.ty(lx);
                let C::I(base) = self.cst(lx, &pt) else { panic!() };
                let mut off = 0i64;
                let mut cur = et;
                let mut first = true;
                while lx.is(',') {
                    lx.word("inrange");
                    let it = self.ty(lx);
                    let C::I(i) = self.cst(lx, &it) else { panic!() };
                    let i = crate::expr::sext128(i, it.w()) as i64;
                    if first {
                        off += i * cur.size() as i64;
                        first = false;
                    } else {
                        if i < 0 || matches!(cur, Ty::Arr(..)) {
                            off += i * cur.elem(0).size() as i64;
                            cur = cur.elem(0);
                        } else {
                            off += cur.field_off(i as u64) as i64;
                            cur = cur.elem(i as u64);
                        }
                    }
                }
                lx.expect(')');
                C::I((base as u64).wrapping_add(off as u64) as u128)
            }
            Tok::Id("dso_local_equivalent") | Tok::Id("no_cfi") => self.cst(lx, t),
            Tok::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr")) => {
                lx.expect('(');
                let st = self.ty(lx);
                let v = self.cst(lx, &st);
                assert!(lx.word("to"));
                let dt = self.ty(lx);
                lx.expect(')');
                match v {
                    C::I(x) => {
                        let x = if op == "sext" { crate::expr::sext128(x, st.w()) as u128 } else { x };
                        m(x, &dt)
                    }
                    v => v,
                }
            }
            Tok::Id(op @ ("add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr")) => {
                while matches!(lx.peek(), Tok::Id(_)) {
                    lx.next();
                }
                lx.expect('(');
                let ta = self.ty(lx);
                let C::I(a) = self.cst(lx, &ta) else { panic!() };
                lx.expect(',');
                let tb = self.ty(lx);
                let C::I(b) = self.cst(lx, &tb) else { panic!() };
                lx.expect(')');
                let v = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    "or" => a | b,
                    "xor" => a ^ b,
                    "shl" => a << b,
                    _ => a >> b,
                };
                m(v, &ta)
            }
            tk => panic!("constant: {tk:?} near `{}`", lx.ctx()),
        }
    }
    fn cst_list(&mut self, lx: &mut Lx, close: char) -> Vec<C> {
        let mut v = vec![];
        if lx.is(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.cst(lx, &t));
            if lx.is(close) {
                return v;
            }
            lx.expect(',');
        }
    }

    /// Flattens a global's initializer to bytes.
    pub fn global_init(&mut self, g: usize) -> Vec<u8> {
        let (lo, hi) = self.globals[g].init;
        let ty = self.globals[g].ty.clone();
        let mut out = vec![0u8; self.globals[g].size as usize];
        if self.globals[g].external {
            return out;
        }
        // c"..." fast path and the general case both go through the lexer
        let text = std::mem::take(&mut self.text);
        let c = {
            // aliases need the text; resolve them through a clone on demand
            let mut lx = Lx::at(&text, lo, hi);
            self.text = String::new();
            self.cst_with_text(&text, &mut lx, &ty)
        };
        self.text = text;
        Self::flatten(&c, &ty, &mut out, 0);
        out
    }

    fn cst_with_text(&mut self, text: &str, lx: &mut Lx, ty: &Ty) -> C {
        // the alias lookup in `sym_addr` needs `self.text`; pre-resolve aliases
        if !self.aliases.is_empty() && self.text.is_empty() {
            let names: Vec<Rc<str>> = self.aliases.keys().cloned().collect();
            let mut todo: Vec<Rc<str>> = names;
            // alias targets are globals or functions (possibly through another alias)
            let mut guard = 0;
            while let Some(n) = todo.pop() {
                guard += 1;
                let (lo, hi) = self.aliases[&n];
                let src = &text[lo..hi];
                let mut l2 = Lx::new(src);
                let t = self.ty(&mut l2);
                // target is an alias not yet resolved?
                if let Some(at) = src.find('@') {
                    let mut l3 = Lx::at(src, at, src.len());
                    if let Tok::Glob(tn) = l3.next() {
                        let tn = unesc_name(tn);
                        if self.aliases.contains_key(&*tn) && guard < 100000 {
                            todo.insert(0, n.clone());
                            continue;
                        }
                    }
                }
                let C::I(v) = self.cst(&mut l2, &t) else { panic!() };
                self.aliases.remove(&n);
                // record as an alias of the address
                if let Some(f) = self.fns.iter().position(|f| f.addr == v as u64) {
                    self.fn_by_name.insert(n, f as u32);
                } else if let Some(g) = self.globals.iter().position(|g| g.addr == v as u64) {
                    self.glob_by_name.insert(n, g as u32);
                }
            }
        }
        self.cst(lx, ty)
    }

    pub fn flatten(c: &C, t: &Ty, out: &mut [u8], off: usize) {
        match (c, t) {
            (C::I(v), _) => {
                let n = t.store_size() as usize;
                for i in 0..n {
                    out[off + i] = (v >> (8 * i)) as u8;
                }
            }
            (C::Agg(cs), _) => {
                for (i, c) in cs.iter().enumerate() {
                    Self::flatten(c, &t.elem(i as u64), out, off + t.field_off(i as u64) as usize);
                }
            }
        }
    }

    pub fn function(&mut self, id: u32) -> Rc<Function> {
        if let Some(f) = &self.fns[id as usize].body {
            return f.clone();
        }
        let (lo, hi) = self.fns[id as usize].text;
        let text = std::mem::take(&mut self.text);
        let f = FnParser::parse(self, &text, lo, hi, id);
        self.text = text;
        let f = Rc::new(f);
        self.fns[id as usize].body = Some(f.clone());
        f
    }

    /// (file, line, function) chain of a debug location, innermost first.
    pub fn loc_chain(&self, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = dbg;
        while cur != 0 {
            let Some(l) = self.meta_fields(cur) else { break };
            let line: u32 = l.get("line").and_then(|s| s.parse().ok()).unwrap_or(0);
            let scope = l.get("scope").and_then(|s| s.trim_start_matches('!').parse::<u32>().ok()).unwrap_or(0);
            // climb to the subprogram
            let mut s = scope;
            let mut file = String::new();
            let mut name = String::new();
            for _ in 0..64 {
                let Some((lo, hi)) = self.meta.get(&s) else { break };
                let t = &self.text[*lo..*hi];
                let f = self.meta_fields(s).unwrap();
                if file.is_empty() {
                    if let Some(fi) = f.get("file").and_then(|s| s.trim_start_matches('!').parse::<u32>().ok()) {
                        if let Some(ff) = self.meta_fields(fi) {
                            let d = ff.get("directory").cloned().unwrap_or_default();
                            let n = ff.get("filename").cloned().unwrap_or_default();
                            let (d, n) = (d.trim_matches('"'), n.trim_matches('"'));
                            file = if n.starts_with('/') { n.to_string() } else { format!("{d}/{n}") };
                        }
                    }
                }
                if t.contains("DISubprogram(") {
                    let n = f.get("name").cloned().unwrap_or_default();
                    let n = n.trim_matches('"').to_string();
                    let ln = f.get("linkageName").cloned().unwrap_or_default();
                    name = if ln.is_empty() { n } else { ln.trim_matches('"').to_string() };
                    break;
                }
                let Some(up) = f.get("scope").and_then(|s| s.trim_start_matches('!').parse::<u32>().ok()) else { break };
                s = up;
            }
            out.push((file, line, name));
            cur = l.get("inlinedAt").and_then(|s| s.trim_start_matches('!').parse::<u32>().ok()).unwrap_or(0);
        }
        out
    }

    fn meta_fields(&self, n: u32) -> Option<HashMap<&str, String>> {
        let (lo, hi) = self.meta.get(&n)?;
        let t = &self.text[*lo..*hi];
        let p = t.find('(')?;
        let inner = &t[p + 1..t.rfind(')')?];
        let mut out = HashMap::new();
        let (mut depth, mut q, mut st) = (0, false, 0);
        let b = inner.as_bytes();
        let mut parts = vec![];
        for i in 0..b.len() {
            match b[i] {
                b'"' => q = !q,
                b'(' | b'{' if !q => depth += 1,
                b')' | b'}' if !q => depth -= 1,
                b',' if !q && depth == 0 => {
                    parts.push(&inner[st..i]);
                    st = i + 1;
                }
                _ => {}
            }
        }
        parts.push(&inner[st..]);
        for p in parts {
            if let Some((k, v)) = p.split_once(':') {
                out.insert(k.trim(), v.trim().to_string());
            }
        }
        Some(out)
    }
}

fn parse_f64(s: &str) -> u64 {
    if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).unwrap()
    } else {
        s.parse::<f64>().unwrap().to_bits()
    }
}

struct FnParser<'m, 't> {
    m: &'m mut Module,
    regs: HashMap<&'t str, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
}

const PARAM_ATTRS: &[&str] = &["align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "preallocated", "elementtype", "captures", "range", "initializes", "nofpclass", "allocalign", "alignstack"];

impl<'m, 't> FnParser<'m, 't> {
    fn parse(m: &'m mut Module, text: &'t str, lo: usize, hi: usize, id: u32) -> Function {
        // resolve aliases first: they need the module text
        if !m.aliases.is_empty() {
            let mut lx = Lx::new("i8 0");
            let t = m.ty(&mut lx);
            m.cst_with_text(text, &mut lx, &t);
        }
        let name = m.fns[id as usize].name.clone();
        let mut p = FnParser { m, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        p.run(text, lo, hi, id, name)
    }

    fn reg(&mut self, n: &'t str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("unknown block {n}"))
    }

    fn op(&mut self, lx: &mut Lx<'t>, t: &Ty) -> Op {
        if let Tok::Loc(n) = lx.peek() {
            let n = *n;
            lx.next();
            return Op::Reg(self.reg(n));
        }
        let c = self.m.cst(lx, t);
        if let (C::I(v), Ty::Ptr) = (&c, t) {
            let a = *v as u64;
            if self.m.tls_ranges.iter().any(|(lo, hi)| *lo <= a && a < *hi) {
                return Op::Tls(a);
            }
        }
        Op::C(c)
    }
    fn typed(&mut self, lx: &mut Lx<'t>) -> (Ty, Op) {
        let t = self.m.ty(lx);
        let o = self.op(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lx<'t>) -> u32 {
        assert!(lx.word("label"), "label near {}", lx.ctx());
        let Tok::Loc(n) = lx.next() else { panic!() };
        self.block(n)
    }

    fn skip_attrs(&mut self, lx: &mut Lx<'t>) -> Option<u64> {
        let mut byval = None;
        loop {
            let w = match lx.peek() {
                Tok::Id(w) => *w,
                Tok::Attr(_) => {
                    lx.next();
                    continue;
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.is('=') {
                        lx.next();
                    }
                    continue;
                }
                _ => return byval,
            };
            // constants and constant expressions end the attributes
            if matches!(
                w,
                "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "and" | "or" | "xor" | "splat" | "none" | "shl" | "lshr" | "c" | "asm" | "dso_local_equivalent"
            ) {
                return byval;
            }
            // a type also ends them
            if matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) {
                return byval;
            }
            lx.next();
            if PARAM_ATTRS.contains(&w) {
                if w == "align" {
                    if lx.is('(') {
                        lx.next();
                        lx.expect(')');
                    } else {
                        lx.next();
                    }
                } else if w == "byval" {
                    lx.expect('(');
                    let t = self.m.ty(lx);
                    byval = Some(t.size());
                    lx.expect(')');
                } else if *lx.peek() == Tok::P('(') {
                    lx.skip_parens();
                }
            } else if matches!(w, "cc") {
                lx.next();
            } else if *lx.peek() == Tok::P('(') && matches!(w, "allockind" | "allocsize" | "memory" | "vscale_range" | "addrspace" | "range" | "captures" | "initializes") {
                lx.skip_parens();
            }
        }
    }

    fn run(&mut self, text: &'t str, lo: usize, hi: usize, id: u32, name: Rc<str>) -> Function {
        let mut lx = Lx::at(text, lo, hi);
        assert!(lx.word("define"));
        self.skip_attrs(&mut lx);
        let _ret = self.m.ty(&mut lx);
        let Tok::Glob(_) = lx.next() else { panic!("fn header {}", lx.ctx()) };
        lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.is(')') {
            loop {
                if *lx.peek() == Tok::Dots {
                    lx.next();
                } else {
                    let t = self.m.ty(&mut lx);
                    let bv = self.skip_attrs(&mut lx);
                    if let Tok::Loc(n) = lx.peek() {
                        let n = *n;
                        lx.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        let r = self.reg(n);
                        params.push((r, t, bv));
                    } else {
                        unnamed += 1;
                        let r = self.nregs;
                        self.nregs += 1;
                        params.push((r, t, bv));
                    }
                }
                if lx.is(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        // find the body
        while lx.next() != Tok::P('{') {}
        let body_lo = lx.pos();
        // pass 1: labels
        let body = &text[body_lo..hi - 1];
        let mut nb = 0;
        let mut lines: Vec<&'t str> = vec![];
        let mut starts: Vec<usize> = vec![]; // line index where each block starts
        let mut seen_first = false;
        for line in body.lines() {
            let tr = line.trim_end();
            if tr.is_empty() || tr.trim_start().starts_with(';') {
                continue;
            }
            let is_label = !tr.starts_with(' ') && !tr.starts_with('\t');
            if is_label {
                let colon = if tr.starts_with('"') { tr[1..].find('"').unwrap() + 2 } else { tr.find(':').unwrap() };
                let n = tr[..colon].trim_matches('"').to_string();
                self.blocks.insert(n, nb);
                starts.push(lines.len());
                nb += 1;
                seen_first = true;
            } else {
                if !seen_first {
                    // implicit entry label: number = count of unnamed params
                    self.blocks.insert(format!("{unnamed}"), nb);
                    starts.push(lines.len());
                    nb += 1;
                    seen_first = true;
                }
                lines.push(line);
            }
        }
        starts.push(lines.len());
        let mut blocks = vec![];
        for b in 0..nb as usize {
            let mut blk = Block { phis: vec![], ins: vec![] };
            // join continuation lines: switch tables, landingpad clauses, invoke targets
            let mut i = starts[b];
            while i < starts[b + 1] {
                let l = lines[i];
                let st = l.as_ptr() as usize - text.as_ptr() as usize;
                let mut j = i + 1;
                while j < starts[b + 1] && (lines[j].starts_with("   ") || lines[j].trim_start().starts_with(']')) {
                    j += 1;
                }
                let last = lines[j - 1];
                let en = last.as_ptr() as usize - text.as_ptr() as usize + last.len();
                let mut lx = Lx::at(text, st, en);
                self.ins(&mut lx, &mut blk);
                i = j;
            }
            blocks.push(blk);
        }
        Function { id, name, params, nregs: self.nregs, blocks }
    }

    fn ins(&mut self, lx: &mut Lx<'t>, blk: &mut Block) {
        let mut dst = u32::MAX;
        if let Tok::Loc(n) = lx.peek() {
            let n = *n;
            lx.next();
            lx.expect('=');
            dst = self.reg(n);
        }
        let opname = match lx.next() {
            Tok::Id(s) => s,
            t => panic!("instruction {t:?} near {}", lx.ctx()),
        };
        use crate::expr::BinOp as B;
        let i = match opname {
            "phi" => {
                while matches!(lx.peek(), Tok::Id("fast") | Tok::Id("nnan")) {
                    lx.next();
                }
                let ty = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let v = self.op(lx, &ty);
                    lx.expect(',');
                    let Tok::Loc(b) = lx.next() else { panic!() };
                    inc.push((self.block(b), v));
                    lx.expect(']');
                    if !lx.is(',') {
                        break;
                    }
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                }
                blk.phis.push(Phi { dst, ty, inc });
                return;
            }
            "alloca" => {
                lx.word("inalloca");
                let t = self.m.ty(lx);
                let mut count = Op::C(C::I(1));
                let mut align = t.align();
                while lx.is(',') {
                    if lx.word("align") {
                        let Tok::Int(n) = lx.next() else { panic!() };
                        align = n.parse().unwrap();
                    } else if let Tok::Meta(_) = lx.peek() {
                        lx.next();
                        lx.next();
                    } else {
                        count = self.typed(lx).1;
                    }
                }
                I::Alloca { size: t.size(), count, align }
            }
            "load" => {
                let atomic = lx.word("atomic");
                lx.word("volatile");
                let ty = self.m.ty(lx);
                lx.expect(',');
                let (_, p) = self.typed(lx);
                I::Load { ty, p, atomic }
            }
            "store" => {
                let atomic = lx.word("atomic");
                lx.word("volatile");
                let (ty, v) = self.typed(lx);
                lx.expect(',');
                let (_, p) = self.typed(lx);
                I::Store { ty, v, p, atomic }
            }
            "getelementptr" => {
                while let Tok::Id(w) = lx.peek() {
                    if matches!(*w, "inbounds" | "nuw" | "nusw") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let et = self.m.ty(lx);
                lx.expect(',');
                let (bt, base) = self.typed(lx);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                let mut vec_n = if let Ty::Vec(n, _) = bt { Some(n) } else { None };
                while lx.is(',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, o) = self.typed(lx);
                    if let Ty::Vec(n, _) = it {
                        vec_n = Some(n);
                    }
                    let scale = if first {
                        cur.size() as i64
                    } else {
                        match &cur {
                            Ty::Struct(..) => 0,
                            t => t.elem(0).size() as i64,
                        }
                    };
                    match o {
                        Op::C(C::I(v)) => {
                            let v = crate::expr::sext128(v, it.w()) as i64;
                            if first {
                                off += v * scale;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => off += cur.field_off(v as u64) as i64,
                                    _ => off += v * scale,
                                }
                                cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as u64 } else { 0 });
                            }
                        }
                        o => {
                            if !first {
                                cur = cur.elem(0);
                            }
                            let w = if let Ty::Vec(_, t) = &it { t.w() } else { it.w() };
                            idx.push((o, scale, w));
                        }
                    }
                    first = false;
                }
                if let Some(n) = vec_n {
                    assert!(idx.is_empty(), "vector gep with variable indices near {}", lx.ctx());
                    I::VGep { n, base, off }
                } else {
                    I::Gep { base, off, idx }
                }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Tok::Id(w) = lx.peek() {
                    if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let ty = self.m.ty(lx);
                let a = self.op(lx, &ty);
                lx.expect(',');
                let b = self.op(lx, &ty);
                let op = match opname {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                I::Bin { op, ty, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Id(w) = lx.peek() {
                    if matches!(*w, "float" | "double") {
                        break;
                    }
                    lx.next();
                }
                let ty = self.m.ty(lx);
                let a = self.op(lx, &ty);
                lx.expect(',');
                let b = self.op(lx, &ty);
                let op = match opname {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                I::FBin { op, ty, a, b }
            }
            "fneg" => {
                let (ty, a) = self.typed(lx);
                I::FNeg { ty, a }
            }
            "icmp" => {
                lx.word("samesign");
                let Tok::Id(p) = lx.next() else { panic!() };
                let ty = self.m.ty(lx);
                let a = self.op(lx, &ty);
                lx.expect(',');
                let b = self.op(lx, &ty);
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    p => panic!("icmp {p}"),
                };
                I::Icmp { p, ty, a, b }
            }
            "fcmp" => {
                let p = loop {
                    let Tok::Id(p) = lx.next() else { panic!() };
                    let k = match p {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => continue,
                    };
                    break k;
                };
                let ty = self.m.ty(lx);
                let a = self.op(lx, &ty);
                lx.expect(',');
                let b = self.op(lx, &ty);
                I::Fcmp { p, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while let Tok::Id(w) = lx.peek() {
                    if matches!(*w, "nuw" | "nsw" | "nneg") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (from, a) = self.typed(lx);
                assert!(lx.word("to"));
                let to = self.m.ty(lx);
                let k = match opname {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    _ => Cast::PtrInt,
                };
                I::Cast { k, from, to, a }
            }
            "select" => {
                while let Tok::Id(w) = lx.peek() {
                    if matches!(*w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (cty, c) = self.typed(lx);
                lx.expect(',');
                let (ty, a) = self.typed(lx);
                lx.expect(',');
                let (_, b) = self.typed(lx);
                I::Select { ty, cty, c, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.typed(lx);
                let idx = self.idx_list(lx);
                I::ExtractV { a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.typed(lx);
                lx.expect(',');
                let (_, v) = self.typed(lx);
                let idx = self.idx_list(lx);
                I::InsertV { ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.typed(lx);
                lx.expect(',');
                let (_, i) = self.typed(lx);
                I::ExtractE { a, i }
            }
            "insertelement" => {
                let (ty, a) = self.typed(lx);
                lx.expect(',');
                let (_, v) = self.typed(lx);
                lx.expect(',');
                let (_, i) = self.typed(lx);
                I::InsertE { ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.typed(lx);
                lx.expect(',');
                let (_, b) = self.typed(lx);
                lx.expect(',');
                let mt = self.m.ty(lx);
                let C::Agg(mv) = self.m.cst(lx, &mt) else { panic!() };
                let mask = mv
                    .iter()
                    .map(|c| match c {
                        C::I(v) => *v as u32,
                        _ => 0,
                    })
                    .collect();
                I::Shuffle { ty, a, b, mask }
            }
            "freeze" => {
                let (_, a) = self.typed(lx);
                I::Freeze { a }
            }
            "atomicrmw" => {
                lx.word("volatile");
                let Tok::Id(op) = lx.next() else { panic!() };
                let (_, p) = self.typed(lx);
                lx.expect(',');
                let (ty, v) = self.typed(lx);
                let op = match op {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    o => panic!("rmw {o}"),
                };
                I::Rmw { op, ty, p, v }
            }
            "cmpxchg" => {
                lx.word("weak");
                lx.word("volatile");
                let (_, p) = self.typed(lx);
                lx.expect(',');
                let (ty, c) = self.typed(lx);
                lx.expect(',');
                let (_, v) = self.typed(lx);
                I::CmpXchg { ty, p, c, v }
            }
            "fence" => I::Fence,
            "br" => {
                if *lx.peek() == Tok::Id("label") {
                    I::Br(self.label(lx))
                } else {
                    let (_, c) = self.typed(lx);
                    lx.expect(',');
                    let a = self.label(lx);
                    lx.expect(',');
                    let b = self.label(lx);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed(lx);
                lx.expect(',');
                let def = self.label(lx);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.is(']') {
                    let ct = self.m.ty(lx);
                    let C::I(k) = self.m.cst(lx, &ct) else { panic!() };
                    lx.expect(',');
                    let b = self.label(lx);
                    cases.push((k, b));
                }
                I::Switch { w: t.w(), v, def, cases }
            }
            "ret" => {
                if lx.word("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.typed(lx).1))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" | "cleanupret" => I::LandingPad,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut inv = opname == "invoke";
                if opname != "call" && opname != "invoke" {
                    let Tok::Id(w) = lx.next() else { panic!() };
                    inv = w == "invoke";
                }
                // fast-math flags / cc / attributes up to the return type
                self.skip_attrs(lx);
                while *lx.peek() == Tok::P('<') && false {}
                let ret = self.m.ty(lx);
                if *lx.peek() == Tok::P('(') {
                    // function type (varargs)
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    Tok::Id("asm") => {
                        while let Tok::Id(_) = lx.peek() {
                            lx.next();
                        }
                        let Tok::Str(a) = lx.next() else { panic!() };
                        lx.expect(',');
                        lx.next();
                        Callee::Asm(Rc::new(a.to_string()))
                    }
                    Tok::Glob(n) => {
                        let n = unesc_name(n);
                        if (self.m.intercept)(&n) {
                            Callee::Ext(self.m.ext(&n))
                        } else if let Some(&f) = self.m.fn_by_name.get(&*n) {
                            Callee::F(f)
                        } else {
                            Callee::Ext(self.m.ext(&n))
                        }
                    }
                    Tok::Loc(n) => Callee::Ind(Op::Reg(self.reg(n))),
                    Tok::Id("inttoptr") | Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") => {
                        // never valid to call
                        if *lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        }
                        Callee::Ind(Op::C(C::I(0)))
                    }
                    t => panic!("callee {t:?} near {}", lx.ctx()),
                };
                lx.expect('(');
                let mut args = vec![];
                if !lx.is(')') {
                    loop {
                        let t = self.m.ty(lx);
                        if t == Ty::Other {
                            // metadata operand
                            let mut d = 0;
                            loop {
                                match lx.peek() {
                                    Tok::P('(') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                lx.next();
                            }
                            args.push((t, Op::C(C::I(0))));
                        } else {
                            self.skip_attrs(lx);
                            let o = self.op(lx, &t);
                            args.push((t, o));
                        }
                        if lx.is(')') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                let mut next = None;
                if inv {
                    while !lx.word("to") {
                        lx.next();
                    }
                    next = Some(self.label(lx));
                }
                I::Call { callee, args, ret, next }
            }
            o => panic!("unknown instruction {o} near {}", lx.ctx()),
        };
        // debug location
        let mut dbg = 0;
        loop {
            match lx.next() {
                Tok::Meta("dbg") => {
                    if let Tok::Meta(n) = lx.next() {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
                Tok::End => break,
                _ => {}
            }
        }
        blk.ins.push(Ins { dst, i, dbg });
    }

    fn idx_list(&mut self, lx: &mut Lx<'t>) -> Vec<u32> {
        let mut v = vec![];
        while lx.is(',') {
            match lx.peek() {
                Tok::Int(n) => {
                    v.push(n.parse().unwrap());
                    lx.next();
                }
                _ => break,
            }
        }
        v
    }
}
