//! Hash-consed bit-vector expressions with on-the-fly simplification.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u16, u128),
    Sym(u16, u32),
    /// The constant 0 as the state of the standard hasher (see `Ex::HASH`).
    Hash,
    Bin(BinOp, E, E),
    Cmp(CmpOp, E, E),
    Not(E),
    Ite(E, E, E),
    /// Extract `w` bits starting at `lo`.
    Ext(E, u16, u16),
    /// High, low.
    Cat(E, E),
    ZExt(E, u16),
    SExt(E, u16),
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ex {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    range: Vec<(u128, u128)>,
    syms: Vec<Option<Rc<[u32]>>>,
    map: FxMap<Node, E>,
    pub nsyms: u32,
    sym_w: Vec<u16>,
    eval_memo: Vec<(u32, u128)>,
    eval_gen: u32,
}

pub fn bin_const(op: BinOp, w: u16, a: u128, b: u128) -> u128 {
    use BinOp::*;
    let m = mask(w);
    (match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext128(a, w);
            if b >= w as u128 {
                if x < 0 {
                    m
                } else {
                    0
                }
            } else {
                (x >> b) as u128
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
    }) & m
}

pub fn cmp_const(op: CmpOp, w: u16, a: u128, b: u128) -> bool {
    match op {
        CmpOp::Eq => a == b,
        CmpOp::Ult => a < b,
        CmpOp::Ule => a <= b,
        CmpOp::Slt => sext128(a, w) < sext128(b, w),
        CmpOp::Sle => sext128(a, w) <= sext128(b, w),
    }
}

impl Ex {
    pub fn new() -> Self {
        let mut x = Ex {
            nodes: vec![],
            width: vec![],
            range: vec![],
            syms: vec![],
            map: Default::default(),
            nsyms: 0,
            sym_w: vec![],
            eval_memo: vec![],
            eval_gen: 0,
        };
        // ids 0,1 : false,true
        x.cst(1, 0);
        x.cst(1, 1);
        x.mk(Node::Hash, 64);
        x
    }
    pub const F: E = 0;
    pub const T: E = 1;
    /// Any function of the key is a hash: std's hasher computes the constant 0
    /// here, so all keys collide and maps compare the keys themselves. The
    /// tagged 0 absorbs what is mixed into it and is plain 0 to everything else.
    pub const HASH: E = 2;

    fn mk(&mut self, n: Node, w: u16) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let r = self.compute_range(n, w);
        // collapse when the range is a singleton
        if r.0 == r.1 && !matches!(n, Node::Const(..) | Node::Hash | Node::Ext(Self::HASH, ..)) {
            return self.cst(w, r.0);
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w);
        self.range.push(r);
        self.syms.push(None);
        self.eval_memo.push((0, 0));
        self.map.insert(n, id);
        id
    }

    fn compute_range(&self, n: Node, w: u16) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        match n {
            Node::Const(_, v) => (v, v),
            Node::Sym(..) => full,
            Node::Hash => (0, 0),
            Node::Cmp(..) => full,
            Node::Not(_) => full,
            Node::ZExt(a, _) => self.range[a as usize],
            Node::SExt(a, _) => {
                let (lo, hi) = self.range[a as usize];
                let aw = self.width[a as usize];
                if hi < (1u128 << (aw - 1)) {
                    (lo, hi)
                } else {
                    full
                }
            }
            Node::Ite(_, a, b) => {
                let (al, ah) = self.range[a as usize];
                let (bl, bh) = self.range[b as usize];
                (al.min(bl), ah.max(bh))
            }
            Node::Cat(a, b) => {
                let bw = self.width[b as usize];
                let (al, ah) = self.range[a as usize];
                let (bl, bh) = self.range[b as usize];
                ((al << bw) | bl, (ah << bw) | bh)
            }
            Node::Ext(a, lo, w) => {
                let (al, ah) = self.range[a as usize];
                if lo == 0 {
                    if ah <= m {
                        (al, ah)
                    } else {
                        full
                    }
                } else {
                    let h = ah >> lo;
                    if h <= mask(w) {
                        (al >> lo, h)
                    } else {
                        full
                    }
                }
            }
            Node::Bin(op, a, b) => {
                let (al, ah) = self.range[a as usize];
                let (bl, bh) = self.range[b as usize];
                match op {
                    BinOp::And => (0, ah.min(bh)),
                    BinOp::Or => {
                        let mx = ah | bh;
                        let bits = 128 - mx.leading_zeros() as u16;
                        (al.max(bl), mask(bits).min(m))
                    }
                    BinOp::Xor => {
                        let mx = ah | bh;
                        let bits = 128 - mx.leading_zeros() as u16;
                        (0, mask(bits).min(m))
                    }
                    BinOp::Add => match ah.checked_add(bh) {
                        Some(h) if h <= m => (al + bl, h),
                        _ => full,
                    },
                    BinOp::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else {
                            full
                        }
                    }
                    BinOp::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => full,
                    },
                    BinOp::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    BinOp::URem => {
                        if bl > 0 {
                            (0, (bh - 1).min(ah))
                        } else {
                            full
                        }
                    }
                    BinOp::LShr => {
                        if bh < 128 {
                            (al.checked_shr(bh as u32).unwrap_or(0), ah.checked_shr(bl as u32).unwrap_or(0))
                        } else {
                            (0, ah)
                        }
                    }
                    BinOp::Shl => {
                        if bh < w as u128 && ah.leading_zeros() as u128 >= bh && (ah << bh) <= m {
                            (al << bl, ah << bh)
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
        }
    }

    #[inline]
    pub fn rng(&self, e: E) -> (u128, u128) {
        self.range[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.width[e as usize]
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        self.mk(Node::Const(w, v), w)
    }
    /// The symbol with a given id (interned; every use must agree on the width).
    pub fn sym(&mut self, w: u16, id: u32) -> E {
        if self.sym_w.len() <= id as usize {
            self.sym_w.resize(id as usize + 1, 0);
        }
        if self.sym_w[id as usize] == 0 {
            self.sym_w[id as usize] = w;
        }
        assert_eq!(self.sym_w[id as usize], w, "symbol width");
        if id >= self.nsyms {
            self.nsyms = id + 1;
        }
        self.mk(Node::Sym(w, id), w)
    }
    pub fn sym_width(&self, id: u32) -> u16 {
        self.sym_w[id as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(_, v) => Some(v),
            _ => None,
        }
    }

    fn const_leaves(&self, e: E) -> bool {
        // Ite whose both leaves are constants (nesting allowed up to a depth)
        fn go(x: &Ex, e: E, d: u32) -> bool {
            match x.node(e) {
                Node::Const(..) => true,
                Node::Ite(_, a, b) => d > 0 && go(x, a, d - 1) && go(x, b, d - 1),
                _ => false,
            }
        }
        matches!(self.node(e), Node::Ite(..)) && go(self, e, 3)
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        use BinOp::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "bin width {:?}", op);
        if a == Self::HASH || b == Self::HASH {
            if matches!(op, Add | Xor) || a == b {
                return Self::HASH;
            }
            let z = self.cst(64, 0);
            let (a, b) = (if a == Self::HASH { z } else { a }, if b == Self::HASH { z } else { b });
            return self.bin(op, a, b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = bin_const(op, w, x, y);
            return self.cst(w, v);
        }
        // canonical: constant on the right for commutative operations
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor) {
            return self.bin(op, b, a);
        }
        if cb.is_none() && ca.is_none() && a > b && matches!(op, Add | Mul | And | Or | Xor) {
            return self.bin(op, b, a);
        }
        let m = mask(w);
        if matches!(op, Mul | UDiv | URem) && w > 8 {
            // compute at the width the operands really need
            let (_, ah) = self.rng(a);
            let (bl, bh) = self.rng(b);
            let need = match op {
                Mul => ah.checked_mul(bh),
                _ if bl > 0 => Some(ah.max(bh)),
                _ => None,
            };
            if let Some(mx) = need {
                let n = ((128 - mx.leading_zeros()) as u16).max(1);
                if n < w {
                    let an = self.ext(a, 0, n);
                    let bn = self.ext(b, 0, n);
                    let r = self.bin(op, an, bn);
                    return self.zext(r, w);
                }
            }
        }
        if w == 1 {
            match op {
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.bin(And, a, b),
                _ => {}
            }
        }
        if let Some(c) = cb {
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a,
                And if c == 0 => return b,
                And if c == m => return a,
                Or if c == m => return b,
                Mul if c == 0 => return b,
                Mul | UDiv | SDiv if c == 1 => return a,
                URem if c == 1 => return self.cst(w, 0),
                Xor if c == m => return self.not(a),
                Sub => {
                    let nc = self.cst(w, (!c).wrapping_add(1));
                    return self.bin(Add, a, nc);
                }
                Mul if c.is_power_of_two() => {
                    let k = self.cst(w, c.trailing_zeros() as u128);
                    return self.bin(Shl, a, k);
                }
                UDiv if c.is_power_of_two() => {
                    let k = self.cst(w, c.trailing_zeros() as u128);
                    return self.bin(LShr, a, k);
                }
                URem if c.is_power_of_two() => {
                    let k = self.cst(w, c - 1);
                    return self.bin(And, a, k);
                }
                Shl => {
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = c as u16;
                    let hi = self.ext(a, 0, w - k);
                    let z = self.cst(k, 0);
                    return self.cat(hi, z);
                }
                LShr => {
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = c as u16;
                    let hi = self.ext(a, k, w - k);
                    return self.zext(hi, w);
                }
                And => {
                    // low mask
                    let (_, ah) = self.rng(a);
                    if (c & (c + 1)) == 0 {
                        // c = 2^k-1
                        let k = (128 - c.leading_zeros()) as u16;
                        if ah <= c {
                            return a;
                        }
                        let e = self.ext(a, 0, k);
                        return self.zext(e, w);
                    }
                    if let Node::ZExt(x, _) = self.node(a) {
                        let xw = self.w(x);
                        let k = self.cst(xw, c);
                        let r = self.bin(And, x, k);
                        return self.zext(r, w);
                    }
                    if let Node::Cat(x, y) = self.node(a) {
                        let (xw, yw) = (self.w(x), self.w(y));
                        let kx = self.cst(xw, c >> yw);
                        let ky = self.cst(yw, c);
                        let rx = self.bin(And, x, kx);
                        let ry = self.bin(And, y, ky);
                        return self.cat(rx, ry);
                    }
                    if let Node::Bin(And, x, y) = self.node(a) {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(w, c & c2);
                            return self.bin(And, x, k);
                        }
                    }
                }
                Or | Xor => {
                    if let Node::Cat(x, y) = self.node(a) {
                        let (xw, yw) = (self.w(x), self.w(y));
                        let kx = self.cst(xw, c >> yw);
                        let ky = self.cst(yw, c);
                        let rx = self.bin(op, x, kx);
                        let ry = self.bin(op, y, ky);
                        return self.cat(rx, ry);
                    }
                    if let Node::ZExt(x, _) = self.node(a) {
                        let xw = self.w(x);
                        let kl = self.cst(xw, c);
                        let kh = self.cst(w - xw, c >> xw);
                        let r = self.bin(op, x, kl);
                        return self.cat(kh, r);
                    }
                }
                Add => {
                    if let Node::Bin(Add, x, y) = self.node(a) {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(w, c.wrapping_add(c2));
                            return self.bin(Add, x, k);
                        }
                    }
                }
                _ => {}
            }
            if self.const_leaves(a) {
                if let Node::Ite(k, x, y) = self.node(a) {
                    let rx = self.bin(op, x, b);
                    let ry = self.bin(op, y, b);
                    return self.ite(k, rx, ry);
                }
            }
        }
        if ca == Some(0) && matches!(op, Shl | LShr | AShr | UDiv | URem | SDiv | SRem) {
            return a;
        }
        if a == b {
            match op {
                And | Or => return a,
                Xor | Sub => return self.cst(w, 0),
                _ => {}
            }
        }
        match op {
            And | Or | Xor => {
                // bool simplifications
                if w == 1 {
                    if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) {
                        return self.cst(1, if op == And { 0 } else { 1 });
                    }
                    // absorption: a & (a & x) / a | (a | x)
                    if let Node::Bin(o2, x, y) = self.node(b) {
                        if o2 == op && op != Xor && (x == a || y == a) {
                            return b;
                        }
                        if op != Xor && o2 != op && matches!(o2, And | Or) && (x == a || y == a) {
                            return a;
                        }
                    }
                    if let Node::Bin(o2, x, y) = self.node(a) {
                        if o2 == op && op != Xor && (x == b || y == b) {
                            return a;
                        }
                        if op != Xor && o2 != op && matches!(o2, And | Or) && (x == b || y == b) {
                            return b;
                        }
                    }
                }
                // concat merging: or(cat(a,0), zext(b))
                let na = self.node(a);
                let nb = self.node(b);
                let pieces = |n: Node| matches!(n, Node::Cat(..) | Node::ZExt(..));
                if pieces(na) && pieces(nb) && w > 1 {
                    let cut = |n: Node, s: &Ex| match n {
                        Node::Cat(_, y) => s.w(y),
                        Node::ZExt(x, _) => s.w(x),
                        _ => 0,
                    };
                    let (ka, kb) = (cut(na, self), cut(nb, self));
                    // only if it makes one of the halves trivially constant
                    let k = {
                        let z = |s: &Ex, n: Node, k: u16| -> bool {
                            match n {
                                Node::Cat(x, y) => {
                                    (s.w(y) >= k && s.as_const(y).is_some()) || (s.w(y) <= k && s.as_const(x).is_some())
                                }
                                Node::ZExt(x, _) => s.w(x) <= k,
                                _ => false,
                            }
                        };
                        if z(self, na, kb) {
                            kb
                        } else if z(self, nb, ka) {
                            ka
                        } else if ka == kb {
                            ka
                        } else {
                            0
                        }
                    };
                    if k > 0 && k < w {
                        let ah = self.ext(a, k, w - k);
                        let al = self.ext(a, 0, k);
                        let bh = self.ext(b, k, w - k);
                        let bl = self.ext(b, 0, k);
                        let h = self.bin(op, ah, bh);
                        let l = self.bin(op, al, bl);
                        return self.cat(h, l);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    fn not_of(&self, e: E) -> Option<E> {
        match self.node(e) {
            Node::Not(x) => Some(x),
            _ => None,
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(w, v) => self.cst(w, !v),
            Node::Not(x) => x,
            Node::Cmp(CmpOp::Ult, x, y) => self.cmp(CmpOp::Ule, y, x),
            Node::Cmp(CmpOp::Ule, x, y) => self.cmp(CmpOp::Ult, y, x),
            Node::Cmp(CmpOp::Slt, x, y) => self.cmp(CmpOp::Sle, y, x),
            Node::Cmp(CmpOp::Sle, x, y) => self.cmp(CmpOp::Slt, y, x),
            _ => self.mk(Node::Not(a), w),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(CmpOp::Eq, a, b)
    }

    pub fn cmp(&mut self, op: CmpOp, a: E, b: E) -> E {
        use CmpOp::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return if matches!(op, Eq | Ule | Sle) { Self::T } else { Self::F };
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return if cmp_const(op, w, x, y) { Self::T } else { Self::F };
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        match op {
            Eq => {
                if ah < bl || bh < al {
                    return Self::F;
                }
            }
            Ult => {
                if ah < bl {
                    return Self::T;
                }
                if al >= bh {
                    return Self::F;
                }
            }
            Ule => {
                if ah <= bl {
                    return Self::T;
                }
                if al > bh {
                    return Self::F;
                }
            }
            Slt | Sle => {
                let top = 1u128 << (w - 1);
                if ah < top && bh < top {
                    return self.cmp(if op == Slt { Ult } else { Ule }, a, b);
                }
            }
        }
        if op == Eq {
            if ca.is_some() {
                return self.cmp(Eq, b, a);
            }
            if w == 1 {
                if let Some(c) = cb {
                    return if c == 1 { a } else { self.not(a) };
                }
            }
            if let Some(c) = cb {
                match self.node(a) {
                    Node::ZExt(x, _) => {
                        let xw = self.w(x);
                        if c > mask(xw) {
                            return Self::F;
                        }
                        let k = self.cst(xw, c);
                        return self.cmp(Eq, x, k);
                    }
                    Node::SExt(x, _) => {
                        let xw = self.w(x);
                        let k = self.cst(xw, c);
                        if (sext128(c & mask(xw), xw) as u128) & mask(w) != c {
                            return Self::F;
                        }
                        return self.cmp(Eq, x, k);
                    }
                    Node::Cat(x, y) => {
                        let (xw, yw) = (self.w(x), self.w(y));
                        let kx = self.cst(xw, c >> yw);
                        let ky = self.cst(yw, c);
                        let ex = self.cmp(Eq, x, kx);
                        if ex == Self::F {
                            return ex;
                        }
                        let ey = self.cmp(Eq, y, ky);
                        return self.and(ex, ey);
                    }
                    Node::Bin(BinOp::Add, x, y) => {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(w, c.wrapping_sub(c2));
                            return self.cmp(Eq, x, k);
                        }
                    }
                    Node::Bin(BinOp::Xor, x, y) => {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(w, c ^ c2);
                            return self.cmp(Eq, x, k);
                        }
                        if c == 0 {
                            return self.cmp(Eq, x, y);
                        }
                    }
                    Node::Bin(BinOp::Sub, x, y) if c == 0 => {
                        return self.cmp(Eq, x, y);
                    }
                    Node::Bin(BinOp::Or, x, y) if c == 0 => {
                        let ex = self.cmp(Eq, x, b);
                        let ey = self.cmp(Eq, y, b);
                        return self.and(ex, ey);
                    }
                    Node::Not(x) => {
                        let k = self.cst(w, !c);
                        return self.cmp(Eq, x, k);
                    }
                    Node::Ite(k, x, y) => {
                        if self.as_const(x).is_some() || self.as_const(y).is_some() {
                            let ex = self.cmp(Eq, x, b);
                            let ey = self.cmp(Eq, y, b);
                            return self.ite(k, ex, ey);
                        }
                    }
                    _ => {}
                }
            } else {
                match (self.node(a), self.node(b)) {
                    (Node::ZExt(x, _), Node::ZExt(y, _)) if self.w(x) == self.w(y) => return self.cmp(Eq, x, y),
                    (Node::SExt(x, _), Node::SExt(y, _)) if self.w(x) == self.w(y) => return self.cmp(Eq, x, y),
                    (Node::Cat(x, y), Node::Cat(p, q)) if self.w(x) == self.w(p) => {
                        let ex = self.cmp(Eq, x, p);
                        if ex == Self::F {
                            return ex;
                        }
                        let ey = self.cmp(Eq, y, q);
                        return self.and(ex, ey);
                    }
                    _ => {}
                }
                if a > b {
                    return self.cmp(Eq, b, a);
                }
            }
        } else {
            if let Some(c) = cb {
                // a OP c
                match op {
                    Ule => {
                        // a <= c  <=>  a < c+1
                        if c == mask(w) {
                            return Self::T;
                        }
                        let k = self.cst(w, c + 1);
                        return self.cmp(Ult, a, k);
                    }
                    Sle => {
                        if sext128(c, w) == (mask(w - 1) as i128) {
                            return Self::T;
                        }
                        let k = self.cst(w, c.wrapping_add(1));
                        return self.cmp(Slt, a, k);
                    }
                    _ => {}
                }
            }
            if let Some(c) = ca {
                match op {
                    // c < b <=> not (b <= c) <=> not (b < c+1)
                    Ule if c > 0 => {
                        let k = self.cst(w, c - 1);
                        return self.cmp(Ult, k, b);
                    }
                    _ => {}
                }
            }
            if matches!(op, Ult) {
                if let Some(c) = cb {
                    match self.node(a) {
                        Node::ZExt(x, _) => {
                            let xw = self.w(x);
                            let k = self.cst(xw, c);
                            return self.cmp(Ult, x, k);
                        }
                        Node::Cat(x, y) => {
                            // hi:lo < c, with c's low part zero
                            let yw = self.w(y);
                            if c & mask(yw) == 0 {
                                let xw = self.w(x);
                                let k = self.cst(xw, c >> yw);
                                return self.cmp(Ult, x, k);
                            }
                        }
                        _ => {}
                    }
                    if c == 1 {
                        let z = self.cst(w, 0);
                        return self.cmp(Eq, a, z);
                    }
                }
                if let Some(c) = ca {
                    if let Node::ZExt(x, _) = self.node(b) {
                        let xw = self.w(x);
                        let k = self.cst(xw, c);
                        return self.cmp(Ult, k, x);
                    }
                    if c == 0 {
                        let e = self.cmp(Eq, b, a);
                        return self.not(e);
                    }
                }
            }
            if matches!(op, Ult | Ule) {
                if let (Node::ZExt(x, _), Node::ZExt(y, _)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(op, x, y);
                    }
                }
            }
            if matches!(op, Slt) {
                if cb == Some(0) {
                    // sign bit
                    return self.ext(a, w - 1, 1);
                }
            }
            if let Node::Ite(k, x, y) = self.node(a) {
                if cb.is_some() && (self.as_const(x).is_some() || self.as_const(y).is_some()) {
                    let ex = self.cmp(op, x, b);
                    let ey = self.cmp(op, y, b);
                    return self.ite(k, ex, ey);
                }
            }
            if let Node::Ite(k, x, y) = self.node(b) {
                if ca.is_some() && (self.as_const(x).is_some() || self.as_const(y).is_some()) {
                    let ex = self.cmp(op, a, x);
                    let ey = self.cmp(op, a, y);
                    return self.ite(k, ex, ey);
                }
            }
        }
        self.mk(Node::Cmp(op, a, b), 1)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == Self::T || a == b {
            return a;
        }
        if c == Self::F {
            return b;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Node::Not(x) = self.node(c) {
            if self.w(x) == 1 {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, y) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
            let _ = y;
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn ext(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw {
            return a;
        }
        match self.node(a) {
            Node::Const(_, v) => return self.cst(w, v >> lo),
            Node::Ext(x, l2, _) => return self.ext(x, lo + l2, w),
            Node::Cat(x, y) => {
                let yw = self.w(y);
                if lo >= yw {
                    return self.ext(x, lo - yw, w);
                }
                if lo + w <= yw {
                    return self.ext(y, lo, w);
                }
                let l = self.ext(y, lo, yw - lo);
                let h = self.ext(x, 0, lo + w - yw);
                return self.cat(h, l);
            }
            Node::ZExt(x, _) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.cst(w, 0);
                }
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                let l = self.ext(x, lo, xw - lo);
                return self.zext(l, w);
            }
            Node::SExt(x, _) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            Node::Ite(c, x, y) => {
                if self.const_leaves(a) || matches!(self.node(x), Node::ZExt(..) | Node::Cat(..) | Node::Const(..)) && matches!(self.node(y), Node::ZExt(..) | Node::Cat(..) | Node::Const(..)) {
                    let ex = self.ext(x, lo, w);
                    let ey = self.ext(y, lo, w);
                    return self.ite(c, ex, ey);
                }
            }
            Node::Not(x) => {
                let e = self.ext(x, lo, w);
                return self.not(e);
            }
            Node::Bin(op, x, y) => match op {
                BinOp::And | BinOp::Or | BinOp::Xor => {
                    let ex = self.ext(x, lo, w);
                    let ey = self.ext(y, lo, w);
                    return self.bin(op, ex, ey);
                }
                BinOp::Add | BinOp::Sub | BinOp::Mul if lo == 0 => {
                    let ex = self.ext(x, lo, w);
                    let ey = self.ext(y, lo, w);
                    return self.bin(op, ex, ey);
                }
                _ => {}
            },
            _ => {}
        }
        self.mk(Node::Ext(a, lo, w), w)
    }

    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "cat too wide");
        let (ch, cl) = (self.as_const(h), self.as_const(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.cst(w, (x << lw) | y);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Ext(x, lo1, w1), Node::Ext(y, lo2, w2)) = (self.node(h), self.node(l)) {
            if x == y && lo1 == lo2 + w2 {
                return self.ext(x, lo2, w1 + w2);
            }
        }
        // cat(h, cat(l1, l2)) with h, l1 mergeable
        if let Node::Cat(l1, l2) = self.node(l) {
            let mergeable = match (self.node(h), self.node(l1)) {
                (Node::Const(..), Node::Const(..)) => true,
                (Node::Ext(x, lo1, _), Node::Ext(y, lo2, w2)) => x == y && lo1 == lo2 + w2,
                _ => false,
            };
            if mergeable {
                let t = self.cat(h, l1);
                return self.cat(t, l2);
            }
        }
        if let Node::Cat(h1, h2) = self.node(h) {
            let mergeable = match (self.node(h2), self.node(l)) {
                (Node::Const(..), Node::Const(..)) => true,
                (Node::Ext(x, lo1, _), Node::Ext(y, lo2, w2)) => x == y && lo1 == lo2 + w2,
                _ => false,
            };
            if mergeable {
                let t = self.cat(h2, l);
                return self.cat(h1, t);
            }
        }
        if let (Node::ZExt(x, _), true) = (self.node(h), true) {
            // cat(zext x, l) = zext(cat(x,l))
            let t = self.cat(x, l);
            return self.zext(t, w);
        }
        // ite pieces split by bytes
        if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (self.node(h), self.node(l)) {
            if c1 == c2 {
                let x = self.cat(a1, a2);
                let y = self.cat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        self.mk(Node::Cat(h, l), w)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        match self.node(a) {
            Node::Const(_, v) => return self.cst(w, v),
            Node::ZExt(x, _) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.const_leaves(a) => {
                let ex = self.zext(x, w);
                let ey = self.zext(y, w);
                return self.ite(c, ex, ey);
            }
            Node::Ext(x, 0, _) => {
                // zext(ext(x,0,k)) where x fits
                if self.w(x) == w && self.rng(x).1 <= mask(aw) {
                    return x;
                }
            }
            _ => {}
        }
        self.mk(Node::ZExt(a, w), w)
    }

    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(_, v) => return self.cst(w, sext128(v, aw) as u128),
            Node::ZExt(x, _) => return self.zext(x, w),
            Node::SExt(x, _) => return self.sext(x, w),
            Node::Ite(c, x, y) if self.const_leaves(a) => {
                let ex = self.sext(x, w);
                let ey = self.sext(y, w);
                return self.ite(c, ex, ey);
            }
            _ => {}
        }
        if aw == 1 {
            let t = self.cst(w, u128::MAX);
            let f = self.cst(w, 0);
            return self.ite(a, t, f);
        }
        if self.rng(a).1 < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        self.mk(Node::SExt(a, w), w)
    }

    /// Symbols occurring in the expression (sorted).
    pub fn symset(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.syms[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.syms[x as usize].is_some() {
                continue;
            }
            let n = self.node(x);
            let kids: [Option<E>; 3] = match n {
                Node::Const(..) | Node::Sym(..) | Node::Hash => [None; 3],
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Cat(a, b) => [Some(a), Some(b), None],
                Node::Not(a) | Node::Ext(a, _, _) | Node::ZExt(a, _) | Node::SExt(a, _) => [Some(a), None, None],
                Node::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            };
            if !done {
                stack.push((x, true));
                for k in kids.into_iter().flatten() {
                    if self.syms[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
            } else {
                let r: Rc<[u32]> = match n {
                    Node::Sym(_, id) => Rc::from(vec![id]),
                    _ => {
                        let mut sets: Vec<Rc<[u32]>> = vec![];
                        for k in kids.into_iter().flatten() {
                            let s = self.syms[k as usize].clone().unwrap();
                            if !s.is_empty() && !sets.iter().any(|t| Rc::ptr_eq(t, &s) || **t == *s) {
                                sets.push(s);
                            }
                        }
                        if sets.is_empty() {
                            Rc::from(vec![])
                        } else if sets.len() == 1 {
                            sets.pop().unwrap()
                        } else {
                            let mut v: Vec<u32> = sets.iter().flat_map(|s| s.iter().copied()).collect();
                            v.sort_unstable();
                            v.dedup();
                            Rc::from(v)
                        }
                    }
                };
                self.syms[x as usize] = Some(r);
            }
        }
        self.syms[e as usize].clone().unwrap()
    }

    pub fn begin_eval(&mut self) {
        self.eval_gen += 1;
    }

    /// Evaluates an expression under an assignment (missing symbols are 0).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.begin_eval();
        self.eval_in(e, model)
    }
    pub fn eval_in(&mut self, e: E, model: &[u64]) -> u128 {
        let gen = self.eval_gen;
        if let Node::Const(_, v) = self.nodes[e as usize] {
            return v;
        }
        if self.eval_memo[e as usize].0 == gen {
            return self.eval_memo[e as usize].1;
        }
        let mut stack: Vec<E> = vec![e];
        while let Some(&x) = stack.last() {
            if self.eval_memo[x as usize].0 == gen {
                stack.pop();
                continue;
            }
            let w = self.width[x as usize];
            macro_rules! get {
                ($k:expr) => {{
                    let k = $k;
                    if let Node::Const(_, v) = self.nodes[k as usize] {
                        v
                    } else if self.eval_memo[k as usize].0 == gen {
                        self.eval_memo[k as usize].1
                    } else {
                        stack.push(k);
                        continue;
                    }
                }};
            }
            let v = match self.nodes[x as usize] {
                Node::Const(_, v) => v,
                Node::Hash => 0,
                Node::Sym(w, id) => (model.get(id as usize).copied().unwrap_or(0) as u128) & mask(w),
                Node::Bin(op, a, b) => {
                    let va = get!(a);
                    let vb = get!(b);
                    bin_const(op, w, va, vb)
                }
                Node::Cmp(op, a, b) => {
                    let va = get!(a);
                    let vb = get!(b);
                    cmp_const(op, self.width[a as usize], va, vb) as u128
                }
                Node::Not(a) => !get!(a) & mask(w),
                Node::Ite(c, a, b) => {
                    let vc = get!(c);
                    if vc == 1 {
                        get!(a)
                    } else {
                        get!(b)
                    }
                }
                Node::Ext(a, lo, w) => (get!(a) >> lo) & mask(w),
                Node::Cat(a, b) => {
                    let va = get!(a);
                    let vb = get!(b);
                    (va << self.width[b as usize]) | vb
                }
                Node::ZExt(a, _) => get!(a),
                Node::SExt(a, w) => {
                    let va = get!(a);
                    (sext128(va, self.width[a as usize]) as u128) & mask(w)
                }
            };
            self.eval_memo[x as usize] = (gen, v);
            stack.pop();
        }
        self.eval_memo[e as usize].1
    }

    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match self.node(e) {
            Node::Const(w, v) => format!("{v}:{w}"),
            Node::Sym(_, i) => format!("s{i}"),
            Node::Hash => "hash".into(),
            Node::Bin(op, a, b) => format!("({op:?} {} {})", self.show(a, d - 1), self.show(b, d - 1)),
            Node::Cmp(op, a, b) => format!("({op:?} {} {})", self.show(a, d - 1), self.show(b, d - 1)),
            Node::Not(a) => format!("(! {})", self.show(a, d - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d - 1), self.show(a, d - 1), self.show(b, d - 1)),
            Node::Ext(a, lo, w) => format!("{}[{}+{}]", self.show(a, d - 1), lo, w),
            Node::Cat(a, b) => format!("({} . {})", self.show(a, d - 1), self.show(b, d - 1)),
            Node::ZExt(a, w) => format!("(z{} {})", w, self.show(a, d - 1)),
            Node::SExt(a, w) => format!("(s{} {})", w, self.show(a, d - 1)),
        }
    }
}
