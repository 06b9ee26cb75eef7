//! External functions: LLVM intrinsics, the C library, the harness interface.

use crate::exec::*;
use crate::expr::*;
use crate::ir::Ty;
use crate::mem::*;
use std::rc::Rc;

type R<T> = Result<T, Stop>;

macro_rules! unsup {
    ($($t:tt)*) => { return Err(Stop::Unsupported(format!($($t)*))) };
}

/// Functions never entered: their effect is modelled here.
pub fn intercept(n: &str) -> bool {
    n.starts_with("_ZN4core9panicking")
        || n == "rust_begin_unwind"
        || n == "rust_panic"
        || n == "rust_oom"
        || n == "__rust_alloc_error_handler"
        || n.starts_with("__rust_start_panic")
        || n.starts_with("_ZN3std9panicking11begin_panic")
        || n.starts_with("_ZN3std9panicking20rust_panic_with_hook")
        || n.starts_with("_ZN3std9panicking8set_hook")
        || n.starts_with("_ZN5alloc5alloc18handle_alloc_error")
        || n.starts_with("_ZN3std3sys9backtrace13lock")
        || n.starts_with("__vs_")
        || summarized(n)
}

/// Library routines with a symbolic summary (used only on symbolic data;
/// on concrete data the real body runs).
fn summarized(n: &str) -> bool {
    n.starts_with("_ZN4core5slice6memchr14memchr_aligned17h")
        || n.starts_with("_ZN4core5slice6memchr7memrchr17h")
        || n.starts_with("_ZN4core3str8converts9from_utf817h")
        || n.starts_with("_ZN40_$LT$str$u20$as$u20$core..fmt..Debug$GT$3fmt17h")
        || n.starts_with("_ZN41_$LT$char$u20$as$u20$core..fmt..Debug$GT$3fmt17h")
        || n.starts_with("_ZN6memchr4arch6x86_646memchr10memchr_raw6detect")
        || n.starts_with("_ZN6memchr4arch6x86_646memchr11memrchr_raw6detect")
        || n.starts_with("_ZN6memchr4arch6x86_646memchr11memchr2_raw6detect")
        || n.starts_with("_ZN6memchr4arch6x86_646memchr11memchr3_raw6detect")
}

fn ok(v: u64) -> R<ExtRet> {
    Ok(ExtRet::Val(Val::C(v)))
}

impl Engine {
    fn arg_w(args: &[(Ty, crate::ir::Op)], i: usize) -> u16 {
        match &args[i].0 {
            Ty::Ptr => 64,
            t => t.w(),
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.concretize(st, v)
    }

    /// Applies a scalar operation lane by lane.
    fn lanes(&mut self, ret: &Ty, vals: &[Val], f: &mut dyn FnMut(&mut Ex, u16, &[E]) -> E) -> Val {
        match ret {
            Ty::Vec(n, et) => {
                let w = et.w();
                let mut out = vec![];
                for i in 0..*n as usize {
                    let es: Vec<E> = vals
                        .iter()
                        .map(|v| match v {
                            Val::A(x) => {
                                let y = x[i].clone();
                                self.e(&y, w)
                            }
                            v => {
                                let v = v.clone();
                                self.e(&v, w)
                            }
                        })
                        .collect();
                    let r = f(&mut self.x, w, &es);
                    out.push(self.v(r));
                }
                Val::A(Rc::new(out))
            }
            t => {
                let w = t.w();
                let es: Vec<E> = vals.iter().map(|v| self.e(v, w)).collect();
                let r = f(&mut self.x, w, &es);
                self.v(r)
            }
        }
    }

    fn panic_stop(&mut self, st: &mut State, what: &str) -> Stop {
        if st.panic_ok {
            return Stop::PanicOk;
        }
        let bt = self.backtrace(st);
        // the innermost frame of the code under test
        let at = bt.iter().find(|l| l.contains("/repo/") || l.contains("/mirror/")).cloned().unwrap_or_default();
        self.violation(&st.clone(), "panic", &format!("{what} at {at}"));
        Stop::Violated
    }

    fn fmt_args(&self, st: &State, a: u64) -> String {
        // core::fmt::Arguments starts with its pieces
        let (Some(p), Some(n)) = (self.peek_u64(st, a), self.peek_u64(st, a + 8)) else { return String::new() };
        let mut out = vec![];
        for i in 0..n.min(8) {
            if let (Some(s), Some(l)) = (self.peek_u64(st, p + 16 * i), self.peek_u64(st, p + 16 * i + 8)) {
                out.push(self.peek_str(st, s, l.min(300)).unwrap_or_default());
            }
        }
        out.join("{}")
    }

    fn alloc(&mut self, st: &mut State, size: &Val, zero: bool) -> R<u64> {
        let _ = zero;
        if let Val::S(e) = size {
            let w = self.x.w(*e);
            let k = self.x.cst(w, self.cfg.max_alloc as u128);
            let big = self.x.cmp(CmpOp::Ult, k, *e);
            if self.branch(st, big)? {
                return Ok(0);
            }
        }
        let n = self.conc(st, size)?;
        if n > self.cfg.max_alloc {
            return Ok(0);
        }
        Ok(st.mem.alloc_heap(n))
    }

    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        if !st.mem.free_heap(a) {
            self.violation(&st.clone(), "memory-safety", &format!("invalid free of {a:#x}"));
            return Err(Stop::Violated);
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<u64> {
        let n = self.conc(st, n)?;
        let d = self.conc(st, d)?;
        if n == 0 {
            return Ok(d);
        }
        if let (Val::S(e), true) = (s, n <= 16) {
            let mut bs = vec![];
            for i in 0..n {
                let k = self.x.cst(64, i as u128);
                let a = self.x.bin(BinOp::Add, *e, k);
                match self.byte_at(st, a)? {
                    Some(b) => bs.push(b),
                    None => break,
                }
            }
            if bs.len() == n as usize {
                let (l, off) = self.locate(st, d, n, true)?;
                for (i, b) in bs.into_iter().enumerate() {
                    let v = self.v(b);
                    self.store_ty(st, &l, off + i as u64, &Ty::I(8), &v);
                }
                return Ok(d);
            }
        }
        let s = self.conc(st, s)?;
        self.locate(st, s, n, false)?;
        self.locate(st, d, n, true)?;
        self.copy_mem(st, d, s, n);
        Ok(d)
    }

    fn memset(&mut self, st: &mut State, d: &Val, c: &Val, n: &Val) -> R<u64> {
        let n = self.conc(st, n)?;
        let d = self.conc(st, d)?;
        if n == 0 {
            return Ok(d);
        }
        let (l, off) = self.locate(st, d, n, true)?;
        match c {
            Val::C(c) => {
                let o = st.mem.obj_mut(&l);
                let off = off as usize;
                o.data[off..off + n as usize].fill(*c as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + n as usize].fill(0);
                }
            }
            v => {
                let w = match v {
                    Val::S(e) => self.x.w(*e),
                    _ => 8,
                };
                let e = self.e(v, w);
                let b = self.x.ext(e, 0, 8);
                for i in 0..n as usize {
                    st.mem.obj_mut(&l).set_sym(off as usize + i, b);
                }
            }
        }
        Ok(d)
    }

    fn memcmp(&mut self, st: &mut State, vals: &[Val], only_eq: bool) -> R<Val> {
        let n = self.conc(st, &vals[2])?;
        if n == 0 {
            return Ok(Val::C(0));
        }
        let a = self.conc(st, &vals[0])?;
        let b = self.conc(st, &vals[1])?;
        let (la, oa) = self.locate(st, a, n, false)?;
        let (lb, ob) = self.locate(st, b, n, false)?;
        let one = self.x.cst(32, 1);
        let zero = self.x.cst(32, 0);
        let neg = self.x.cst(32, 0xffff_ffff);
        let mut acc = zero;
        if only_eq {
            let mut all = Ex::T;
            for i in 0..n {
                let x = self.byte(st, &la, oa + i);
                let y = self.byte(st, &lb, ob + i);
                let q = self.x.eq(x, y);
                all = self.x.and(all, q);
                if all == Ex::F {
                    break;
                }
            }
            let r = self.x.ite(all, zero, one);
            return Ok(self.v(r));
        }
        for i in (0..n).rev() {
            let x = self.byte(st, &la, oa + i);
            let y = self.byte(st, &lb, ob + i);
            let q = self.x.eq(x, y);
            let l = self.x.cmp(CmpOp::Ult, x, y);
            let d = self.x.ite(l, neg, one);
            acc = self.x.ite(q, acc, d);
        }
        Ok(self.v(acc))
    }

    fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        // a concrete C string (symbolic bytes are enumerated)
        let mut out = vec![];
        for i in 0..4096 {
            let (l, off) = self.locate(st, a + i, 1, false)?;
            let b = self.byte(st, &l, off);
            let v = self.v(b);
            let c = self.conc(st, &v)? as u8;
            if c == 0 {
                return Ok(out);
            }
            out.push(c);
        }
        unsup!("long C string")
    }

    fn errno(&mut self, st: &mut State, e: u64) -> R<ExtRet> {
        let a = self.errno_addr(st);
        let l = st.mem.find(a).unwrap();
        st.mem.obj_mut(&l).set_c(0, e, 4);
        ok(u64::MAX)
    }
    pub fn errno_addr(&mut self, st: &mut State) -> u64 {
        let cur = st.cur;
        if st.threads[cur].errno < 4096 {
            st.threads[cur].errno = st.mem.alloc_heap(8);
        }
        st.threads[cur].errno
    }

    fn reg_bytes(&mut self, st: &mut State, p: u64, n: u64, name: &str) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (l, off) = self.locate(st, p, n, true)?;
        let lo = st.nsyms;
        st.nsyms += n as u32;
        st.labels.push((Rc::from(name), lo, n as u32));
        let mut m = (*st.model).clone();
        m.resize(st.nsyms as usize, 0);
        st.model = Rc::new(m);
        for i in 0..n as u32 {
            let e = self.x.sym(8, lo + i);
            st.mem.obj_mut(&l).set_sym((off + i as u64) as usize, e);
        }
        Ok(())
    }

    fn name_arg(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let p = self.conc(st, p)?;
        let n = self.conc(st, n)?;
        Ok(self.peek_str(st, p, n).unwrap_or_else(|| "?".into()))
    }

    fn bool_arg(&mut self, v: &Val, w: u16) -> E {
        let e = self.e(v, w);
        self.x.ext(e, 0, 1)
    }

    pub fn external(&mut self, st: &mut State, name: &Rc<str>, vals: &[Val], args: &[(Ty, crate::ir::Op)], ret: &Ty) -> R<ExtRet> {
        let n: &str = name;
        if let Some(i) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, i, vals, args, ret);
        }
        if let Some(i) = n.strip_prefix("__vs_") {
            return self.harness(st, i, vals, args);
        }
        if n.starts_with("_ZN4core9panicking") || n.starts_with("_ZN3std9panicking") || n == "rust_begin_unwind" || n == "rust_panic" {
            let d = crate::demangle(n);
            let msg = match vals.first() {
                Some(Val::C(a)) if n.contains("9panic_fmt") || n.contains("18panic_nounwind_fmt") => self.fmt_args(st, *a),
                Some(Val::C(a)) if n.starts_with("_ZN4core9panicking5panic17h") => match vals.get(1) {
                    Some(Val::C(l)) => self.peek_str(st, *a, *l).unwrap_or_default(),
                    _ => String::new(),
                },
                _ => String::new(),
            };
            return Err(self.panic_stop(st, &format!("{d}: {msg}")));
        }
        if n.starts_with("_ZN5alloc5alloc18handle_alloc_error") || n == "__rust_alloc_error_handler" || n == "rust_oom" {
            if st.big_alloc_ok {
                return Err(Stop::PanicOk);
            }
            let bt = self.backtrace(st);
            let at = bt.iter().find(|l| l.contains("/repo/") || l.contains("/mirror/")).cloned().unwrap_or_default();
            self.violation(&st.clone(), "allocation", &format!("an allocation beyond the limit of {} bytes at {at}", self.cfg.max_alloc));
            return Err(Stop::Violated);
        }
        if n.starts_with("_ZN") && summarized(n) {
            return self.summary(st, n, vals);
        }
        let r = self.libc(st, n, vals, args, ret)?;
        Ok(match (r, ret) {
            (ExtRet::Val(Val::C(v)), Ty::I(w)) if *w < 64 => ExtRet::Val(Val::C(v & ((1 << *w) - 1))),
            (r, _) => r,
        })
    }

    fn has_sym(&self, st: &State, a: u64, n: u64) -> bool {
        n > 0 && self.peek(st, a, n).is_none()
    }

    fn summary(&mut self, st: &mut State, n: &str, vals: &[Val]) -> R<ExtRet> {
        let real = *self.m.fn_by_name.get(n).unwrap();
        if n.contains("slice6memchr") {
            let a = self.conc(st, &vals[1])?;
            let k = self.conc(st, &vals[2])?;
            let c = self.e(&vals[0], 8);
            if !self.has_sym(st, a, k) && self.x.as_const(c).is_some() {
                self.push_frame(st, real, vals.to_vec());
                return Ok(ExtRet::Again);
            }
            *self.stubs.entry("core::slice::memchr".into()).or_insert(0) += 1;
            let (l, off) = self.locate(st, a, k, false)?;
            for j in 0..k {
                let i = if n.contains("memrchr") { k - 1 - j } else { j };
                let b = self.byte(st, &l, off + i);
                let q = self.x.eq(b, c);
                if self.branch(st, q)? {
                    return Ok(ExtRet::Val(Val::A(Rc::new(vec![Val::C(1), Val::C(i)]))));
                }
            }
            return Ok(ExtRet::Val(Val::A(Rc::new(vec![Val::C(0), Val::C(0)]))));
        }
        if n.contains("6memchr4arch") {
            let needles = if n.contains("memchr2_raw") {
                2
            } else if n.contains("memchr3_raw") {
                3
            } else {
                1
            };
            let a = self.conc(st, &vals[needles])?;
            let end = self.conc(st, &vals[needles + 1])?;
            let k = end.saturating_sub(a);
            *self.stubs.entry("memchr::memchr_raw".into()).or_insert(0) += 1;
            if k > 0 {
                let (l, off) = self.locate(st, a, k, false)?;
                for j in 0..k {
                    let i = if n.contains("memrchr") { k - 1 - j } else { j };
                    let b = self.byte(st, &l, off + i);
                    let mut q = Ex::F;
                    for v in &vals[..needles] {
                        let c = self.e(v, 8);
                        let t = self.x.eq(b, c);
                        q = self.x.or(q, t);
                    }
                    if self.branch(st, q)? {
                        return Ok(ExtRet::Val(Val::A(Rc::new(vec![Val::C(1), Val::C(a + i)]))));
                    }
                }
            }
            return Ok(ExtRet::Val(Val::A(Rc::new(vec![Val::C(0), Val::C(0)]))));
        }
        if n.contains("fmt..Debug") {
            let a = self.conc(st, &vals[0])?;
            let k = if n.contains("$LT$char") { 4 } else { self.conc(st, &vals[1])? };
            if self.cfg.real_debug || !self.has_sym(st, a, k) {
                self.push_frame(st, real, vals.to_vec());
                return Ok(ExtRet::Again);
            }
            // the text of a Debug rendering of symbolic data is left out
            *self.stubs.entry("core::fmt::Debug of symbolic text (rendered empty)".into()).or_insert(0) += 1;
            return ok(0);
        }
        // core::str::from_utf8(out, ptr, len)
        let a = self.conc(st, &vals[1])?;
        let k = self.conc(st, &vals[2])?;
        if !self.has_sym(st, a, k) {
            self.push_frame(st, real, vals.to_vec());
            return Ok(ExtRet::Again);
        }
        *self.stubs.entry("core::str::from_utf8".into()).or_insert(0) += 1;
        let out = self.conc(st, &vals[0])?;
        let (l, off) = self.locate(st, a, k, false)?;
        let bs: Vec<E> = (0..k).map(|i| self.byte(st, &l, off + i)).collect();
        // from the end: is the suffix valid, where does it fail, error_len (0: none)
        let k = k as usize;
        let mut valid = vec![Ex::T; k + 5];
        let end = self.x.cst(64, k as u128);
        let z8 = self.x.cst(8, 0);
        let mut upto = vec![end; k + 5];
        let mut elen = vec![z8; k + 5];
        for i in (0..k).rev() {
            let b0 = bs[i];
            let rng = |me: &mut Self, b: E, lo: u128, hi: u128| -> E {
                let l = me.x.cst(8, lo);
                let h = me.x.cst(8, hi);
                let p = me.x.cmp(CmpOp::Ule, l, b);
                let q = me.x.cmp(CmpOp::Ule, b, h);
                me.x.and(p, q)
            };
            let here = self.x.cst(64, i as u128);
            // classes: (first lo, first hi, second lo, second hi, length)
            let classes: [(u128, u128, u128, u128, usize); 9] = [
                (0x00, 0x7f, 0, 0, 1),
                (0xc2, 0xdf, 0x80, 0xbf, 2),
                (0xe0, 0xe0, 0xa0, 0xbf, 3),
                (0xe1, 0xec, 0x80, 0xbf, 3),
                (0xed, 0xed, 0x80, 0x9f, 3),
                (0xee, 0xef, 0x80, 0xbf, 3),
                (0xf0, 0xf0, 0x90, 0xbf, 4),
                (0xf1, 0xf3, 0x80, 0xbf, 4),
                (0xf4, 0xf4, 0x80, 0x8f, 4),
            ];
            let one = self.x.cst(8, 1);
            let mut v = Ex::F;
            let mut u = here;
            let mut el = one; // an invalid first byte
            for (lo, hi, slo, shi, len) in classes {
                let c = rng(self, b0, lo, hi);
                if c == Ex::F {
                    continue;
                }
                // continuation bytes, the last first
                let (mut cv, mut cu, mut ce) = (valid[i + len], upto[i + len], elen[i + len]);
                if i + len > k {
                    cv = Ex::F;
                    cu = here;
                    ce = z8;
                }
                for j in (1..len).rev() {
                    if i + j >= k {
                        cv = Ex::F;
                        cu = here;
                        ce = z8;
                        continue;
                    }
                    let good = if j == 1 { rng(self, bs[i + 1], slo, shi) } else { rng(self, bs[i + j], 0x80, 0xbf) };
                    let bad_len = self.x.cst(8, j as u128);
                    cv = self.x.and(good, cv);
                    cu = self.x.ite(good, cu, here);
                    ce = self.x.ite(good, ce, bad_len);
                }
                v = self.x.ite(c, cv, v);
                u = self.x.ite(c, cu, u);
                el = self.x.ite(c, ce, el);
            }
            valid[i] = v;
            upto[i] = u;
            elen[i] = el;
        }
        if self.branch(st, valid[0])? {
            self.store(st, &Val::C(out), &Ty::I(64), &Val::C(0))?;
            self.store(st, &Val::C(out + 8), &Ty::I(64), &Val::C(a))?;
            self.store(st, &Val::C(out + 16), &Ty::I(64), &Val::C(k as u64))?;
        } else {
            self.store(st, &Val::C(out), &Ty::I(64), &Val::C(1))?;
            let u = self.v(upto[0]);
            self.store(st, &Val::C(out + 8), &Ty::I(64), &u)?;
            let z = self.x.eq(elen[0], z8);
            let nz = self.x.not(z);
            let some = self.x.zext(nz, 8);
            let (some, el) = (self.v(some), self.v(elen[0]));
            self.store(st, &Val::C(out + 16), &Ty::I(8), &some)?;
            self.store(st, &Val::C(out + 17), &Ty::I(8), &el)?;
        }
        Ok(ExtRet::Void)
    }

    fn harness(&mut self, st: &mut State, n: &str, vals: &[Val], args: &[(Ty, crate::ir::Op)]) -> R<ExtRet> {
        match n {
            "bytes" => {
                let p = self.conc(st, &vals[0])?;
                let k = self.conc(st, &vals[1])?;
                let nm = self.name_arg(st, &vals[2], &vals[3])?;
                self.reg_bytes(st, p, k, &nm)?;
                Ok(ExtRet::Void)
            }
            "assume" => {
                let c = self.bool_arg(&vals[0], Self::arg_w(args, 0));
                self.assume(st, c)?;
                Ok(ExtRet::Void)
            }
            "assert" => {
                let c = self.bool_arg(&vals[0], Self::arg_w(args, 0));
                let l = self.name_arg(st, &vals[1], &vals[2])?;
                self.assert(st, c, &l, "")?;
                Ok(ExtRet::Void)
            }
            "cover" => {
                let l = self.name_arg(st, &vals[0], &vals[1])?;
                st.trace.push(Rc::from(&*l));
                *self.covers.entry(l).or_insert(0) += 1;
                Ok(ExtRet::Void)
            }
            "note" => {
                let l = self.name_arg(st, &vals[0], &vals[1])?;
                st.notes.push(l);
                Ok(ExtRet::Void)
            }
            "note_u64" => {
                let l = self.name_arg(st, &vals[0], &vals[1])?;
                let v = match &vals[2] {
                    Val::C(c) => format!("{c}"),
                    Val::S(e) => format!("sym {} = {}", self.x.show(*e, 6), self.x.eval(*e, &st.model)),
                    _ => "?".into(),
                };
                if self.cfg.verbose {
                    eprintln!("note {l}: {v}");
                }
                st.notes.push(format!("{l}: {v}"));
                Ok(ExtRet::Void)
            }
            "panic_ok" => {
                st.panic_ok = matches!(vals[0], Val::C(v) if v & 1 == 1);
                Ok(ExtRet::Void)
            }
            "big_alloc_ok" => {
                st.big_alloc_ok = matches!(vals[0], Val::C(v) if v & 1 == 1);
                Ok(ExtRet::Void)
            }
            "concretize" => {
                let v = self.conc(st, &vals[0])?;
                ok(v)
            }
            "end" => Err(Stop::Infeasible),
            // explores every interleaving choice at this point
            "yield" => {
                self.preempt(st)?;
                Ok(ExtRet::Void)
            }
            "symbolic" => ok(1),
            _ => unsup!("harness function {n}"),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, vals: &[Val], args: &[(Ty, crate::ir::Op)], ret: &Ty) -> R<ExtRet> {
        let base = n.split('.').next().unwrap();
        match base {
            "lifetime" | "assume" | "dbg" | "invariant" | "prefetch" | "donothing" | "va_end" | "va_start" => return Ok(ExtRet::Void),
            "memcpy" | "memmove" => {
                self.memcpy(st, &vals[0], &vals[1], &vals[2])?;
                return Ok(ExtRet::Void);
            }
            "memset" => {
                self.memset(st, &vals[0], &vals[1], &vals[2])?;
                return Ok(ExtRet::Void);
            }
            "umin" | "umax" | "smin" | "smax" => {
                let (lt, mx) = (if base.starts_with('u') { CmpOp::Ult } else { CmpOp::Slt }, base.ends_with("max"));
                let r = self.lanes(ret, vals, &mut |x, _, e| {
                    let c = x.cmp(lt, e[0], e[1]);
                    if mx {
                        x.ite(c, e[1], e[0])
                    } else {
                        x.ite(c, e[0], e[1])
                    }
                });
                return Ok(ExtRet::Val(r));
            }
            "abs" => {
                let r = self.lanes(ret, &vals[..1], &mut |x, w, e| {
                    let z = x.cst(w, 0);
                    let c = x.cmp(CmpOp::Slt, e[0], z);
                    let neg = x.bin(BinOp::Sub, z, e[0]);
                    x.ite(c, neg, e[0])
                });
                return Ok(ExtRet::Val(r));
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &base[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let signed = base.starts_with('s');
                let sat = n[base.len()..].starts_with(".sat");
                let sty = if sat { ret.clone() } else { ret.elem(0) };
                let mut ov: E = Ex::F;
                let r = self.lanes(&sty, vals, &mut |x, w, e| {
                    let r = x.bin(op, e[0], e[1]);
                    let o = Self::overflow(x, op, signed, w, e[0], e[1], r);
                    ov = o;
                    if sat {
                        let lim = if signed {
                            let z = x.cst(w, 0);
                            let neg = x.cmp(CmpOp::Slt, e[0], z);
                            let lo = x.cst(w, 1u128 << (w - 1));
                            let hi = x.cst(w, (1u128 << (w - 1)) - 1);
                            x.ite(neg, lo, hi)
                        } else if op == BinOp::Sub {
                            x.cst(w, 0)
                        } else {
                            x.cst(w, mask(w))
                        };
                        x.ite(o, lim, r)
                    } else {
                        r
                    }
                });
                if sat {
                    return Ok(ExtRet::Val(r));
                }
                let o = self.v(ov);
                return Ok(ExtRet::Val(Val::A(Rc::new(vec![r, o]))));
            }
            "ctlz" | "cttz" | "ctpop" => {
                let k = base;
                let r = self.lanes(ret, &vals[..1], &mut |x, w, e| {
                    if let Some(c) = x.as_const(e[0]) {
                        let v = match k {
                            "ctpop" => c.count_ones(),
                            "ctlz" => c.leading_zeros() - (128 - w as u32),
                            _ => c.trailing_zeros().min(w as u32),
                        };
                        return x.cst(w, v as u128);
                    }
                    match k {
                        "ctpop" => {
                            let mut acc = x.cst(w, 0);
                            for i in 0..w {
                                let b = x.ext(e[0], i, 1);
                                let b = if w > 1 { x.zext(b, w) } else { b };
                                acc = x.bin(BinOp::Add, acc, b);
                            }
                            acc
                        }
                        "ctlz" => {
                            let mut acc = x.cst(w, w as u128);
                            for i in 0..w {
                                let b = x.ext(e[0], i, 1);
                                let v = x.cst(w, (w - 1 - i) as u128);
                                acc = x.ite(b, v, acc);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = x.cst(w, w as u128);
                            for i in (0..w).rev() {
                                let b = x.ext(e[0], i, 1);
                                let v = x.cst(w, i as u128);
                                acc = x.ite(b, v, acc);
                            }
                            acc
                        }
                    }
                });
                return Ok(ExtRet::Val(r));
            }
            "bswap" => {
                let r = self.lanes(ret, vals, &mut |x, w, e| {
                    let mut acc: Option<E> = None;
                    for i in 0..w / 8 {
                        let b = x.ext(e[0], i * 8, 8);
                        acc = Some(match acc {
                            None => b,
                            Some(a) => x.cat(a, b),
                        });
                    }
                    acc.unwrap()
                });
                return Ok(ExtRet::Val(r));
            }
            "bitreverse" => {
                let r = self.lanes(ret, vals, &mut |x, w, e| {
                    let mut acc: Option<E> = None;
                    for i in 0..w {
                        let b = x.ext(e[0], i, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(a) => x.cat(a, b),
                        });
                    }
                    acc.unwrap()
                });
                return Ok(ExtRet::Val(r));
            }
            "fshl" | "fshr" => {
                let left = base == "fshl";
                let r = self.lanes(ret, vals, &mut |x, w, e| {
                    if e[0] == Ex::HASH && e[1] == Ex::HASH {
                        return Ex::HASH;
                    }
                    let ww = x.cst(w, w as u128);
                    let s = x.bin(BinOp::URem, e[2], ww);
                    let inv = x.bin(BinOp::Sub, ww, s);
                    if left {
                        let a = x.bin(BinOp::Shl, e[0], s);
                        let b = x.bin(BinOp::LShr, e[1], inv);
                        x.bin(BinOp::Or, a, b)
                    } else {
                        let b = x.bin(BinOp::LShr, e[1], s);
                        let a = x.bin(BinOp::Shl, e[0], inv);
                        x.bin(BinOp::Or, a, b)
                    }
                });
                return Ok(ExtRet::Val(r));
            }
            "expect" | "ssa" | "launder" | "strip" => return Ok(ExtRet::Val(vals[0].clone())),
            "is" => return ok(0), // is.constant
            "objectsize" => return ok(if matches!(vals[1], Val::C(1)) { 0 } else { u64::MAX }),
            "threadlocal" => {
                let a = self.conc(st, &vals[0])?;
                return ok(a);
            }
            "load" => {
                // load.relative(base, offset)
                let b = self.conc(st, &vals[0])?;
                let o = &vals[1];
                let w = Self::arg_w(args, 1);
                let off = match o {
                    Val::C(c) => Val::C(b.wrapping_add(sext128(*c as u128, w) as u64)),
                    Val::S(e) => {
                        let e64 = if w < 64 { self.x.sext(*e, 64) } else { *e };
                        let k = self.x.cst(64, b as u128);
                        let r = self.x.bin(BinOp::Add, e64, k);
                        self.v(r)
                    }
                    _ => unsup!("load.relative"),
                };
                // enumerate the targets: pointers are concrete
                let a = self.conc(st, &off)?;
                let v = self.load(st, &Val::C(a), &Ty::I(32))?;
                let v = self.conc(st, &v)?;
                return ok(b.wrapping_add(v as u32 as i32 as i64 as u64));
            }
            "ptrmask" => {
                let a = self.e(&vals[0], 64);
                let b = self.e(&vals[1], 64);
                let r = self.x.bin(BinOp::And, a, b);
                return Ok(ExtRet::Val(self.v(r)));
            }
            "trap" | "ubsantrap" => {
                return Err(self.panic_stop(st, "trap"));
            }
            "x86" => {
                if n == "x86.sse2.pause" {
                    return Ok(ExtRet::Void);
                }
                if n == "x86.xgetbv" {
                    return ok(0);
                }
                if n == "x86.sse2.pmovmskb.128" {
                    let Val::A(x) = &vals[0] else { unsup!("{n}") };
                    let mut acc = self.x.cst(32, 0);
                    for (i, v) in x.iter().enumerate() {
                        let e = self.e(v, 8);
                        let b = self.x.ext(e, 7, 1);
                        let b = self.x.zext(b, 32);
                        let k = self.x.cst(32, i as u128);
                        let b = self.x.bin(BinOp::Shl, b, k);
                        acc = self.x.bin(BinOp::Or, acc, b);
                    }
                    return Ok(ExtRet::Val(self.v(acc)));
                }
            }
            "vector" => {
                if let Some(r) = n.strip_prefix("vector.reduce.") {
                    let op = r.split('.').next().unwrap();
                    let Val::A(x) = &vals[0] else { unsup!("{n}") };
                    let w = args[0].0.elem(0).w();
                    let mut acc = self.e(&x[0], w);
                    for v in x.iter().skip(1) {
                        let e = self.e(v, w);
                        acc = match op {
                            "add" => self.x.bin(BinOp::Add, acc, e),
                            "mul" => self.x.bin(BinOp::Mul, acc, e),
                            "and" => self.x.bin(BinOp::And, acc, e),
                            "or" => self.x.bin(BinOp::Or, acc, e),
                            "xor" => self.x.bin(BinOp::Xor, acc, e),
                            "umax" | "umin" | "smax" | "smin" => {
                                let c = self.x.cmp(if op.starts_with('u') { CmpOp::Ult } else { CmpOp::Slt }, acc, e);
                                if op.ends_with("max") {
                                    self.x.ite(c, e, acc)
                                } else {
                                    self.x.ite(c, acc, e)
                                }
                            }
                            _ => unsup!("{n}"),
                        };
                    }
                    return Ok(ExtRet::Val(self.v(acc)));
                }
            }
            "fabs" | "floor" | "ceil" | "trunc" | "sqrt" | "round" | "copysign" => {
                let f = |v: &Val| match v {
                    Val::C(c) if *ret == Ty::F64 => Some(f64::from_bits(*c)),
                    Val::C(c) if *ret == Ty::F32 => Some(f32::from_bits(*c as u32) as f64),
                    _ => None,
                };
                if base == "fabs" && !ret.is_agg() {
                    let w = ret.w();
                    let e = self.e(&vals[0], w);
                    let m = self.x.cst(w, mask(w - 1));
                    let r = self.x.bin(BinOp::And, e, m);
                    return Ok(ExtRet::Val(self.v(r)));
                }
                if let Some(a) = f(&vals[0]) {
                    let r = match base {
                        "floor" => a.floor(),
                        "ceil" => a.ceil(),
                        "trunc" => a.trunc(),
                        "sqrt" => a.sqrt(),
                        "round" => a.round(),
                        "copysign" => match f(&vals[1]) {
                            Some(b) => a.copysign(b),
                            None => unsup!("{n}"),
                        },
                        _ => unsup!("{n}"),
                    };
                    return ok(if *ret == Ty::F64 { r.to_bits() } else { (r as f32).to_bits() as u64 });
                }
            }
            "experimental" => {
                if n.starts_with("experimental.noalias") {
                    return Ok(ExtRet::Void);
                }
            }
            "ucmp" | "scmp" => {
                let signed = base == "scmp";
                let sw = Self::arg_w(args, 0);
                let a = self.e(&vals[0], sw);
                let b = self.e(&vals[1], sw);
                let lt = self.x.cmp(if signed { CmpOp::Slt } else { CmpOp::Ult }, a, b);
                let eq = self.x.eq(a, b);
                let w = ret.w();
                let (m1, z, p1) = (self.x.cst(w, mask(w)), self.x.cst(w, 0), self.x.cst(w, 1));
                let t = self.x.ite(eq, z, p1);
                let r = self.x.ite(lt, m1, t);
                return Ok(ExtRet::Val(self.v(r)));
            }
            _ => {}
        }
        unsup!("intrinsic llvm.{n}")
    }

    fn overflow(x: &mut Ex, op: BinOp, signed: bool, w: u16, a: E, b: E, r: E) -> E {
        match (op, signed) {
            (BinOp::Add, false) => {
                let (_, ah) = x.rng(a);
                let (_, bh) = x.rng(b);
                if let Some(s) = ah.checked_add(bh) {
                    if s <= mask(w) {
                        return Ex::F;
                    }
                }
                x.cmp(CmpOp::Ult, r, a)
            }
            (BinOp::Sub, false) => x.cmp(CmpOp::Ult, a, b),
            (BinOp::Mul, false) => {
                let (_, ah) = x.rng(a);
                let (_, bh) = x.rng(b);
                if let Some(s) = ah.checked_mul(bh) {
                    if s <= mask(w) {
                        return Ex::F;
                    }
                }
                if let Some(k) = x.as_const(b) {
                    if k == 0 {
                        return Ex::F;
                    }
                    let lim = x.cst(w, mask(w) / k);
                    return x.cmp(CmpOp::Ult, lim, a);
                }
                if let Some(k) = x.as_const(a) {
                    if k == 0 {
                        return Ex::F;
                    }
                    let lim = x.cst(w, mask(w) / k);
                    return x.cmp(CmpOp::Ult, lim, b);
                }
                if w <= 64 {
                    let ea = x.zext(a, 2 * w);
                    let eb = x.zext(b, 2 * w);
                    let p = x.bin(BinOp::Mul, ea, eb);
                    let h = x.ext(p, w, w);
                    let z = x.cst(w, 0);
                    let q = x.eq(h, z);
                    return x.not(q);
                }
                // b != 0 && r / b != a
                let z = x.cst(w, 0);
                let bz = x.eq(b, z);
                let q = x.bin(BinOp::UDiv, r, b);
                let e = x.eq(q, a);
                let t = x.or(bz, e);
                x.not(t)
            }
            (BinOp::Add, true) | (BinOp::Sub, true) => {
                let (ea, eb) = if w < 128 { (x.sext(a, w + 1), x.sext(b, w + 1)) } else { (a, b) };
                if w < 128 {
                    let s = x.bin(op, ea, eb);
                    let rs = x.sext(r, w + 1);
                    let q = x.eq(s, rs);
                    x.not(q)
                } else {
                    let z = x.cst(w, 0);
                    let sa = x.cmp(CmpOp::Slt, a, z);
                    let sb = x.cmp(CmpOp::Slt, b, z);
                    let sr = x.cmp(CmpOp::Slt, r, z);
                    let same = x.eq(sa, sb);
                    let cond = if op == BinOp::Add { same } else { x.not(same) };
                    let q = x.eq(sa, sr);
                    let d = x.not(q);
                    x.and(cond, d)
                }
            }
            (_, true) => {
                if w <= 64 {
                    let ea = x.sext(a, 2 * w);
                    let eb = x.sext(b, 2 * w);
                    let p = x.bin(BinOp::Mul, ea, eb);
                    let rs = x.sext(r, 2 * w);
                    let q = x.eq(p, rs);
                    return x.not(q);
                }
                // constants only
                match (x.as_const(a), x.as_const(b)) {
                    (Some(p), Some(q)) => {
                        if (p as i128).checked_mul(q as i128).is_none() {
                            Ex::T
                        } else {
                            Ex::F
                        }
                    }
                    _ => panic!("i128 signed multiplication overflow"),
                }
            }
            _ => unreachable!(),
        }
    }

    fn futex(&mut self, st: &mut State, vals: &[Val]) -> R<ExtRet> {
        let a = self.conc(st, &vals[1])?;
        let op = self.conc(st, &vals[2])? & 0x7f;
        match op {
            0 | 9 => {
                let want = self.conc(st, &vals[3])? as u32;
                let v = self.load(st, &Val::C(a), &Ty::I(32))?;
                let v = self.conc(st, &v)? as u32;
                if v != want {
                    return self.errno(st, 11);
                }
                let timeout = self.conc(st, &vals[4])?;
                let cur = st.cur;
                st.threads[cur].stat = TStat::Futex(a);
                st.threads[cur].timed = timeout != 0;
                Ok(ExtRet::Blocked)
            }
            1 | 10 => {
                let mut k = self.conc(st, &vals[3])? as u32 as u64;
                if k > 0x7fff_ffff {
                    k = 0x7fff_ffff;
                }
                let mut woken = 0;
                for t in 0..st.threads.len() {
                    if woken >= k {
                        break;
                    }
                    if st.threads[t].stat == TStat::Futex(a) {
                        self.wake(st, t, false)?;
                        woken += 1;
                    }
                }
                ok(woken)
            }
            _ => unsup!("futex op {op}"),
        }
    }

    fn libc(&mut self, st: &mut State, n: &str, vals: &[Val], args: &[(Ty, crate::ir::Op)], ret: &Ty) -> R<ExtRet> {
        let _ = (args, ret);
        match n {
            "malloc" => {
                let a = self.alloc(st, &vals[0], false)?;
                ok(a)
            }
            "calloc" => {
                let (x, y) = (self.e(&vals[0], 64), self.e(&vals[1], 64));
                let p = self.x.bin(BinOp::Mul, x, y);
                let p = self.v(p);
                let a = self.alloc(st, &p, true)?;
                ok(a)
            }
            "realloc" => {
                let old = self.conc(st, &vals[0])?;
                let a = self.alloc(st, &vals[1], false)?;
                if a != 0 && old != 0 {
                    let (so, sn) = (st.mem.find(old).map(|l| l.size).unwrap_or(0), st.mem.find(a).unwrap().size);
                    let k = so.min(sn);
                    if k > 0 {
                        self.copy_mem(st, a, old, k);
                    }
                    self.free(st, old)?;
                }
                ok(a)
            }
            "posix_memalign" => {
                let a = self.alloc(st, &vals[2], false)?;
                if a == 0 {
                    return ok(12);
                }
                self.store(st, &vals[0], &Ty::Ptr, &Val::C(a))?;
                ok(0)
            }
            "aligned_alloc" => {
                let a = self.alloc(st, &vals[1], false)?;
                ok(a)
            }
            "free" => {
                let a = self.conc(st, &vals[0])?;
                self.free(st, a)?;
                Ok(ExtRet::Void)
            }
            "memcmp" => Ok(ExtRet::Val(self.memcmp(st, vals, false)?)),
            "bcmp" => Ok(ExtRet::Val(self.memcmp(st, vals, true)?)),
            "memcpy" | "memmove" => {
                let r = self.memcpy(st, &vals[0], &vals[1], &vals[2])?;
                ok(r)
            }
            "memset" => {
                let r = self.memset(st, &vals[0], &vals[1], &vals[2])?;
                ok(r)
            }
            "strlen" => {
                let a = self.conc(st, &vals[0])?;
                for i in 0..100_000u64 {
                    let (l, off) = self.locate(st, a + i, 1, false)?;
                    let b = self.byte(st, &l, off);
                    let z = self.x.cst(8, 0);
                    let q = self.x.eq(b, z);
                    if self.branch(st, q)? {
                        return ok(i);
                    }
                }
                unsup!("strlen")
            }
            "memchr" | "memrchr" => {
                let a = self.conc(st, &vals[0])?;
                let k = self.conc(st, &vals[2])?;
                let c = self.e(&vals[1], 32);
                let c = self.x.ext(c, 0, 8);
                if k == 0 {
                    return ok(0);
                }
                let (l, off) = self.locate(st, a, k, false)?;
                for j in 0..k {
                    let i = if n == "memchr" { j } else { k - 1 - j };
                    let b = self.byte(st, &l, off + i);
                    let q = self.x.eq(b, c);
                    if self.branch(st, q)? {
                        return ok(a + i);
                    }
                }
                ok(0)
            }
            "abort" => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                self.violation(&st.clone(), "panic", "abort");
                Err(Stop::Violated)
            }
            "exit" | "_exit" => Err(Stop::Done),
            "__errno_location" => {
                let a = self.errno_addr(st);
                ok(a)
            }
            "getenv" | "secure_getenv" => ok(0),
            "syscall" => {
                let k = self.conc(st, &vals[0])?;
                match k {
                    202 => self.futex(st, vals),
                    318 => {
                        // getrandom: a fixed seed
                        let p = self.conc(st, &vals[1])?;
                        let c = self.conc(st, &vals[2])?;
                        if c > 0 {
                            let (l, off) = self.locate(st, p, c, true)?;
                            for i in 0..c {
                                st.mem.obj_mut(&l).set_c((off + i) as usize, (0x5a ^ (i * 37)) & 0xff, 1);
                            }
                        }
                        ok(c)
                    }
                    186 => ok(1000 + st.cur as u64),
                    _ => unsup!("syscall {k}"),
                }
            }
            "getrandom" => {
                let p = self.conc(st, &vals[0])?;
                let c = self.conc(st, &vals[1])?;
                if c > 0 {
                    let (l, off) = self.locate(st, p, c, true)?;
                    for i in 0..c {
                        st.mem.obj_mut(&l).set_c((off + i) as usize, (0x5a ^ (i * 37)) & 0xff, 1);
                    }
                }
                ok(c)
            }
            "write" => {
                let fd = self.conc(st, &vals[0])?;
                if fd == 1 || fd == 2 {
                    let c = self.conc(st, &vals[2])?;
                    return ok(c);
                }
                unsup!("write to fd {fd}")
            }
            "writev" => {
                let fd = self.conc(st, &vals[0])?;
                if fd == 1 || fd == 2 {
                    let p = self.conc(st, &vals[1])?;
                    let c = self.conc(st, &vals[2])?;
                    let mut t = 0;
                    for i in 0..c {
                        let l = self.load(st, &Val::C(p + 16 * i + 8), &Ty::I(64))?;
                        t += self.conc(st, &l)?;
                    }
                    return ok(t);
                }
                unsup!("writev to fd {fd}")
            }
            "read" => {
                let fd = self.conc(st, &vals[0])?;
                if fd == 0 {
                    return ok(0);
                }
                unsup!("read from fd {fd}")
            }
            "sched_yield" => {
                let cur = st.cur;
                let others: Vec<usize> = (0..st.threads.len()).filter(|&t| t != cur && st.threads[t].stat == TStat::Run).collect();
                if others.is_empty() {
                    return ok(0);
                }
                // complete the call, then switch
                let (dst, _) = {
                    let fr = st.threads[cur].frames.last().unwrap();
                    let ins = &fr.f.blocks[fr.b as usize].ins[fr.ip as usize];
                    (ins.dst, 0)
                };
                self.set(st, dst, Val::C(0));
                self.advance(st)?;
                for &t in others.iter().skip(1) {
                    let mut o = st.clone();
                    o.cur = t;
                    o.sched.push(t as u32);
                    o.forks += 1;
                    self.total_forks += 1;
                    self.work.push(o);
                }
                st.cur = others[0];
                st.sched.push(others[0] as u32);
                Ok(ExtRet::Again)
            }
            "clock_gettime" => {
                st.clock += 1_000_000;
                let (s, ns) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                let p = self.conc(st, &vals[1])?;
                self.store(st, &Val::C(p), &Ty::I(64), &Val::C(s))?;
                self.store(st, &Val::C(p + 8), &Ty::I(64), &Val::C(ns))?;
                ok(0)
            }
            "nanosleep" | "clock_nanosleep" => ok(0),
            "sysconf" => {
                let k = self.conc(st, &vals[0])?;
                ok(match k {
                    30 => 4096,
                    83 | 84 => 4,
                    _ => u64::MAX,
                })
            }
            "getauxval" => ok(0),
            "getpagesize" => ok(4096),
            "dlsym" => ok(0),
            "sched_getaffinity" => self.errno(st, 22),
            // without a file system there are no files
            "open64" | "open" | "stat64" | "lstat64" => self.errno(st, 2),
            "gettid" | "getpid" => ok(1000),
            "getuid" | "geteuid" => ok(0),
            "prctl" | "pthread_setname_np" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_detach"
            | "sigaction" | "signal" | "sigaltstack" | "sigemptyset" | "sigaddset" | "pthread_sigmask" | "dl_iterate_phdr" | "munmap" | "mprotect" | "madvise" => ok(0),
            "pthread_attr_setguardsize" => ok(0),
            "pthread_self" => ok(st.cur as u64 + 1),
            "pthread_key_create" => {
                let k = st.next_key;
                st.next_key += 1;
                self.store(st, &vals[0], &Ty::I(32), &Val::C(k))?;
                ok(0)
            }
            "pthread_key_delete" => ok(0),
            "pthread_setspecific" => {
                let k = self.conc(st, &vals[0])?;
                let v = self.conc(st, &vals[1])?;
                let cur = st.cur as u64;
                st.keys.insert(cur << 32 | k, v);
                ok(0)
            }
            "pthread_getspecific" => {
                let k = self.conc(st, &vals[0])?;
                let cur = st.cur as u64;
                ok(st.keys.get(&(cur << 32 | k)).copied().unwrap_or(0))
            }
            "pthread_create" => {
                let f = self.conc(st, &vals[2])?;
                let a = vals[3].clone();
                let Some(id) = self.fn_of(f) else { unsup!("thread entry") };
                if st.threads.len() >= 8 {
                    return Err(Stop::Limit("threads".into()));
                }
                let t = self.new_thread(st, id, vec![a]);
                self.store(st, &vals[0], &Ty::I(64), &Val::C(t as u64 + 1))?;
                ok(0)
            }
            "pthread_join" => {
                let t = self.conc(st, &vals[0])? - 1;
                if st.threads[t as usize].stat == TStat::Done {
                    let p = self.conc(st, &vals[1])?;
                    if p != 0 {
                        let r = st.threads[t as usize].ret;
                        self.store(st, &Val::C(p), &Ty::I(64), &Val::C(r))?;
                    }
                    return ok(0);
                }
                let cur = st.cur;
                st.threads[cur].stat = TStat::Join(t as u32);
                Ok(ExtRet::Blocked)
            }
            "__cxa_thread_atexit_impl" => {
                let f = self.conc(st, &vals[0])?;
                let a = self.conc(st, &vals[1])?;
                let cur = st.cur;
                st.threads[cur].dtors.push((f, a));
                ok(0)
            }
            "getcwd" => {
                // a fixed directory
                let p = self.conc(st, &vals[0])?;
                let c = self.conc(st, &vals[1])?;
                let s = b"/cwd\0";
                if c < s.len() as u64 {
                    self.errno(st, 34)?;
                    return ok(0);
                }
                let (l, off) = self.locate(st, p, s.len() as u64, true)?;
                for (i, b) in s.iter().enumerate() {
                    st.mem.obj_mut(&l).set_c(off as usize + i, *b as u64, 1);
                }
                ok(p)
            }
            "__xpg_strerror_r" => {
                let p = self.conc(st, &vals[1])?;
                let s = b"E\0";
                let (l, off) = self.locate(st, p, 2, true)?;
                for (i, b) in s.iter().enumerate() {
                    st.mem.obj_mut(&l).set_c(off as usize + i, *b as u64, 1);
                }
                ok(0)
            }
            "gnu_get_libc_version" => ok(0),
            _ => {
                let _ = Self::cstr;
                *self.stubs.entry(n.to_string()).or_insert(0) += 1;
                unsup!("external function {n}")
            }
        }
    }
}
