//! SMT back end: bit-vector queries are discharged by Z3 (C API).

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type Z = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvnot(c: Z, a: Z) -> Z;
    fn Z3_mk_implies(c: Z, a: Z, b: Z) -> Z;
    fn Z3_solver_check_assumptions(c: Z, s: Z, n: c_uint, a: *const Z) -> c_int;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_: Z, code: c_int) {
    eprintln!("vsx: z3 error {code}");
    std::process::abort();
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Debug)]
pub enum Res {
    /// Values of the symbols of the queried slice.
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub domain: u64,
    pub confirmed: u64,
    pub model_hits: u64,
    pub time_s: f64,
    pub max_query_s: f64,
}

pub struct Solver {
    cx: Z,
    s: Z,
    plain: Z,
    asts: Vec<Z>, // per expr id
    cache: HashMap<Vec<E>, Res, FxB>,
    truth: HashMap<E, [u64; 4], FxB>,
    tables: HashMap<E, Rc<Vec<u64>>, FxB>,
    lits: HashMap<E, Z, FxB>,
    recent: Vec<Rc<Vec<(u32, u64)>>>,
    scratch: Vec<u64>,
    pub stats: Stats,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let cx = Z3_mk_context(cfg);
            Z3_set_error_handler(cx, Some(on_error));
            let logic = std::env::var("VS_LOGIC").unwrap_or("simple".into());
            let l = CString::new(logic.as_str()).unwrap();
            let s = if logic == "simple" { Z3_mk_simple_solver(cx) } else { Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, l.as_ptr())) };
            Z3_solver_inc_ref(cx, s);
            let me = Solver {
                cx,
                s,
                plain: std::ptr::null_mut(),
                asts: vec![],
                cache: Default::default(),
                truth: Default::default(),
                tables: Default::default(),
                lits: Default::default(),
                recent: vec![],
                scratch: vec![],
                stats: Default::default(),
                timeout_ms,
            };
            me.set_rlimit(s, 3_000_000);
            me
        }
    }

    fn set_rlimit(&self, s: Z, n: u32) {
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), n);
            Z3_solver_set_params(self.cx, s, p);
        }
    }

    fn set_timeout(&self, s: Z, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), ms);
            Z3_solver_set_params(self.cx, s, p);
        }
    }

    fn keep(&mut self, e: E, z: Z) -> Z {
        
        self.asts[e as usize] = z;
        z
    }

    unsafe fn num(&self, w: u16, v: u128) -> Z {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.cx, s.as_ptr(), Z3_mk_bv_sort(self.cx, w as c_uint))
    }

    fn tr(&mut self, x: &Ex, e: E) -> Z {
        if self.asts.len() < x.nodes.len() {
            self.asts.resize(x.nodes.len(), std::ptr::null_mut());
        }
        if !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let mut st = vec![(e, false)];
        while let Some((n, done)) = st.pop() {
            if !self.asts[n as usize].is_null() {
                continue;
            }
            let node = x.node(n);
            if !done {
                st.push((n, true));
                let mut p = |k: E| {
                    if self.asts[k as usize].is_null() {
                        st.push((k, false))
                    }
                };
                match node {
                    Node::Const(..) | Node::Sym(..) | Node::Hash => {}
                    Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Cat(a, b) => {
                        p(a);
                        p(b)
                    }
                    Node::Not(a) | Node::Ext(a, _, _) | Node::ZExt(a, _) | Node::SExt(a, _) => p(a),
                    Node::Ite(a, b, c) => {
                        p(a);
                        p(b);
                        p(c)
                    }
                }
                continue;
            }
            let g = |k: E| self.asts[k as usize];
            let c = self.cx;
            let w = x.w(n);
            let z = unsafe {
                // a one-bit expression is represented by a Bool
                let bv = |k: E| -> Z {
                    let a = self.asts[k as usize];
                    if x.w(k) == 1 {
                        Z3_mk_ite(c, a, self.num(1, 1), self.num(1, 0))
                    } else {
                        a
                    }
                };
                match node {
                    Node::Const(w, v) => {
                        if w == 1 {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            self.num(w, v)
                        }
                    }
                    Node::Hash => self.num(64, 0),
                    Node::Sym(w, id) => {
                        let s = Z3_mk_int_symbol(c, id as c_int);
                        let t = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                        Z3_mk_const(c, s, t)
                    }
                    Node::Bin(op, a, b) => {
                        let (za, zb) = (g(a), g(b));
                        if w == 1 {
                            let arr = [za, zb];
                            match op {
                                BinOp::And => Z3_mk_and(c, 2, arr.as_ptr()),
                                BinOp::Or => Z3_mk_or(c, 2, arr.as_ptr()),
                                BinOp::Xor => Z3_mk_xor(c, za, zb),
                                _ => {
                                    // shifts and divisions on one bit
                                    let (za, zb) = (bv(a), bv(b));
                                    let r = Self::bvop(c, op, za, zb);
                                    Z3_mk_eq(c, r, self.num(1, 1))
                                }
                            }
                        } else {
                            Self::bvop(c, op, za, zb)
                        }
                    }
                    Node::Cmp(op, a, b) => match op {
                        CmpOp::Eq => Z3_mk_eq(c, g(a), g(b)),
                        CmpOp::Ult => Z3_mk_bvult(c, bv(a), bv(b)),
                        CmpOp::Ule => Z3_mk_bvule(c, bv(a), bv(b)),
                        CmpOp::Slt => Z3_mk_bvslt(c, bv(a), bv(b)),
                        CmpOp::Sle => Z3_mk_bvsle(c, bv(a), bv(b)),
                    },
                    Node::Not(a) => {
                        if w == 1 {
                            Z3_mk_not(c, g(a))
                        } else {
                            Z3_mk_bvnot(c, g(a))
                        }
                    }
                    Node::Ite(k, a, b) => Z3_mk_ite(c, g(k), g(a), g(b)),
                    Node::Ext(a, lo, w) => {
                        let r = Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, bv(a));
                        if w == 1 {
                            Z3_mk_eq(c, r, self.num(1, 1))
                        } else {
                            r
                        }
                    }
                    Node::Cat(a, b) => Z3_mk_concat(c, bv(a), bv(b)),
                    Node::ZExt(a, w) => {
                        if x.w(a) == 1 {
                            Z3_mk_ite(c, g(a), self.num(w, 1), self.num(w, 0))
                        } else {
                            Z3_mk_zero_ext(c, (w - x.w(a)) as c_uint, g(a))
                        }
                    }
                    Node::SExt(a, w) => Z3_mk_sign_ext(c, (w - x.w(a)) as c_uint, bv(a)),
                }
            };
            self.keep(n, z);
        }
        self.asts[e as usize]
    }

    unsafe fn bvop(c: Z, op: BinOp, a: Z, b: Z) -> Z {
        match op {
            BinOp::Add => Z3_mk_bvadd(c, a, b),
            BinOp::Sub => Z3_mk_bvsub(c, a, b),
            BinOp::Mul => Z3_mk_bvmul(c, a, b),
            BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
            BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
            BinOp::URem => Z3_mk_bvurem(c, a, b),
            BinOp::SRem => Z3_mk_bvsrem(c, a, b),
            BinOp::Shl => Z3_mk_bvshl(c, a, b),
            BinOp::LShr => Z3_mk_bvlshr(c, a, b),
            BinOp::AShr => Z3_mk_bvashr(c, a, b),
            BinOp::And => Z3_mk_bvand(c, a, b),
            BinOp::Or => Z3_mk_bvor(c, a, b),
            BinOp::Xor => Z3_mk_bvxor(c, a, b),
        }
    }

    /// Constraints of `pc` relevant to `q` (transitively sharing symbols).
    pub fn slice(x: &mut Ex, pc: &[E], q: E) -> (Vec<E>, Vec<u32>) {
        let mut syms: Vec<u32> = x.symset(q).to_vec();
        let mut inset: std::collections::HashSet<u32, FxB> = syms.iter().copied().collect();
        let mut taken = vec![false; pc.len()];
        let mut out = vec![q];
        let sets: Vec<Rc<[u32]>> = pc.iter().map(|&c| x.symset(c)).collect();
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if taken[i] {
                    continue;
                }
                if sets[i].iter().any(|s| inset.contains(s)) {
                    taken[i] = true;
                    changed = true;
                    out.push(pc[i]);
                    for &s in sets[i].iter() {
                        if inset.insert(s) {
                            syms.push(s);
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        (out, syms)
    }

    /// The values of its only symbol (a byte) that satisfy a condition.
    pub fn truth(&mut self, x: &mut Ex, e: E, s: u32) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let mut m = vec![0u64; s as usize + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            m[s as usize] = v as u64;
            if x.eval(e, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.truth.insert(e, t);
        t
    }

    /// The value of an expression for each value of its only symbol.
    pub fn table(&mut self, x: &mut Ex, e: E, s: u32) -> Option<Rc<Vec<u64>>> {
        if x.sym_width(s) != 8 {
            return None;
        }
        if let Some(t) = self.tables.get(&e) {
            return Some(t.clone());
        }
        let mut m = vec![0u64; s as usize + 1];
        let mut t = Vec::with_capacity(256);
        for v in 0..256u64 {
            m[s as usize] = v;
            t.push(x.eval(e, &m) as u64);
        }
        if self.tables.len() > 20_000 {
            self.tables.clear();
        }
        let t = Rc::new(t);
        self.tables.insert(e, t.clone());
        Some(t)
    }

    /// Finite-domain propagation for a condition over one byte: exact when
    /// every constraint on that byte is over it alone; otherwise it can only
    /// refute.
    fn domain(&mut self, x: &mut Ex, pc: &[E], q: E) -> Option<Res> {
        let ss = x.symset(q);
        if ss.len() != 1 || x.sym_width(ss[0]) != 8 {
            return None;
        }
        let s = ss[0];
        let mut d = self.truth(x, q, s);
        let mut exact = true;
        for &c in pc {
            let cs = x.symset(c);
            if cs.binary_search(&s).is_err() {
                continue;
            }
            if cs.len() == 1 {
                let t = self.truth(x, c, s);
                for i in 0..4 {
                    d[i] &= t[i];
                }
            } else {
                exact = false;
            }
        }
        if d == [0; 4] {
            return Some(Res::Unsat);
        }
        if !exact {
            return None;
        }
        let i = (0..4).find(|&i| d[i] != 0).unwrap();
        Some(Res::Sat(Rc::new(vec![(s, (i * 64) as u64 + d[i].trailing_zeros() as u64)])))
    }

    /// A feasibility question (not an assertion): propagation first.
    pub fn feasible(&mut self, x: &mut Ex, pc: &[E], q: E) -> Res {
        if let Some(r) = self.domain(x, pc, q) {
            self.stats.domain += 1;
            if self.stats.domain <= 400 || self.stats.domain % 32 == 0 {
                self.confirm(x, pc, q, &r);
            }
            return r;
        }
        self.check(x, pc, q)
    }

    /// Asks the solver what propagation decided: the constraints as they are.
    fn confirm(&mut self, x: &mut Ex, pc: &[E], q: E, was: &Res) {
        let (cs, _) = Self::slice(x, pc, q);
        let t0 = Instant::now();
        let zs: Vec<Z> = cs.iter().map(|&e| self.tr(x, e)).collect();
        let r = unsafe {
            if self.plain.is_null() {
                self.plain = Z3_mk_simple_solver(self.cx);
                Z3_solver_inc_ref(self.cx, self.plain);
                self.set_rlimit(self.plain, 3_000_000);
            }
            Z3_solver_push(self.cx, self.plain);
            for z in zs {
                Z3_solver_assert(self.cx, self.plain, z);
            }
            let r = Z3_solver_check(self.cx, self.plain);
            Z3_solver_pop(self.cx, self.plain, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.confirmed += 1;
        self.stats.time_s += dt;
        self.stats.max_query_s = self.stats.max_query_s.max(dt);
        match (r, was) {
            (0, _) => self.stats.unknown += 1,
            (1, Res::Sat(_)) => self.stats.sat += 1,
            (-1, Res::Unsat) => self.stats.unsat += 1,
            _ => panic!("propagation and the solver disagree on {}", x.show(q, 7)),
        }
    }

    /// Is `pc ∧ q` satisfiable, given that `pc` is?
    pub fn check(&mut self, x: &mut Ex, pc: &[E], q: E) -> Res {
        if q == Ex::F {
            return Res::Unsat;
        }
        if q == Ex::T {
            return Res::Sat(Rc::new(vec![]));
        }
        let (cs, syms) = Self::slice(x, pc, q);
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        // a remembered assignment may already satisfy the slice
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            for &(s, v) in m.iter() {
                if self.scratch.len() <= s as usize {
                    self.scratch.resize(s as usize + 1, 0);
                }
                self.scratch[s as usize] = v;
            }
            x.begin_eval();
            let good = cs.iter().all(|&c| x.eval_in(c, &self.scratch) == 1);
            let out = if good { Some(Rc::new(syms.iter().map(|&s| (s, self.scratch.get(s as usize).copied().unwrap_or(0))).collect::<Vec<_>>())) } else { None };
            for &(s, _) in m.iter() {
                self.scratch[s as usize] = 0;
            }
            if let Some(o) = out {
                self.stats.model_hits += 1;
                let r = Res::Sat(o);
                self.cache.insert(cs, r.clone());
                return r;
            }
        }
        let t0 = Instant::now();
        let r = self.solve(x, &cs, &syms);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time_s += dt;
        if dt > 0.02 && std::env::var_os("VS_SLOW").is_some() {
            eprintln!("slow {dt:.3} {} constraints, syms {:?}, {:?}: {}", cs.len(), syms, matches!(r, Res::Unsat), x.show(q, 7));
        }
        if dt > self.stats.max_query_s {
            self.stats.max_query_s = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                if self.recent.len() >= 24 {
                    self.recent.remove(0);
                }
                self.recent.push(m.clone());
            }
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(cs, r.clone());
        r
    }

    /// A constraint over one byte is sent as the set of bytes that satisfy it.
    fn constraint(&mut self, x: &mut Ex, e: E) -> Z {
        let ss = x.symset(e);
        if ss.len() != 1 || x.sym_width(ss[0]) != 8 {
            return self.tr(x, e);
        }
        let t = self.truth(x, e, ss[0]);
        let has = |v: usize| t[v / 64] >> (v % 64) & 1 == 1;
        let sym = x.sym(8, ss[0]);
        let mut acc = Ex::F;
        let mut i = 0;
        while i < 256 {
            if !has(i) {
                i += 1;
                continue;
            }
            let mut j = i;
            while j + 1 < 256 && has(j + 1) {
                j += 1;
            }
            let (lo, hi) = (x.cst(8, i as u128), x.cst(8, j as u128));
            let c1 = x.cmp(CmpOp::Ule, lo, sym);
            let c2 = x.cmp(CmpOp::Ule, sym, hi);
            let c = x.and(c1, c2);
            acc = x.or(acc, c);
            i = j + 1;
        }
        self.tr(x, acc)
    }

    fn solve(&mut self, x: &mut Ex, cs: &[E], syms: &[u32]) -> Res {
        if self.lits.len() > 4000 {
            // a fresh incremental solver
            unsafe {
                Z3_solver_dec_ref(self.cx, self.s);
                self.s = Z3_mk_simple_solver(self.cx);
                Z3_solver_inc_ref(self.cx, self.s);
            }
            self.set_rlimit(self.s, 3_000_000);
            self.lits.clear();
        }
        let mut lits: Vec<Z> = Vec::with_capacity(cs.len());
        for &e in cs {
            if let Some(l) = self.lits.get(&e) {
                lits.push(*l);
                continue;
            }
            let z = self.constraint(x, e);
            unsafe {
                let l = Z3_mk_const(self.cx, Z3_mk_int_symbol(self.cx, (1 << 29) | e as c_int), Z3_mk_bool_sort(self.cx));
                Z3_solver_assert(self.cx, self.s, Z3_mk_implies(self.cx, l, z));
                self.lits.insert(e, l);
                lits.push(l);
            }
        }
        unsafe {
            let s = self.s;
            let r = Z3_solver_check_assumptions(self.cx, s, lits.len() as c_uint, lits.as_ptr());
            if r == 1 {
                return self.model(x, s, syms);
            } else if r == -1 {
                return Res::Unsat;
            }
            let mut out = Res::Unknown;
            let zs: Vec<Z> = cs.iter().map(|&e| self.tr(x, e)).collect();
            let l = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(self.cx, Z3_mk_string_symbol(self.cx, l.as_ptr()));
            Z3_solver_inc_ref(self.cx, s2);
            self.set_timeout(s2, self.timeout_ms);
            for z in &zs {
                Z3_solver_assert(self.cx, s2, *z);
            }
            let r = Z3_solver_check(self.cx, s2);
            if r == 1 {
                out = self.model(x, s2, syms);
            } else if r == -1 {
                out = Res::Unsat;
            }
            Z3_solver_dec_ref(self.cx, s2);
            out
        }
    }

    unsafe fn model(&mut self, x: &mut Ex, s: Z, syms: &[u32]) -> Res {
        let m = Z3_solver_get_model(self.cx, s);
        Z3_model_inc_ref(self.cx, m);
        let mut v = vec![];
        for &id in syms {
            // find the width through the interned node
            let w = x.sym_width(id);
            let e = x.sym(w, id);
            let z = self.tr(x, e);
            let mut o: Z = std::ptr::null_mut();
            if !Z3_model_eval(self.cx, m, z, true, &mut o) {
                continue;
            }
            let val = if w == 1 {
                (o == Z3_mk_true(self.cx)) as u64
            } else {
                let mut u = 0u64;
                Z3_get_numeral_uint64(self.cx, o, &mut u);
                u
            };
            v.push((id, val));
        }
        Z3_model_dec_ref(self.cx, m);
        Res::Sat(Rc::new(v))
    }
}
