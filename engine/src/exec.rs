//! The symbolic interpreter.

use crate::expr::*;
use crate::ir::{self, Callee, Cast, FBin, Function, Ins, Module, Op, Pred, Rmw, Ty, C, I};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Function,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_mark: u64,
    pub tls: Option<Rc<TlsMap>>,
}

pub type TlsMap = Vec<(u64, u64, u64)>;

impl Frame {
    /// The running thread's own copy of a thread-local address.
    fn tls_at(&self, a: u64) -> u64 {
        match &self.tls {
            None => a,
            Some(m) => m.iter().find(|(lo, n, _)| *lo <= a && a < lo + n).map_or(a, |(lo, _, c)| c + (a - lo)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TStat {
    Run,
    Futex(u64),
    Join(u32),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stat: TStat,
    pub ret: u64,
    pub errno: u64,
    pub detached: bool,
    /// For a timed wait that may expire.
    pub timed: bool,
    pub dtors: Vec<(u64, u64)>,
    /// Where this thread keeps each thread-local global: address and size in
    /// the main thread, address here. The main thread has none.
    pub tls: Option<Rc<TlsMap>>,
}

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub pcset: Rc<HashSet<E, FxB>>,
    /// Per symbol, the bytes its one-byte constraints leave.
    pub dom: Rc<Vec<[u64; 4]>>,
    pub model: Rc<Vec<u64>>,
    pub nsyms: u32,
    pub labels: Vec<(Rc<str>, u32, u32)>, // name, first symbol, count
    pub instrs: u64,
    pub forks: u32,
    pub panic_ok: bool,
    pub keys: BTreeMap<u64, u64>,
    pub next_key: u64,
    pub sched: Vec<u32>,
    pub preempts: u32,
    pub clock: u64,
    pub notes: Vec<String>,
    pub trace: Vec<Rc<str>>,
    pub big_alloc_ok: bool,
}

#[derive(Debug)]
pub enum Stop {
    /// The path ran to completion.
    Done,
    /// The path is infeasible (an assumption failed).
    Infeasible,
    /// The path ended in a violation already recorded.
    Violated,
    /// A panic the harness declared acceptable.
    PanicOk,
    Unsupported(String),
    Limit(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
    pub sched: Vec<u32>,
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub struct Config {
    pub max_instrs: u64,
    pub max_paths: u64,
    pub time_s: f64,
    pub max_violations: usize,
    pub preempt_bound: u32,
    pub shard: (u32, u32),
    pub shard_width: usize,
    pub verbose: bool,
    pub stop_on_violation: bool,
    pub max_alloc: u64,
    pub real_debug: bool,
}

pub struct Engine {
    pub m: Module,
    pub x: Ex,
    pub s: Solver,
    pub work: Vec<State>,
    pub cfg: Config,
    pub fcache: Vec<Option<&'static Function>>,
    pub covered: Vec<Vec<bool>>,
    pub ext_ids: Vec<u16>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_labels: BTreeMap<String, u64>,
    pub paths: BTreeMap<&'static str, u64>,
    pub problems: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, (u64, u64)>,
    pub instrs: u64,
    pub total_forks: u64,
    pub t0: Instant,
    pub gtls: Vec<bool>,
    pub max_syms: u32,
    pub stubs: BTreeMap<String, u64>,
    pub sip_loc: std::collections::HashMap<u32, bool>,
    pub split_hash: u64,
    pub split_width: u64,
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<Rc<str>>, Vec<u32>, &'static str)>,
    pub nsampled: u64,
}

macro_rules! unsup {
    ($($t:tt)*) => { return Err(Stop::Unsupported(format!($($t)*))) };
}

pub fn leak_function(m: &mut Module, id: u32) -> &'static Function {
    let f = m.function(id);
    // bodies are cached by the module for the whole run
    unsafe { &*Rc::into_raw(f) }
}

impl Engine {
    pub fn new(m: Module, cfg: Config, timeout_ms: u32) -> Engine {
        let nf = m.fns.len();
        let gtls = m.globals.iter().map(|g| g.tls).collect();
        Engine {
            m,
            x: Ex::new(),
            s: Solver::new(timeout_ms),
            work: vec![],
            cfg,
            fcache: vec![None; nf],
            covered: vec![vec![]; nf],
            ext_ids: vec![],
            covers: BTreeMap::new(),
            violations: vec![],
            viol_labels: BTreeMap::new(),
            paths: BTreeMap::new(),
            problems: BTreeMap::new(),
            asserts: BTreeMap::new(),
            instrs: 0,
            total_forks: 0,
            t0: Instant::now(),
            gtls,
            max_syms: 0,
            stubs: BTreeMap::new(),
            sip_loc: Default::default(),
            split_hash: 0,
            split_width: 0,
            samples: vec![],
            nsampled: 0,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let n = self.m.globals.len();
        let mut globals = PVec::new();
        let mut gaddrs = vec![];
        for g in 0..n {
            let data = self.m.global_init(g);
            let gl = &self.m.globals[g];
            gaddrs.push(gl.addr);
            globals.set(
                g,
                Some(Rc::new(Obj { size: gl.size, data, sym: vec![], ro: gl.ro && !gl.external })),
            );
        }
        let mut st = State {
            threads: vec![],
            cur: 0,
            mem: Mem { globals, gaddrs: Rc::new(gaddrs), heap: PVec::new(), heap_next: 1, stacks: vec![] },
            pc: vec![],
            pcset: Rc::new(Default::default()),
            dom: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nsyms: 0,
            labels: vec![],
            instrs: 0,
            forks: 0,
            panic_ok: false,
            keys: BTreeMap::new(),
            next_key: 1,
            sched: vec![],
            preempts: 0,
            clock: 1_000_000_000_000,
            notes: vec![],
            trace: vec![],
            big_alloc_ok: false,
        };
        let id = *self.m.fn_by_name.get(entry).unwrap_or_else(|| {
            eprintln!("vsx: no entry function {entry}");
            std::process::exit(3);
        });
        self.new_thread(&mut st, id, vec![]);
        st
    }

    pub fn new_thread(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> usize {
        let t = st.threads.len();
        st.mem.stacks.push((PVec::new(), 1));
        let tls = (t > 0).then(|| {
            let mut map = vec![];
            for i in 0..self.m.globals.len() {
                if !self.m.globals[i].tls {
                    continue;
                }
                let data = self.m.global_init(i);
                let a = st.mem.alloc_heap(data.len() as u64);
                let nl = st.mem.find(a).unwrap();
                st.mem.obj_mut(&nl).data.copy_from_slice(&data);
                map.push((self.m.globals[i].addr, self.m.globals[i].size.max(1), a));
            }
            Rc::new(map)
        });
        st.threads.push(Thread {
            frames: vec![],
            stat: TStat::Run,
            ret: 0,
            errno: 0,
            detached: false,
            timed: false,
            dtors: vec![],
            tls,
        });
        let cur = st.cur;
        st.cur = t;
        self.push_frame(st, f, args);
        st.cur = cur;
        t
    }

    fn func(&mut self, id: u32) -> &'static Function {
        if let Some(f) = self.fcache[id as usize] {
            return f;
        }
        let f = leak_function(&mut self.m, id);
        self.fcache[id as usize] = Some(f);
        self.covered[id as usize] = vec![false; f.blocks.len()];
        f
    }

    pub fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<Val>) {
        let f = self.func(id);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        let mark = st.mem.stacks[st.cur].1;
        for (k, (r, _, byval)) in f.params.iter().enumerate() {
            if let Some(a) = args.get(k) {
                regs[*r as usize] = a.clone();
                if let (Some(sz), Val::C(src)) = (byval, a) {
                    let na = st.mem.alloc_stack(st.cur as u32, *sz);
                    self.copy_mem(st, na, *src, *sz);
                    regs[*r as usize] = Val::C(na);
                }
            }
        }
        self.covered[id as usize][0] = true;
        let tls = st.threads[st.cur].tls.clone();
        st.threads[st.cur].frames.push(Frame { f, b: 0, ip: 0, regs, stack_mark: mark, tls });
    }

    // ------------------------------------------------------------ values

    #[inline]
    pub fn cval(c: &C) -> Val {
        match c {
            C::I(v) => Val::C(*v as u64),
            C::Agg(v) => Val::A(Rc::new(v.iter().map(Self::cval).collect())),
        }
    }
    fn cval_t(&mut self, c: &C, t: &Ty) -> Val {
        match (c, t) {
            (C::I(v), Ty::I(w)) if *w > 64 => Val::S(self.x.cst(*w, *v)),
            (C::I(v), _) => Val::C(*v as u64),
            (C::Agg(v), t) => Val::A(Rc::new(v.iter().enumerate().map(|(i, c)| self.cval_t(c, &t.elem(i as u64))).collect())),
        }
    }
    #[inline]
    fn op(&mut self, fr: &Frame, o: &Op, t: &Ty) -> Val {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::Tls(a) => Val::C(fr.tls_at(*a)),
            Op::C(C::I(v)) => match t {
                Ty::I(w) if *w > 64 => Val::S(self.x.cst(*w, *v)),
                _ => Val::C(*v as u64),
            },
            Op::C(c) => self.cval_t(c, t),
        }
    }
    #[inline]
    fn op_any(fr: &Frame, o: &Op) -> Val {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::Tls(a) => Val::C(fr.tls_at(*a)),
            Op::C(c) => Self::cval(c),
        }
    }
    #[inline]
    pub fn e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(c) => self.x.cst(w, *c as u128),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    pub fn v(&self, e: E) -> Val {
        if let Node::Const(w, c) = self.x.node(e) {
            if w <= 64 {
                return Val::C(c as u64);
            }
        }
        Val::S(e)
    }

    // ------------------------------------------------------------ path constraints

    pub fn add_pc(&mut self, st: &mut State, c: E) {
        if c == Ex::T || st.pcset.contains(&c) {
            return;
        }
        // split conjunctions
        if let Node::Bin(BinOp::And, a, b) = self.x.node(c) {
            self.add_pc(st, a);
            self.add_pc(st, b);
            return;
        }
        st.pc.push(c);
        Rc::make_mut(&mut st.pcset).insert(c);
        let ss = self.x.symset(c);
        if ss.len() == 1 && self.x.sym_width(ss[0]) == 8 {
            let t = self.s.truth(&mut self.x, c, ss[0]);
            let d = Rc::make_mut(&mut st.dom);
            let k = ss[0] as usize;
            if d.len() <= k {
                d.resize(k + 1, [!0; 4]);
            }
            for i in 0..4 {
                d[k][i] &= t[i];
            }
        }
    }

    /// The value itself, or its constant if the path's constraints on the only
    /// byte it depends on leave one.
    fn settled(&mut self, st: &State, e: E) -> E {
        let ss = self.x.symset(e);
        if ss.len() != 1 {
            return e;
        }
        let s = ss[0];
        let Some(d) = st.dom.get(s as usize).copied() else { return e };
        if d == [!0; 4] {
            return e;
        }
        let w = self.x.w(e);
        if w > 64 {
            return e;
        }
        let Some(t) = self.s.table(&mut self.x, e, s) else { return e };
        let mut k = None;
        for i in 0..256 {
            if d[i / 64] >> (i % 64) & 1 == 1 {
                match k {
                    None => k = Some(t[i]),
                    Some(v) if v == t[i] => {}
                    _ => return e,
                }
            }
        }
        match k {
            Some(v) => self.x.cst(w, v as u128),
            None => e,
        }
    }

    /// Settles two symbolic operands that depend on different inputs.
    fn settle2(&mut self, st: &State, a: &mut Val, b: &mut Val) {
        let (ea, eb) = match (&*a, &*b) {
            (Val::S(x), Val::S(y)) => (*x, *y),
            _ => return,
        };
        let (sa, sb) = (self.x.symset(ea), self.x.symset(eb));
        if sa == sb {
            return;
        }
        if sa.len() == 1 {
            let n = self.settled(st, ea);
            if n != ea {
                *a = self.v(n);
            }
        }
        if sb.len() == 1 {
            let n = self.settled(st, eb);
            if n != eb {
                *b = self.v(n);
            }
        }
    }

    fn with_model(base: &Rc<Vec<u64>>, nsyms: u32, upd: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut m = (**base).clone();
        m.resize(nsyms as usize, 0);
        for (i, v) in upd {
            if (*i as usize) < m.len() {
                m[*i as usize] = *v;
            }
        }
        Rc::new(m)
    }

    pub fn fork_state(&mut self, st: &State, c: E, upd: &[(u32, u64)]) {
        let mut o = st.clone();
        o.forks += 1;
        o.model = Self::with_model(&st.model, st.nsyms, upd);
        self.add_pc(&mut o, c);
        self.total_forks += 1;
        self.work.push(o);
    }

    /// Decides a condition; forks when both outcomes are feasible.
    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if c == Ex::T {
            return Ok(true);
        }
        if c == Ex::F {
            return Ok(false);
        }
        if st.pcset.contains(&c) {
            return Ok(true);
        }
        let nc = self.x.not(c);
        if st.pcset.contains(&nc) {
            return Ok(false);
        }
        let mv = self.x.eval(c, &st.model) == 1;
        let (taken, other) = if mv { (c, nc) } else { (nc, c) };
        match self.s.feasible(&mut self.x, &st.pc, other) {
            Res::Unsat => {
                // implied: remember it
                self.add_pc(st, taken);
                Ok(mv)
            }
            Res::Sat(m) => {
                self.fork_state(st, other, &m);
                self.add_pc(st, taken);
                Ok(mv)
            }
            Res::Unknown => Err(Stop::Limit("solver timeout".into())),
        }
    }

    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if c == Ex::T {
            return Ok(());
        }
        if c == Ex::F {
            return Err(Stop::Infeasible);
        }
        if self.x.eval(c, &st.model) == 1 {
            self.add_pc(st, c);
            return Ok(());
        }
        match self.s.feasible(&mut self.x, &st.pc, c) {
            Res::Unsat => Err(Stop::Infeasible),
            Res::Sat(m) => {
                st.model = Self::with_model(&st.model, st.nsyms, &m);
                self.add_pc(st, c);
                Ok(())
            }
            Res::Unknown => Err(Stop::Limit("solver timeout".into())),
        }
    }

    pub fn assert(&mut self, st: &mut State, c: E, label: &str, detail: &str) -> R<()> {
        let a = self.asserts.entry(label.to_string()).or_insert((0, 0));
        a.0 += 1;
        if c == Ex::T {
            return Ok(());
        }
        let nc = self.x.not(c);
        let r = if self.x.eval(c, &st.model) == 0 {
            Some(st.model.clone())
        } else {
            self.asserts.get_mut(label).unwrap().1 += 1;
            match self.s.check(&mut self.x, &st.pc, nc) {
                Res::Unsat => None,
                Res::Sat(m) => Some(Self::with_model(&st.model, st.nsyms, &m)),
                Res::Unknown => return Err(Stop::Limit("solver timeout".into())),
            }
        };
        if let Some(m) = r {
            let mut s2 = st.clone();
            s2.model = m;
            self.violation(&s2, label, detail);
            // go on with the inputs for which the assertion holds
            return match self.assume(st, c) {
                Err(Stop::Infeasible) => Err(Stop::Violated),
                o => o,
            };
        }
        Ok(())
    }

    pub fn violation(&mut self, st: &State, label: &str, detail: &str) {
        let n = self.viol_labels.entry(label.to_string()).or_insert(0);
        *n += 1;
        if *n > 8 || self.violations.len() >= self.cfg.max_violations {
            return;
        }
        let inputs = self.inputs(st);
        let stack = self.backtrace(st);
        self.violations.push(Violation {
            label: label.to_string(),
            detail: detail.to_string(),
            inputs,
            stack,
            sched: st.sched.clone(),
            notes: st.notes.clone(),
        });
    }

    pub fn inputs(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.labels
            .iter()
            .map(|(n, lo, k)| (n.to_string(), (*lo..*lo + *k).map(|i| st.model.get(i as usize).copied().unwrap_or(0) as u8).collect()))
            .collect()
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.threads[st.cur].frames.iter().rev() {
            let ins = fr.f.blocks[fr.b as usize].ins.get(fr.ip as usize);
            let dbg = ins.map(|i| i.dbg).unwrap_or(0);
            let ch = self.m.loc_chain(dbg);
            if ch.is_empty() {
                out.push(crate::demangle(&fr.f.name));
            }
            for (f, l, n) in ch {
                out.push(format!("{} ({}:{})", crate::demangle(&n), f, l));
            }
            if out.len() > 40 {
                break;
            }
        }
        out
    }

    /// Turns a value into a constant, forking over every feasible value.
    pub fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => unsup!("concretize aggregate"),
            Val::S(e) => {
                let w = self.x.w(*e);
                if w > 64 {
                    unsup!("concretize wide value");
                }
                let n = self.settled(st, *e);
                if let Some(c) = self.x.as_const(n) {
                    return Ok(c as u64);
                }
                let val = self.x.eval(*e, &st.model);
                let k = self.x.cst(w, val);
                let c = self.x.eq(*e, k);
                if self.branch(st, c)? {
                    Ok(val as u64)
                } else {
                    // cannot happen: the model satisfies c
                    unsup!("concretize: inconsistent model")
                }
            }
        }
    }

    // ------------------------------------------------------------ memory

    fn mem_error(&mut self, st: &mut State, what: &str, a: u64, n: u64) -> Stop {
        let d = format!("{what} at {a:#x} size {n}");
        self.violation(&st.clone(), "memory-safety", &d);
        Stop::Violated
    }

    pub fn read_bytes_e(&mut self, st: &State, l: &Loc, off: u64, n: u64) -> E {
        // little endian: byte 0 is the lowest
        let o = st.mem.obj(l);
        let mut acc: Option<E> = None;
        for i in 0..n as usize {
            let k = off as usize + i;
            let b = if !o.sym.is_empty() && o.sym[k] != 0 { o.sym[k] } else { self.x.cst(8, o.data[k] as u128) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.x.cat(b, a),
            });
        }
        acc.unwrap()
    }

    fn load_scalar(&mut self, st: &State, l: &Loc, off: u64, w: u16) -> Val {
        let n = (w as u64 + 7) / 8;
        let o = st.mem.obj(l);
        if n <= 8 && o.concrete(off as usize, n as usize) {
            let mut b = [0u8; 8];
            b[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
            let v = u64::from_le_bytes(b);
            return Val::C(if w < 64 { v & ((1u64 << w) - 1) } else { v });
        }
        let e = self.read_bytes_e(st, l, off, n);
        let e = if n * 8 > w as u64 { self.x.ext(e, 0, w) } else { e };
        self.v(e)
    }

    fn load_ty(&mut self, st: &State, l: &Loc, off: u64, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) if et.bits() % 8 != 0 => {
                // packed bits
                let total = (n * et.bits()) as u16;
                let v = self.load_scalar(st, l, off, total);
                let e = self.e(&v, total);
                let b = et.bits() as u16;
                Val::A(Rc::new(
                    (0..*n)
                        .map(|i| {
                            let x = self.x.ext(e, i as u16 * b, b);
                            self.v(x)
                        })
                        .collect(),
                ))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.count();
                Val::A(Rc::new((0..n).map(|i| self.load_ty(st, l, off + t.field_off(i), &t.elem(i))).collect()))
            }
            _ => self.load_scalar(st, l, off, t.w()),
        }
    }

    fn store_scalar(&mut self, st: &mut State, l: &Loc, off: u64, w: u16, v: &Val) {
        let n = ((w as u64 + 7) / 8) as usize;
        match v {
            Val::C(c) if n <= 8 => {
                st.mem.obj_mut(l).set_c(off as usize, *c, n);
            }
            v => {
                let e = self.e(v, w);
                let e = if n * 8 > w as usize { self.x.zext(e, (n * 8) as u16) } else { e };
                for i in 0..n {
                    let b = self.x.ext(e, (8 * i) as u16, 8);
                    let k = self.x.as_const(b);
                    let o = st.mem.obj_mut(l);
                    match k {
                        Some(c) => o.set_c(off as usize + i, c as u64, 1),
                        None => o.set_sym(off as usize + i, b),
                    }
                }
            }
        }
    }

    pub fn store_ty(&mut self, st: &mut State, l: &Loc, off: u64, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Vec(n, et), Val::A(vs)) if et.bits() % 8 != 0 => {
                let b = et.bits() as u16;
                let mut acc: Option<E> = None;
                for i in 0..*n as usize {
                    let x = self.e(&vs[i], b);
                    acc = Some(match acc {
                        None => x,
                        Some(a) => self.x.cat(x, a),
                    });
                }
                let e = acc.unwrap();
                let v = self.v(e);
                let w = (*n as u16) * b;
                self.store_scalar(st, l, off, w, &v)
            }
            (t, Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let et = t.elem(i as u64);
                    self.store_ty(st, l, off + t.field_off(i as u64), &et, x);
                }
            }
            (t, v) if t.is_agg() => {
                // e.g. an aggregate zero
                let _ = v;
                for i in 0..t.count() {
                    let et = t.elem(i);
                    self.store_ty(st, l, off + t.field_off(i), &et, &Val::C(0));
                }
            }
            (t, v) => self.store_scalar(st, l, off, t.w(), v),
        }
    }

    pub fn locate(&mut self, st: &mut State, a: u64, n: u64, write: bool) -> R<(Loc, u64)> {
        match st.mem.find(a) {
            Some(l) if a - l.base + n <= l.size => {
                if write && st.mem.obj(&l).ro {
                    return Err(self.mem_error(st, "write to read-only memory", a, n));
                }
                Ok((l, a - l.base))
            }
            _ => Err(self.mem_error(st, if write { "invalid write" } else { "invalid read" }, a, n)),
        }
    }

    pub fn load(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        let n = t.store_size();
        if n == 0 {
            return Ok(Val::A(Rc::new(vec![])));
        }
        let a = match p {
            Val::C(a) => *a,
            Val::S(e) => {
                if !t.is_agg() {
                    if let Some(v) = self.table_load(st, *e, t)? {
                        return Ok(v);
                    }
                    if let Some(v) = self.range_load(st, *e, t)? {
                        return Ok(v);
                    }
                }
                self.concretize(st, p)?
            }
            _ => unsup!("aggregate pointer"),
        };
        let (l, off) = self.locate(st, a, n, false)?;
        Ok(self.load_ty(st, &l, off, t))
    }

    /// A load whose address lies in a small interval: a decision tree over it.
    fn range_load(&mut self, st: &mut State, e: E, t: &Ty) -> R<Option<Val>> {
        let (mut lo, mut hi) = self.x.rng(e);
        if hi - lo > 1024 {
            return Ok(None);
        }
        let w = t.w();
        let n = t.store_size();
        let a0 = self.x.eval(e, &st.model) as u64;
        let Some(l0) = st.mem.find(a0) else { return Ok(None) };
        let (first, last) = (l0.base as u128, (l0.base + l0.size - n.min(l0.size)) as u128);
        if n > l0.size || lo < first || hi > last {
            let f = self.x.cst(64, first);
            let l = self.x.cst(64, last);
            let c1 = self.x.cmp(CmpOp::Ult, e, f);
            let c2 = self.x.cmp(CmpOp::Ult, l, e);
            let bad = self.x.or(c1, c2);
            if self.branch(st, bad)? {
                return Ok(None);
            }
            lo = lo.max(first);
            hi = hi.min(last);
        }
        let mut runs: Vec<(u128, E)> = vec![]; // (last address of the run, value)
        for a in lo..=hi {
            let v = self.load_scalar(st, &l0, a as u64 - l0.base, w);
            let v = self.e(&v, w);
            match runs.last_mut() {
                Some((h, x)) if *x == v => *h = a,
                _ => runs.push((a, v)),
            }
        }
        fn tree(x: &mut Ex, e: E, runs: &[(u128, E)]) -> E {
            if runs.len() == 1 {
                return runs[0].1;
            }
            let m = runs.len() / 2;
            let k = x.cst(64, runs[m - 1].0);
            let c = x.cmp(CmpOp::Ule, e, k);
            let a = tree(x, e, &runs[..m]);
            let b = tree(x, e, &runs[m..]);
            x.ite(c, a, b)
        }
        let r = tree(&mut self.x, e, &runs);
        Ok(Some(self.v(r)))
    }

    /// One byte at a symbolic address, without choosing the address.
    pub fn byte_at(&mut self, st: &mut State, e: E) -> R<Option<E>> {
        let t = Ty::I(8);
        if let Some(v) = self.table_load(st, e, &t)? {
            return Ok(Some(self.e(&v, 8)));
        }
        match self.range_load(st, e, &t)? {
            Some(v) => Ok(Some(self.e(&v, 8))),
            None => Ok(None),
        }
    }

    /// A load whose address depends on one input byte: an if-then-else over that byte.
    fn table_load(&mut self, st: &mut State, e: E, t: &Ty) -> R<Option<Val>> {
        let ss = self.x.symset(e);
        if ss.len() != 1 {
            return Ok(None);
        }
        let s = ss[0];
        let w = t.w();
        let n = t.store_size();
        let mut m = (*st.model).clone();
        if m.len() <= s as usize {
            m.resize(s as usize + 1, 0);
        }
        let sym = self.x.sym(8, s);
        let a0 = self.x.eval(e, &m) as u64;
        let Some(l0) = st.mem.find(a0) else { return Ok(None) };
        let mut vals: Vec<Option<E>> = Vec::with_capacity(256);
        for b in 0..256u64 {
            m[s as usize] = b;
            let a = self.x.eval(e, &m) as u64;
            if a >= l0.base && a - l0.base + n <= l0.size {
                let v = self.load_scalar(st, &l0, a - l0.base, w);
                vals.push(Some(self.e(&v, w)));
            } else {
                vals.push(None);
            }
        }
        // bytes that would leave the object must be infeasible
        if vals.iter().any(|v| v.is_none()) {
            let mut bad = Ex::F;
            let mut i = 0;
            while i < 256 {
                if vals[i].is_some() {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j + 1 < 256 && vals[j + 1].is_none() {
                    j += 1;
                }
                let lo = self.x.cst(8, i as u128);
                let hi = self.x.cst(8, j as u128);
                let c1 = self.x.cmp(CmpOp::Ule, lo, sym);
                let c2 = self.x.cmp(CmpOp::Ule, sym, hi);
                let c = self.x.and(c1, c2);
                bad = self.x.or(bad, c);
                i = j + 1;
            }
            // those inputs take the general route (another object, or an error)
            if self.branch(st, bad)? {
                return Ok(None);
            }
        }
        // runs
        let mut runs: Vec<(usize, E)> = vec![]; // (last byte of the run, value)
        for i in 0..256 {
            if let Some(v) = vals[i] {
                match runs.last_mut() {
                    Some((hi, x)) if *x == v => *hi = i,
                    _ => runs.push((i, v)),
                }
            }
        }
        let mut acc = runs.last().unwrap().1;
        for (hi, v) in runs.iter().rev().skip(1) {
            let k = self.x.cst(8, *hi as u128);
            let c = self.x.cmp(CmpOp::Ule, sym, k);
            acc = self.x.ite(c, *v, acc);
        }
        Ok(Some(self.v(acc)))
    }

    pub fn store(&mut self, st: &mut State, p: &Val, t: &Ty, v: &Val) -> R<()> {
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let a = self.concretize(st, p)?;
        let (l, off) = self.locate(st, a, n, true)?;
        self.store_ty(st, &l, off, t, v);
        Ok(())
    }

    /// Copies between (checked) ranges.
    pub fn copy_mem(&mut self, st: &mut State, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let (ls, os) = (st.mem.find(s).unwrap(), 0);
        let _ = os;
        let so = (s - ls.base) as usize;
        let n = n as usize;
        let o = st.mem.obj(&ls);
        let data = o.data[so..so + n].to_vec();
        let sym = if o.concrete(so, n) { None } else { Some(o.sym[so..so + n].to_vec()) };
        let ld = st.mem.find(d).unwrap();
        let po = (d - ld.base) as usize;
        let ob = st.mem.obj_mut(&ld);
        ob.data[po..po + n].copy_from_slice(&data);
        match sym {
            None => {
                if !ob.sym.is_empty() {
                    for x in &mut ob.sym[po..po + n] {
                        *x = 0;
                    }
                }
            }
            Some(sv) => {
                if ob.sym.is_empty() {
                    ob.sym = vec![0; ob.size as usize];
                }
                ob.sym[po..po + n].copy_from_slice(&sv);
            }
        }
    }

    /// Reads concrete bytes; symbolic ones make it fail.
    pub fn peek(&self, st: &State, a: u64, n: u64) -> Option<Vec<u8>> {
        if n == 0 {
            return Some(vec![]);
        }
        let l = st.mem.find(a)?;
        let off = a - l.base;
        if off + n > l.size {
            return None;
        }
        let o = st.mem.obj(&l);
        if !o.concrete(off as usize, n as usize) {
            return None;
        }
        Some(o.data[off as usize..(off + n) as usize].to_vec())
    }
    pub fn peek_u64(&self, st: &State, a: u64) -> Option<u64> {
        let b = self.peek(st, a, 8)?;
        Some(u64::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn peek_str(&self, st: &State, a: u64, n: u64) -> Option<String> {
        if n > 4096 {
            return None;
        }
        Some(String::from_utf8_lossy(&self.peek(st, a, n)?).into_owned())
    }
    pub fn byte(&mut self, st: &State, l: &Loc, off: u64) -> E {
        let o = st.mem.obj(l);
        let k = off as usize;
        if !o.sym.is_empty() && o.sym[k] != 0 {
            o.sym[k]
        } else {
            self.x.cst(8, o.data[k] as u128)
        }
    }

    // ------------------------------------------------------------ the loop

    pub fn run(&mut self, init: State) {
        self.work.push(init);
        if self.cfg.shard.1 > 1 {
            self.split_shards();
        }
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_s {
                *self.problems.entry("time limit: unexplored paths remain".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            let npaths: u64 = self.paths.values().sum();
            if npaths > self.cfg.max_paths {
                *self.problems.entry("path limit: unexplored paths remain".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            let s = self.exec(&mut st);
            self.finish(&st, s);
            if self.cfg.stop_on_violation && !self.violations.is_empty() {
                break;
            }
        }
    }

    fn finish(&mut self, st: &State, s: Stop) {
        self.max_syms = self.max_syms.max(st.nsyms);
        let k = match s {
            Stop::Done => "completed",
            Stop::Infeasible => "infeasible",
            Stop::Violated => "violated",
            Stop::PanicOk => "panic_ok",
            Stop::Unsupported(m) => {
                let bt = self.backtrace(st);
                let at = bt.iter().take(4).cloned().collect::<Vec<_>>().join(" < ");
                *self.problems.entry(format!("unsupported: {m} at {at}")).or_insert(0) += 1;
                "unsupported"
            }
            Stop::Limit(m) => {
                let bt = self.backtrace(st);
                let at = bt.iter().take(4).cloned().collect::<Vec<_>>().join(" < ");
                *self.problems.entry(format!("limit: {m} at {at}")).or_insert(0) += 1;
                "limit"
            }
        };
        *self.paths.entry(k).or_insert(0) += 1;
        if k == "completed" || k == "panic_ok" {
            // ever sparser samples
            self.nsampled += 1;
            let n = self.nsampled;
            if n.is_power_of_two() || (n + n / 3).is_power_of_two() || self.samples.len() < 3 {
                let i = self.inputs(st);
                self.samples.push((i, st.trace.clone(), st.sched.clone(), k));
            }
        }
        if self.cfg.verbose {
            eprintln!("path {k} forks={} instrs={} pc={} work={}", st.forks, st.instrs, st.pc.len(), self.work.len());
        }
    }

    /// Breadth-first until enough pending paths exist; keeps this shard's part.
    /// Paths that end during the split are counted by shard 0 only.
    fn split_shards(&mut self) {
        let (i, n) = self.cfg.shard;
        let want = self.cfg.shard_width.max(n as usize * 4);
        let mut queue: std::collections::VecDeque<State> = self.work.drain(..).collect();
        while queue.len() < want {
            let Some(mut st) = queue.pop_front() else { break };
            // run until this path forks or ends
            let base = self.work.len();
            let r = self.exec_until_fork(&mut st, base);
            match r {
                Some(s) => {
                    if i == 0 {
                        self.finish(&st, s);
                    } else if let Stop::Violated = s {
                    }
                }
                None => queue.push_back(st),
            }
            for o in self.work.drain(..) {
                queue.push_back(o);
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_s {
                break;
            }
        }
        if i != 0 {
            // only shard 0 reports what the common prefix found
            self.violations.clear();
            self.viol_labels.clear();
            self.asserts.clear();
            self.covers.clear();
        }
        // every shard must have split the same way: a fingerprint of the pending paths
        let mut h: u64 = 0xcbf29ce484222325;
        for st in &queue {
            for v in [st.instrs, st.forks as u64, st.pc.len() as u64, st.nsyms as u64] {
                h = (h ^ v).wrapping_mul(0x100000001b3);
            }
        }
        self.split_hash = h >> 12;
        self.split_width = queue.len() as u64;
        for (k, st) in queue.into_iter().enumerate() {
            if k as u32 % n == i {
                self.work.push(st);
            }
        }
    }

    fn exec_until_fork(&mut self, st: &mut State, base: usize) -> Option<Stop> {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return Some(s),
            }
            if self.work.len() > base {
                return None;
            }
        }
    }

    pub fn exec(&mut self, st: &mut State) -> Stop {
        loop {
            for _ in 0..4096 {
                if let Err(s) = self.step(st) {
                    return s;
                }
            }
            if st.instrs > self.cfg.max_instrs {
                return Stop::Limit(format!("{} instructions on one path", self.cfg.max_instrs));
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_s {
                return Stop::Limit("time".into());
            }
        }
    }

    pub fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        if dst != u32::MAX {
            let t = &mut st.threads[st.cur];
            let fr = t.frames.last_mut().unwrap();
            fr.regs[dst as usize] = v;
        }
    }

    pub fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let t = &mut st.threads[st.cur];
        let fr = t.frames.last_mut().unwrap();
        let from = fr.b;
        let blk = &fr.f.blocks[b as usize];
        self.covered[fr.f.id as usize][b as usize] = true;
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let p = &blk.phis[0];
                let (_, o) = p.inc.iter().find(|(k, _)| *k == from).expect("phi edge");
                let v = match o {
                    Op::Reg(r) => fr.regs[*r as usize].clone(),
                    Op::Tls(a) => Val::C(fr.tls_at(*a)),
                    Op::C(C::I(c)) if p.ty.is_agg() || !matches!(p.ty, Ty::I(w) if w > 64) => Val::C(*c as u64),
                    Op::C(c) => self.cval_t(c, &p.ty),
                };
                let fr = st.threads[st.cur].frames.last_mut().unwrap();
                fr.regs[p.dst as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(blk.phis.len());
                let fr = st.threads[st.cur].frames.last().unwrap();
                for p in &blk.phis {
                    let (_, o) = p.inc.iter().find(|(k, _)| *k == from).expect("phi edge");
                    vals.push(match o {
                        Op::Reg(r) => fr.regs[*r as usize].clone(),
                        Op::Tls(a) => Val::C(fr.tls_at(*a)),
                        Op::C(c) => self.cval_t(c, &p.ty),
                    });
                }
                let fr = st.threads[st.cur].frames.last_mut().unwrap();
                for (p, v) in blk.phis.iter().zip(vals) {
                    fr.regs[p.dst as usize] = v;
                }
            }
        }
        let fr = st.threads[st.cur].frames.last_mut().unwrap();
        fr.b = b;
        fr.ip = 0;
        Ok(())
    }

    /// Advances past the current (non-terminator or call) instruction.
    pub fn advance(&mut self, st: &mut State) -> R<()> {
        let fr = st.threads[st.cur].frames.last_mut().unwrap();
        let ins = &fr.f.blocks[fr.b as usize].ins[fr.ip as usize];
        if let I::Call { next: Some(n), .. } = &ins.i {
            return self.goto(st, *n);
        }
        fr.ip += 1;
        Ok(())
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        st.instrs += 1;
        self.instrs += 1;
        let fr: &Frame = st.threads[st.cur].frames.last().unwrap();
        // the frame lives in the state; the function is leaked
        let f: &'static Function = fr.f;
        let ins: &'static Ins = &f.blocks[fr.b as usize].ins[fr.ip as usize];
        // a raw view of the registers; nothing below resizes them while it is used
        let fr: &Frame = unsafe { &*(fr as *const Frame) };
        match &ins.i {
            I::Br(b) => return self.goto(st, *b),
            I::CondBr(c, a, b) => {
                let c = Self::op_any(fr, c);
                let t = match c {
                    Val::C(v) => v & 1 == 1,
                    Val::S(e) => self.branch(st, e)?,
                    _ => unsup!("branch on aggregate"),
                };
                return self.goto(st, if t { *a } else { *b });
            }
            I::Icmp { p, ty, a, b } => {
                let mut va = self.op(fr, a, ty);
                let mut vb = self.op(fr, b, ty);
                self.settle2(st, &mut va, &mut vb);
                let hash = |v: &Val| matches!(v, Val::S(e) if *e == Ex::HASH);
                // rayon looks for a seed whose hash is not zero
                let r = if hash(&va) && (hash(&vb) || matches!(vb, Val::C(0))) && self.m.loc_chain(ins.dbg).first().is_some_and(|l| l.0.contains("/rayon-core-")) {
                    Val::C((*p == Pred::Ne) as u64)
                } else {
                    self.icmp(*p, ty, &va, &vb)?
                };
                self.set(st, ins.dst, r);
            }
            I::Load { ty, p, .. } => {
                let p = Self::op_any(fr, p);
                let v = self.load(st, &p, ty)?;
                self.set(st, ins.dst, v);
            }
            I::Store { ty, v, p, .. } => {
                let p = Self::op_any(fr, p);
                let v = self.op(fr, v, ty);
                self.store(st, &p, ty, &v)?;
            }
            I::Gep { base, off, idx } => {
                let b = Self::op_any(fr, base);
                let mut symb: Option<E> = None;
                let mut acc = match b {
                    Val::C(c) => c,
                    Val::S(e) => {
                        symb = Some(e);
                        0
                    }
                    _ => unsup!("gep base"),
                };
                acc = acc.wrapping_add(*off as u64);
                for (o, sc, w) in idx {
                    match Self::op_any(fr, o) {
                        Val::C(c) => {
                            let s = sext128(c as u128, *w) as i64;
                            acc = acc.wrapping_add(s.wrapping_mul(*sc) as u64);
                        }
                        Val::S(e) => {
                            let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                            let k = self.x.cst(64, *sc as u64 as u128);
                            let t = self.x.bin(BinOp::Mul, e, k);
                            symb = Some(match symb {
                                None => t,
                                Some(s) => self.x.bin(BinOp::Add, s, t),
                            });
                        }
                        _ => unsup!("gep index"),
                    }
                }
                let r = match symb {
                    None => Val::C(acc),
                    Some(s) => {
                        let k = self.x.cst(64, acc as u128);
                        let e = self.x.bin(BinOp::Add, s, k);
                        self.v(e)
                    }
                };
                self.set(st, ins.dst, r);
            }
            I::VGep { n, base, off } => {
                let b = Self::op_any(fr, base);
                let add = |me: &mut Self, v: &Val| -> Val {
                    match v {
                        Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                        v => {
                            let e = me.e(v, 64);
                            let k = me.x.cst(64, *off as u64 as u128);
                            let r = me.x.bin(BinOp::Add, e, k);
                            me.v(r)
                        }
                    }
                };
                let r = match &b {
                    Val::A(vs) => Val::A(Rc::new(vs.iter().map(|v| add(self, v)).collect())),
                    v => {
                        let r = add(self, v);
                        Val::A(Rc::new(vec![r; *n as usize]))
                    }
                };
                self.set(st, ins.dst, r);
            }
            I::Bin { op, ty, a, b } => {
                let mut va = self.op(fr, a, ty);
                let mut vb = self.op(fr, b, ty);
                self.settle2(st, &mut va, &mut vb);
                let r = if *op == BinOp::Xor && (sip_key(&va) || sip_key(&vb)) && self.in_std_hasher(ins.dbg) {
                    *self.stubs.entry("std hasher (constant)".into()).or_insert(0) += 1;
                    Val::S(Ex::HASH)
                } else {
                    self.binop(*op, ty, &va, &vb)?
                };
                self.set(st, ins.dst, r);
            }
            I::Cast { k, from, to, a } => {
                let v = self.op(fr, a, from);
                let r = self.cast(*k, from, to, &v)?;
                self.set(st, ins.dst, r);
            }
            I::Select { ty, cty, c, a, b } => {
                let c = self.op(fr, c, cty);
                let va = self.op(fr, a, ty);
                let vb = self.op(fr, b, ty);
                let r = match c {
                    Val::C(k) => {
                        if k & 1 == 1 {
                            va
                        } else {
                            vb
                        }
                    }
                    Val::S(e) => {
                        if ty.is_agg() || matches!(ty, Ty::Ptr) {
                            if self.branch(st, e)? {
                                va
                            } else {
                                vb
                            }
                        } else {
                            let w = ty.w();
                            let ea = self.e(&va, w);
                            let eb = self.e(&vb, w);
                            let r = self.x.ite(e, ea, eb);
                            self.v(r)
                        }
                    }
                    Val::A(cs) => {
                        let (Val::A(xs), Val::A(ys)) = (&va, &vb) else { unsup!("vector select") };
                        let w = ty.elem(0).w();
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                Val::C(k) => {
                                    if k & 1 == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                Val::S(e) => {
                                    let ea = self.e(&xs[i], w);
                                    let eb = self.e(&ys[i], w);
                                    let r = self.x.ite(*e, ea, eb);
                                    self.v(r)
                                }
                                _ => unsup!("nested select"),
                            });
                        }
                        Val::A(Rc::new(out))
                    }
                };
                self.set(st, ins.dst, r);
            }
            I::Alloca { size, count, .. } => {
                let c = Self::op_any(fr, count);
                let c = self.concretize(st, &c)?;
                let a = st.mem.alloc_stack(st.cur as u32, size * c);
                self.set(st, ins.dst, Val::C(a));
            }
            I::Call { callee, args, ret, .. } => return self.call(st, ins, callee, args, ret),
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::op_any(fr, o));
                return self.ret(st, v);
            }
            I::Switch { w, v, def, cases } => {
                let v = Self::op_any(fr, v);
                match v {
                    Val::C(c) => {
                        let b = cases.iter().find(|(k, _)| *k as u64 == c).map(|(_, b)| *b).unwrap_or(*def);
                        return self.goto(st, b);
                    }
                    Val::S(e) => {
                        let val = self.x.eval(e, &st.model);
                        let target = cases.iter().find(|(k, _)| *k == val).map(|(_, b)| *b).unwrap_or(*def);
                        // condition under which this target is taken
                        let mut c = Ex::F;
                        for (k, b) in cases {
                            if *b == target {
                                let kc = self.x.cst(*w, *k);
                                let q = self.x.eq(e, kc);
                                c = self.x.or(c, q);
                            }
                        }
                        if target == *def {
                            let mut none = Ex::T;
                            for (k, _) in cases {
                                let kc = self.x.cst(*w, *k);
                                let q = self.x.eq(e, kc);
                                let nq = self.x.not(q);
                                none = self.x.and(none, nq);
                            }
                            c = self.x.or(c, none);
                        }
                        if self.branch(st, c)? {
                            return self.goto(st, target);
                        }
                        unsup!("switch: inconsistent model")
                    }
                    _ => unsup!("switch on aggregate"),
                }
            }
            I::Unreachable => {
                self.violation(&st.clone(), "unreachable", "reached an unreachable instruction");
                return Err(Stop::Violated);
            }
            I::ExtractV { a, idx } => {
                let mut v = Self::op_any(fr, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => Val::C(0),
                    };
                }
                self.set(st, ins.dst, v);
            }
            I::InsertV { ty, a, v, idx } => {
                let a = self.op(fr, a, ty);
                let v = Self::op_any(fr, v);
                let r = self.insert(&a, ty, &v, idx);
                self.set(st, ins.dst, r);
            }
            I::ExtractE { a, i } => {
                let v = Self::op_any(fr, a);
                let i = Self::op_any(fr, i);
                let i = self.concretize(st, &i)?;
                let Val::A(x) = v else { unsup!("extractelement") };
                self.set(st, ins.dst, x[i as usize].clone());
            }
            I::InsertE { ty, a, v, i } => {
                let a = self.op(fr, a, ty);
                let v = Self::op_any(fr, v);
                let i = Self::op_any(fr, i);
                let i = self.concretize(st, &i)?;
                let r = self.insert(&a, ty, &v, &[i as u32]);
                self.set(st, ins.dst, r);
            }
            I::Shuffle { ty, a, b, mask } => {
                let a = self.op(fr, a, ty);
                let b = self.op(fr, b, ty);
                let n = ty.count() as usize;
                let get = |v: &Val, i: usize| match v {
                    Val::A(x) => x[i].clone(),
                    _ => Val::C(0),
                };
                let r = mask.iter().map(|&m| if (m as usize) < n { get(&a, m as usize) } else if (m as usize) < 2 * n { get(&b, m as usize - n) } else { Val::C(0) }).collect();
                self.set(st, ins.dst, Val::A(Rc::new(r)));
            }
            I::Freeze { a } => {
                let v = Self::op_any(fr, a);
                self.set(st, ins.dst, v);
            }
            I::Rmw { op, ty, p, v } => {
                self.preempt(st)?;
                let p = Self::op_any(fr, p);
                let a = Val::C(self.concretize(st, &p)?);
                let v = self.op(fr, v, ty);
                let old = self.load(st, &a, ty)?;
                let w = ty.w();
                let (eo, ev) = (self.e(&old, w), self.e(&v, w));
                let r = match op {
                    Rmw::Xchg => ev,
                    Rmw::Add => self.x.bin(BinOp::Add, eo, ev),
                    Rmw::Sub => self.x.bin(BinOp::Sub, eo, ev),
                    Rmw::And => self.x.bin(BinOp::And, eo, ev),
                    Rmw::Or => self.x.bin(BinOp::Or, eo, ev),
                    Rmw::Xor => self.x.bin(BinOp::Xor, eo, ev),
                    Rmw::Nand => {
                        let t = self.x.bin(BinOp::And, eo, ev);
                        self.x.not(t)
                    }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let c = self.x.cmp(if matches!(op, Rmw::Max | Rmw::Min) { CmpOp::Slt } else { CmpOp::Ult }, eo, ev);
                        if matches!(op, Rmw::Max | Rmw::UMax) {
                            self.x.ite(c, ev, eo)
                        } else {
                            self.x.ite(c, eo, ev)
                        }
                    }
                };
                let rv = self.v(r);
                self.store(st, &a, ty, &rv)?;
                self.set(st, ins.dst, old);
            }
            I::CmpXchg { ty, p, c, v } => {
                self.preempt(st)?;
                let p = Self::op_any(fr, p);
                let a = Val::C(self.concretize(st, &p)?);
                let c = self.op(fr, c, ty);
                let v = self.op(fr, v, ty);
                let old = self.load(st, &a, ty)?;
                let w = ty.w();
                let (eo, ec) = (self.e(&old, w), self.e(&c, w));
                let q = self.x.eq(eo, ec);
                let ok = self.branch(st, q)?;
                if ok {
                    self.store(st, &a, ty, &v)?;
                }
                self.set(st, ins.dst, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            I::Fence => {}
            I::Fcmp { p, ty, a, b } => {
                let va = self.op(fr, a, ty);
                let vb = self.op(fr, b, ty);
                let r = self.fcmp(*p, ty, &va, &vb)?;
                self.set(st, ins.dst, r);
            }
            I::FBin { op, ty, a, b } => {
                let va = self.op(fr, a, ty);
                let vb = self.op(fr, b, ty);
                let (Val::C(x), Val::C(y)) = (&va, &vb) else { unsup!("symbolic floating point arithmetic") };
                let r = if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    (match op {
                        FBin::Add => x + y,
                        FBin::Sub => x - y,
                        FBin::Mul => x * y,
                        FBin::Div => x / y,
                        FBin::Rem => x % y,
                    })
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (match op {
                        FBin::Add => x + y,
                        FBin::Sub => x - y,
                        FBin::Mul => x * y,
                        FBin::Div => x / y,
                        FBin::Rem => x % y,
                    })
                    .to_bits() as u64
                };
                self.set(st, ins.dst, Val::C(r));
            }
            I::FNeg { ty, a } => {
                let v = self.op(fr, a, ty);
                let w = ty.w();
                let e = self.e(&v, w);
                let k = self.x.cst(w, 1u128 << (w - 1));
                let r = self.x.bin(BinOp::Xor, e, k);
                let r = self.v(r);
                self.set(st, ins.dst, r);
            }
            I::LandingPad => unsup!("landing pad"),
        }
        let fr = st.threads[st.cur].frames.last_mut().unwrap();
        fr.ip += 1;
        Ok(())
    }

    fn insert(&mut self, a: &Val, t: &Ty, v: &Val, idx: &[u32]) -> Val {
        let mut vs = match a {
            Val::A(x) => (**x).clone(),
            _ => (0..t.count()).map(|i| if t.elem(i).is_agg() { self.cval_zero(&t.elem(i)) } else { Val::C(0) }).collect(),
        };
        let i = idx[0] as usize;
        if idx.len() == 1 {
            vs[i] = v.clone();
        } else {
            vs[i] = self.insert(&vs[i].clone(), &t.elem(i as u64), v, &idx[1..]);
        }
        Val::A(Rc::new(vs))
    }
    fn cval_zero(&mut self, t: &Ty) -> Val {
        if t.is_agg() {
            Val::A(Rc::new((0..t.count()).map(|i| self.cval_zero(&t.elem(i))).collect()))
        } else {
            Val::C(0)
        }
    }

    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let et = ty.elem(0);
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    out.push(self.icmp(p, &et, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            (Val::C(x), Val::C(y)) => {
                let w = ty.w();
                let (sx, sy) = if w >= 64 { (*x as i64, *y as i64) } else { (((*x) << (64 - w)) as i64, ((*y) << (64 - w)) as i64) };
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                };
                Ok(Val::C(r as u64))
            }
            (a, b) => {
                if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
                    unsup!("icmp mix")
                }
                let w = ty.w();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = match p {
                    Pred::Eq => self.x.eq(x, y),
                    Pred::Ne => {
                        let t = self.x.eq(x, y);
                        self.x.not(t)
                    }
                    Pred::Ugt => self.x.cmp(CmpOp::Ult, y, x),
                    Pred::Uge => self.x.cmp(CmpOp::Ule, y, x),
                    Pred::Ult => self.x.cmp(CmpOp::Ult, x, y),
                    Pred::Ule => self.x.cmp(CmpOp::Ule, x, y),
                    Pred::Sgt => self.x.cmp(CmpOp::Slt, y, x),
                    Pred::Sge => self.x.cmp(CmpOp::Sle, y, x),
                    Pred::Slt => self.x.cmp(CmpOp::Slt, x, y),
                    Pred::Sle => self.x.cmp(CmpOp::Sle, x, y),
                };
                Ok(self.v(r))
            }
        }
    }

    /// Whether an instruction comes from std's SipHash.
    fn in_std_hasher(&mut self, dbg: u32) -> bool {
        if let Some(&b) = self.sip_loc.get(&dbg) {
            return b;
        }
        let b = self.m.loc_chain(dbg).first().is_some_and(|l| l.0.ends_with("core/src/hash/sip.rs"));
        self.sip_loc.insert(dbg, b);
        b
    }

    fn binop(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let et = ty.elem(0);
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    out.push(self.binop(op, &et, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            (Val::C(x), Val::C(y)) => {
                let w = ty.w();
                // common cases without widening
                let r = match op {
                    BinOp::Add => x.wrapping_add(*y),
                    BinOp::Sub => x.wrapping_sub(*y),
                    BinOp::Mul => x.wrapping_mul(*y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    _ => bin_const(op, w, *x as u128, *y as u128) as u64,
                };
                Ok(Val::C(if w < 64 { r & ((1u64 << w) - 1) } else { r }))
            }
            (a, b) => {
                if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
                    // undef vector operand
                    unsup!("binop mix")
                }
                let w = ty.w();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.x.bin(op, x, y);
                Ok(self.v(r))
            }
        }
    }

    fn fcmp(&mut self, p: u8, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        let f64b = |v: u64| if *ty == Ty::F64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (f64b(*x), f64b(*y));
            let uno = x.is_nan() || y.is_nan();
            let o = match p & 7 {
                0 => false,
                1 => x == y,
                2 => x > y,
                3 => x >= y,
                4 => x < y,
                5 => x <= y,
                6 => x != y,
                _ => true,
            };
            let r = if p < 8 {
                !uno && o
            } else {
                // 8 uno, 9 ueq, 10 ugt, ... 14 une, 15 true
                uno || match p {
                    8 => false,
                    15 => true,
                    _ => o,
                }
            };
            return Ok(Val::C(r as u64));
        }
        if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
            unsup!("vector fcmp");
        }
        // exact integer encoding of IEEE comparison
        let w = ty.w();
        let mbits = if w == 64 { 52 } else { 23 };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let absmask = self.x.cst(w, mask(w - 1));
        let inf = self.x.cst(w, (mask(w - 1) >> mbits) << mbits);
        let zero = self.x.cst(w, 0);
        let nan = |me: &mut Self, v: E| {
            let t = me.x.bin(BinOp::And, v, absmask);
            me.x.cmp(CmpOp::Ult, inf, t)
        };
        let (nx, ny) = (nan(self, x), nan(self, y));
        let uno = self.x.or(nx, ny);
        let ax = self.x.bin(BinOp::And, x, absmask);
        let ay = self.x.bin(BinOp::And, y, absmask);
        let both = self.x.bin(BinOp::Or, ax, ay);
        let bothzero = self.x.eq(both, zero);
        let same = self.x.eq(x, y);
        let eq = self.x.or(bothzero, same);
        // key: monotone map to unsigned
        let key = |me: &mut Self, v: E| {
            let s = me.x.ext(v, w - 1, 1);
            let top = me.x.cst(w, 1u128 << (w - 1));
            let n = me.x.not(v);
            let o = me.x.bin(BinOp::Or, v, top);
            me.x.ite(s, n, o)
        };
        let (kx, ky) = (key(self, x), key(self, y));
        let l0 = self.x.cmp(CmpOp::Ult, kx, ky);
        let neq = self.x.not(eq);
        let lt = self.x.and(l0, neq);
        let g0 = self.x.cmp(CmpOp::Ult, ky, kx);
        let gt = self.x.and(g0, neq);
        let o = match p & 7 {
            0 => Ex::F,
            1 => eq,
            2 => gt,
            3 => self.x.or(gt, eq),
            4 => lt,
            5 => self.x.or(lt, eq),
            6 => neq,
            _ => Ex::T,
        };
        let r = if p < 8 {
            let nu = self.x.not(uno);
            self.x.and(nu, o)
        } else if p == 8 {
            uno
        } else {
            self.x.or(uno, o)
        };
        Ok(self.v(r))
    }

    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if k == Cast::Bit {
            if !from.is_agg() && !to.is_agg() {
                return Ok(v.clone());
            }
            // through bits
            let total = from.bits() as u16;
            if let (Ty::Vec(n, a), Ty::Vec(m, b)) = (from, to) {
                if n == m && a.bits() == b.bits() {
                    return Ok(v.clone());
                }
            }
            if total > 128 {
                unsup!("bitcast of {total} bits");
            }
            let e = match v {
                Val::A(xs) => {
                    let w = from.elem(0).bits() as u16;
                    let mut acc: Option<E> = None;
                    for x in xs.iter() {
                        let e = self.e(x, w);
                        acc = Some(match acc {
                            None => e,
                            Some(a) => self.x.cat(e, a),
                        });
                    }
                    acc.unwrap()
                }
                v => self.e(v, total),
            };
            return Ok(if to.is_agg() {
                let et = to.elem(0);
                let w = et.bits() as u16;
                let n = to.count();
                Val::A(Rc::new(
                    (0..n)
                        .map(|i| {
                            let b = self.x.ext(e, i as u16 * w, w);
                            self.v(b)
                        })
                        .collect(),
                ))
            } else {
                self.v(e)
            });
        }
        match v {
            Val::A(xs) => {
                let (ft, tt) = (from.elem(0), to.elem(0));
                let mut out = vec![];
                for x in xs.iter() {
                    out.push(self.cast(k, &ft, &tt, x)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            Val::C(c) => {
                let (fw, tw) = (from.w(), to.w());
                let m = |v: u64| if tw < 64 { v & ((1u64 << tw) - 1) } else { v };
                let getf = |c: u64| if *from == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let putf = |f: f64| if *to == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                Ok(match k {
                    Cast::Trunc => Val::C(m(*c)),
                    Cast::ZExt => {
                        if tw > 64 {
                            Val::S(self.x.cst(tw, *c as u128))
                        } else {
                            Val::C(*c)
                        }
                    }
                    Cast::SExt => {
                        let s = sext128(*c as u128, fw);
                        if tw > 64 {
                            Val::S(self.x.cst(tw, s as u128))
                        } else {
                            Val::C(m(s as u64))
                        }
                    }
                    Cast::PtrInt => {
                        if tw > 64 {
                            Val::S(self.x.cst(tw, *c as u128))
                        } else {
                            Val::C(m(*c))
                        }
                    }
                    Cast::SiToFp => Val::C(putf(sext128(*c as u128, fw) as f64)),
                    Cast::UiToFp => Val::C(putf(*c as f64)),
                    Cast::FpToSi => Val::C(m(getf(*c) as i64 as u64)),
                    Cast::FpToUi => Val::C(m(getf(*c) as u64)),
                    Cast::FpExt | Cast::FpTrunc => Val::C(putf(getf(*c))),
                    Cast::Bit => unreachable!(),
                })
            }
            Val::S(e) => {
                let tw = to.w();
                let fw = self.x.w(*e);
                let r = match k {
                    Cast::Trunc => self.x.ext(*e, 0, tw),
                    Cast::ZExt => self.x.zext(*e, tw),
                    Cast::SExt => self.x.sext(*e, tw),
                    Cast::PtrInt => {
                        if tw > fw {
                            self.x.zext(*e, tw)
                        } else {
                            self.x.ext(*e, 0, tw)
                        }
                    }
                    _ => unsup!("symbolic floating point conversion"),
                };
                Ok(self.v(r))
            }
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.pop().unwrap();
        st.mem.pop_stack(cur as u32, fr.stack_mark);
        if st.threads[cur].frames.is_empty() {
            return self.thread_exit(st, v);
        }
        let fr = st.threads[cur].frames.last_mut().unwrap();
        let ins = &fr.f.blocks[fr.b as usize].ins[fr.ip as usize];
        if let Some(v) = v {
            if ins.dst != u32::MAX {
                fr.regs[ins.dst as usize] = v;
            }
        }
        self.advance(st)
    }

    fn thread_exit(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let cur = st.cur;
        // thread-local destructors, last registered first
        if cur != 0 {
            if let Some((f, a)) = st.threads[cur].dtors.pop() {
                if let Some(Val::C(r)) = v {
                    st.threads[cur].ret = r;
                }
                let id = self.fn_of(f).ok_or_else(|| Stop::Unsupported("tls destructor".into()))?;
                self.push_frame(st, id, vec![Val::C(a)]);
                return Ok(());
            }
        }
        if let Some(Val::C(r)) = v {
            if st.threads[cur].ret == 0 {
                st.threads[cur].ret = r;
            }
        }
        st.threads[cur].stat = TStat::Done;
        if cur == 0 {
            return Err(Stop::Done);
        }
        for t in st.threads.iter_mut() {
            if t.stat == TStat::Join(cur as u32) {
                t.stat = TStat::Run;
            }
        }
        self.schedule(st)
    }

    /// Picks the next runnable thread; explores every choice.
    pub fn schedule(&mut self, st: &mut State) -> R<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|&t| st.threads[t].stat == TStat::Run).collect();
        if run.is_empty() {
            // a timed wait may expire
            let timed: Vec<usize> = (0..st.threads.len()).filter(|&t| st.threads[t].timed && matches!(st.threads[t].stat, TStat::Futex(_))).collect();
            if let Some(&t) = timed.first() {
                self.wake(st, t, true)?;
                st.cur = t;
                return Ok(());
            }
            self.violation(&st.clone(), "deadlock", "every thread is blocked");
            return Err(Stop::Violated);
        }
        for &t in run.iter().skip(1) {
            let mut o = st.clone();
            o.cur = t;
            o.sched.push(t as u32);
            o.forks += 1;
            self.total_forks += 1;
            self.work.push(o);
        }
        st.cur = run[0];
        if run.len() > 1 {
            st.sched.push(run[0] as u32);
        }
        Ok(())
    }

    /// Completes the futex call thread `t` is blocked in.
    pub fn wake(&mut self, st: &mut State, t: usize, timeout: bool) -> R<()> {
        st.threads[t].stat = TStat::Run;
        st.threads[t].timed = false;
        let save = st.cur;
        st.cur = t;
        let (dst, r) = {
            let fr = st.threads[t].frames.last().unwrap();
            let ins = &fr.f.blocks[fr.b as usize].ins[fr.ip as usize];
            (ins.dst, if timeout { u64::MAX } else { 0 })
        };
        if timeout {
            let a = self.errno_addr(st);
            self.store(st, &Val::C(a), &Ty::I(32), &Val::C(110))?;
        }
        self.set(st, dst, Val::C(r));
        self.advance(st)?;
        st.cur = save;
        Ok(())
    }

    /// A preemption point (bounded).
    pub fn preempt(&mut self, st: &mut State) -> R<()> {
        if self.cfg.preempt_bound == 0 || st.threads.len() < 2 || st.preempts >= self.cfg.preempt_bound {
            return Ok(());
        }
        let cur = st.cur;
        for t in 0..st.threads.len() {
            if t != cur && st.threads[t].stat == TStat::Run {
                let mut o = st.clone();
                o.cur = t;
                o.preempts += 1;
                o.sched.push(t as u32 | 0x100);
                o.forks += 1;
                self.total_forks += 1;
                self.work.push(o);
            }
        }
        Ok(())
    }

    pub fn fn_of(&self, a: u64) -> Option<u32> {
        if a > ir::FUNC_BASE && a < Module::EXT_BASE && (a - ir::FUNC_BASE) % 16 == 0 {
            let i = (a - ir::FUNC_BASE) / 16 - 1;
            if (i as usize) < self.m.fns.len() {
                return Some(i as u32);
            }
        }
        None
    }

    fn call(&mut self, st: &mut State, ins: &'static Ins, callee: &'static Callee, args: &'static [(Ty, Op)], ret: &'static Ty) -> R<()> {
        let fr: &Frame = unsafe { &*(st.threads[st.cur].frames.last().unwrap() as *const Frame) };
        let mut vals = Vec::with_capacity(args.len());
        for (t, o) in args {
            vals.push(self.op(fr, o, t));
        }
        match callee {
            Callee::F(id) => {
                if st.threads[st.cur].frames.len() > 2000 {
                    return Err(Stop::Limit("call depth".into()));
                }
                self.push_frame(st, *id, vals);
                Ok(())
            }
            Callee::Ext(n) => {
                let name = self.m.exts[*n as usize].clone();
                let r = self.external(st, &name, &vals, args, ret)?;
                self.after_ext(st, ins, r)
            }
            Callee::Ind(o) => {
                let p = Self::op_any(fr, o);
                let a = self.concretize(st, &p)?;
                if let Some(id) = self.fn_of(a) {
                    let nm = self.m.fns[id as usize].name.clone();
                    if (self.m.intercept)(&nm) {
                        let r = self.external(st, &nm, &vals, args, ret)?;
                        return self.after_ext(st, ins, r);
                    }
                    self.push_frame(st, id, vals);
                    return Ok(());
                }
                if a > Module::EXT_BASE && a < Module::EXT_BASE + 16 * (self.m.exts.len() as u64 + 1) {
                    let n = (a - Module::EXT_BASE) / 16 - 1;
                    let name = self.m.exts[n as usize].clone();
                    let r = self.external(st, &name, &vals, args, ret)?;
                    return self.after_ext(st, ins, r);
                }
                self.violation(&st.clone(), "memory-safety", &format!("call through invalid pointer {a:#x}"));
                Err(Stop::Violated)
            }
            Callee::Asm(s) => {
                let r = if s.is_empty() {
                    // an optimization barrier; a value may pass through
                    vals.first().cloned()
                } else if s.contains("cpuid") {
                    // no optional CPU features
                    Some(Val::A(Rc::new(vec![Val::C(0); 4])))
                } else {
                    unsup!("inline asm {s}")
                };
                self.after_ext(st, ins, r.map(ExtRet::Val).unwrap_or(ExtRet::Void))
            }
        }
    }

    fn after_ext(&mut self, st: &mut State, ins: &'static Ins, r: ExtRet) -> R<()> {
        match r {
            ExtRet::Void => self.advance(st),
            ExtRet::Val(v) => {
                self.set(st, ins.dst, v);
                self.advance(st)
            }
            ExtRet::Blocked => self.schedule(st),
            ExtRet::Again => Ok(()),
        }
    }
}

pub enum ExtRet {
    Void,
    Val(Val),
    /// The thread blocked; its call completes when it is woken.
    Blocked,
    /// The external pushed a frame or otherwise manages control flow.
    Again,
}

/// One of the constants SipHash mixes its keys with.
fn sip_key(v: &Val) -> bool {
    matches!(v, Val::C(0x736f6d6570736575 | 0x646f72616e646f6d | 0x6c7967656e657261 | 0x7465646279746573))
}
